"""Explores the specification exhaustively and replays its behaviours on the code."""
import copy
import json
import os
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

from . import run
from .families import size


def shard(families, n=8):
    """Splits families by the first word; returns n lists of similar size."""
    tasks = []
    for k, fam in enumerate(families):
        tasks.append((1, k, [], 0))
        if fam["max"] == 0:
            continue
        for a in fam["alphabet"] if "where" in fam else range(1, len(fam["alphabet"]) + 1):
            tasks.append((size(dict(fam, max=fam["max"] - 1)) * fam.get("weight", 1), k, [a], fam["max"]))
    tasks.sort(key=lambda t: -t[0])
    shards = [[0, []] for _ in range(n)]
    for t in tasks:
        best = min(shards, key=lambda s: s[0])
        best[0] += t[0]
        best[1].append(t)
    out = []
    for _, ts in shards:
        if ts:
            out.append([(k, dict(families[k], start=start, max=m)) for _, k, start, m in ts])
    return out


def explore(tasks, stats, timeout=840):
    """The behaviours of the families: a list of (family index, what was chosen, expected records)."""
    module = "ArgosMC" if "where" in tasks[0][1] else "ArgosLifeMC"
    d = run.scratch()
    try:
        path = os.path.join(d, "families.json")
        with open(path, "w", encoding="utf-8") as f:
            f.write(run._escape([t for _, t in tasks]))
        empty = os.path.join(d, "traces.json")
        with open(empty, "w") as f:
            f.write("[]")
        code, out = run._tlc(module + ".tla", module + ".cfg", d, {"FAMILIES": path, "TRACES": empty}, timeout,
                             heap="2800m", jvm=["-Dtlc2.tool.queue.IStateQueue=StateDeque"])
        result = []
        rest = []
        for line in out.splitlines():
            if line.startswith('"B '):
                e = json.loads(run._unquote(line)[2:])
                result.append((tasks[e["f"] - 1][0], e["x"], e["log"]))
            else:
                rest.append(line)
        if code != 0 or "Model checking completed. No error has been found." not in out:
            text = "\n".join(rest)
            where = max(text.find("Error:"), 0)
            raise run.CheckError("TLC failed on %s (%d):\n%s\n...\n%s" % (
                module, code, text[where:where + 1500], text[-6000:]))
        stats.add("\n".join(rest))
        return result
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shards_of(families, workers=8, limit=7000):
    """Parts of the exploration, as arguments for explore; the parts differ in kind or in the first choice."""
    result = []
    for kind in (True, False):
        group = [k for k in range(len(families)) if ("where" in families[k]) == kind]
        total = sum(size(families[k]) for k in group)
        for part in shard([families[k] for k in group], workers * max(1, -(-total // (workers * limit)))):
            result.append([(group[k], fam) for k, fam in part])
    return result


def scenario(fam, x):
    if "where" not in fam:
        return dict(life=fam["pre"] + [fam["alphabet"][i - 1] for i in x] + fam["post"])
    D = copy.deepcopy(fam["D"])
    words = list(fam["pre"])
    if fam["where"] == "words":
        words += x + fam["post"]
    elif fam["where"] == "glue":
        words[-1] += "".join(x)
        words += fam["post"]
    elif fam["where"] == "text":
        D["cmds"][0]["texts"][0][1] = "".join(x)
    elif fam["where"] == "opts":
        D["cmds"][0]["opts"] = [D["cmds"][0]["opts"][i - 1] for i in x]
    if fam["mode"] == "help":
        return dict(D=D, segs=[dict(op="help", path=words)])
    sc = dict(D=D, segs=[dict(op="run", mode=fam["mode"], entry=fam.get("entry", "vec"), argv0="prog", words=words,
                              konst=fam["konst"], qs=fam["qs"])])
    if D["autoexit"]:
        sc["fork"] = True
    return sc


def differs(recs, log):
    """The first difference between what the code did and what the specification says."""
    for n in range(max(len(recs), len(log))):
        if n >= len(recs):
            return dict(l=n, why="missing", rec=None, exp=log[n])
        if n >= len(log):
            return dict(l=n, why="surplus", rec=recs[n], exp=None)
        rec, exp = recs[n], log[n]
        if rec["k"] != exp["k"] or any(f not in exp or rec[f] != exp[f] for f in rec):
            return dict(l=n, why="differs", rec=rec, exp=exp)
    return None


def each_shard(families, stats, use, workers=8):
    """Calls use(behaviours) for the behaviours of every part of the exploration."""
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(lambda p=part: use(explore(p, stats))) for part in shards_of(families, workers)]:
            f.result()


def check(res, exe, families, mask, name, summarize, max_violations=5):
    """Explores the specification and replays its behaviours on the code; exe is the future of the driver."""
    if not families:
        return
    t = time.time()
    found = []
    count = dict(behaviours=0, records=0)

    def run_masked(scs):
        recs = run.drive(exe.result(), scs, 1)
        if mask:
            for r in recs:
                for y in r:
                    mask(y)
        return recs

    def use(some):
        scs = [scenario(families[k], x) for k, x, _ in some]
        recs = run_masked(scs)
        for sc, r, (_, _, log) in zip(scs, recs, some):
            count["records"] += len(r)
            if differs(r, log):
                found.append((sc, log))
        count["behaviours"] += len(scs)
        if scs and len(res.samples) < 4:
            res.samples.append(dict(scs[len(scs) // 2], records=len(recs[len(scs) // 2])))

    each_shard(families, res.stats, use)
    res.traces += count["behaviours"]
    res.replayed += count["behaviours"]
    res.parts[name] = dict(families=len(families), s=round(time.time() - t, 1), **count)
    confirmed = 0
    found.sort(key=lambda e: len(str(e[0])))
    for sc, log in found[:200]:
        d = differs(run_masked([sc])[0], log)
        if d:
            confirmed += 1
            res.violations.append(dict(key=run.scenario_key(sc), part=name, scenario=sc, rejection=d, expected=log,
                                       summary=summarize(sc, d)))
            if confirmed == max_violations:
                break
    if found and not confirmed:
        # Perhaps it depends on what the process did before.
        some = [e for e in found[:40] for _ in range(2)]
        once, again = run_masked([sc for sc, _ in some]), run_masked([sc for sc, _ in some])
        for k, (sc, log) in enumerate(some):
            d = differs(once[k], log)
            if d and once[k] == again[k]:
                d["why"] += " (depends on earlier parses in the same process)"
                res.violations.append(dict(key=run.scenario_key(sc), part=name, rejection=d, expected=log,
                                           scenario=dict(history=[s for s, _ in some[:k + 1]]), summary=summarize(sc, d)))
                break
        else:
            raise run.CheckError("differences could not be repeated")
