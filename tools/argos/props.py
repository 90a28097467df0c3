"""What is explored for each property."""
from . import gen
from .gen import profile, parse_scenario, gen_def, gen_words, run_seg

PARTS = {}


def argv_words(sc):
    """The words of argv, which filter_parsed_arguments works on, can't have NUL bytes in them."""
    for seg in sc.get("segs", []):
        if any("\0" in w for w in seg.get("words", [])) and "qs" in seg:
            seg["qs"] = [q for q in seg["qs"] if q["q"] != "filter"]
    return sc


def part(prop, name, quick, thorough, mask=None, module="ArgosTrace"):
    """Registers a scenario generator f(rng) for a property."""
    def deco(f):
        PARTS.setdefault(prop, []).append(dict(name=name, quick=quick, thorough=thorough,
                                               gen=lambda rng: argv_words(f(rng)), mask=mask, module=module))
        return f
    return deco


def no_text(rec):
    """The texts that are written are the subject of other properties."""
    for f in ("st", "out", "err"):
        rec.pop(f, None)


# ------------------------------------------------------------------- C01
P01 = profile(cb=0, gcb=0, subs=.25, nargs=(0, 2), igo=.3, iga=.5, counts=[((0, gen.INF), 4), ((1, 1), 2), ((0, 1), 2)],
              garbage=.12, styles=[("STANDARD", 5), ("SLASH", 2), ("DASH", 2)], takes=.7, alias=.05, init=.03,
              mandatory=.02)
part("C01", "words", 7000, 60000, no_text)(lambda rng: parse_scenario(rng, P01))

# ------------------------------------------------------------------- C02
P02 = profile(abbrev=.7, ci=.45, nopts=(3, 8), nargs=(0, 1), subs=.15, unknown=.2, igo=.3, iga=.5, nwords=(1, 6),
              types=[("NORMAL", 1)], ops=[("ASSIGN", 5), ("APPEND", 3)], alias=0, init=0, mandatory=0,
              styles=[("STANDARD", 3), ("SLASH", 2), ("DASH", 2)])
part("C02", "flags", 7000, 60000, no_text)(lambda rng: parse_scenario(rng, P02))

# ------------------------------------------------------------------- C03
P03 = profile(alias=.5, init=.4, nopts=(2, 6), ops=[("ASSIGN", 4), ("APPEND", 5), ("CLEAR", 3), ("NONE", 1)],
              types=[("NORMAL", 1)], mandatory=.03, iga=.5, garbage=.01, unknown=.01, nwords=(3, 10), subs=.25,
              counts=[((0, gen.INF), 4), ((0, 2), 2), ((1, 1), 1)], cb=.15, gcb=.1, inserts=False)
part("C03", "values", 7000, 60000, no_text)(lambda rng: parse_scenario(rng, P03))

# ------------------------------------------------------------------- C04
P04 = profile(nargs=(1, 4), nopts=(0, 2), subs=.1, nwords=(0, 9), wordbias=4, iga=.3, unknown=.02, garbage=.02,
              types=[("NORMAL", 6), ("STOP", .6), ("LAST_ARGUMENT", 1), ("LAST_OPTION", 1.5)], alias=.02, init=.02)
part("C04", "counts", 7000, 60000, no_text)(lambda rng: parse_scenario(rng, P04))

# ------------------------------------------------------------------- C05
P05 = profile(nopts=(1, 5), types=[("NORMAL", 2), ("HELP", 1), ("STOP", 1.5), ("EXIT", 1), ("LAST_ARGUMENT", 2),
                                   ("LAST_OPTION", 2)], subs=.4, multi=.7, nwords=(1, 9), mandatory=.2, genhelp=.4,
              version=.2, alias=.05)
part("C05", "endings", 7000, 60000, no_text)(lambda rng: parse_scenario(rng, P05))

# ------------------------------------------------------------------- C06
P06 = profile(mandatory=.35, subs=.35, unknown=.08, garbage=.06, nwords=(0, 7), hidden=1,
              types=[("NORMAL", 12), ("STOP", .5), ("LAST_ARGUMENT", .7), ("LAST_OPTION", .5)])
part("C06", "results", 7000, 60000)(lambda rng: parse_scenario(rng, P06))

# ------------------------------------------------------------------- C07
P07 = profile(subs=.9, depth=3, multi=.65, nwords=(1, 11), nargs=(0, 2), nopts=(0, 2), mandatory=.04, igo=.1,
              counts=[((1, 1), 3), ((0, 1), 2), ((0, gen.INF), 2), ((1, 2), 2), ((2, 2), 1)],
              types=[("NORMAL", 8), ("LAST_ARGUMENT", 1), ("LAST_OPTION", 1)], ci=.25)
part("C07", "commands", 6000, 60000, no_text)(lambda rng: parse_scenario(rng, P07))

# ------------------------------------------------------------------- C08
P08 = profile(cb=.5, gcb=.5, nwords=(1, 7), subs=.25, alias=.15)
part("C08", "callbacks", 6000, 50000, no_text)(lambda rng: parse_scenario(rng, P08))


# ------------------------------------------------------------------- C09
P09 = profile(igo=.6, iga=.6, unknown=.25, garbage=.15, nwords=(1, 9), nopts=(0, 3), subs=.4, multi=.6, cb=.08,
              types=[("NORMAL", 10), ("STOP", 1.5), ("LAST_ARGUMENT", 1), ("LAST_OPTION", 1), ("HELP", .5)],
              mandatory=.05, modes=[("iter", 1), ("parse", 3)])
part("C09", "unprocessed", 6500, 50000, no_text)(
    lambda rng: gen.query_scenario(rng, P09, [("filter", 6), ("values", 1)], (1, 3)))

# ------------------------------------------------------------------- C10
P10 = profile(hidden=.4, cb=.15, gcb=.15, version=.35, genhelp=.6, nwords=(0, 6), nopts=(0, 3), subs=.35, width=60)
part("C10", "ways", 3000, 25000)(lambda rng: gen.ways_scenario(rng, P10))

# ------------------------------------------------------------------- C11
P11 = profile(depth=3, subs=.5, nopts=(0, 3), nwords=(0, 2), styles=[("STANDARD", 3), ("SLASH", 1), ("DASH", 1.5)], ci=.4)
part("C11", "definitions", 8000, 60000, no_text)(lambda rng: gen.definition_scenario(rng, P11))

# ------------------------------------------------------------------- C12
part("C12", "life", 2200, 25000, module="ArgosLife")(gen.life_scenario)

# ------------------------------------------------------------------- C13
P13 = profile(alias=.4, nopts=(1, 4), autoexit=.1, subs=0, nargs=(1, 2), modes=[("iter", 1), ("parse", 4)])
part("C13", "numbers", 4000, 40000)(lambda rng: gen.number_scenario(rng, P13))

# ------------------------------------------------------------------- C14
P14 = profile(alias=.35, nopts=(1, 4), autoexit=.1, subs=.15, nargs=(1, 3), modes=[("iter", 1), ("parse", 4)],
              types=[("NORMAL", 1)], ops=[("ASSIGN", 3), ("APPEND", 4)], igo=.6, iga=.6, init=.3, mandatory=.02,
              counts=[((0, gen.INF), 4), ((1, 1), 2)])
part("C14", "splitting", 5000, 40000)(lambda rng: gen.split_scenario(rng, P14))

# ------------------------------------------------------------------- C15
P15 = profile(hidden=.15, usage=.8, subs=.5, depth=3, nopts=(0, 4), nargs=(0, 3), genhelp=.5, version=.3, takes=.7,
              types=[("NORMAL", 6), ("HELP", 1), ("STOP", 1), ("EXIT", 1), ("LAST_ARGUMENT", .5), ("LAST_OPTION", .5)],
              mandatory=.25, nwords=(0, 4), cb=.05)
part("C15", "help", 1500, 14000)(lambda rng: gen.help_scenario(rng, P15))

# ------------------------------------------------------------------- C16
P16 = profile(hidden=.3, subs=0, nopts=(0, 2), nargs=(0, 2), usage=1)
part("C16", "layout", 1000, 12000)(lambda rng: gen.layout_scenario(rng, P16))
P16B = profile(hidden=.1, usage=1, subs=.4, nopts=(0, 4), nargs=(0, 3), genhelp=.5, takes=.7)
part("C16", "narrow", 400, 4000)(
    lambda rng: gen.help_scenario(rng, P16B, .4, .6, [40, 30, 25, 20, 15, 12, 9, 7], True, .6, .3))

# ------------------------------------------------------------------- C17
P17 = profile(autoexit=.6, stream=.45, genhelp=.6, version=.4, hidden=.4, usage=.6, width=80, cb=.15, gcb=.1, errors=.3,
              mandatory=.15, nwords=(0, 6), nopts=(0, 3), nargs=(0, 2), subs=.35, inserts=False,
              types=[("NORMAL", 6), ("HELP", 1.5), ("STOP", 1), ("EXIT", 1.5), ("LAST_ARGUMENT", 1), ("LAST_OPTION", .5)])
part("C17", "endings", 3000, 25000)(lambda rng: gen.ending_scenario(rng, P17))

# ------------------------------------------------------------------- C18
P18 = profile(alias=.5, hidden=.3, nopts=(0, 5), subs=.35, types=[("NORMAL", 8), ("STOP", 1), ("LAST_OPTION", 1)],
              modes=[("iter", 1), ("parse", 3)], init=.25, iga=.4)


def errors_only(rec):
    """What is printed is the result of asking."""
    if not (rec.get("k") == "Q" and rec.get("t") == "ok"):
        no_text(rec)


K18 = [("has", 4), ("value", 4), ("values", 5), ("print", 1.5), ("describe", 1.5)]
part("C18", "reading", 3500, 30000, errors_only)(lambda rng: gen.query_scenario(rng, P18, K18, (2, 8)))
part("C18", "shared", 1500, 10000, errors_only)(lambda rng: gen.shared_scenario(rng, P18, K18, (2, 8)))

# ------------------------------------------------------------------- C19
P19 = profile(alias=.4, hidden=.5, autoexit=.3, cb=.15, gcb=.1, subs=.5, depth=3, nopts=(1, 4), nargs=(0, 2), width=60,
              igo=.4, iga=.6, init=.2, stream=.6, errors=.5, mandatory=.03, usage=.4)
K19 = [("error", 2), ("value", 4), ("values", 5)]
part("C19", "reports", 3500, 30000)(lambda rng: gen.query_scenario(rng, P19, K19, (1, 5)))
part("C19", "shared", 2000, 15000)(lambda rng: gen.shared_scenario(rng, P19, K19, (1, 4)))


# ------------------------------------------------------------------- size
def large(prop, p, quick=250, thorough=2500, kinds=None):
    part(prop, "large", quick, thorough, PARTS[prop][0]["mask"])(lambda rng: gen.large_scenario(rng, p, kinds))


for _prop, _p in [("C01", P01), ("C02", P02), ("C03", P03), ("C04", P04), ("C05", P05), ("C06", P06), ("C07", P07)]:
    large(_prop, _p)
large("C08", P08, 200, 2000)
large("C09", P09, 200, 2000, [("filter", 6), ("values", 1)])
large("C14", P14, 100, 1000, [("value", 4), ("values", 5)])
large("C18", P18, 200, 2000, K18)
large("C19", P19, 150, 1500, K19)
for _prop, _p in [("C15", P15), ("C17", P17)]:
    part(_prop, "large", 80, 800)(lambda rng, p=_p: gen.help_scenario(rng, gen.large(rng, p), .1, .1, [80, 60, 40, 100, 30]))


part("C10", "large", 120, 1200)(lambda rng: gen.ways_scenario(rng, dict(gen.large(rng, P10), nwords=(8, 25))))
part("C11", "large", 250, 2500, no_text)(lambda rng: gen.definition_scenario(rng, dict(gen.large(rng, P11), nwords=(0, 6))))


# ----------------------------------------------------------------- sessions
# Several parses at the same time, results that are read while they go on
def session(prop, p, quick, thorough, ask=None, mask=None, **kw):
    p = dict(p, **kw)
    part(prop, "sessions", quick, thorough, mask or PARTS[prop][0]["mask"], "ArgosLife")(
        lambda rng: gen.session_scenario(rng, p, ask))


session("C03", P03, 600, 6000, [("has", 1), ("value", 1), ("values", 3)])
session("C08", P08, 600, 6000)
session("C10", P10, 1200, 12000, nwords=(2, 9), igo=.3, iga=.5)
session("C12", P10, 700, 7000, nwords=(2, 9), iga=.5)
session("C18", P18, 600, 6000, K18)
session("C19", P19, 600, 6000, K19)


def threads(prop, p, quick, thorough, ask=None, mask=None, **kw):
    p = dict(p, **kw)
    part(prop, "threads", quick, thorough, mask or PARTS[prop][0]["mask"], "ArgosLife")(
        lambda rng: gen.threads_scenario(rng, p, ask))


threads("C10", P10, 200, 2500, nwords=(2, 9), igo=.3, iga=.5)
threads("C12", dict(P10, subs=.6), 400, 4000, nwords=(2, 9), iga=.5)
threads("C18", P18, 200, 2500, K18)

# ------------------------------------------------------------------- C20
def any_scenario(rng):
    """Anything that the other properties are checked with."""
    return rng.choice([p for k in PARTS if k != "C20" for p in PARTS[k] if p["module"] == "ArgosTrace"])["gen"](rng)


part("C20", "both forms", 2500, 25000)(any_scenario)
part("C20", "objects", 500, 5000, module="ArgosLife")(gen.life_scenario)
part("C20", "sessions", 500, 5000, module="ArgosLife")(lambda rng: gen.session_scenario(rng, rng.choice([P08, P10, P18, P19])))


# ================================================================ running
import random   # noqa: E402
import sys      # noqa: E402
from concurrent.futures import ThreadPoolExecutor      # noqa: E402
import time     # noqa: E402

from . import build, families, mc, run    # noqa: E402


class Result:
    def __init__(self):
        self.stats = run.Stats()
        self.violations = []
        self.traces = 0
        self.replayed = 0
        self.parts = {}
        self.samples = []
        self.assumptions = [
            "g++ 13, libstdc++, glibc and the sanitizers behave as specified",
            "TLC evaluates the specification correctly",
            "the test driver uses only the public interface and reports what it sees"]

    def coverage(self):
        return dict(states=self.stats.states, transitions=self.stats.transitions,
                    traces_validated_against_impl=self.traces, behaviours_replayed_on_impl=self.replayed,
                    samples=self.samples[:4], parts=self.parts)


def summarize(sc, rej):
    seg = None
    if sc.get("segs"):
        seg = sc["segs"][0]
    text = "step %s %s" % (rej.get("l"), rej.get("why"))
    rec, exp = rej.get("rec"), rej.get("exp")
    if isinstance(rec, dict) and isinstance(exp, dict):
        for f in rec:
            if rec[f] != exp.get(f):
                text += "; %s: code %s, specification %s" % (f, str(rec[f])[:200], str(exp.get(f))[:200])
                break
    return "%s; words %s" % (text, seg.get("words") if seg else None)


def bare(sc):
    return {f: v for f, v in sc.items() if f != "recs"}


def recorded(sc, recs, mask):
    if mask:
        for x in recs:
            mask(x)
    return dict(bare(sc), recs=recs)


def confirm(exe, scs, mask, module, enough=5):
    """Those of the scenarios that are rejected when they run in a process of their own."""
    # Every scenario gets a child of a process that does nothing else.
    alone = run.drive(exe, [dict(bare(sc), fork=True) for sc in scs])
    likely = run.validate([recorded(sc, r, mask) for sc, r in zip(scs, alone)], run.Stats(), module=module)
    found = []
    for k in sorted(likely):
        sc = recorded(scs[k], run.drive(exe, [bare(scs[k])], 1)[0], mask)
        r = run.validate([sc], run.Stats(), workers=1, module=module)
        if r:
            found.append((sc, r[0]))
            if len(found) == enough:
                break
    return found


def check_scenarios(res, exe, scs, mask, name, module="ArgosTrace"):
    """Runs the scenarios on the code and validates the records."""
    recs = run.drive(exe, scs)
    for sc, r in zip(scs, recs):
        if mask:
            for x in r:
                mask(x)
        sc["recs"] = r
    t = time.time()
    rejected = run.validate(scs, res.stats, module=module)
    res.traces += len(scs)
    res.parts[name] = dict(scenarios=len(scs), records=sum(len(r) for r in recs), tlc_s=round(time.time() - t, 1))
    confirmed = confirm(exe, [scs[k] for k in sorted(rejected)[:200]], mask, module) if rejected else []
    if rejected and not confirmed:
        # What depends on what the process did before happens again if everything is done again.
        again = run.drive(exe, [bare(sc) for sc in scs])
        some = sorted(rejected)[:50]
        rerun = [recorded(scs[k], again[k], mask) for k in some]
        confirmed = [(rerun[k], dict(rej, why=rej["why"] + " (depends on earlier parses in the same process)"))
                     for k, rej in sorted(run.validate(rerun, run.Stats(), module=module).items())][:5]
        if not confirmed:
            raise run.CheckError("rejections could not be repeated")
    for sc, rej in confirmed:
        res.violations.append(dict(key=run.scenario_key(sc), part=name, scenario=sc, rejection=rej,
                                   summary=summarize(sc, rej)))
    if scs:
        res.samples.append({k: scs[0][k] for k in scs[0] if k != "recs"} | {"records": len(scs[0]["recs"])})


def check_small_forms(res, tier):
    """Replays behaviours of all properties on both forms."""
    fams = [dict(f, max=min(f["max"], 3 if tier == "thorough" else 2)) for p in PARTS for f in families.families(p, "quick")]
    behaviours = []
    with ThreadPoolExecutor(2) as ex:
        lib = ex.submit(build.build)
        single = ex.submit(build.build, build.SINGLE)
        mc.each_shard(fams, res.stats, lambda some: behaviours.extend(some[::1 if tier == "thorough" else 3]))
        lib = lib.result()
        try:
            single = single.result()
        except build.BuildError:
            return
    scs = [mc.scenario(fams[k], x) for k, x, _ in behaviours]
    a, b = run.drive(lib, scs), run.drive(single, scs)
    res.traces += len(scs)
    res.replayed += len(scs)
    bad = [k for k in range(len(scs)) if a[k] != b[k]]
    res.parts["small inputs"] = dict(families=len(fams), behaviours=len(scs), differing=len(bad),
                                     rejected_by_specification=sum(mc.differs(r, e[2]) is not None
                                                                   for r, e in zip(b, behaviours)))
    for k in bad[:5]:
        if run.drive(lib, [scs[k]], 1)[0] != run.drive(single, [scs[k]], 1)[0]:
            d = mc.differs(b[k], behaviours[k][2])
            text = "single_src deviates: " + summarize(scs[k], d) if d else "the library deviates from single_src"
            res.violations.append(dict(key=run.scenario_key(scs[k]), part="small inputs", scenario=scs[k], rejection=text,
                                       summary=text))


def check_forms(res, scs, name, module):
    """Runs the scenarios on the library and on the single-file forms.

    The records of the committed single-file form are validated against the
    specification; a violation is a scenario where the forms disagree, and the
    specification tells which of them is wrong.
    """
    with ThreadPoolExecutor(3) as ex:
        lib = ex.submit(build.build)
        single = ex.submit(build.build, build.SINGLE)
        merged = ex.submit(merged_form)
        lib = lib.result()
        merged = merged.result()
        try:
            single = single.result()
        except build.BuildError as e:
            res.violations.append(dict(key="build", part=name, scenario={}, rejection=str(e)[-2000:],
                                       summary="single_src cannot be built"))
            return
    forms = [("single_src", single)] + ([("merged", merged)] if merged else [])
    # A definition never exits or crashes here without the forms doing the same.
    recs = run.drive(lib, scs)
    for form, exe in forms:
        other = run.drive(exe, scs)
        bad = [k for k in range(len(scs)) if other[k] != recs[k]]
        if form == "single_src":
            for sc, r in zip(scs, other):
                sc["recs"] = r
            rejected = run.validate(scs, res.stats, module=module)
            res.traces += len(scs)
            res.parts[name] = dict(scenarios=len(scs), records=sum(len(r) for r in other),
                                   rejected_by_specification=len(rejected))
        res.parts[form] = dict(scenarios=len(scs), differing=len(bad))
        for k in bad[:20]:
            sc = {f: v for f, v in scs[k].items() if f != "recs"}
            a, b = run.drive(lib, [sc], 1)[0], run.drive(exe, [sc], 1)[0]
            if a != b:
                n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                which = "not determined"
                if form == "single_src":
                    which = "%s deviates from the specification" % (form if k in rejected else "the library")
                text = "record %d: library %s, %s %s; %s" % (n, str(a[n:n + 1])[:250], form, str(b[n:n + 1])[:250], which)
                res.violations.append(dict(key=run.scenario_key(sc), part=name, scenario=sc, rejection=text, summary=text))
                if len(res.violations) >= 5:
                    break
        if res.violations:
            return
    res.samples.append({k: scs[0][k] for k in scs[0] if k != "recs"} | {"records": len(scs[0]["recs"])})


def merged_form():
    """The driver built from what the merge tool makes of the sources, None if that is single_src."""
    try:
        d = build.regenerate()
        return build.build(d) if d else None
    except build.BuildError:
        return None


def explore_small(res, prop, tier):
    """Explores the specification for small inputs and replays its behaviours; returns the driver."""
    with ThreadPoolExecutor(1) as ex:
        exe = ex.submit(build.build)
        if any(p["name"] == "threads" for p in PARTS[prop]):
            ex.submit(build.build_threads)
        mc.check(res, exe, families.families(prop, tier), MASKS.get(prop), "small inputs", summarize)
        return exe.result()


# What the behaviours of a property say about other properties
MASKS = {prop: PARTS[prop][0]["mask"] for prop in PARTS}


def run_property(prop, tier, seed, scale=1.0):
    res = Result()
    if prop == "C20":
        check_small_forms(res, tier)
        if res.violations:
            return res
        for p in PARTS[prop]:
            rng = random.Random("%s/%s/%d" % (prop, p["name"], seed))
            left = max(1, int(p["thorough" if tier == "thorough" else "quick"] * scale))
            while left > 0 and not res.violations:
                check_forms(res, [p["gen"](rng) for _ in range(min(left, 5000))], "%s (%d left)" % (p["name"], left),
                            p["module"])
                left -= 5000
        return res
    exe = explore_small(res, prop, tier)
    if res.violations:
        return res
    for n, p in enumerate(PARTS[prop]):
        rng = random.Random("%s/%s/%d" % (prop, p["name"], seed))
        count = max(1, int(p["thorough" if tier == "thorough" else "quick"] * scale))
        done = 0
        while done < count and not res.violations:
            m = min(count - done, 10000)
            check_scenarios(res, build.build_threads() if p["name"] == "threads" else exe, [p["gen"](rng) for _ in range(m)], p["mask"],
                            p["name"] + ("" if done == 0 else "+%d" % done), p["module"])
            done += m
        if res.violations:
            break
    return res

CLAIMED = sorted(PARTS)
