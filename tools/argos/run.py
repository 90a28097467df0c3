"""Runs scenarios on the driver and TLC on the specification."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .build import VERIF

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery failed; says nothing about the code."""


def scratch():
    return tempfile.mkdtemp(prefix="argos-verif-")


def _shards(items, n):
    n = max(1, min(n, len(items)))
    return [items[k::n] for k in range(n)]


def drive(exe, scenarios, workers=8):
    """Runs the scenarios; returns the list of records for each of them."""
    result = [None] * len(scenarios)

    def one(indices):
        d = scratch()
        try:
            sp, rp = os.path.join(d, "s"), os.path.join(d, "r")
            with open(sp, "w") as f:
                for k in indices:
                    f.write(json.dumps(scenarios[k], ensure_ascii=False) + "\n")
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:log_path=" + os.path.join(d, "asan")
            env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=99:log_path=" + os.path.join(d, "asan")
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:log_path=" + os.path.join(d, "tsan")
            env.pop("COLUMNS", None)
            r = subprocess.run([exe, sp, rp, d], env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=800)
            if r.returncode:
                raise CheckError("driver failed: %d" % r.returncode)
            recs = [[] for _ in indices]
            with open(rp, encoding="utf-8", newline="\n") as f:
                for line in f.read().split("\n"):
                    if line:
                        e = json.loads(line)
                        recs[e["i"]].append(e["rec"])
            for pos, k in enumerate(indices):
                result[k] = recs[pos]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    shards = _shards(list(range(len(scenarios))), workers)
    with ThreadPoolExecutor(len(shards)) as ex:
        list(ex.map(one, shards))
    return result


def _tlc(module, cfg, workdir, env, timeout, args=(), heap="2500m", jvm=()):
    e = dict(os.environ)
    e.update(env)
    cmd = ["timeout", str(timeout), "java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC",
           "-Djava.io.tmpdir=" + workdir,
           "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           ] + list(jvm) + ["-cp", JARS, "tlc2.TLC", "-workers", "1", "-metadir", os.path.join(workdir, "meta"),
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def _unquote(line):
    """A string that TLC printed."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.actions = {}

    def add(self, out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        for m in re.finditer(r"^<(\w+) line .*>: (\d+):(\d+)", out, re.M):
            self.actions[m.group(1)] = self.actions.get(m.group(1), 0) + int(m.group(3))


def _escape(obj):
    return json.dumps(obj, ensure_ascii=False)


def validate(scenarios, stats, workers=8, module="ArgosTrace", timeout=780, coverage=False):
    """Checks recorded scenarios against the specification.

    Returns {index: rejection} for those that are not behaviours of it.
    """
    rejects = {}

    def one(indices):
        d = scratch()
        try:
            path = os.path.join(d, "traces.json")
            with open(path, "w", encoding="utf-8") as f:
                f.write(_escape([scenarios[k] for k in indices]))
            code, out = _tlc(module + ".tla", module + ".cfg", d, {"TRACES": path}, timeout,
                             ["-coverage", "1"] if coverage else [])
            found = {}
            accepted = None
            for line in out.splitlines():
                t = _unquote(line)
                if t.startswith("REJECT "):
                    e = json.loads(t[7:])
                    found[indices[e["i"] - 1]] = e
                m = re.match(r"ACCEPTED (\d+) OF (\d+)", t)
                if m:
                    accepted = int(m.group(1))
            if code != 0 or accepted is None or accepted + len(found) != len(indices):
                raise CheckError("TLC failed on %s (%d, %s+%d of %d):\n%s" % (
                    module, code, accepted, len(found), len(indices), out[-3000:]))
            stats.add(out)
            rejects.update(found)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    shards = _shards(list(range(len(scenarios))), workers)
    with ThreadPoolExecutor(len(shards)) as ex:
        list(ex.map(one, shards))
    return rejects


def scenario_key(sc):
    s = {k: v for k, v in sc.items() if k != "recs"}
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]
