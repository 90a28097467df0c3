"""Builds the test driver from the current sources in /repo."""
import glob
import hashlib
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("ARGOS_REPO", "/repo")
BUILD = os.environ.get("ARGOS_VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
LIB_FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined"]
DRIVER_FLAGS = ["-std=c++20", "-O0", "-w", "-fsanitize=address"]
# For scenarios with threads
THREAD_LIB_FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=thread"]
THREAD_DRIVER_FLAGS = ["-std=c++20", "-O0", "-w", "-fsanitize=thread"]


class BuildError(Exception):
    pass


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def _version_header(directory):
    """ArgosVersion.hpp is made from a template by CMake."""
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", f.read())
    version = m.groups() if m else ("0", "0", "0")
    with open(os.path.join(REPO, "src/Argos/ArgosVersion.hpp.in")) as f:
        text = f.read()
    for name, v in zip(("MAJOR", "MINOR", "PATCH"), version):
        text = re.sub(r"@[A-Za-z_]*VERSION_" + name + "@", v, text)
    text = re.sub(r"@[A-Za-z_]*VERSION@", ".".join(version), text)
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "ArgosVersion.hpp")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


SINGLE = os.path.join(REPO, "single_src/Argos")


def regenerate():
    """Merges the current sources; returns the directory, None if that yields what is in single_src."""
    d = os.path.join(BUILD, "merged")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    _version_header(gen)
    tool = [sys.executable, os.path.join(REPO, "tools/make_single_src/mergecpp.py")]
    _run(tool + [os.path.join(gen, "ArgosVersion.hpp"), "include/Argos/Argos.hpp", "-i", gen, "-i", "include",
                 "-o", os.path.join(d, "Argos.hpp")], cwd=REPO)
    _run(tool + sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, "src/Argos/*.cpp")))
         + ["-i", "include", "-i", gen, "-f", "include", "-f", gen, "--no-pragma-once",
            "-p", '#include "Argos.hpp"\n', "-o", os.path.join(d, "Argos.cpp")], cwd=REPO)
    same = all(open(os.path.join(d, f)).read() == open(os.path.join(SINGLE, f)).read()
               for f in ("Argos.hpp", "Argos.cpp"))
    return None if same else d


def build_threads():
    """Returns the driver for scenarios with threads, which reports data races if that is possible here."""
    exe = build(thread=True)
    with tempfile.TemporaryDirectory(prefix="argos-verif-") as d:
        empty = os.path.join(d, "s")
        open(empty, "w").close()
        r = subprocess.run([exe, empty, os.path.join(d, "r"), d], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
    return exe if r.returncode == 0 else build()


def build(single=None, thread=False):
    """Returns the path of the driver built from the library (or the single-file form in a directory)."""
    """Returns the path of the driver built from the library (or the single-file form in a directory)."""
    lib_flags = THREAD_LIB_FLAGS if thread else LIB_FLAGS
    driver_flags = THREAD_DRIVER_FLAGS if thread else DRIVER_FLAGS
    os.makedirs(BUILD, exist_ok=True)
    harness = glob.glob(os.path.join(VERIF, "harness", "*.[ch]pp"))
    if single:
        sources = [os.path.join(single, "Argos.cpp")]
        headers = [os.path.join(single, "Argos.hpp")]
        incs = ["-I" + single, "-DARGOS_SINGLE_SRC"]
    else:
        sources = sorted(glob.glob(os.path.join(REPO, "src/Argos/*.cpp")))
        headers = (glob.glob(os.path.join(REPO, "src/Argos/*.hpp"))
                   + glob.glob(os.path.join(REPO, "src/Argos/*.in"))
                   + glob.glob(os.path.join(REPO, "include/Argos/*.hpp")))
        gen = os.path.join(BUILD, "gen")
        _version_header(gen)
        incs = ["-I" + os.path.join(REPO, "include"), "-I" + gen]
    flags = " ".join(lib_flags + driver_flags + incs)
    whole = _digest(sources + headers + harness, flags)
    exe = os.path.join(BUILD, ("single-" if single else "threads-" if thread else "lib-") + whole)
    if os.path.exists(exe):
        return exe
    base = _digest(headers, flags)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    objs = []
    hd = _digest(headers + harness, flags)
    dobj = os.path.join(objdir, "driver-" + hd + ".o")
    objs.append(dobj)
    if not os.path.exists(dobj):
        jobs.append([CXX] + driver_flags + incs + ["-c", os.path.join(VERIF, "harness/driver.cpp"), "-o", dobj])
    for s in sources:
        o = os.path.join(objdir, os.path.basename(s) + "-" + _digest([s], base) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append([CXX] + lib_flags + incs + ["-c", s, "-o", o])

    def compile_one(cmd):
        tmp = cmd[-1] + ".%d.tmp" % os.getpid()
        _run(cmd[:-1] + [tmp])
        os.rename(tmp, cmd[-1])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, jobs))
    tmp = exe + ".%d.tmp" % os.getpid()
    _run([CXX, "-fsanitize=thread" if thread else "-fsanitize=address,undefined"] + objs + ["-o", tmp])
    os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(SINGLE if "single" in sys.argv[1:] else None))
