"""Definitions and alphabets for the exhaustive exploration (see spec/ArgosMC.tla).

FAMILIES[property] is a list of (family, quick length, thorough length).
"""
import copy
import itertools
import json

from .gen import INF

FAMILIES = {}
STOPS = ("HELP", "STOP", "EXIT")


def opt(*flags, **kw):
    o = dict(flags=list(flags), help="", section="", addsec="", alias="", arg="", const="", init="", op="ASSIGN",
             type="NORMAL", vis="HIDDEN", optional=True, id=0, cb=[])
    o.update(kw)
    return o


def arg(name, lo=1, hi=1, **kw):
    a = dict(name=name, help="", section="", addsec="", alias="", min=lo, max=hi, vis="HIDDEN", id=0, cb=[])
    a.update(kw)
    return a


def cmd(name, *items, **kw):
    """A command with options, arguments and commands."""
    c = dict(name=name, items=items, texts=[["ERROR_USAGE", "See the manual."]], vis="HIDDEN", req="none", multi=False,
             section="", addsec="", cursec="")
    c.update(kw)
    return c


def definition(*items, **kw):
    """The definition of a program with the given options, arguments and commands."""
    D = dict(style="STANDARD", abbrev=False, ci=False, genhelp=False, igo=False, iga=False, autoexit=False, ecode=2,
             ncode=0, width=1000, splits=[], version="", ocb=[], acb=[], bud=3, stream=True, cmds=[])
    root = dict(name="prog", multi=False, req="none", texts=[["ERROR_USAGE", "See the manual."]])
    for k in list(kw):
        (D if k in D else root)[k] = kw[k]
    ids = itertools.count(1)

    def add(c, parent):
        n = dict(name=c["name"], parent=parent, texts=c["texts"], vis="NORMAL" if not parent else c["vis"], req=c["req"],
                 multi=c["multi"], section=c["section"], addsec=c["addsec"], cursec=c["cursec"],
                 id=next(ids) if parent else 0, subs=[], args=[], opts=[], how=0)
        D["cmds"].append(n)
        k = len(D["cmds"])
        for it in c["items"]:
            it = copy.deepcopy(it) if "items" not in it else it
            if "items" in it:
                n["subs"].append(add(it, k))
            else:
                it["id"] = next(ids)
                n["opts" if "flags" in it else "args"].append(it)
        return k

    r = cmd(root["name"], *items)
    r.update({k: root[k] for k in root if k != "name"})
    add(r, 0)
    return D


def family(prop, D, alphabet, quick, thorough, **kw):
    fam = dict(D=D, alphabet=list(alphabet), max=quick, start=[], where="words", pre=[], post=[], mode="iter", konst=True,
               qs=[], plain=True)
    fam.update(kw)
    FAMILIES.setdefault(prop, []).append((fam, quick, thorough))


def N(*flags, **kw):
    return opt(*flags, **dict(dict(arg="N"), **kw))


REST = arg("rest", 0, INF)

# ------------------------------------------------------------------- C01
_std = [opt("-a"), N("-b"), N("-c", "--long", op="APPEND"), opt("--flag")]
family("C01", definition(*_std, REST), ["-a", "-ab", "-abx", "-ba", "--long", "--long=x", "--flag", "w", "-", "--"], 3, 4)
family("C01", definition(*_std, REST, igo=True), ["-b", "-b=", "-az", "-za", "--long=", "--flag=1", "-ab-a", "x=y", ""], 3, 4)
family("C01", definition(N("--eq=", "-e"), opt("--"), N("--n", "--n=", op="APPEND"), REST, iga=True, igo=True),
       ["--eq=1", "--eq=", "--eq", "-e", "-e=", "--", "--n=2", "--n", "--n==", "w"], 3, 4)
family("C01", definition(opt("/a"), N("/b"), N("/long", op="APPEND"), REST, style="SLASH", igo=True),
       ["/a", "/b", "/b=", "/ab", "/long", "/long=x", "/long=", "/", "-a", "w"], 3, 4)
family("C01", definition(N("/="), N("//=", op="APPEND"), opt("/a"), REST, style="SLASH", igo=True), ["/=", "/=x", "//=", "//=y", "//", "/a", "w"], 3, 5)
family("C01", definition(N("-="), opt("-a"), N("--="), REST), ["-=", "-=x", "-a=", "-a", "--=", "--=y", "w", "=x"], 3, 5)
family("C01", definition(opt("-a"), N("-b"), N("-long", op="APPEND"), N("--", op="APPEND"), REST, style="DASH"),
       ["-a", "-b", "-b=", "-long", "-long=x", "-long=", "-", "--", "---", "w"], 3, 4)

# ------------------------------------------------------------------- C02
_close = [opt("--foo"), N("--foobar", "-f"), opt("--fob", "--Fop"), N("--val="), opt("--all", "-a", "-A")]
for _ab, _ci in itertools.product((False, True), (False, True)):
    _d = [o for o in copy.deepcopy(_close)]
    if _ci:
        _d[4]["flags"] = ["--all", "-a"]
    family("C02", definition(*_d, REST, abbrev=_ab, ci=_ci, igo=True),
           ["--f", "--fo", "--foo", "--foob", "--FOO", "--fooba=x", "--fob", "--fop", "--fop=", "--v", "--val", "--va=", "--val=2",
            "--a", "-A", "-a", "-fA", "--", "-F", "--al="], 2, 3)
family("C02", definition(opt("/foo"), N("/foobar"), N("/[z"), opt("/_a"), style="SLASH", abbrev=True, ci=True, igo=True),
       ["/f", "/fo", "/FOO", "/foob=1", "/[Z", "/[", "/_", "/_A", "/{z", "/^a", "/foobar="], 2, 3)
family("C02", definition(opt("-foo"), N("-foobar"), N("-[z"), opt("-_a", "-b"), style="DASH", abbrev=True, ci=True),
       ["-f", "-fo", "-FOO", "-foob=1", "-[Z", "-[", "-_", "-_A", "-{z", "-B", "-b"], 2, 3)
family("C02", definition(cmd("add", opt("-a")), cmd("Add2", opt("-a"), opt("-b")), cmd("ADDER", REST), ci=True),
       ["add", "ADD", "aDD2", "adder", "ad", "-A", "-a", "-B", "x"], 3, 4)

# ------------------------------------------------------------------- C03
family("C03", definition(N("-a", op="APPEND"), N("-s", alias="-a"), opt("-c", op="CLEAR", alias="-a"),
                         opt("-k", op="APPEND", const="k", alias="-a"), opt("-n", op="NONE"), arg("a", 0, INF)),
       ["-ax", "-sy", "-c", "-k", "-n", "w"], 4, 6)
family("C03", definition(N("-a", op="APPEND", init="i"), opt("-c", op="CLEAR", alias="al"), N("-b", op="APPEND", alias="al", init="j"),
                         opt("-d", alias="file"), arg("file", 0, 2, alias="al"), opt("-e", const="0", init="9")),
       ["-ax", "-by", "-c", "-d", "-e", "w"], 4, 6)
family("C03", definition(N("-a", op="APPEND", init="i"),
                         cmd("go", N("-a", op="APPEND", init="j"), opt("-c", op="CLEAR", alias="-a"), arg("x", 0, 2, alias="-a")),
                         cmd("do", opt("-a", op="APPEND", const="k"), opt("-b", "--bb", init="z", alias="-a")), multi=True, req="false"),
       ["-ax", "-a", "-c", "go", "do", "w", "--bb"], 4, 5)
family("C03", definition(opt("-a", alias="x"), opt("-b", alias="y"), N("-c", alias="-a", op="APPEND"), N("-d", alias="-b", op="APPEND"),
                         arg("x", 0, 1), arg("y", 0, 1)), ["-a", "-b", "-c1", "-d2", "w"], 4, 6)
family("C03", definition(opt("-a", alias="p"), N("-b", alias="q", op="APPEND"), N("-c", alias="p", op="APPEND"),
                         opt("-d", alias="q", op="CLEAR"), opt("-e", "--ee", alias="-f"), N("-f", op="APPEND", alias="p", init="0")),
       ["-a", "-b1", "-c2", "-d", "--ee", "-f3"], 4, 5)

# Items that are shared through chains of names
family("C03", definition(opt("-a", "--aa", alias="r"), N("-j", op="APPEND", alias="q"), N("-e", op="APPEND", alias="r"),
                         opt("-f", op="CLEAR", alias="-j"), N("-g", alias="p"), N("-h", op="APPEND", alias="p", init="0"), N("-k", alias="-g"),
                         opt("-q", op="APPEND", const="k", alias="--aa"), arg("x", 0, 1, alias="-j"), arg("y", 0, 1, alias="q"), arg("z", 0, 1, alias="r"),
                         igo=True), range(1, 9), 3, 5, where="opts", pre=["-a", "-j1", "-e2", "-g3", "w", "-h4", "-k5", "x", "-f", "-q", "y"],
       qs=[dict(q=q, node=1, t=["name", n], **(dict(a=["list"]) if q == "values" else {})) for n in ("r", "q", "p", "x", "-j") for q in ("has", "values")])

# ------------------------------------------------------------------- C04
_counts = [(0, 1), (1, 1), (0, 2), (1, 2), (2, 2), (1, INF), (0, INF)]
for _n in (1, 2, 3):
    for _t in itertools.product(_counts, repeat=_n):
        family("C04", definition(*[arg("abc"[k], *c) for k, c in enumerate(_t)]), ["w"],
               5 if _n < 3 else 0, 7, weight=.5)
for _t in [((0, 1), (1, 2), (0, INF)), ((1, INF), (2, 2)), ((0, 2), (0, 2), (1, 1)), ((2, 2), (0, INF), (1, 1))]:
    _a = [arg("abc"[k], *c) for k, c in enumerate(_t)]
    family("C04", definition(*_a, N("-v"), opt("-f"), opt("-L", type="LAST_OPTION"), opt("-S", type="LAST_ARGUMENT"), iga=True),
           ["w", "-f", "-v", "-vx", "-L", "-S"], 4, 5)
family("C04", definition(arg("a", 0, 2), arg("b", 1, 1), opt("-h", type="STOP"), N("-v"), iga=False, igo=True),
       ["w", "-h", "-v", "-fz", "-vf"], 4, 6)
family("C04", definition(cmd("x", arg("a", 0, 2), arg("b", 1, 2), N("-v")), cmd("y", arg("c", 1, INF), arg("d", 1, 1)), multi=True),
       ["x", "y", "w", "-v"], 6, 7)

# ------------------------------------------------------------------- C05
_ends = [opt("-h", "--help", type="HELP"), opt("-s", type="STOP"), opt("-e", type="EXIT"), opt("-A", type="LAST_ARGUMENT"),
         opt("-L", type="LAST_OPTION"), N("-x", op="APPEND")]
family("C05", definition(*_ends, arg("a", 1, 2), N("-m", optional=False)),
       ["-h", "-s", "-eA", "-A", "-L", "-xs", "-x", "-Ls", "w", "-mq"], 3, 4)
family("C05", definition(*_ends, cmd("go", *_ends, arg("a", 0, 2)), cmd("do", opt("-q"), arg("b", 1, 1)), multi=True, req="false"),
       ["go", "do", "-s", "-A", "-L", "-q", "w", "-x", "-Aq"], 3, 5)
family("C05", definition(cmd("a", opt("-A", type="LAST_ARGUMENT"), arg("v", 1, 1), opt("-L", type="LAST_OPTION")),
                         cmd("b", cmd("c", opt("-A", type="LAST_ARGUMENT"), opt("-s", type="STOP")), cmd("d", arg("v", 0, 1)), multi=True),
                         multi=True),
       ["a", "b", "c", "d", "-A", "-s", "-L", "w"], 4, 6)
family("C05", definition(N("-A", type="LAST_ARGUMENT"), N("-L", "--last", type="LAST_OPTION"), N("-s", "--stop", type="STOP"),
                         arg("a", 0, 1), iga=True, igo=True),
       ["-A", "-Ax", "--last=1", "-Lx", "--stop=2", "-sx", "-z", "w", "-zA"], 3, 4)

# ------------------------------------------------------------------- C06
family("C06", definition(N("-m", "--must", optional=False), opt("-o"), arg("a", 1, 2), arg("b", 0, 1)),
       ["-mx", "-m", "-o", "w", "-z", "--must=1", "--must", "--nope"], 4, 5)
family("C06", definition(N("-m", optional=False), cmd("go", N("-r", optional=False), arg("a", 2, 2)), cmd("do", opt("-m")),
                         cmd("up", cmd("x"), cmd("y", arg("q")), req="true"), multi=True),
       ["-m1", "go", "do", "up", "x", "y", "-r2", "w"], 4, 6)
family("C06", definition(N("-m", optional=False), N("-n", alias="-m"), opt("-c", op="CLEAR", alias="-m"), arg("f", 0, 1, alias="-m")),
       ["-m1", "-n2", "-c", "w", "-m"], 4, 6)
family("C06", definition(cmd("go", arg("a", 0, 1)), cmd("do", opt("-x")), req="false", iga=True, igo=True),
       ["go", "do", "w", "-x", "-z"], 4, 6)

# ------------------------------------------------------------------- C07
family("C07", definition(cmd("a", arg("x", 0, 1), opt("-o")), cmd("b", arg("y", 1, 2)), cmd("c"), multi=True),
       ["a", "b", "c", "w", "-o"], 4, 7)
family("C07", definition(cmd("a", cmd("x", arg("p", 1, 1)), cmd("y", arg("q", 0, INF)), multi=True), cmd("b", cmd("x", opt("-o")), req="false"),
                         multi=True), ["a", "b", "x", "y", "w", "-o"], 4, 6)
family("C07", definition(cmd("a", cmd("x", cmd("k", arg("p", 2, 2)), cmd("l", arg("q", 0, 2), arg("r", 1, 1))), cmd("y")), cmd("b", REST), multi=True),
       ["a", "x", "k", "l", "y", "b", "w"], 4, 6)
family("C07", definition(cmd("Add", arg("p", 0, 1)), cmd("add2", cmd("add"), cmd("ADD3"), multi=True), ci=True, multi=True),
       ["add", "ADD", "add2", "Add2", "add3", "w"], 4, 6)
family("C07", definition(cmd("a", opt("-L", type="LAST_OPTION"), arg("p", 0, 2)), cmd("-x", opt("-o")), multi=True, igo=True, iga=True),
       ["a", "-x", "-L", "-o", "w"], 5, 6)

# ------------------------------------------------------------------- C08
_log = [["log"]]
family("C08", definition(N("-a", op="APPEND", cb=_log), opt("-b", cb=_log, op="CLEAR", alias="-a"), opt("-c"), opt("-s", type="STOP", cb=_log),
                         opt("-A", type="LAST_ARGUMENT", cb=_log), arg("p", 0, 1, cb=_log), arg("q", 1, 2, cb=_log), ocb=_log, acb=_log, igo=True,
                         iga=True), ["-ax", "-b", "-cb", "-s", "-A", "w", "-z"], 3, 5)
family("C08", definition(N("-a", op="APPEND", cb=[["insert", "-b", "w"]]), opt("-b", cb=_log), opt("-i", cb=[["insert", "w", "w"]]),
                         arg("p", 0, 1, cb=_log), arg("q", 1, 2), arg("r", 0, 1, cb=[["insert", "-a", "-i"]]), acb=_log),
       ["-ab", "-a", "-i", "-ib", "w", "-bi"], 3, 5, plain=False)
family("C08", definition(opt("-a", cb=[["append", "q", "1"], ["assign", "-b", "2"]]), N("-b", cb=[["vappend", "3"]], op="APPEND"),
                         opt("-c", cb=[["clear", "-b"], ["has", "-b"], ["clear", "q"]]), arg("q", 0, 2, cb=[["vassign", "4"], ["has", "-a"]])),
       ["-a", "-b5", "-c", "w"], 4, 6, plain=False)
family("C08", definition(opt("-e", cb=[["error", "bad"]]), N("-v", cb=[["verror", "no"]]), arg("q", 0, 2, cb=_log), ocb=[["insert", "w"], ["log"]]),
       ["-e", "-v1", "w"], 3, 4, plain=False)
family("C08", definition(opt("-t", cb=[["append", "q", "1"], ["insert", "w"], ["throw", "gone"]]), opt("-e", type="EXIT", cb=[["throw", "x"]]), opt("-v"),
                         arg("q", 0, 3, cb=_log), arg("r", 0, 1, cb=[["throw", "r"]]), ocb=_log, acb=_log), ["-t", "-e", "-v", "-vt", "w"], 3, 5, plain=False)
family("C08", definition(opt("-t", cb=[["throw", "gone"]]), cmd("go", N("-v", cb=[["throw", "v"]]), arg("a", 0, 1)), ocb=_log), ["-t", "go", "-v1", "w"], 4, 6,
       plain=False, mode="parse")
# Words inserted by options after which there are only arguments, or none
for _t in [((0, 1), (1, 2)), ((0, 2), (1, 1)), ((1, 1), (0, 1), (1, 2))]:
    family("C08", definition(opt("-L", type="LAST_OPTION", cb=[["insert", "w", "-v"]]), opt("-A", type="LAST_ARGUMENT", cb=[["insert", "w"]]),
                             opt("-s", type="STOP", cb=[["insert", "w", "-v"]]), opt("-v"), *[arg("pqr"[k], *c) for k, c in enumerate(_t)]),
           ["-L", "-A", "-s", "-v", "w"], 4, 6, plain=False)
family("C08", definition(opt("-L", type="LAST_OPTION"), opt("-A", type="LAST_ARGUMENT"), opt("-v"), arg("p", 0, 1), arg("q", 1, 2),
                         ocb=[["insert", "-v", "w"]], bud=2), ["-L", "-A", "-v", "w"], 4, 6, plain=False)
family("C08", definition(opt("-i", cb=[["insert", "go", "w"]]), cmd("go", arg("p", 0, 1, cb=_log), arg("q", 1, 1), opt("-i", cb=[["insert", "w"]])),
                         cmd("do", arg("r", 2, 3, cb=[["insert", "go"]])), multi=True), ["-i", "go", "do", "w"], 4, 6, plain=False)

# ------------------------------------------------------------------- C09
_fq = [dict(q="filter", node=1), dict(q="filter", node=2), dict(q="filter", node=3)]
for _o, _a in ((True, True), (True, False), (False, True)):
    family("C09", definition(opt("-a"), N("-b"), opt("-s", type="STOP"), arg("p", 0, 1), igo=_o, iga=_a),
           ["-a", "-b", "-z", "-za", "-az", "--zz=1", "-s", "-sa", "w"], 3, 5, qs=_fq[:1])
family("C09", definition(opt("-a"), cmd("go", opt("-a"), arg("p", 0, 1), opt("-s", type="STOP")), cmd("do", N("-b"), arg("p")), multi=True,
                         igo=True, iga=True), ["go", "do", "-a", "-b", "-z", "-s", "w"], 4, 5, qs=_fq)
family("C09", definition(opt("-a"), arg("p", 0, 1), igo=True, iga=True, style="DASH"), ["-a", "-z", "-az", "-z=1", "w", "x"], 4, 6, qs=_fq[:1])
family("C09", definition(opt("-A", type="LAST_ARGUMENT"), opt("-L", type="LAST_OPTION"), opt("-a"), arg("p", 0, 1), iga=True, igo=True),
       ["-A", "-L", "-aA", "-Aa", "-z", "w", "w"], 4, 5, qs=_fq[:1])

# ------------------------------------------------------------------- C10
for _mode, _konst, _entry in itertools.product(("iter", "parse"), (True, False), ("vec", "argv")):
    family("C10", definition(opt("-a", cb=_log), N("-b", op="APPEND"), opt("-s", type="STOP"), arg("p", 0, 1, cb=_log), arg("q", 1, 1), iga=True,
                             genhelp=True, version="1"), ["-a", "-bx", "-as", "--help", "w", "-z"], 3, 4, mode=_mode, konst=_konst, entry=_entry)
    family("C10", definition(cmd("go", arg("p", 0, 1), N("-m", optional=False)), cmd("do", opt("-A", type="LAST_ARGUMENT"), arg("q")), multi=True,
                             genhelp=True), ["go", "do", "-mx", "-A", "w", "-h"], 3, 4, mode=_mode, konst=_konst, entry=_entry)

# ------------------------------------------------------------------- C11
_texts = [["ERROR_USAGE", "See the manual."]]
for _style, _pool in [
    ("STANDARD", [opt("-a"), opt("-A"), N("--foo"), opt("--Foo"), N("--foo="), opt("-ab"), N("--a=b"), opt("--b="), opt("-="), opt("a"),
                  opt("-a "), opt("--"), opt("-h"), opt("--help", type="HELP"), opt("--version"), opt(), N("-c", const="1"),
                  opt("-d", op="APPEND"), opt("-e", op="CLEAR", optional=False), opt("-n", op="NONE", alias="-a"),
                  opt("-n", op="NONE"), opt("-\t"), opt("/a"), N("-g", "-g"), N("-i", "--I", "-I")]),
    ("SLASH", [opt("/a"), opt("/A"), N("/foo"), N("/foo="), opt("-a"), opt("/="), opt("/b="), N("/b=c"), opt("//"), opt("/?"), opt("/VERSION"),
               opt("/"), opt("/a b")]),
    ("DASH", [opt("-a"), opt("-A"), N("-foo"), N("-foo="), opt("--a"), opt("-="), opt("-b="), N("-b=c"), opt("-h"), opt("-help", "-h"),
              opt("-version"), opt("-"), opt("-a b"), opt("/x")])]:
    for _ci in (False, True):
        family("C11", definition(*_pool, style=_style, ci=_ci, genhelp=True, version="1"), range(1, len(_pool) + 1), 2, 3 if len(_pool) < 20 else 2,
               where="opts")
for _t in itertools.product([0, 1, 2], [0, 1, 2, INF]):
    family("C11", definition(arg("a", *_t), opt("-a")), ["w"], 1, 2)
for _name, _req, _sub in itertools.product(["", "x"], ["none", "true", "false"], [None, "", "s"]):
    family("C11", definition(cmd("c", *([arg(_name)] if _name else []), *([cmd(_sub)] if _sub is not None else []), req=_req)), ["c", "s"], 1, 3)
    family("C11", definition(cmd("c", cmd("d", arg(_name, 0, 1), *([cmd(_sub)] if _sub is not None else []), req=_req))), ["c", "d"], 1, 3)

# ------------------------------------------------------------------- C13
_types = ["int", "uint", "long", "ulong", "llong", "ullong"]
for _group in ([("int", 0), ("int", 10), ("uint", 10), ("ulong", 16)], [("long", 0), ("llong", 2), ("ullong", 8), ("int", 36)]):
    family("C13", definition(N("--v", "-v")), ["0", "1", "9", "-", "+", "x", "a", " "], 3, 5, where="glue", pre=["--v="],
           qs=[dict(q="value", node=1, t=["name", "-v"], a=["as", t, b, "7"]) for t, b in _group], mode="parse")
for _pre, _al in [("--v=214748364", "06789"), ("--v=-214748364", "06789"), ("--v=429496729", "04569"), ("--v=922337203685477580", "06789"),
                  ("--v=-922337203685477580", "06789"), ("--v=1844674407370955161", "04569"), ("--v=0x7fffffff", "08f"), ("--v=0x7fffffffffffffff", "08f")]:
    family("C13", definition(N("--v", "-v")), list(_al), 2, 3, where="glue", pre=[_pre], mode="parse",
           qs=[dict(q="value", node=1, t=["name", "-v"], a=["as", t, 0, "7"]) for t in _types])
family("C13", definition(N("--v", "-v")), ["0", "5", "1", ".", "-", "e", "+", "2"], 3, 5, where="glue", pre=["--v="], mode="parse",
       qs=[dict(q="value", node=1, t=["name", "-v"], a=["as", t, 0, x]) for t, x in (("double", "7"), ("bool", "true"), ("string", "x"))])
family("C13", definition(N("-v", op="APPEND")), ["-v1", "-v-2", "-vx", "-v0x1f", "-v", "-v3000000000"], 3, 4, mode="parse",
       qs=[dict(q="values", node=1, t=["name", "-v"], a=["as", t, b, ["7", "8"]]) for t, b in (("int", 10), ("uint", 0), ("long", 0))]
       + [dict(q="value", node=1, t=["name", "-v"], a=["as", "int", 10, "7"])])

# ------------------------------------------------------------------- C14
for _lo, _hi in [(0, 0), (0, 1), (1, 2), (2, 2), (2, 3), (3, 0), (2, 4)]:
    family("C14", definition(N("--v", "-v")), [",", "a", "b", "="], 4, 5, where="glue", pre=["--v="], mode="parse",
           qs=[dict(q="value", node=1, t=["name", "-v"], a=["split", ",", _lo, _hi, ["list"]]),
               dict(q="values", node=1, t=["name", "-v"], a=["split", ",", _lo, _hi, ["split", "=", 0, 2, ["list"]]])])
family("C14", definition(N("-v", op="APPEND"), N("-u", op="APPEND", alias="-v"), arg("w", 0, 2, alias="-u"), igo=True),
       ["-va,b", "-u,", "-ux", "c,d,e", "-v1,2,3", "-v"], 3, 4, mode="parse",
       qs=[dict(q="values", node=1, t=["name", "-v"], a=["split", ",", 0, 0, ["list"]]),
           dict(q="values", node=1, t=["name", "-u"], a=["split", ",", 0, 2, ["list"]]),
           dict(q="values", node=1, t=["name", "w"], a=["split_n", ",", 2, ["list"]]),
           dict(q="values", node=1, t=["name", "w"], a=["split", ",", 1, 0, ["as", "int", 10, ["7"]]]),
           dict(q="values", node=1, t=["name", "w"], a=["split", ",", 2, 0, ["at", 1, ["split", "=", 0, 0, ["list"]]]])])

# ------------------------------------------------------------------- C15
_vis = ["NORMAL", "USAGE", "TEXT", "HIDDEN"]
_pool = [opt("-a", "--all", help="All of them.", vis="NORMAL"), N("-b", help="With value.", vis="USAGE", section="MISC"),
         opt("--cc", help="Text only.", vis="TEXT", section="MISC"), opt("-d", help="Hidden.", vis="HIDDEN"),
         opt("-e", type="EXIT", help="Stop here.", vis="NORMAL"), N("-f", "--file=", optional=False, vis="NORMAL", arg="<FILE>", help="A file."),
         opt("-g", type="STOP", vis="USAGE", section="MISC"), opt("-q", "--help", type="HELP", vis="NORMAL", help="Help!")]
for _w in (80, 30):
    family("C15", definition(*_pool, arg("in", 1, 2, vis="NORMAL", help="Input."), arg("out", 0, 1, vis="TEXT", help="Output."), width=_w,
                             texts=[["INITIAL_TEXT", "First."], ["FINAL_TEXT", "Last."], ["ABOUT", "About it."]]),
           range(1, len(_pool) + 1), 2, 4, where="opts", mode="help")
family("C15", definition(*_pool[:6], cmd("go", vis="NORMAL", texts=[["HELP", "Go there."]]), cmd("do", vis="HIDDEN"), cmd("up", vis="TEXT", section="MISC"),
                         cmd("at", vis="USAGE"), width=60, texts=[["OPTIONS_TITLE", "CHOICES"], ["USAGE_TITLE", "HOW"]], genhelp=True, multi=True, req="false"),
       range(1, 7), 2, 3, where="opts", mode="help")

# Labels and texts about as wide as what still fits
_wide = [opt("-" + "abcdefghij"[k], "--" + "x" * (n - 6), help=("tt " * 20)[:m - 1] + "t", vis="TEXT") for k, (n, m) in enumerate(
    [(27, 5), (28, 9), (29, 1), (30, 8), (31, 2), (8, 10), (8, 48), (9, 49), (10, 47), (30, 28)])]
for _w in (60, 59, 40):
    family("C15", definition(*_wide, texts=[["USAGE", ""]], width=_w), range(1, 11), 2, 3, where="opts", mode="help")

# ------------------------------------------------------------------- C16
for _w, _al, _q, _t in [(6, ["a", "bb", " ", "\n", "-"], 5, 7), (5, ["ab", " ", "  ", "\t", "* "], 5, 6), (4, ["abc", " ", "\n", "1. ", "d"], 5, 6),
                        (8, ["abc", "\xc3\xa5", " ", "-", "\r\n"], 5, 6), (10, ["abcd", "- ", "efg", " ", "\n", "   "], 4, 6),
                        (7, ["ab", "~", "\x7f", "1", "\xf7\xbf", "\xf8", "\xe2\x82\xac"], 4, 6)]:
    family("C16", definition(width=_w, texts=[["INITIAL_TEXT", "?"], ["USAGE", ""]], splits=["ab cab cd"]), _al, _q, _t, where="text", mode="help")

for _w in (5, 6, 7, 8):
    family("C16", definition(width=_w, texts=[["INITIAL_TEXT", "?"], ["USAGE", ""]], splits=["ab- cd- ef", "a- b- c- d", "ab cd ef"]),
           ["ab-cd-ef", "a-b-c-d", "abcdef", " ", "ab-"], 3, 5, where="text", mode="help")
for _w, _r in [(3, []), (2, []), (1, []), (9, ["ab  c"]), (9, ["x", " ab"]), (9, [" "]), (9, ["ab c "]), (9, ["a- b", ""]), (9, ["abc", "ab c"])]:
    family("C16", definition(width=_w, texts=[["INITIAL_TEXT", "?"], ["USAGE", ""]], splits=_r), ["abc", " ", "\n", "-"], 3, 5, where="text", mode="help")

# ------------------------------------------------------------------- C17
for _ex, _st in itertools.product((True, False), (True, False)):
    family("C17", definition(*_ends, arg("a", 0, 1), autoexit=_ex, stream=_st, genhelp=True, version="3.1", ecode=5, ncode=3),
           ["-h", "-s", "-e", "-A", "-L", "-x1", "w", "--version", "-z"], 2, 4)
    family("C17", definition(cmd("go", N("-v", cb=[["verror", "no"]]), opt("-e", type="EXIT", cb=_log), arg("a", 1, 1)), cmd("do"), multi=True, genhelp=True,
                             autoexit=_ex, stream=_st), ["go", "do", "-v1", "-e", "w", "--help"], 2, 4, plain=False)
    family("C17", definition(cmd("go", opt("-e", type="EXIT", cb=[["throw", "e"]]), arg("a", 0, 1, cb=[["throw", "a"]])), opt("-h", type="HELP", cb=[["throw", ""]]),
                             version="2", autoexit=_ex, stream=_st), ["go", "-e", "w", "-h", "--version"], 3, 4, plain=False)

# ------------------------------------------------------------------- C18
_names = ["-a", "--all", "al", "-b", "f", "-c", "none", "-n"]
_rq = [dict(q=q, node=n, t=["name", x], **(dict(a=a) if a else {})) for n in (1,) for x in _names
       for q, a in (("has", None), ("value", ["text"]), ("values", ["list"]))]
family("C18", definition(N("-a", "--all", op="APPEND", alias="al"), N("-b", op="APPEND", alias="al"), arg("f", 0, 1, alias="al"), opt("-c"),
                         opt("-n", op="NONE")), ["-a1", "-b2", "w", "-c", "-n"], 3, 5, qs=_rq)
family("C18", definition(N("-a", op="APPEND"), N("-b", "--be", op="APPEND"), N("-c", op="APPEND", alias="-a"), opt("-n", op="NONE"), opt("-d", alias="--be"),
                         arg("f", 0, 1, alias="-c"), arg("g", 0, 1, alias="x"), igo=True, iga=True),
       ["-a1", "-b2", "-c3", "-d", "w", "-n", "-z"], 3, 5, qs=[dict(q="print", node=1)])
family("C18", definition(N("-a", op="APPEND"), cmd("go", N("-a", op="APPEND", init="5"), arg("f", 0, 2, alias="-a")), cmd("do", opt("-c")), multi=True,
                         req="false"), ["-a1", "go", "do", "w", "-c"], 3, 5,
       qs=[dict(q=q, node=n, t=["item", k], **(dict(a=a) if a else {})) for n in (1, 2, 3) for k in (1, 2)
           for q, a in (("has", None), ("value", ["text"]), ("values", ["list"]), ("values", ["at", 1, ["text"]]))]
       + [dict(q="print", node=1), dict(q="describe", node=2)])

# ------------------------------------------------------------------- C19
for _ex in (True, False):
    for _a in (["error"], ["error", "is bad"], ["as", "int", 10, "0"], ["split", ",", 3, 0, ["list"]]):
        family("C19", definition(N("-a", "--all", op="APPEND", alias="al"), N("-b", op="APPEND", alias="al"), arg("f", 0, 1, alias="al"),
                                 autoexit=_ex), ["-a1", "-bx", "-b", "w"], 2, 4,
               qs=[dict(q="value", node=1, t=["name", "al"], a=_a)] if _ex else
               [dict(q="value", node=1, t=["name", "al"], a=_a), dict(q="values", node=1, t=["name", "-b"], a=["at", 1, _a])]
               + ([dict(q="values", node=1, t=["item", 1], a=_a if _a[0] != "as" else ["as", "int", 10, []])] if len(_a) > 1 else []))
    family("C19", definition(cmd("go", N("-v", op="APPEND"), arg("a", 0, 1), texts=[["USAGE", "Use go well."]]), cmd("do", arg("a"), texts=[]), autoexit=_ex,
                             width=40, multi=True), ["go", "do", "-v1", "w"], 3, 4,
           qs=[dict(q="error", node=3 if _ex else 2, msg="went wrong"), dict(q="error", node=1, msg="x"),
               dict(q="values", node=2, t=["name", "a"], a=["error", "is bad"])])


# ------------------------------------------------------------------- C12
def life(pre, alphabet, post, quick, thorough, prop="C12"):
    """Sequences of operations on objects, each written like "copy from=O1 to=O2"."""
    def op(text):
        if not isinstance(text, str):
            return text
        kind, *fields = text.split()
        r = dict(op=kind)
        for f in fields:
            k, v = f.split("=", 1)
            r[k] = json.loads(v) if v[:1] in "[0123456789" or v in ("true", "false") else v
        return r
    fam = dict(pre=[op(t) for t in pre], alphabet=[op(t) for t in alphabet], start=[], max=quick, post=[op(t) for t in post])
    FAMILIES.setdefault(prop, []).append((fam, quick, thorough))


def go(s, to, words, konst=True, entry="vec"):
    return dict(op="run", s=s, to=to, konst=konst, words=words, entry=entry, argv0="/bin/tool")


_log = [["log"]]
life(["new s=O1 args=[\"-a\"]", "set s=O1 f=help v=Old.", "set s=O1 f=arg v=N", "new s=C1 args=[\"add\"]"],
     ["copy from=O1 to=O2", "copy from=O2 to=O1", "move from=O1 to=O2", "move from=O1 to=O1", "move from=O2 to=O1 how=member",
      "set s=O1 f=help v=New.", "set s=O2 f=flags v=[\"-b\",\"--bb\"]", "set s=O2 f=section v=MISC", "add s=O1 to=C1 how=ref",
      "add s=O1 to=C1 how=copy", "add s=O2 to=C1 how=move", "drop s=O1", "drop s=O2", "new s=O1 args=[\"-z\"]"],
     ["probe s=O1", "probe s=O2", "probe s=C1"], 3, 4)
life(["new s=A1 args=[\"file\"]", "set s=A1 f=help v=Old.", "new s=C1 args=[\"add\"]"],
     ["copy from=A1 to=A2", "copy from=A2 to=A1", "move from=A1 to=A2", "move from=A2 to=A2", "move from=A2 to=A1 how=member",
      "set s=A1 f=name v=other", "set s=A2 f=count v=[0,2]", "set s=A1 f=count v=[2,1]", "add s=A1 to=C1 how=ref", "add s=A2 to=C1 how=copy",
      "add s=A2 to=C1 how=move", "drop s=A1", "new s=A2 args=[\"fresh\"]"],
     ["probe s=A1", "probe s=A2", "probe s=C1"], 3, 4)
life(["new s=C1 args=[\"add\"]", dict(op="set", s="C1", f="text", v=["HELP", "Adds."]), "new s=O1 args=[\"-a\"]", "add s=O1 to=C1 how=ref",
      "new s=C3 args=[\"sub\"]", "new s=A1 args=[\"x\"]", "add s=A1 to=C3 how=ref", "add s=C3 to=C1 how=copy", "new s=C2 args=[\"del\"]",
      "new s=O2 args=[\"-b\"]"],
     ["copy from=C1 to=C2", "move from=C1 to=C2", "move from=C2 to=C1 how=member", "copy from=C2 to=C3", "add s=C2 to=C1 how=ref", "add s=C3 to=C2 how=copy",
      "add s=C1 to=C3 how=move", "add s=O2 to=C1 how=copy", "add s=O2 to=C2 how=ref", "copy_from from=C1 to=C2", "copy_from from=C2 to=C2",
      "copy_from from=C3 to=C2", "set s=C1 f=name v=mul", "set s=C2 f=multi v=true", "drop s=C1",
      dict(op="set", s="C2", f="text", v=["HELP", "Deletes."])],
     ["probe s=C1", "probe s=C2", "probe s=C3"], 3, 4)
life(["new s=P1 args=[\"tool\"]", "new s=O1 args=[\"-a\"]", dict(op="set", s="O1", f="cb", v=_log), "add s=O1 to=P1 how=ref",
      "new s=A1 args=[\"x\"]", "set s=A1 f=optional v=true", "new s=C1 args=[\"c\"]", "new s=O2 args=[\"-b\"]", "add s=O2 to=C1 how=copy"],
     ["add s=A1 to=P1 how=copy", "add s=C1 to=P1 how=ref", "copy_from from=C1 to=P1", "move from=P1 to=P2", "move from=P2 to=P1", "move from=P1 to=P1",
      go("P1", "R1", ["-a", "w"]), go("P1", "R2", ["-a"], False), go("P1", "I1", ["-a", "-b"]), go("P2", "I1", ["-a", "w"], False, "argv"),
      "help s=P1 path=[]", "set s=P1 f=iga v=true", "get s=P2", "drop s=P1"],
     ["next s=I1", "results s=I1 to=R2", "next s=I1", "look s=R1", "look s=R2", "get s=P1", "help s=P1 path=[]", "help s=P2 path=[]",
      go("P1", "R1", ["-a", "-b", "w"]), go("P2", "R1", ["-b"]), "look s=R1"], 3, 4)
life(["new s=P1 args=[]", "new s=O1 args=[\"-a\",\"--all\"]", "set s=O1 f=arg v=N", "set s=O1 f=op v=APPEND", "add s=O1 to=P1 how=ref", "set s=P1 f=iga v=true",
      go("P1", "I1", ["-a1", "u", "-a2"])],
     ["next s=I1", "next s=I2", "results s=I1 to=R1", "results s=I2 to=R2", "move from=I1 to=I2", "move from=I2 to=I1 how=member", "copy from=R1 to=R2",
      "drop s=I1", "drop s=R1", "look s=R1", "look s=R2", go("P1", "I2", ["-a3"], False), "drop s=P1", go("P1", "R1", ["--all"])],
     ["results s=I1 to=R1", "next s=I1", "look s=R1", "look s=R2", "next s=I2", "look s=R2"], 3, 4)


# ------------------------------------------------- several parses at a time
def asks(s, words, **q):
    return dict(op="ask", s=s, q=dict(dict(node=1), **q), words=words, argv0="/bin/tool")


def sessions(prop, D, lines, items, quick, thorough, ask):
    """Two iterators of one parser and results that follow them, in every order."""
    a, b = lines
    life([dict(op="define", s="P1", D=D), go("P1", "I1", a), go("P1", "I2", b, entry="argv"), "results s=I1 to=R1"],
         ["next s=I1", "next s=I2"] + [dict(x, words=a) if isinstance(x, dict) and x["op"] == "ask" else x for x in items],
         ["next s=I1", "next s=I2", "next s=I1", "next s=I2", "look s=R1", "look s=R2", ask("R1", a), ask("I2", b), "kept s=I1"], quick, thorough, prop)


_values = lambda s, w: asks(s, w, q="values", t=["name", "-a"], a=["list"])      # noqa: E731
_son = definition(N("-a", "--all", op="APPEND", cb=[["log"]]), arg("x", 0, 2), ocb=[["log"]], acb=[["log"]], igo=True, genhelp=True, version="1.0")
_snest = definition(N("-a", op="APPEND", init="0"), cmd("go", opt("-v"), arg("f", 1, 2)), cmd("do", N("-a", op="APPEND")),
                    multi=True, req="false")
_sins = definition(N("-a", op="APPEND", cb=[["insert", "-a", "2"]]), arg("x", 0, 3, cb=[["insert", "w"], ["vassign", "z"]]), bud=2)
for _p, _items in (("C10", ["help s=P1 path=[]", go("P1", "R2", ["-a1"]), _values("I1", []), "results s=I2 to=R2"]),
                   ("C12", ["move from=I1 to=I2", "move from=I2 to=I1 how=member", "drop s=P1", go("P1", "I2", ["-a3", "-a4"], False), "drop s=I1"])):
    sessions(_p, _son, (["-a1", "u", "-a2"], ["v", "-x", "-a9"]), _items, 4, 6, _values)
    sessions(_p, _snest, (["go", "p", "do", "-a1"], ["-a1", "go", "-v"]), _items, 3, 5, _values)
    sessions(_p, _sins, (["-a1", "u", "-a2"], ["u", "-a1"]), _items, 3, 5, _values)
for _p, _q in (("C18", [asks("I1", [], q="has", t=["name", "--all"]), asks("R1", [], q="value", t=["item", 2], a=["text"]), asks("R1", [], q="print")]),
               ("C19", [asks("I1", [], q="value", t=["name", "-a"], a=["as", "int", 10, "0"]), asks("R1", [], q="error", msg="is bad"),
                        asks("I1", [], q="values", t=["name", "-a"], a=["error", "is bad"])])):
    sessions(_p, _son, (["-a1", "u", "-ax"], ["v", "-x", "-a9"]), _q + (["results s=I2 to=R1"] if _p == "C19" else ["drop s=P1"]), 3, 5, _values)


CAPS = dict(quick=14000, thorough=110000)


def size(fam):
    """About how many behaviours a family has"""
    k = len(fam["alphabet"])
    r = m = 1
    for i in range(fam["max"]):
        m *= k - i if fam.get("where") == "opts" else k
        r += m
    return r


def families(prop, tier):
    """The families of a property with the lengths for the tier, within the limit for the tier."""
    out = []
    for fam, quick, thorough in FAMILIES.get(prop, []):
        m = thorough if tier == "thorough" else quick
        if m or fam["max"]:
            out.append(dict(fam, max=m))
    while sum(size(f) for f in out) > CAPS.get(tier, CAPS["quick"]):
        largest = max(out, key=size)
        largest["max"] -= 1
    return out
