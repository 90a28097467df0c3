"""Random definitions and command lines for the conformance checks.

Everything that is generated here is only input: what the correct outcome is
gets decided by the TLA+ specification alone.
"""
import copy

INF = 1000000

BASE = dict(
    styles=[("STANDARD", 6), ("SLASH", 1), ("DASH", 1)],
    abbrev=.35, ci=.2, igo=.2, iga=.2, genhelp=.25, version=.06, autoexit=0.0, stream=1.0,
    depth=2, subs=.35, max_subs=3, multi=.5, req=[("none", 5), ("true", 1), ("false", 2)],
    nargs=(0, 3), nopts=(0, 4), noargs=.0,
    types=[("NORMAL", 14), ("HELP", .5), ("STOP", .8), ("EXIT", .5), ("LAST_ARGUMENT", .8), ("LAST_OPTION", .8)],
    ops=[("ASSIGN", 6), ("APPEND", 3), ("CLEAR", 1), ("NONE", 1)],
    takes=.6, alias=.2, init=.12, mandatory=.1, hidden=.9,
    cb=0.0, gcb=0.0, counts=None, nwords=(0, 8), wordbias=1.0, garbage=.04, unknown=.05,
    modes=[("iter", 4), ("parse", 1)], entries=[("vec", 30), ("argv", 9.5), ("none", .5)], konst=.4,
    how=True, width=1000, spread=False, errors=.04, usage=0,
)

COUNTS = [((1, 1), 6), ((0, 1), 4), ((0, INF), 3), ((1, INF), 2), ((2, 2), 1), ((1, 2), 2),
          ((2, 3), 2), ((0, 2), 2), ((1, 3), 1), ((3, 3), .5), ((2, INF), 1)]

STD_FLAGS = ["-a", "-b", "-c", "-x", "-1", "--", "-=", "--foo", "--foobar", "--fo", "--file", "--files", "--Foo",
             "--all", "--bar", "--val", "--value", "--a", "--bar-none", "--x", "-A", "-B", "--FOO", "--al_l",
             "--[z", "--[Z", "--_x", "--X"]
SLASH_FLAGS = ["/a", "/b", "/c", "/foo", "/foobar", "/fo", "/file", "/Foo", "/all", "/bar", "/val", "/A", "/FOO",
               "/value", "/-", "/_x", "/[z", "//"]
DASH_FLAGS = ["-a", "-b", "-c", "-foo", "-foobar", "-fo", "-file", "-Foo", "-all", "-bar", "-val", "-A", "-FOO",
              "-value", "--b", "-_x", "-[z"]
CMD_NAMES = ["add", "run", "rm", "Add", "list", "ls", "foo", "a", "-x", "do", "x1"]
ARG_NAMES = ["file", "dest", "<src>", "n", "[opt]", "word", "ARG"]
ALIASES = ["al", "shared", "file", "--foo", "-a", "dest"]
WORDS = ["w", "x", "1", "file", "a b", "", "=", "w=1", "-", "/", "add", "run", "--", "y\xe9", "zz", "3", "--foo", "-a"]
VALUES = ["v", "", "-a", "--foo", "=", "x=y", "add", "42", "-", "0", "--", "/a", "a b", "\xc3\xa5"]


def pick(rng, weighted):
    total = sum(w for _, w in weighted)
    x = rng.random() * total
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def flag_pool(style):
    return {"STANDARD": STD_FLAGS, "SLASH": SLASH_FLAGS, "DASH": DASH_FLAGS}[style]


def norm(s, ci):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s) if ci else s


def gen_script(rng, names, inserts, words, errors=.04):
    acts = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        r = rng.random()
        name = rng.choice(names) if names and rng.random() < .95 else "nosuch"
        if r < .3:
            acts.append(["log"])
        elif r < .4:
            acts.append(["append", name, rng.choice(VALUES)])
        elif r < .48:
            acts.append(["assign", name, rng.choice(VALUES)])
        elif r < .53:
            acts.append(["clear", name])
        elif r < .58:
            acts.append(["has", name])
        elif r < .6:
            acts.append(rng.choice([["vhas"], ["vread"], ["name"]]))
        elif r < .62:
            acts.append(["read", name])
        elif r < .65:
            acts.append(["vappend", rng.choice(VALUES)])
        elif r < .7:
            acts.append(["vassign", rng.choice(VALUES)])
        elif r < .73:
            acts.append(["vclear"])
        elif r < .96 and inserts:
            acts.append(["insert"] + [rng.choice(words) for _ in range(rng.choice([1, 1, 2, 3]))])
        else:
            acts.append(["log"])
    if rng.random() < .12:
        acts.insert(rng.randint(0, len(acts)), ["say", rng.choice(["said", "a b", "--"])])
    if rng.random() < errors:
        acts.append([rng.choice(["error", "error", "verror", "verror", "throw"]), "went wrong"])
    return acts


def gen_option(rng, p, style, ci, used, ids, vis, shared):
    pool = p["pool"][style] if "pool" in p else flag_pool(style)
    flags = []
    for _ in range(pick(rng, [(1, 5), (2, 4), (3, 1)])):
        f = rng.choice(pool)
        eq = False
        if norm(f, ci) in used:
            continue
        flags.append(f)
        used.add(norm(f, ci))
    if not flags:
        return None
    op = pick(rng, p["ops"])
    typ = pick(rng, p["types"])
    o = dict(flags=flags, help="", section="", addsec="", alias="", arg="", const="", init="", op=op, type=typ,
             vis=vis(), optional=True, id=ids(), cb=[])
    if op in ("ASSIGN", "APPEND"):
        if rng.random() < p["takes"] and typ not in ("HELP",):
            o["arg"] = "N"
        elif op == "APPEND" or rng.random() < .5:
            o["const"] = rng.choice(["1", "k", "0", "on", "a b"])
        if o["arg"]:
            for k, f in enumerate(flags):
                if len(f) > 2 and rng.random() < .12 and "=" not in f and norm(f + "=", ci) not in used:
                    if rng.random() < .5:
                        flags[k] = f + "="
                        used.add(norm(f + "=", ci))
                    elif len(flags) < 3:
                        flags.append(f + "=")
                        used.add(norm(f + "=", ci))
        if rng.random() < p["mandatory"] and typ == "NORMAL":
            o["optional"] = False
    if op in ("ASSIGN", "APPEND", "CLEAR") and rng.random() < p["alias"]:
        o["alias"] = rng.choice(ALIASES + shared)
    if op != "NONE" and rng.random() < p["init"]:
        o["init"] = rng.choice(["i0", "d", "7"])
    return o


def gen_def(rng, p, ids=None):
    ids = ids or Ids()
    style = pick(rng, p["styles"])
    ci = rng.random() < p["ci"]
    D = dict(style=style, abbrev=rng.random() < p["abbrev"], ci=ci, genhelp=rng.random() < p["genhelp"],
             igo=rng.random() < p["igo"], iga=rng.random() < p["iga"], autoexit=rng.random() < p["autoexit"],
             ecode=rng.choice([1, 2, 64, 7]), ncode=rng.choice([0, 0, 3, 5]), width=p["width"], splits=[],
             version="1.2" if rng.random() < p["version"] else "", ocb=[], acb=[], bud=p.get("bud", 3),
             stream=rng.random() < p["stream"], cmds=[])
    if p["width"] == 0:
        # What the terminal says
        D["cols"] = rng.choice([0, 0, 20, 32, 33, 50, 120, 31, -1])
    hidden = rng.random() < p["hidden"]

    def vis():
        return "HIDDEN" if hidden else rng.choice(["NORMAL", "NORMAL", "USAGE", "TEXT", "HIDDEN"])

    def command(parent, level, name):
        idx = len(D["cmds"]) + 1
        c = dict(name=name, parent=parent, texts=[] if rng.random() < p["usage"] else [["ERROR_USAGE", "See the manual."]], vis=vis() if parent else "NORMAL", req="none",
                 multi=False, section="", addsec="", cursec="", id=ids() if parent else 0, subs=[], args=[], opts=[],
                 how=rng.randrange(4) if p["how"] else 0)
        D["cmds"].append(c)
        used = set()
        with_subs = level < p["depth"] and len(D["cmds"]) < p.get("max_cmds", 99) and rng.random() < (p["subs"] if level == 0 else p["subs"] * .8)
        shared = []
        if not with_subs and rng.random() >= p["noargs"]:
            for _ in range(rng.randint(*p["nargs"])):
                mn, mx = pick(rng, p["counts"] or COUNTS)
                a = dict(name=rng.choice(p.get("argnames", ARG_NAMES)), help="", section="", addsec="", alias="", min=mn, max=mx,
                         vis=vis(), id=ids(), cb=[])
                if rng.random() < p["alias"]:
                    a["alias"] = rng.choice(ALIASES)
                shared.append(a["name"])
                c["args"].append(a)
        for _ in range(rng.randint(*p["nopts"])):
            o = gen_option(rng, p, style, ci, used, ids, vis, shared)
            if o:
                c["opts"].append(o)
                shared.append(o["flags"][0])
        if with_subs:
            c["multi"] = rng.random() < p["multi"]
            c["req"] = pick(rng, p["req"])
            names = rng.sample(p.get("cmdnames", CMD_NAMES), rng.randint(1, p["max_subs"]))
            seen = set()
            for n in names:
                if norm(n, ci) in seen:
                    continue
                seen.add(norm(n, ci))
                c["subs"].append(command(idx, level + 1, n))
        elif rng.random() < .1:
            c["req"] = "false"
            c["multi"] = rng.random() < .5
        return idx

    command(0, 0, "prog")
    names = []
    for c in D["cmds"]:
        for a in c["args"]:
            names += [a["name"]] + ([a["alias"]] if a["alias"] else [])
        for o in c["opts"]:
            names += o["flags"] + ([o["alias"]] if o["alias"] else [])
    words = interesting(D)
    inserts = p.get("inserts", True)
    for c in D["cmds"]:
        for it in c["args"] + c["opts"]:
            if rng.random() < p["cb"]:
                it["cb"] = gen_script(rng, names, inserts, words, p["errors"])
    if rng.random() < p["gcb"]:
        D["ocb"] = gen_script(rng, names, inserts, words, p["errors"])
    if rng.random() < p["gcb"]:
        D["acb"] = gen_script(rng, names, inserts, words, p["errors"])
    return D


def interesting(D):
    words = ["w", "w", "q", "3", "", "zz"]
    for c in D["cmds"]:
        if c["parent"]:
            words.append(c["name"])
        for o in c["opts"]:
            words += o["flags"]
            if o["arg"] and len(o["flags"][0]) > 2:
                words.append(o["flags"][0].rstrip("=") + "=v")
    return words


def spell(rng, D, c, o, group=(0, 0, 1, 1, 2)):
    """One or more words that give option o."""
    style = D["style"]
    f = rng.choice(o["flags"])
    prefix = "/" if style == "SLASH" else "-"
    takes = o["arg"] != "" and o["op"] in ("ASSIGN", "APPEND")
    if D["ci"] and rng.random() < .3:
        f = f.swapcase()
    if D["abbrev"] and len(f) > 3 and rng.random() < .3:
        f = f[:rng.randint(2, len(f))]
    value = rng.choice(VALUES)
    short = style == "STANDARD" and len(f) == 2 and f != "--"
    r = rng.random()
    if short and r < .45:
        # a group
        g = f
        others = [x for q in c["opts"] for x in q["flags"] if len(x) == 2 and x[0] == "-"]
        if len(group) > 5 and rng.random() < .7:
            others = [x for q in c["opts"] if not q["arg"] for x in q["flags"] if len(x) == 2 and x[0] == "-"]
        for _ in range(rng.choice(group)):
            if others and rng.random() < .9:
                h = rng.choice(others)[1]
            else:
                h = rng.choice("abcxyz-=")
            g = g + h if rng.random() < .5 else "-" + h + g[1:]
        if takes and rng.random() < .4:
            return [g + value]
        return [g, value] if takes and rng.random() < .9 else [g]
    if takes:
        if f.endswith("="):
            return [f + value] if r < .7 else [f, value]
        if r < .4 and len(f) > 2:
            return [f + "=" + value]
        return [f, value] if r < .93 else [f]
    if r < .06:
        return [f + "=" + value]
    if r < .1:
        return [f + "="]
    return [f]


def gen_words(rng, p, D):
    words = []
    cur = 0
    n = rng.randint(*p["nwords"])
    cmds = D["cmds"]
    while len(words) < n:
        c = cmds[cur]
        r = rng.random()
        if r < p["garbage"]:
            words.append(rng.choice(WORDS))
            continue
        r = rng.random()
        if r < p["unknown"]:
            words.append(rng.choice(flag_pool(D["style"]) + ["--nope", "-z", "--nope=1", "/z", "-az", "-za"]))
            continue
        choices = []
        if c["opts"]:
            choices.append(("opt", 4))
        if c["args"]:
            choices.append(("arg", 4 * p["wordbias"]))
        if c["subs"]:
            choices.append(("cmd", 4))
        up = c["parent"] - 1
        while up >= 0:
            if cmds[up]["multi"]:
                choices.append(("sib%d" % up, 2))
            up = cmds[up]["parent"] - 1
        if not choices:
            if rng.random() < .6:
                break
            words.append(rng.choice(WORDS))
            continue
        k = pick(rng, choices)
        if k == "opt":
            words += spell(rng, D, c, rng.choice(c["opts"]), p.get("group", (0, 0, 1, 1, 2)))
        elif k == "arg":
            words.append(rng.choice(WORDS[:8]))
        else:
            owner = c if k == "cmd" else cmds[int(k[3:])]
            sub = rng.choice(owner["subs"]) - 1
            name = cmds[sub]["name"]
            if D["ci"] and rng.random() < .4:
                name = name.swapcase()
            words.append(name)
            cur = sub
    if D["genhelp"] and rng.random() < .08:
        words.insert(rng.randint(0, len(words)), rng.choice(["-h", "--help", "/?", "-help", "--he", "-ah"]))
    if D["version"] and rng.random() < .2:
        words.insert(rng.randint(0, len(words)), rng.choice(["--version", "/VERSION", "-version", "--vers"]))
    return words


def long_text(rng):
    """A long word that is neither a flag nor a command."""
    chars = rng.choice(["x", "ab", "w=", "v-", "\xc3\xa5", "a b", "0123456789", "xyz,:/=\xff"])
    return "w" + "".join(rng.choice(chars) for _ in range(rng.choice([14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200,
                                                                      255, 256, 257, 300])))


def lengthen(rng, words, share=.3):
    """Makes some of the values and plain words long."""
    plain = set(VALUES + WORDS[:8]) - {"", "add", "--", "-a", "--foo", "-", "/a", "file"}
    out = []
    for w in words:
        if rng.random() < share:
            if w in plain:
                w = long_text(rng)
            elif "=" in w[2:]:
                w = w[:w.index("=", 2) + 1] + long_text(rng)
        out.append(w)
    return out


SYLLABLES = ["al", "alpha", "be", "beta", "foo", "bar", "x", "file", "files", "no", "a", "with", "out", "put", "in"]


def many_names(rng, n, sep="-"):
    """Names with many common beginnings."""
    names = []
    while len(names) < n:
        k = sep.join(rng.choice(SYLLABLES) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 9])))
        if rng.random() < .1:
            k = k.upper()
        if k not in names:
            names.append(k)
    return names


def large(rng, p):
    """The profile with more and longer of everything."""
    names = many_names(rng, 45)
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?@."
    q = copy.copy(p)
    q.update(pool=dict(STANDARD=["-" + c for c in letters] + ["--" + n for n in names],
                       SLASH=["/" + c for c in letters] + ["/" + n for n in names],
                       DASH=["-" + c for c in letters] + ["-" + n for n in names]),
             argnames=many_names(rng, 20, " ") + ["<" + n + ">" for n in names[:5]],
             cmdnames=[n for n in many_names(rng, 30)], max_subs=rng.choice([2, 4, 12]), depth=5, max_cmds=rng.choice([4, 8, 15]),
             subs=p["subs"] and max(p["subs"], .45),
             nopts=(p["nopts"][1] and 5, p["nopts"][1] and 18), nargs=(p["nargs"][1] and 2, p["nargs"][1] and 12),
             counts=COUNTS + [((0, 9), 1), ((0, 10), 1), ((5, 12), 1), ((8, 8), .5), ((4, INF), .5), ((0, 3), 1), ((3, 17), 1)],
             nwords=(15, 45), bud=rng.choice([3, 8, 20, 40]), garbage=p["garbage"] * .2, unknown=p["unknown"] * .3,
             mandatory=min(p["mandatory"], .03), noargs=.1, group=(0, 0, 1, 2, 5, 9, 17),
             types=[(t, w if t == "NORMAL" else w * .15) for t, w in p["types"]])
    return q


def large_scenario(rng, p, kinds=None):
    """A large definition and a long command line."""
    q = large(rng, p)
    huge = rng.random() < .015
    if huge:
        # More than 256 words
        q.update(nwords=(257, 330), nopts=(0, 6), nargs=(1, 4), counts=[((0, INF), 3), ((2, 300), 1), ((257, 257), 1), ((0, 2), 1)],
                 modes=[("parse", 1)], types=[("NORMAL", 1)], subs=p["subs"] and .2, max_subs=3, max_cmds=4, iga=.8, garbage=.0, unknown=.0,
                 mandatory=.0)
    D = gen_def(rng, q)
    if p["cb"]:
        for c in D["cmds"]:
            for it in c["args"] + c["opts"]:
                for a in it["cb"]:
                    if a[0] == "insert":
                        a[1:] = (a[1:] * 6)[:rng.choice([1, 2, 5, 9])]
    seg = run_seg(rng, q, lengthen(rng, gen_words(rng, q, D)))
    if kinds:
        seg["qs"] = [gen_query(rng, D, kinds) for _ in range(rng.randint(1, 5))]
    sc = dict(D=D, segs=[seg])
    if D["autoexit"]:
        sc["fork"] = True
    return sc


def run_seg(rng, p, words, **kw):
    seg = dict(op="run", mode=pick(rng, p["modes"]), entry=pick(rng, p["entries"]), argv0="/usr/bin/prog0",
               words=words, konst=rng.random() < p["konst"], qs=[])
    seg.update(kw)
    return seg


def nul_words(rng, words):
    """Views of words, unlike the words of argv, can have any bytes in them."""
    return [w if rng.random() < .5 else rng.choice([w + "\0", w[:1] + "\0" + w[1:], w[:-1] + "\0" + w[-1:], w + "\0" + w, "\0" + w])
            for w in words]


def parse_scenario(rng, p, D=None):
    D = D or gen_def(rng, p)
    sc = dict(D=D, segs=[run_seg(rng, p, gen_words(rng, p, D))])
    if sc["segs"][0]["entry"] == "vec" and rng.random() < .03:
        sc["segs"][0]["words"] = nul_words(rng, sc["segs"][0]["words"])
    if D["autoexit"]:
        sc["fork"] = True
    return sc


def profile(**kw):
    p = copy.copy(BASE)
    p.update(kw)
    return p


# ================================================================ queries
INT_TYPES = ["int", "uint", "long", "ulong", "llong", "ullong"]
LIMITS = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 10**30, 0, 1, 7, 8, 10, 255]
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


def to_base(n, b):
    if n == 0:
        return "0"
    s = ""
    while n:
        s = DIGITS[n % b] + s
        n //= b
    return s


def int_text(rng, base):
    """A text that is, or nearly is, a number in the given base."""
    r = rng.random()
    if r < .12:
        t = rng.choice(["", " ", "x", "-", "+", "--1", "+-1", "0x", "0X", "-0x", "08", "019", "0xg", "1 ", " 1", "\t-7",
                        "1.0", "1e3", "12ab", "0x1F", "0X1f", "-0x10", "-0", "+0", "00", "0017", "true", "\xb2", "1,000",
                        " +5", "- 5", "0 x1", "\n9", "\x0b3", "\x0c4", "5\x0c", "zz", "7f", "0x-1", "x10", "1_0"])
        if base in (0, 2) and t[:2].lower() == "0b":
            t = "0"
        return t
    n = rng.choice(LIMITS) + rng.choice([-1, 0, 0, 0, 1]) if rng.random() < .6 else rng.randrange(10**rng.randint(1, 21))
    n = max(n, 0)
    b = base or rng.choice([10, 10, 8, 16])
    s = to_base(n, b)
    if base == 0:
        s = {8: "0", 16: rng.choice(["0x", "0X"])}.get(b, "") + s
    elif base == 16 and rng.random() < .4:
        s = rng.choice(["0x", "0X"]) + s
    if rng.random() < .15:
        s = s.upper() if not s.startswith("0x") else s
    if rng.random() < .15 and base != 0:
        s = "0" * rng.randint(1, 4) + s
    s = rng.choice(["", "", "", "-", "-", "+"]) + s
    if rng.random() < .06:
        s = rng.choice([" ", "\t"]) + s
    if rng.random() < .08:
        s = s + rng.choice([" ", "x", ".", "L", "u", "-", ",", DIGITS[b] if b < 36 else "!"])
    while base in (0, 2) and s.lstrip(" \t\n\r\x0b\x0c+-")[:2].lower() == "0b":
        s = "1"
    return s


def float_text(rng, double):
    """A decimal text with few enough digits to be identified by them, far too large or small, or no number."""
    r = rng.random()
    if r < .15:
        return rng.choice(["", " ", "x", ".", "-", "+", "e5", "1e", "1e+", "1.5x", "1.5 ", "1..5", "--1", "1,5", "1.5e1.0",
                           ".e1", "- 1", "1 e1", "one", "1.5.2", "1e5x", "+ 2", "1f", "2d"])
    if r < .22:
        return rng.choice(["1e400", "-1e400", "1e9999", "1e310", "123456e308", "-9e500", "1e-500", "-3.5e-450", "0.1e-999"]
                          + ([] if double else ["1e39", "-1e40", "5e300", "1e-70", "-2e-99", "400000000000000000000000000000000000000000"]))
    if r < .3:
        return rng.choice(["0", "-0", "0.0", "0e5", "-0.00", "000", "0.0e-400", ".0", "0."])
    from decimal import Decimal, getcontext
    getcontext().prec = 400
    digits = 15 if double else 6
    d = Decimal(rng.randrange(1, 10 ** rng.randint(1, digits)))
    d = d.scaleb(-rng.choice([0, 0, 1, 2, 3, 5, 10]))
    if rng.random() < .15:
        d = d.scaleb(rng.choice([-250, -40, 20, 100, 280] if double else [-20, 10, 25]))
    s = format(d, "f")
    r = rng.random()
    if r < .25:
        # The same number with an exponent
        k = rng.randint(-5, 5)
        t = format(d.scaleb(-k), "f")
        s = t + rng.choice("eE") + rng.choice(["", "+", "0"] if k >= 0 else ["-", "-0"]) + str(abs(k))
    if "." in s and s.startswith("0.") and rng.random() < .3:
        s = s[1:]
    if "." not in s and "e" not in s.lower() and rng.random() < .2:
        s += rng.choice([".", ".0", ".000"])
    if rng.random() < .1:
        s = "00" + s
    s = rng.choice(["", "", "-", "+"]) + s
    if rng.random() < .08:
        s = " " + s
    return s


def query_names(D):
    names = []
    for c in D["cmds"]:
        for a in c["args"]:
            names += [a["name"]] + ([a["alias"]] if a["alias"] else [])
        for o in c["opts"]:
            names += o["flags"] + ([o["alias"]] if o["alias"] else [])
    return names or ["x"]


def gen_target(rng, D, node):
    """A name or view; most often one of the given node's command."""
    c = D["cmds"][node - 1] if node <= len(D["cmds"]) and rng.random() < .7 else rng.choice(D["cmds"])
    if rng.random() < .4:
        n = len(c["args"]) + len(c["opts"])
        return ["item", rng.randint(1, max(1, n + (1 if D["genhelp"] else 0)))]
    names = []
    for a in c["args"]:
        names += [a["name"]] + ([a["alias"]] if a["alias"] else [])
    for o in c["opts"]:
        names += o["flags"] + ([o["alias"]] if o["alias"] else [])
    names = names if names and rng.random() < .9 else query_names(D) + ["nosuch", "", "-h", "--help", "--hel"]
    return ["name", rng.choice(names)]


def gen_access(rng, many, depth=0):
    """A way of reading a value (or list of values)."""
    r = rng.random()
    if r < .3:
        return [rng.choice(["list", "list", "origins"])] if many else ["text"]
    if many and r < .45:
        return ["at", rng.choice([0, 0, 1, 1, 2, 3, 9]), gen_access(rng, False, depth)]
    if r < .62 or depth >= 2:
        t = rng.choice(["string", "bool"] if not many else ["string"])
        return ["as", t, 0, ([] if rng.random() < .5 else ["d1", "d2"]) if many else rng.choice(["d", ""]) if t == "string"
                else rng.choice(["true", "false"])]
    if r < .82:
        a = gen_access(rng, True, depth + 1)
        sep = rng.choice([",", ",", ":", "=", "-", "a", " ", "\xa5"])
        if rng.random() < .3:
            return ["split_n", sep, rng.choice([0, 1, 2, 3]), a]
        return ["split", sep, rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3, 4]), a]
    if not many and rng.random() < .4:
        return ["error"]
    return ["error", "is bad"]


def gen_query(rng, D, kinds):
    node = rng.choice([1, 1, 1, 2, 2, 3])
    kind = pick(rng, kinds)
    q = dict(q=kind, node=node)
    if kind in ("has", "value", "values"):
        q["t"] = gen_target(rng, D, node)
    if kind in ("value", "values"):
        q["a"] = gen_access(rng, kind == "values")
        if rng.random() < .25:
            q["via"] = rng.choice(["copy", "assign", "moveassign", "keep"])
        if kind == "value" and rng.random() < .03:
            q["q"] = "novalue"
    if kind == "print" and rng.random() < .3:
        q["to"] = "cout"
    if kind == "error":
        q["msg"] = rng.choice(["went wrong", "a b", ""])
    return q


QUERIES = [("has", 4), ("value", 6), ("values", 6), ("error", 1), ("print", 1.5), ("describe", 1.5), ("filter", 1)]


def query_scenario(rng, p, kinds=QUERIES, n=(1, 8)):
    sc = parse_scenario(rng, p)
    for seg in sc["segs"]:
        seg["qs"] = [gen_query(rng, sc["D"], kinds) for _ in range(rng.randint(*n))]
    return sc


def shared_scenario(rng, p, kinds=QUERIES, n=(1, 6)):
    """Several options or arguments that share their values."""
    D = gen_def(rng, p)
    words, cur, k = [], D["cmds"][0], 1
    while cur["subs"] and rng.random() < .6:
        k = rng.choice(cur["subs"])
        cur = D["cmds"][k - 1]
        words.append(cur["name"])
    used = {f for o in cur["opts"] for f in o["flags"]}
    for o in cur["opts"]:
        o["type"] = "NORMAL"
    pool = [f for f in flag_pool(D["style"]) if norm(f, D["ci"]) not in {norm(u, D["ci"]) for u in used} and f != "--"]
    rng.shuffle(pool)
    new = []
    for f in pool[:rng.randint(2, 3)]:
        if norm(f, D["ci"]) in {norm(x["flags"][0], D["ci"]) for x in new}:
            continue
        new.append(dict(flags=[f], help="", section="", addsec="", alias="al", arg="N" if rng.random() < .8 else "", const="",
                        init=rng.choice(["", "", "7"]), op="APPEND", type="NORMAL", vis="HIDDEN", optional=True,
                        id=700 + len(new), cb=[]))
        if not new[-1]["arg"]:
            new[-1]["const"] = rng.choice(["1", "k"])
    cur["opts"] += new
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .12 and cur["args"]:
            words.append(rng.choice(WORDS[:6]))
        elif r < .2:
            o = rng.choice(cur["opts"])
            words += [rng.choice(o["flags"])] + (["v"] if o["arg"] else [])
        else:
            o = rng.choice(new)
            words += [o["flags"][0]] + ([rng.choice(["1", "2", "x", "a,b", ""])] if o["arg"] else [])
    seg = run_seg(rng, p, words)
    for _ in range(rng.randint(*n)):
        q = gen_query(rng, D, kinds)
        if "t" in q and rng.random() < .8:
            q["node"] = rng.choice([1, 2])
            q["t"] = ["name", "al"] if rng.random() < .6 else ["name", rng.choice(new)["flags"][0]]
        seg["qs"].append(q)
    sc = dict(D=D, segs=[seg])
    if D["autoexit"]:
        sc["fork"] = True
    return sc


def number_scenario(rng, p):
    """Values that look like numbers, and typed access."""
    p = dict(p)
    D = gen_def(rng, p)
    names, opts = [], []
    c = D["cmds"][0]
    for o in c["opts"]:
        o["arg"], o["const"], o["type"] = ("N", "", "NORMAL") if o["op"] in ("ASSIGN", "APPEND") else ("", "", "NORMAL")
        if o["op"] in ("ASSIGN", "APPEND"):
            opts.append(o)
    base = rng.choice([10, 10, 10, 0, 0, 16, 8, 2, 3, 36])
    isfloat = rng.random() < .35
    double = rng.random() < .5
    nul = rng.random() < .12

    def text():
        if rng.random() < .04:
            return rng.choice(["false", "true", "FALSE", " 0", "0", ""])
        t = float_text(rng, double) if isfloat else int_text(rng, base)
        if nul and rng.random() < .4:
            # Views of words can have any bytes in them.
            t = rng.choice([t + "\0", t + "\0" + t, "\0" + t, t[:1] + "\0" + t[1:], t + "\0 ", t + "\0x"])
        return t

    words = []
    for _ in range(rng.randint(1, 5)):
        if opts and rng.random() < .6:
            o = rng.choice(opts)
            f = rng.choice(o["flags"])
            words += [f, text()] if not f.endswith("=") else [f + text()]
        elif c["args"]:
            words.append(text())
    for o in opts:
        if o["init"]:
            o["init"] = text()
    types = INT_TYPES if not isfloat else INT_TYPES[:1] + ["float"] * 3 if not double else ["double"] * 3 + ["long"]
    types = types + ["bool", "string"]
    seg = run_seg(rng, p, words)
    if nul:
        seg["entry"] = "vec"
    for _ in range(rng.randint(2, 8)):
        many = rng.random() < .4
        t = rng.choice([x for x in types if x != "bool"] if many else types)
        d = {"bool": "true", "string": "dflt"}.get(t, "7")
        tgt = gen_target(rng, D, 1)
        a = ["as", t, base if t in INT_TYPES else 10, ([] if rng.random() < .4 else [d, d]) if many else d]
        if many and rng.random() < .3:
            tt = rng.choice(types)
            a = ["at", rng.choice([0, 1, 2]), ["as", tt, base, {"bool": "false", "string": "s"}.get(tt, "5")]]
        elif rng.random() < .12:
            # Parts of a value
            a = ["split", rng.choice([",", "-", "0"]), 0, rng.choice([0, 2]),
                 ["as", rng.choice([x for x in types if x in INT_TYPES] or ["string"]), base, ["1"]]]
        seg["qs"].append(dict(q="values" if many else "value", node=1, t=tgt, a=a))
    sc = dict(D=D, segs=[seg])
    if D["autoexit"]:
        sc["fork"] = True
    return sc


def ways_scenario(rng, p):
    """The same words in several ways on one parser object."""
    D = gen_def(rng, p)
    if rng.random() < .35:
        decorate(rng, D, .15, .05, .8)
    if rng.random() < .4:
        D["cmds"][0]["name"] = ""
    words = gen_words(rng, p, D)
    segs = []
    for _ in range(rng.choice([2, 3, 3, 4, 5])):
        r = rng.random()
        if r < .2:
            path, c = [], 0
            while rng.random() < .5 and D["cmds"][c]["subs"]:
                c = rng.choice(D["cmds"][c]["subs"]) - 1
                n = D["cmds"][c]["name"]
                path.append(n.swapcase() if rng.random() < .15 else n)
            if rng.random() < .05:
                path.append("nosuch")
            segs.append(dict(op="help", path=path))
        else:
            segs.append(run_seg(rng, p, words if rng.random() < .85 else gen_words(rng, p, D),
                                konst=rng.random() < .85, mode=rng.choice(["iter", "parse"]),
                                entry=rng.choice(["vec", "argv"] * 6 + ["none"])))
            s = segs[-1]
            s["argv0"] = rng.choice(["/usr/bin/prog0", "prog0", "./a/b.exe", "dir\\x.exe", "x/", "", "a b/c d", "..", "."])
            s["qs"] = [gen_query(rng, D, [("has", 2), ("values", 3), ("print", 1), ("describe", 1)])
                       for _ in range(rng.choice([0, 0, 1, 2]))]
    sc = dict(D=D, segs=segs)
    if D["autoexit"]:
        sc["fork"] = True
    return sc


SPLIT_TEXTS = ["a,b,c", ",", ",,", "a", "", "a,", ",a", "a,,b", "1:2,3:4", "a=b=c", "x-y-z", "a b c", "1,2,3,4,5", ":", "::a",
               "a:b", "a,b:c,d", "\xa5", "a\xa5b", "aaa", "banana", "\xc3\xa5,\xc2\xa5", "12,x,7", "0,1", " , "]


def gen_split(rng, many, depth=0):
    sep = rng.choice([",", ",", ",", ":", "=", "-", "a", " ", "\xa5"])
    if depth == 1 or rng.random() < .55:
        r = rng.random()
        inner = (["list"] if r < .5 else ["at", rng.choice([0, 1, 2, 3, 9]), ["text"]] if r < .7
                 else ["as", rng.choice(["string", "int"]), 10, rng.choice([[], ["1"], ["7", "8"]])] if r < .85
                 else ["origins"] if r < .9 else ["error", "is bad"])
    else:
        inner = gen_split(rng, True, depth + 1)
    if rng.random() < .25:
        return ["split_n", sep, rng.choice([0, 1, 2, 3]), inner]
    return ["split", sep, rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3, 4]), inner]


def split_scenario(rng, p):
    """Values with separators, and reading their parts."""
    D = gen_def(rng, p)
    words, cur = [], D["cmds"][0]
    for _ in range(rng.randint(1, 6)):
        takes = [o for o in cur["opts"] if o["arg"]]
        for o in takes:
            if o["init"]:
                o["init"] = rng.choice([t for t in SPLIT_TEXTS if t])
        if takes and rng.random() < .6:
            f = rng.choice(rng.choice(takes)["flags"])
            t = rng.choice(SPLIT_TEXTS)
            words += [f + t] if f.endswith("=") else [f, t]
        elif cur["args"]:
            words.append(rng.choice(SPLIT_TEXTS))
        elif cur["subs"]:
            cur = D["cmds"][rng.choice(cur["subs"]) - 1]
            words.append(cur["name"])
    seg = run_seg(rng, p, words)
    for _ in range(rng.randint(2, 7)):
        many = rng.random() < .5
        node = rng.choice([1, 1, 1, 2])
        a = gen_split(rng, many)
        if many and rng.random() < .2:
            a = ["at", rng.choice([0, 1, 2]), gen_split(rng, False)]
        seg["qs"].append(dict(q="values" if many else "value", node=node, t=gen_target(rng, D, node), a=a))
    sc = dict(D=D, segs=[seg])
    if D["autoexit"]:
        sc["fork"] = True
    return sc


# ============================================================ help and layout
LOREM = ("the quick brown fox jumps over lazy dogs and then a considerably longer internationalisation-word appears "
         "co-operate http://example.com/path?x=1&y=22 v1.2.3 under_score CamelCase (parenthesised) \"quoted\" end. "
         "x y z 12 345 hyper- text, semi;colon \xc3\xa5\xc3\xa4\xc3\xb6 na\xc3\xafve \xe2\x82\xac100 "
         "\xf0\x9f\x98\x80 \xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9 donaudampfschiff extraordinary extra-ordinary").split(" ")
RULES = ["in ter nation al", "ex tra ordi nary", "extra- ordi nary", "donau dampf schiff", "consi der ably", "co- op er ate",
         "QU ick", "x yz", "no- non- sense", "up- to- date", "a- b- c d", "par en the sised", "inter- na tional", "ju mps", "\xc3\xa5 \xc3\xa4\xc3\xb6"]
ODD_RULES = [" ab", "a  b", " ", "ab cd ", "", "abc", "a b", "-a -b", "  "]
MARKERS = ["- ", "* ", "1. ", "12. ", "a. ", "-", "1 ", "- - ", "  - ", "\t* ", "3.", ". ", "123. ", "1234567. ", "1.2. ", ".. ", "-- ", "** ", "+ "]


def gen_rule(rng):
    """A word splitting rule."""
    parts = []
    for _ in range(rng.choice([2, 2, 3, 3, 4, 5])):
        t = "".join(rng.choice("abcdefgh" * 3 + "XY1-_\xe9") for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6])))
        parts.append(t + ("-" if rng.random() < .25 else ""))
    return " ".join(parts)


def gen_word(rng, wild, rules=RULES):
    r = rng.random()
    if wild and r < .1:
        # any characters
        return "".join(rng.choice("abcXYZ0129-_.,;:(){}\xc3\xa5\xe2\x82\xac\xff\x80~\x7f\xf7\xf8\xf0\x9f") for _ in range(rng.randint(1, 14)))
    if r < .2:
        # long words
        return "".join(rng.choice(["abc", "12", "-", "X", "_", "\xc3\xa5", "defgh", "/", ".", "~", "\x7f", "\xf0\x9f\x98\x80"]) for _ in range(rng.randint(2, 14)))
    if r < .35:
        w = rng.choice(rules).replace(" ", "")
        if rng.random() < .3:
            w = w.upper() if w.isascii() else w
        return w + rng.choice(["", "", ".", ",", "!)", "s"])
    return rng.choice(LOREM)


def gen_text(rng, wild=False, maxwords=14, rules=RULES):
    t = ""
    for k in range(rng.randint(1, maxwords)):
        if rng.random() < (.25 if k == 0 or t.endswith(("\n", "\r")) else .04):
            t += rng.choice(["  ", " ", "    ", "\t", "\t\t"] + MARKERS * 2)
        t += gen_word(rng, wild, rules)
        r = rng.random()
        t += (" " if r < .8 else rng.choice(["\n", "\n", "\n\n", "\r\n", "\r"]) if r < .9 else rng.choice(["  ", "   ", "\t", " \t"])
              if r < .95 else "")
    return t if rng.random() < .3 else t.rstrip()


TEXT_IDS = ["INITIAL_TEXT", "HELP", "USAGE_TITLE", "USAGE", "ABOUT", "ARGUMENTS_TITLE", "SUBCOMMANDS_TITLE",
            "OPTIONS_TITLE", "FINAL_TEXT", "ERROR_USAGE"]
SECTIONS = ["MISC", "OPTIONS", "ARGUMENTS", "COMMANDS", "Files and more"]


def short_text(rng):
    return " ".join(rng.choice(LOREM) for _ in range(rng.randint(1, 5)))


def decorate(rng, D, texts=.25, long=.3, sections=.35, wild=False):
    """Adds texts and sections to a definition."""
    def text():
        return gen_text(rng, wild) if rng.random() < long else short_text(rng)

    withsec = rng.random() < sections
    functions = .15
    if rng.random() < .2:
        D["clock"], functions = True, .6
    for c in D["cmds"]:
        cur = ""
        items = c["opts"] + c["args"] + [D["cmds"][k - 1] for k in c["subs"]]
        for it in items:
            if withsec:
                if rng.random() < .25:
                    cur = rng.choice(SECTIONS + [""])
                it["addsec"] = cur
                if rng.random() < .25:
                    it["section"] = rng.choice(SECTIONS)
            if "help" in it and rng.random() < .8:
                it["help"] = text()
                if rng.random() < functions:
                    it["helpf"] = True
            if it.get("arg") and rng.random() < .4:
                it["arg"] = rng.choice(["FILE", "<FILE>", "a b", "<x>|<y>", "LONG-VALUE-NAME", "[n]", "two\nlines", "x\r\ny\r", "x\n\ny\n", "\rx"])
        if withsec and rng.random() < .3:
            cur = rng.choice(SECTIONS + [""])
        c["cursec"] = cur
        for t in TEXT_IDS:
            if t == "HELP" and c["parent"] == 0 and rng.random() < .8:
                continue
            if rng.random() < (.7 if t == "HELP" else texts):
                v = "" if rng.random() < .15 else text()
                if t.endswith("TITLE") and rng.random() < .8:
                    v = rng.choice(SECTIONS + ["Usage:", "Args", "OPTS"])
                c["texts"].append([t, v] + (["f"] if rng.random() < functions else []))
                if rng.random() < .03:
                    c["texts"].append([t, text()])
    return D


WIDTHS = [80, 80, 60, 40, 30, 24, 100, 1000, 0]


def help_scenario(rng, p, texts=.25, long=.3, widths=WIDTHS, wild=False, splits=.3, errors=.5):
    p = dict(p)
    p["width"] = rng.choice(widths)
    D = decorate(rng, gen_def(rng, p), texts, long, wild=wild)
    if rng.random() < splits:
        D["splits"] = rng.sample(RULES, rng.randint(1, 4))
    segs = []
    for k, c in enumerate(D["cmds"]):
        path, i = [], k + 1
        while D["cmds"][i - 1]["parent"]:
            n = D["cmds"][i - 1]["name"]
            path.insert(0, n.swapcase() if D["ci"] and rng.random() < .3 else n)
            i = D["cmds"][i - 1]["parent"]
        if rng.random() < .7:
            segs.append(dict(op="help", path=path))
    if rng.random() < .1:
        segs.append(dict(op="help", path=rng.choice([["nosuch"], [D["cmds"][-1]["name"], "nosuch"], [""]])))
    if rng.random() < errors:
        segs.append(run_seg(rng, p, gen_words(rng, p, D), konst=True))
    rng.shuffle(segs)
    sc = dict(D=D, segs=segs)
    if D["autoexit"]:
        sc["fork"] = True
    return sc


def layout_scenario(rng, p):
    """One command whose texts exercise the layout."""
    p = dict(p)
    p["width"] = rng.choice([80, 60, 40, 30, 25, 20, 16, 12, 10, 8, 7, 6, 5, 4] * 3 + [3, 3, 2, 1, 0, 0, 0])
    D = gen_def(rng, p)
    c = D["cmds"][0]
    rules = RULES
    if rng.random() < .7:
        D["splits"] = rules = [rng.choice(RULES) if rng.random() < .5 else gen_rule(rng) for _ in range(rng.randint(1, 6))]
        if rng.random() < .1:
            # The same word again, with other parts
            w = rng.choice(rules).replace(" ", "")
            k = rng.randint(1, len(w))
            rules.append((w[:k] + " " + w[k:]).strip())
        rules = rules + RULES[:2]
    c["texts"].append(["INITIAL_TEXT", gen_text(rng, rng.random() < .3, 30 if rng.random() < .97 else 150, rules)])
    c["texts"].append(["USAGE", "" if rng.random() < .7 else gen_text(rng)])
    if rng.random() < .3:
        c["texts"].append(["FINAL_TEXT", gen_text(rng, False, 20, rules)])
    for it in c["args"] + c["opts"]:
        if rng.random() < .7:
            it["help"] = gen_text(rng, False, 12, rules)
    if D["splits"]:
        if rng.random() < .06:
            D["splits"].insert(rng.randint(0, len(D["splits"])), rng.choice(ODD_RULES))
    return dict(D=D, segs=[dict(op="help", path=[])])


def ending_scenario(rng, p):
    """Runs that may exit; the words favour options that end the program."""
    p = dict(p)
    p["width"] = rng.choice([80, 0, 40])
    D = gen_def(rng, p)
    words = gen_words(rng, p, D)
    stops = [o for c in D["cmds"] for o in c["opts"] if o["type"] in ("HELP", "EXIT", "STOP", "LAST_ARGUMENT")]
    r = rng.random()
    if stops and r < .35:
        o = rng.choice(stops)
        words.insert(rng.randint(0, len(words)), rng.choice(o["flags"]))
    elif r < .6:
        f = ([{"STANDARD": "--help", "DASH": "-h", "SLASH": "/?"}[D["style"]]] if D["genhelp"] else []) + \
            ([{"STANDARD": "--version", "DASH": "-version", "SLASH": "/VERSION"}[D["style"]]] if D["version"] else [])
        if f:
            words.insert(rng.randint(0, len(words)), rng.choice(f))
    seg = run_seg(rng, p, words)
    seg["qs"] = [gen_query(rng, D, [("error", 1), ("value", 3), ("values", 3)]) for _ in range(rng.choice([0, 0, 1, 2]))]
    segs = [seg]
    if rng.random() < .2:
        segs.insert(0, dict(op="help", path=[]))
        segs.append(run_seg(rng, p, words))
    sc = dict(D=D, segs=segs)
    if D["autoexit"]:
        sc["fork"] = True
    return sc


# ======================================================== invalid definitions
BAD_FLAGS = ["", "-", "/", "a", "ab", "-a b", "--a=b", "--foo=", "-ab", "/x", "/xy", "--foo\t", "--", "---", "--=", "-=",
             "-=x", "--==", "-\n", "- ", "--a\r", "--x y", "/a=", "/=", "/a=b", "-a=", "=a", "--\xa0", "-\x0b", "//", "/a b",
             "--foo=bar=", "-\xe9", "--\xc4", "--\xe4", "\xe9\xe9", "-a\xe9", " -a", "--a "]


def inject_fault(rng, D):
    """Changes something so that the definition may have become invalid."""
    c = rng.choice(D["cmds"])
    items = [(x, a) for x in D["cmds"] for a in x["args"]]
    opts = [(x, o) for x in D["cmds"] for o in x["opts"]]
    r = rng.random()
    if r < .07 and items:
        rng.choice(items)[1]["name"] = ""
    elif r < .12 and len(D["cmds"]) > 1:
        rng.choice(D["cmds"][1:])["name"] = rng.choice(["", "", " ", "-x"])
    elif r < .15 and opts:
        rng.choice(opts)[1]["flags"] = []
    elif r < .38 and opts:
        o = rng.choice(opts)[1]
        f = rng.choice(BAD_FLAGS)
        k = rng.randrange(len(o["flags"]) + 1)
        o["flags"] = o["flags"][:k] + [f] + o["flags"][k + (rng.random() < .5):]
    elif r < .46 and opts:
        o = rng.choice(opts)[1]
        if o["op"] in ("ASSIGN", "APPEND"):
            o["arg"], o["const"] = rng.choice([("N", "1"), ("", ""), ("", "k"), ("N", "")])
            if rng.random() < .5:
                o["op"] = rng.choice(["ASSIGN", "APPEND"])
    elif r < .54 and opts:
        o = rng.choice(opts)[1]
        o["optional"] = False
        if rng.random() < .5:
            o["op"], o["arg"], o["const"], o["flags"] = "CLEAR", "", "", [f.rstrip("=") for f in o["flags"]]
    elif r < .62 and opts:
        o = rng.choice(opts)[1]
        o["op"], o["arg"], o["init"], o["flags"] = "NONE", "", "", [f.rstrip("=") for f in o["flags"]]
        o["const"], o["alias"] = rng.choice([("", ""), ("1", ""), ("", "al"), ("1", "al")])
    elif r < .7 and items:
        a = rng.choice(items)[1]
        a["min"], a["max"] = rng.choice([(0, 0), (2, 1), (1, 0), (3, 2), (1, 1), (0, 1), (2, INF), (5, 4), (0, INF)])
    elif r < .78:
        # Arguments and sub-commands
        if c["subs"]:
            c["args"].append(dict(name="extra", help="", section="", addsec="", alias="", min=1, max=1, vis="NORMAL",
                                  id=900, cb=[]))
        else:
            c["req"] = "true"
    elif r < .82:
        c["req"] = rng.choice(["true", "false"])
    elif len(opts) > 1 or opts:
        # The same flag twice, perhaps in different case
        x, o = rng.choice(opts)
        y = [q for q in x["opts"]]
        f = rng.choice(o["flags"]) if o["flags"] else "-a"
        q = rng.choice(y)
        s = rng.random()
        f = f if s < .4 else f.swapcase() if s < .75 else rng.choice(["--help", "-h", "--version", "/?", "-version", "-help"])
        q["flags"] = q["flags"] + [f]


def definition_scenario(rng, p):
    p = dict(p)
    if rng.random() < .15:
        # A narrow, deep tree
        p.update(depth=rng.choice([4, 5, 6]), subs=1.2, max_subs=rng.choice([1, 1, 2]), max_cmds=10)
    D = gen_def(rng, p)
    for _ in range(rng.choice([0, 0, 1, 1, 1, 1, 2])):
        inject_fault(rng, D)
    segs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < .2:
            segs.append(dict(op="help", path=[]))
        else:
            segs.append(run_seg(rng, p, gen_words(rng, p, D) if rng.random() < .6 and all(o["flags"] and all(
                o["flags"]) for c in D["cmds"] for o in c["opts"]) else []))
    return dict(D=D, segs=segs)


# ============================================================ life of objects
LIFE_SLOTS = {"A": ["A1", "A2", "A3"], "O": ["O1", "O2", "O3"], "C": ["C1", "C2", "C3"], "P": ["P1", "P2"],
              "I": ["I1", "I2"], "R": ["R1", "R2"]}
LIFE_FLAGS = ["-a", "-b", "-c", "-d", "-e", "-f", "-g", "-k", "-m", "--alpha", "--beta", "--gamma", "--delta", "--eps",
              "--zeta", "--eta", "--theta", "--iota", "--kappa", "--al", "--be=", "--val", "-x", "-y", "--xyz"]


class Life:
    """Makes a script; remembers roughly what the objects contain in order to choose sensible operations."""

    def __init__(self, rng):
        self.rng = rng
        self.ops = []
        self.state = {}     # slot -> dict(st=live|moved, words=[...])
        self.n = 0

    def slots(self, kinds, st=None):
        return [s for k in kinds for s in LIFE_SLOTS[k]
                if s in self.state and (st is None or self.state[s]["st"] == st)]

    def some(self, kinds, moved=.08):
        live = self.slots(kinds, "live")
        gone = self.slots(kinds, "moved")
        if gone and (not live or self.rng.random() < moved):
            return self.rng.choice(gone)
        return self.rng.choice(live) if live else None

    def op(self, **kw):
        self.ops.append(kw)

    def new(self, s):
        rng = self.rng
        k = s[0]
        words = []
        if k == "A":
            args = [rng.choice(ARG_NAMES)] if rng.random() < .93 else []
        elif k == "O":
            r = rng.random()
            args = rng.sample(LIFE_FLAGS, 1 if r < .55 else 2 if r < .8 else 3 if r < .96 else 0)
            words = list(args)
        elif k == "C":
            args = [rng.choice(CMD_NAMES)] if rng.random() < .95 else []
            words = list(args)
        else:
            args = rng.choice([[], ["tool"], ["tool"], ["/usr/bin/tool", "extract"], ["a/b", "extract"], ["x/y"]])
        self.op(op="new", s=s, args=args)
        self.state[s] = dict(st="live", words=words, fresh=True)
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            self.set(s)

    def setters(self, k):
        """A value for each of the fields of objects of kind k."""
        rng = self.rng
        text = lambda: short_text(rng) if rng.random() < .85 else ""   # noqa: E731
        script = lambda: rng.choice([[["log"]], [["log"], ["vappend", "cb"]], [["vassign", "q"]], [["error", "bad"]],  # noqa: E731
                                     [["has", "--alpha"]], []])
        vis = lambda: rng.choice(["NORMAL", "NORMAL", "HIDDEN", "USAGE", "TEXT"])   # noqa: E731
        sec = lambda: rng.choice(SECTIONS + [""])    # noqa: E731
        tid = lambda: [rng.choice(TEXT_IDS), text()] + ([] if rng.random() < .8 else ["f"])     # noqa: E731
        if k == "A":
            return [("name", rng.choice(ARG_NAMES)), (rng.choice(["help", "help", "helpf"]), text()), ("section", sec()),
                    ("alias", rng.choice(ALIASES)), ("vis", vis()), ("id", rng.randint(1, 9)),
                    ("count", rng.choice([[1], [2], [0, 1], [0, INF], [1, INF], [2, 3], [0], [3, 2], [0, 0]])),
                    ("count", rng.choice([[1], [0, 1], [0, INF], [1, 2]])),
                    ("optional", rng.random() < .7), ("mandatory", rng.random() < .3), ("cb", script())]
        if k == "O":
            fl = rng.sample(LIFE_FLAGS, rng.choice([1, 1, 2]))
            return [("flags", fl), ("flag", fl[0]), (rng.choice(["help", "help", "helpf"]), text()), ("section", sec()),
                    ("alias", rng.choice(ALIASES)), ("arg", rng.choice(["N", "<N>", "FILE", "FILE", ""])),
                    ("arg", "N"), (rng.choice(["const", "constc"]), rng.choice(["k", "1", ""])),
                    (rng.choice(["consti", "constl"]), rng.choice([0, 7, -3])),
                    ("constb", rng.random() < .5), ("init", rng.choice(["i", "3"])),
                    ("op", rng.choice(["ASSIGN", "ASSIGN", "APPEND", "CLEAR", "NONE"])),
                    ("type", rng.choice(["NORMAL", "NORMAL", "STOP", "LAST_OPTION", "LAST_ARGUMENT", "HELP", "EXIT"])),
                    ("vis", vis()), ("optional", rng.random() < .8), ("mandatory", rng.random() < .2),
                    ("id", rng.randint(1, 9)), ("cb", script())]
        if k == "C":
            return [("name", rng.choice(CMD_NAMES)), ("text", tid()), ("text", tid()), ("section", sec()),
                    ("cursec", sec()), ("vis", vis()), ("id", rng.randint(1, 9)), ("multi", rng.random() < .7),
                    ("req", rng.random() < .4)]
        return [("name", rng.choice(["prog", "UNINITIALIZED", "p q"])), ("text", tid()), ("text", tid()),
                ("cursec", sec()), ("section", sec()), ("multi", rng.random() < .7), ("req", rng.random() < .4),
                ("style", rng.choice(["STANDARD", "STANDARD", "DASH", "SLASH"])), ("abbrev", rng.random() < .7),
                ("ci", rng.random() < .7), ("genhelp", rng.random() < .4), ("igo", rng.random() < .7),
                ("iga", rng.random() < .7), ("codes", [3, 4]), ("width", rng.choice([0, 40, 60, 100])),
                ("split", rng.choice(RULES)), ("version", rng.choice(["1.0", ""])), ("ocb", script()),
                ("acb", script())]

    def set(self, s, fv=None):
        k = s[0]
        f, v = fv or self.rng.choice(self.setters(k))
        if k == "O" and f in ("flags", "flag"):
            self.state[s]["words"] = v if f == "flags" else [v]
        elif k == "C" and f == "name":
            self.state[s]["words"] = [v] + self.state[s]["words"][1:]
        self.op(op="set", s=s, f=f, v=v)

    def empty(self, s):
        """Moves the contents of s somewhere else."""
        rng = self.rng
        r = rng.random()
        if s[0] == "P" and r < .4:
            self.run(s, konst=False)
        elif s[0] == "P" or r < .5:
            self.move(s, rng.choice([x for x in LIFE_SLOTS[s[0]] if x != s]), **({"how": "member"} if rng.random() < .3 else {}))
        else:
            to = rng.choice(["P1", "C3"] if s != "C3" else ["P1"])
            if to not in self.state:
                self.new(to)
            self.add(s, to)

    def use_empty(self):
        """Every use of an object without contents."""
        rng = self.rng
        s = rng.choice(["A1", "O1", "C1", "P1"])
        if s[0] != "P" and rng.random() < .5:
            self.new("P1")
        self.new(s)
        self.empty(s)
        if rng.random() < .2:
            t = rng.choice([x for x in LIFE_SLOTS[s[0]] if x != s])
            if s[0] == "P":
                self.move(s, t)
            else:
                self.copy(s, t)
            s = t
        fs = self.setters(s[0])
        if s[0] == "P":
            fs += [("autoexit", False), ("stream", True)]
        for fv in rng.sample(fs, len(fs)):
            words = self.state[s]["words"]
            self.set(s, fv)
            self.state[s]["words"] = words
        others = [("op", dict(op="probe", s=s))] if s[0] != "P" else \
            [("op", dict(op="get", s=s)), ("op", dict(op="help", s=s, path=[])), ("op", dict(op="help", s=s, path=["add"])),
             ("run", True), ("run", False)]
        if s[0] in "CP":
            for k in "AOC":
                x = rng.choice([x for x in LIFE_SLOTS[k] if x != s])
                if x not in self.state:
                    self.new(x)
                others.append(("add", x))
            others.append(("from", rng.choice([x for x in LIFE_SLOTS["C"] if x != s])))
        else:
            others.append(("to", s))
        for what, x in rng.sample(others, len(others)):
            if what == "op":
                self.op(**x)
            elif what == "run":
                self.run(s, konst=x)
            elif what == "add":
                if x in self.state:
                    self.add(x, s)
                    # What is refused is discarded.
                    self.state.pop(x, None)
            elif what == "from":
                if x in self.state:
                    self.op(op="copy_from", **{"from": x, "to": s})
            elif "P1" in self.state:
                self.add(s, "P1")
                self.state.pop(s, None)
        if s in self.state and rng.random() < .5:
            self.new(s)

    def copy_into(self):
        """A command with some contents is copied into another one or a parser."""
        rng = self.rng
        s, to = "C1", rng.choice(["C2", "C2", "P1", "C1"])
        for x in [s] if s == to else rng.sample([s, to], 2):
            self.new(x)
            for k in rng.choice([["A"], ["O"], ["C"], ["A", "O"], ["C", "O"], ["A", "A"], ["O", "O"], ["C", "C"], []]):
                y = k + "3"
                self.new(y)
                if k != "C" and rng.random() < .5:
                    self.set(y)
                self.add(y, x)
                if x not in self.state:
                    return
        if rng.random() < .3:
            self.set(s, ("multi", True))
        self.op(op="copy_from", **{"from": s, "to": to})
        self.state[to]["words"] = self.state[to]["words"] + self.state[s]["words"][1:]
        for x in rng.sample([s, to], 2):
            self.op(op="probe", s=x) if x[0] == "C" else self.run(x)

    def deep(self):
        """Commands in commands in commands, and what the innermost ones are after they have been copied."""
        rng = self.rng
        names = rng.sample(["top", "mid", "low", "leaf", "add", "x1"], rng.choice([3, 3, 4, 5]))
        slots = ["C1", "C2"]
        self.new("P1")
        if rng.random() < .7:
            self.set("P1", ("multi", True))
        inner = None
        for n in reversed(names):
            s = slots[0]
            slots.reverse()
            self.op(op="new", s=s, args=[n])
            self.state[s] = dict(st="live", words=[n])
            for k in rng.choice(["", "", "O", "A", "C", "AO"]):
                y = k + "3"
                self.new(y)
                if k == "A":
                    self.set(y, ("count", rng.choice([[0, 1], [0, INF], [1]])))
                self.add(y, s)
            if s not in self.state or self.state[s]["st"] != "live":
                return
            if inner:
                self.op(op="add", s=inner, to=s, how=rng.choice(["ref", "move", "copy"]))
                self.state[s]["words"] += self.state[inner]["words"]
                self.state[inner] = dict(st="moved", words=[])
            for fv in rng.sample([("req", rng.random() < .3), ("req", False), ("multi", True), ("multi", rng.random() < .5),
                                  ("id", rng.randint(1, 9))], rng.choice([1, 2, 2, 3])):
                self.set(s, fv)
            inner = s
        for _ in range(rng.choice([0, 0, 1, 2])):
            to = rng.choice([x for x in LIFE_SLOTS["C"] if x != inner])
            if rng.random() < .75:
                self.copy(inner, to)
            else:
                self.op(op="new", s=to, args=[names[0]])
                self.state[to] = dict(st="live", words=[names[0]] + self.state[inner]["words"][1:])
                self.op(op="copy_from", **{"from": inner, "to": to})
            inner = to
        self.add(inner, "P1")
        for _ in range(rng.choice([1, 2, 2, 3])):
            words = names[:rng.randint(1, len(names))]
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                words.insert(rng.randint(1, len(words)), (self.words("P1") or ["w"])[0])
            self.run("P1", konst=rng.random() < .85, words=words)

    def copy(self, frm, to):
        self.op(op="copy", **{"from": frm, "to": to})
        if frm in self.state:
            self.state[to] = copy.deepcopy(self.state[frm])

    def move(self, frm, to, **kw):
        self.op(op="move", **{"from": frm, "to": to}, **kw)
        if frm in self.state and frm != to:
            self.state[to] = self.state[frm]
            self.state[frm] = dict(st="moved", words=[])

    def add(self, s, to):
        rng = self.rng
        how = rng.choice(["ref", "ref", "move", "copy"])
        self.op(op="add", s=s, to=to, how=how)
        if self.state[s]["st"] == "live" and self.state[to]["st"] == "live":
            self.state[to]["words"] = self.state[to]["words"] + self.state[s]["words"]
            if how != "copy":
                self.state[s] = dict(st="moved", words=[])

    def words(self, s):
        rng = self.rng
        pool = self.state[s]["words"]
        words = []
        for _ in range(rng.randint(0, 5)):
            w = rng.choice(pool) if pool and rng.random() < .75 else rng.choice(["w", "3", "x", "--nope", "add"])
            words.append(w)
            if w.endswith("="):
                words[-1] += "v"
        return words

    def step(self):
        rng = self.rng
        r = rng.random()
        kinds = "AOCP"
        if r < .2 or not self.slots("CP", "live"):
            k = rng.choice("AAOOOCCCPP")
            free = [s for s in LIFE_SLOTS[k] if s not in self.state or self.state[s]["st"] == "moved"]
            s = rng.choice(free) if free else rng.choice(LIFE_SLOTS[k])
            self.new(s)
        elif r < .36:
            s = self.some(rng.choice(["A", "O", "C", "P", "AOCP"]))
            if s:
                self.set(s)
        elif r < .47:
            s = self.some(rng.choice(["A", "O", "C", "C", "R"]))
            if s:
                to = rng.choice(LIFE_SLOTS[s[0]])
                self.copy(s, to)
                if s[0] != "R" and rng.random() < .7:
                    self.set(rng.choice([s, to]))
        elif r < .54:
            s = self.some("AOCPI")
            if s:
                self.move(s, rng.choice(LIFE_SLOTS[s[0]]), **({"how": "member"} if rng.random() < .3 else {}))
        elif r < .72:
            s = self.some(rng.choice(["A", "O", "O", "C"]))
            to = self.some("CP", .04)
            if s and to and s != to:
                self.add(s, to)
        elif r < .77:
            s, to = self.some("C"), self.some("CP", .04)
            if s and to:
                self.op(op="copy_from", **{"from": s, "to": to})
                if self.state[s]["st"] == "live" and self.state[to]["st"] == "live":
                    self.state[to]["words"] = self.state[to]["words"] + self.state[s]["words"][1:]
        elif r < .8:
            s = self.some("AOCPIR", .3)
            if s:
                self.op(op="drop", s=s)
                del self.state[s]
        elif r < .83:
            s = self.some("P", .3)
            if s:
                self.op(op="get", s=s)
        elif r < .86:
            s = self.some("P", .2)
            if s:
                self.op(op="help", s=s, path=[])
        elif r < .89:
            s = self.some("AOC", .1)
            if s:
                self.op(op="probe", s=s)
        elif r < .95:
            s = self.some("P", .15)
            if s:
                self.run(s)
        elif r < .98:
            s = self.some("I", .1)
            if s:
                self.op(op="next", s=s)
        else:
            s = self.some("I", .1)
            if s:
                to = rng.choice(LIFE_SLOTS["R"])
                self.op(op="results", s=s, to=to)
                self.state[to] = dict(st="live", words=[])

    def run(self, s, konst=None, words=None):
        rng = self.rng
        if konst is None:
            konst = rng.random() < .6
        to = rng.choice(["I1", "I2", "R1", "R2"])
        self.op(op="run", s=s, to=to, konst=konst, words=self.words(s) if words is None else words,
                entry=rng.choice(["vec", "argv"]), argv0=rng.choice(["/usr/bin/prog0", "x.exe", "", "a\\b"]))
        if self.state[s]["st"] == "live":
            self.state[to] = dict(st="live", words=[])
            if not konst:
                self.state[s] = dict(st="moved", words=[])
        if to[0] == "I" and rng.random() < .5:
            r = rng.choice(LIFE_SLOTS["R"])
            self.op(op="results", s=to, to=r)
            self.state[r] = dict(st="live", words=[])

    def finish(self):
        """Looks at everything."""
        rng = self.rng
        todo = sorted(self.state)
        rng.shuffle(todo)
        for s in todo:
            if rng.random() < .2:
                continue
            if s[0] in "AOC":
                self.op(op="probe", s=s)
            elif s[0] == "P":
                if rng.random() < .5:
                    self.op(op="get", s=s)
                self.op(op="help", s=s, path=[])
                self.run(s)
            elif s[0] == "I":
                for _ in range(rng.randint(1, 3)):
                    self.op(op="next", s=s)
        for s in self.slots("PIR"):
            if rng.random() < .15 and s[0] == "P":
                self.op(op="drop", s=s)
        for s in sorted(self.slots("R")):
            self.op(op="look", s=s)


def life_scenario(rng):
    life = Life(rng)
    if rng.random() < .12:
        life.use_empty()
        for _ in range(rng.randint(0, 4)):
            life.step()
        life.finish()
        return dict(life=life.ops)
    if rng.random() < .1:
        life.copy_into()
        for _ in range(rng.randint(0, 3)):
            life.step()
        life.finish()
        return dict(life=life.ops)
    if rng.random() < .12:
        life.deep()
        for _ in range(rng.randint(0, 3)):
            life.step()
        life.finish()
        return dict(life=life.ops)
    if rng.random() < .8:
        life.new("P1")
    for _ in range(rng.randint(6, 26)):
        life.step()
    life.finish()
    return dict(life=life.ops)


SESSION_ASK = [("has", 3), ("value", 4), ("values", 4), ("error", 1), ("print", 1), ("describe", .7), ("filter", 1)]


def session_scenario(rng, p, ask=None):
    """Several parses with one parser at the same time; results are read while they go on."""
    D = gen_def(rng, p)
    D["autoexit"] = False
    if rng.random() < .3:
        decorate(rng, D, .15, .05, .8)
    if rng.random() < .3:
        D["cmds"][0]["name"] = ""
    lines = [gen_words(rng, p, D) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = [dict(op="define", s="P1", D=D)]
    words = {}               # of the iterators and results that there are
    parsers = ["P1"]
    runs = 0
    for _ in range(rng.randint(8, 34)):
        its = [x for x in words if x[0] == "I"]
        r = rng.random()
        if r < .09 and runs < 5 or not words and runs < 5:
            s = rng.choice(parsers)
            to = rng.choice(["I1", "I1", "I2", "I2", "R1", "R2"])
            if to in its and rng.random() < .7:
                continue
            runs += 1
            line = rng.choice(lines)
            argv0 = rng.choice(["/usr/bin/prog0", "x.exe", "", "a\\b"])
            konst = rng.random() < .93
            ops.append(dict(op="run", s=s, to=to, konst=konst, words=line, entry=rng.choice(["vec", "argv"]), argv0=argv0))
            words[to] = (line, argv0)
            if to[0] == "I" and rng.random() < .5:
                x = rng.choice(["R1", "R2"])
                ops.append(dict(op="results", s=to, to=x))
                words[x] = words[to]
        elif r < .52 and its:
            ops.append(dict(op="next", s=rng.choice(its)))
        elif r < .74 and words:
            s = rng.choice(sorted(words))
            ops.append(dict(op="ask", s=s, q=gen_query(rng, D, ask or SESSION_ASK), words=words[s][0], argv0=words[s][1]))
        elif r < .79 and words:
            s = rng.choice(sorted(words))
            x = rng.choice(["R1", "R2"])
            ops.append(dict(op="results", s=s, to=x) if s[0] == "I" else dict(op="copy", **{"from": s, "to": x}))
            words[x] = words[s]
        elif r < .83 and its:
            a, b = rng.choice([("I1", "I2"), ("I2", "I1")])
            if a in words:
                ops.append(dict(op="move", **{"from": a, "to": b}))
                words[b] = words.pop(a)
                if rng.random() < .3:
                    ops.append(dict(op="next", s=a))
        elif r < .88:
            path, c = [], 0
            while rng.random() < .5 and D["cmds"][c]["subs"]:
                c = rng.choice(D["cmds"][c]["subs"]) - 1
                path.append(D["cmds"][c]["name"])
            ops.append(dict(op="help", s=rng.choice(parsers), path=path))
        elif r < .9:
            a = rng.choice(parsers)
            b = "P2" if a == "P1" else "P1"
            ops.append(dict(op="move", **{"from": a, "to": b}))
            parsers = [b]
        elif r < .915 and runs:
            ops.append(dict(op="drop", s=rng.choice(parsers)))
        elif r < .925 and its:
            ops.append(dict(op="kept", s=rng.choice(its)))
        elif r < .935 and its:
            s = rng.choice(its)
            ops.append(dict(op="drop", s=s))
            del words[s]
        else:
            res = [x for x in words if x[0] == "R"]
            if res:
                ops.append(dict(op="look", s=rng.choice(res)))
    for s in sorted(words):
        if s[0] == "I":
            ops += [dict(op="next", s=s)] * rng.randint(0, 6) + [dict(op="kept", s=s)]
        ops.append(dict(op="ask", s=s, q=gen_query(rng, D, ask or SESSION_ASK), words=words[s][0], argv0=words[s][1]))
    for s in sorted(words):
        if s[0] == "R":
            ops.append(dict(op="look", s=s))
    return dict(life=ops)


def threads_scenario(rng, p, ask=None):
    """Const operations on one parser in several threads."""
    D = gen_def(rng, p)
    D["autoexit"] = False
    D["stream"] = True
    if rng.random() < .3:
        D["cmds"][0]["name"] = ""
    ops = [dict(op="define", s="P1", D=D)]
    lines = [gen_words(rng, p, D) for _ in range(rng.choice([1, 2, 3, 4]))]

    def help_op():
        path, c = [], 0
        while rng.random() < .6 and D["cmds"][c]["subs"]:
            c = rng.choice(D["cmds"][c]["subs"]) - 1
            path.append(D["cmds"][c]["name"])
        return dict(op="help", s="P1", path=path)

    def query(s, run):
        q = gen_query(rng, D, ask or SESSION_ASK)
        if q.get("to") == "cout":       # which all of them share
            del q["to"]
        return dict(op="ask", s=s, q=q, words=run["words"], argv0=run["argv0"])

    if rng.random() < .3:
        ops.append(help_op())
    shared = []             # results that all threads read
    if rng.random() < .5:
        for s in rng.choice([["R3"], ["R3", "R4"]]):
            run = dict(op="run", s="P1", to=s, konst=True, words=rng.choice(lines), entry="vec", argv0="x")
            ops.append(run)
            shared.append((s, run))
    for ln in range(1, (2 if shared else rng.choice([2, 3, 4])) + 1):
        it, res = "I%d" % ln, "R%d" % ln
        mine = []
        for _ in range(rng.choice([1, 2, 2])):
            to = rng.choice([it, it, res])
            run = dict(op="run", s="P1", to=to, konst=True, words=rng.choice(lines), entry=rng.choice(["vec", "argv"]),
                       argv0=rng.choice(["/usr/bin/prog0", "x.exe", "", "a\\b"]))
            mine.append(run)
            if to == it:
                mine += [dict(op="next", s=it)] * rng.randint(1, 7)
                if rng.random() < .4:
                    mine.append(dict(op="results", s=it, to=res))
                    mine.append(query(res, run))
            for _ in range(rng.choice([0, 1, 2])):
                mine.append(query(to, run))
            if shared:
                for _ in range(rng.choice([1, 2, 4])):
                    mine.append(query(*rng.choice(shared)))
            if rng.random() < .4:
                mine.append(help_op())
        if rng.random() < .1:
            rng.shuffle(mine)
        ops += [dict(x, ln=ln) for x in mine]
    ops += [dict(op=rng.choice(["look", "drop"]), s="R%d" % k) for k in (1, 2, 3, 4) if rng.random() < .5]
    ops.append(help_op())
    return dict(life=ops, rounds=rng.choice([2, 2, 3]))
