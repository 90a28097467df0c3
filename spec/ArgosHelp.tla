------------------------------ MODULE ArgosHelp ------------------------------
(***************************************************************************)
(* Help texts and error messages.  Everything that is written consists of *)
(* complete lines; the operators yield the sequence of lines.             *)
(***************************************************************************)
EXTENDS ArgosDefs, ArgosLayout

ShownIn(vis, where) == vis = "NORMAL" \/ vis = where

Texts(c) == c.texts           \* sequence of << text id, text >>; the last one counts
HasText(c, id) == \E i \in 1..Len(c.texts) : c.texts[i][1] = id
Text(c, id) == LET is == {i \in 1..Len(c.texts) : c.texts[i][1] = id}
               IN IF is = {} THEN "" ELSE c.texts[CHOOSE i \in is : \A j \in is : j <= i][2]
TextOr(c, id, default) == IF HasText(c, id) THEN Text(c, id) ELSE default

NL(f, yes) == IF yes THEN NewLine(TLCEval(f)) ELSE f
EndLine(f) == NL(f, ~EmptyLine(f))
Custom(f, c, id, prepend) ==
    IF Text(c, id) = "" THEN f
    ELSE EndLine(TLCEval(WriteWords(NL(f, prepend), Text(c, id))))

(********************************* Names ***********************************)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE << s >> \o Times(s, n - 1)
ArgName(a) ==
    IF Ch(a.name, 1) \in {"<", "["} THEN a.name
    ELSE LET n == "<" \o a.name \o ">"
             opt == IF a.max = a.min THEN <<>>
                    ELSE IF a.max - a.min = 1 THEN << "[" \o n \o "]" >>
                    ELSE << "[" \o n \o "]..." >>
         IN Join(Times(n, a.min) \o opt, " ")

IsStopLike(o) == o.type \in {"HELP", "STOP", "EXIT"}
FlagWithArg(f, o) ==
    f \o (IF o.arg = "" THEN ""
          ELSE (IF LastCh(f) = "=" THEN "" ELSE " ")
               \o (IF Ch(o.arg, 1) = "<" THEN o.arg ELSE "<" \o o.arg \o ">"))
BriefName(o, preferLong) ==
    LET long == {i \in 1..Len(o.flags) : Len(o.flags[i]) > 2}
        f == IF preferLong /\ long # {} THEN o.flags[CHOOSE i \in long : \A j \in long : i <= j]
             ELSE o.flags[1]
        t == FlagWithArg(f, o)
    IN IF o.optional /\ ~IsStopLike(o) THEN "[" \o t \o "]" ELSE t
LongName(o) == Join([i \in 1..Len(o.flags) |-> FlagWithArg(o.flags[i], o)], ", ")

Items(c, kind) == SelectSeq(c.items, LAMBDA it : it.kind = kind)

(********************************* Usage ***********************************)
Each(f, q, Op(_, _)) == FoldLeft(Op, f, q)

StopUsage(f, c) ==
    LET One(g, o) ==
            LET g1 == PushCurrent(TLCEval(WriteWords(WriteWords(g, c.full), " ")))
            IN NewLine(TLCEval(Pop(TLCEval(WriteWords(WriteLines(g1, BriefName(o, TRUE)), " ")))))
    IN Each(f, SelectSeq(Items(c, "O"), LAMBDA o : IsStopLike(o) /\ ShownIn(o.vis, "USAGE")), One)

BriefCommands(P, f, c) ==
    IF c.subs = <<>> THEN f
    ELSE LET names == SelectSeq(c.subs, LAMBDA k : ShownIn(P.cmds[k].vis, "USAGE"))
             f1 == IF c.req THEN f ELSE WriteWords(f, "[")
             RECURSIVE Go(_, _)
             Go(g, i) == IF i > Len(names) THEN g
                         ELSE Go(TLCEval(WriteWords(IF i > 1 THEN WriteWords(g, "|") ELSE g,
                                                    P.cmds[names[i]].name)), TLCEval(i + 1))
             f2 == Go(TLCEval(f1), 1)
         IN IF c.req THEN f2 ELSE WriteWords(f2, "]")

BriefUsage(P, f, c) ==
    LET Opt(g, o) == WriteWords(WriteLines(g, BriefName(o, FALSE)), " ")
        Arg(g, a) == WriteWords(WriteLines(g, ArgName(a)), " ")
        f1 == StopUsage(Push(f, 2), c)
        f2 == PushCurrent(TLCEval(WriteWords(WriteWords(f1, c.full), " ")))
        f3 == Each(f2, SelectSeq(Items(c, "O"), LAMBDA o : ~IsStopLike(o) /\ ShownIn(o.vis, "USAGE")), Opt)
        f4 == Each(f3, SelectSeq(Items(c, "A"), LAMBDA a : ShownIn(a.vis, "USAGE")), Arg)
        f5 == BriefCommands(P, f4, c)
    IN Pop(TLCEval(NewLine(TLCEval(Pop(TLCEval(f5))))))

(* [f, any]: any tells whether something was written. *)
Usage(P, f, c, prepend) ==
    IF HasText(c, "USAGE") /\ Text(c, "USAGE") = "" THEN [f |-> f, any |-> FALSE]
    ELSE LET hasTitle == HasText(c, "USAGE_TITLE")
             title == TextOr(c, "USAGE_TITLE", "USAGE")
             f1 == IF hasTitle THEN Custom(f, c, "USAGE_TITLE", prepend)
                   ELSE NewLine(TLCEval(WriteWords(NL(f, prepend), title)))
             pre == prepend /\ title = ""
             f2 == IF HasText(c, "USAGE") THEN Custom(f1, c, "USAGE", pre)
                   ELSE BriefUsage(P, TLCEval(NL(TLCEval(f1), pre)), c)
         IN [f |-> TLCEval(f2), any |-> TRUE]

(******************************** Sections *********************************)
(* << section, label, help >> for everything that is listed, in order.    *)
Listed(P, c) ==
    LET Sec(s, id, default) == IF s # "" THEN s ELSE TextOr(c, id, default)
        as == SelectSeq(Items(c, "A"), LAMBDA a : ShownIn(a.vis, "TEXT"))
        ss == SelectSeq(c.subs, LAMBDA k : ShownIn(P.cmds[k].vis, "TEXT"))
        os == SelectSeq(Items(c, "O"), LAMBDA o : ShownIn(o.vis, "TEXT"))
    IN [i \in 1..Len(as) |-> << Sec(as[i].section, "ARGUMENTS_TITLE", "ARGUMENTS"), ArgName(as[i]), as[i].help >>]
       \o [i \in 1..Len(ss) |-> << Sec(P.cmds[ss[i]].section, "SUBCOMMANDS_TITLE", "COMMANDS"),
                                   P.cmds[ss[i]].name, Text(P.cmds[ss[i]], "HELP") >>]
       \o [i \in 1..Len(os) |-> << Sec(os[i].section, "OPTIONS_TITLE", "OPTIONS"), LongName(os[i]), os[i].help >>]

RECURSIVE Titles(_, _)
Titles(q, seen) == IF q = <<>> THEN seen
                   ELSE Titles(Tail(q), IF Head(q)[1] \in Range(seen) THEN seen ELSE Append(seen, Head(q)[1]))
MaxLen(q, i) == LET ls == {Len(q[k][i]) : k \in 1..Len(q)} IN CHOOSE m \in ls : \A n \in ls : n <= m

(* The help texts are aligned if all labels and texts fit beside each other *)
LabelWidth(f, q) ==
    LET n == MaxLen(q, 2) + 3 IN IF n > 32 \/ n + MaxLen(q, 3) > f.w THEN 0 ELSE n

Help(g, lw, help) ==
    IF help = "" THEN g
    ELSE LET g2 == IF lw # 0
                   THEN Push(TLCEval(IF CurWidth(g) >= lw THEN WriteWords(g, "  ") ELSE g), lw)
                   ELSE Push(TLCEval(NewLine(g)), 8)
         IN Pop(TLCEval(WriteWords(g2, help)))
OneSection(f, title, q, lw, prepend) ==
    LET Entry(g, e) == NewLine(TLCEval(Help(TLCEval(WriteWords(g, e[2])), lw, e[3])))
        f1 == Push(TLCEval(NewLine(TLCEval(WriteWords(NL(f, prepend), title)))), 2)
    IN Pop(TLCEval(Each(f1, SelectSeq(q, LAMBDA e : e[1] = title), Entry)))
RECURSIVE SectionsFrom(_, _, _, _, _)
SectionsFrom(f, prepend, q, titles, lw) ==
    IF titles = <<>> THEN f
    ELSE SectionsFrom(TLCEval(OneSection(f, Head(titles), q, lw, prepend)), TRUE, q, Tail(titles), lw)
SectionsOf(f, prepend, q) ==
    IF q = <<>> THEN f
    ELSE SectionsFrom(f, prepend, q, TLCEval(Titles(q, <<>>)), TLCEval(LabelWidth(f, q)))
Sections(P, f, c, prepend) ==
    SectionsOf(f, prepend, TLCEval(Listed(P, c)))

(****************************** Whole texts ********************************)
(* Without a width, it is that of the terminal, but at least 32.          *)
LineWidth(P) == IF P.width # 0 THEN P.width
                ELSE IF "cols" \in DOMAIN P /\ P.cols > 0 THEN Max(P.cols, 32) ELSE 80
(* Nothing can be written with a width or a splitting rule that is wrong *)
Printable(P) == LineWidth(P) > 2 /\ \A i \in 1..Len(P.splits) : RuleOk(P.splits[i])
Formatter(P) == NewFormatter(LineWidth(P), P.splits)

HelpLines(P, ci) ==
    LET c == P.cmds[ci]
        f1 == Custom(TLCEval(Formatter(P)), c, "INITIAL_TEXT", FALSE)
        u == TLCEval(Usage(P, TLCEval(f1), c, Text(c, "INITIAL_TEXT") # ""))
        nl1 == u.any \/ Text(c, "INITIAL_TEXT") # ""
        about == IF Text(c, "ABOUT") # "" THEN "ABOUT" ELSE "HELP"
        f2 == Custom(u.f, c, about, nl1)
        f3 == Sections(P, TLCEval(f2), c, nl1 \/ Text(c, about) # "")
    IN Custom(TLCEval(f3), c, "FINAL_TEXT", TRUE).lines

ErrorLines(P, ci, msg) ==
    LET c == P.cmds[ci]
        f == NewLine(TLCEval(WriteWords(WriteWords(TLCEval(Formatter(P)), c.full \o ": "), msg)))
    IN IF HasText(c, "ERROR_USAGE") THEN Custom(TLCEval(f), c, "ERROR_USAGE", FALSE).lines
       ELSE Usage(P, TLCEval(f), c, FALSE).f.lines

(* Lines of a text that ends with a newline *)
TextLines(t) == SplitAt(t, "\n", -1)
VersionLines(P) == TextLines(P.cmds[1].name \o " " \o P.version)

(* Rendering of the symbolic output of the parser *)
RECURSIVE Render(_, _)
Render(P, out) ==
    IF out = <<>> THEN <<>>
    ELSE LET o == Head(out) IN
         (CASE o[1] = "help" -> HelpLines(P, o[2])
            [] o[1] = "error" -> ErrorLines(P, o[2], o[3])
            [] o[1] = "say" -> TextLines(o[2])
            [] OTHER -> VersionLines(P)) \o Render(P, Tail(out))
(* Error messages go to standard error, everything else to standard       *)
(* output, unless the parser has a stream of its own.                     *)
IsErr(o) == o[1] = "error"
IsStd(o) == o[1] # "error"
=============================================================================
