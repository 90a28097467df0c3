------------------------------- MODULE ArgosRun -------------------------------
(***************************************************************************)
(* What is common to the modules that validate traces: where output goes, *)
(* a complete parse, and how a record is compared.                        *)
(***************************************************************************)
EXTENDS ArgosQuery, IOUtils

(* The program name, if it isn't set explicitly, comes from argv[0].      *)
Named(D, seg) ==
    IF D.cmds[1].name # "" THEN D
    ELSE LET b == BaseName(seg.argv0)
         IN [D EXCEPT !.cmds[1].name =
                IF seg.op = "run" /\ seg.entry = "argv" /\ seg.argv0 # "" THEN b ELSE "UNINITIALIZED"]

(* Texts that are given as functions can change with time, and they are   *)
(* asked for whenever they are needed.                                     *)
AtTime(D, now) ==
    IF "clock" \notin DOMAIN D \/ now <= 1 THEN D
    ELSE LET Now(t) == IF now % 3 = 2 THEN "" ELSE t \o " " \o ToString(now)
             Item(it) == IF "helpf" \in DOMAIN it THEN [it EXCEPT !.help = Now(@)] ELSE it
             Entry(t) == IF Len(t) > 2 THEN << t[1], Now(t[2]), t[3] >> ELSE t
         IN [D EXCEPT !.cmds = [c \in DOMAIN @ |->
                [@[c] EXCEPT !.args = [k \in DOMAIN @ |-> Item(@[k])],
                             !.opts = [k \in DOMAIN @ |-> Item(@[k])],
                             !.texts = [k \in DOMAIN @ |-> Entry(@[k])]]]]

Out(p, out) ==
    IF p.stream THEN [st |-> Render(p, out), out |-> <<>>, err |-> <<>>]
    ELSE [st |-> <<>>, out |-> Render(p, SelectSeq(out, IsStd)), err |-> Render(p, SelectSeq(out, IsErr))]
(* The record of a query. *)
AnswerRec(p, a) ==
    LET k == IF a.t = "exit" THEN "EXIT" ELSE "Q" IN
    [k |-> k, t |-> a.t, r |-> a.r, who |-> "", v |-> "", cbs |-> <<>>, code |-> IF k = "EXIT" THEN p.ecode ELSE 0]
      @@ (CASE a.raw = "stream" -> [st |-> a.out, out |-> <<>>, err |-> <<>>]
            [] a.raw = "cout" -> [st |-> <<>>, out |-> a.out, err |-> <<>>]
            [] OTHER -> Out(p, a.out))
(* The words of a command line; there are none without a program name.    *)
WordsOf(seg) == IF seg.entry = "none" THEN <<>> ELSE seg.words
NoOut == [st |-> <<>>, out |-> <<>>, err |-> <<>>]

(* Fields that are not in the record are not compared.                    *)
Same(f, a, b) == IF f = "r" THEN ToJson(a) = ToJson(b) ELSE a = b
Matches(rec, exp) ==
    /\ rec.k = exp.k
    /\ \A f \in DOMAIN rec : f \in DOMAIN exp
    /\ \A f \in DOMAIN rec : Same(f, rec[f], exp[f])

RECURSIVE FindPath(_, _, _)
FindPath(p, c, path) ==
    IF path = <<>> THEN c
    ELSE LET k == FindCommand(p, p.cmds[c], Head(path)) IN
         IF k = 0 THEN 0 ELSE FindPath(p, k, Tail(path))
(* The command whose help text is asked for, 0 if there is no such text.  *)
HelpPath(p, path) == IF p.ok THEN IF Printable(p) THEN FindPath(p, 1, path) ELSE 0 ELSE 0
(* A complete parse in one call. *)
RECURSIVE RunAll(_, _, _, _)
RunAll(p, st, cbs, out) ==
    IF Final(st) THEN [s |-> st, k |-> "PARSE", v |-> "", cbs |-> cbs, out |-> out, code |-> 0]
    ELSE LET r == Step(p, st)
             c == cbs \o r.ev.cbs
             o == out \o r.ev.out
         IN IF r.ev.k \in {"THROW", "EXIT"}
            THEN [s |-> r.s, k |-> r.ev.k, v |-> r.ev.v, cbs |-> c, out |-> o, code |-> r.ev.code]
            ELSE RunAll(p, r.s, c, o)
=============================================================================
