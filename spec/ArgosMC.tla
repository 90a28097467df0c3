------------------------------- MODULE ArgosMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration.  The environment variable FAMILIES names a     *)
(* file with definitions; for each of them TLC explores every command     *)
(* line over an alphabet up to a given length, checks the properties of   *)
(* ArgosProps in every state, and prints what a client observes in each   *)
(* of the behaviours, which are then replayed on the real code.           *)
(*                                                                        *)
(* A family is a record                                                   *)
(*   D                 the definition                                     *)
(*   alphabet, max     the words and how many of them                     *)
(*   start             how the command line begins (for sharing the work) *)
(*   where             "words": a command line                            *)
(*                     "glue": pieces that are put together to one word   *)
(*                     "text": pieces of the first text of the program    *)
(*                     "opts": indices of the options of the program that *)
(*                        the definition has                              *)
(*   pre, post         what surrounds them                                *)
(*   mode, konst, qs   as in a segment (see ArgosTrace); mode may also be   *)
(*                     "help": write the help text of the command pre     *)
(*   plain             no callback changes values or inserts words        *)
(***************************************************************************)
EXTENDS ArgosProps

Families == JsonDeserialize(IOEnv.FAMILIES)

VARIABLES
    f,      \* the family
    ph,     \* "choose", "run", "query", "done"
    x,      \* what has been chosen
    w,      \* the command line
    P,      \* the prepared definition
    s,      \* the state of the parser
    h,      \* what has happened, see ArgosProps
    n,      \* times that next has returned false, queries made
    log     \* what the client has observed
vars == << f, ph, x, w, P, s, h, n, log >>

Fam == Families[f]
SegWith(words) == [op |-> "run", mode |-> Fam.mode, entry |-> "vec", argv0 |-> "prog", words |-> words,
                   konst |-> Fam.konst, qs |-> Fam.qs]
NoParser == [st |-> "NONE"]

Init == /\ f \in 1..Len(Families)
        /\ ph = "choose" /\ x = Fam.start /\ w = <<>> /\ s = NoParser /\ h = <<>> /\ n = 0 /\ log = <<>>
        /\ P = IF Fam.where \in {"words", "glue"} THEN Prepare(Named(Fam.D, SegWith(<<>>))) ELSE NoParser

Choose ==
    /\ ph = "choose" /\ Len(x) < Fam.max
    /\ \E a \in Range(Fam.alphabet) :
         /\ Fam.where = "opts" => \A i \in 1..Len(x) : x[i] # a
         /\ x' = Append(x, a)
    /\ UNCHANGED << f, ph, w, P, s, h, n, log >>

Words == CASE Fam.where = "words" -> Fam.pre \o x \o Fam.post
           [] Fam.where = "glue" -> SubSeq(Fam.pre, 1, Len(Fam.pre) - 1)
                                      \o << Fam.pre[Len(Fam.pre)] \o Concat(x) >> \o Fam.post
           [] OTHER -> Fam.pre
Def == CASE Fam.where = "text" -> [Fam.D EXCEPT !.cmds[1].texts[1][2] = Concat(x)]
         [] Fam.where = "opts" -> [Fam.D EXCEPT !.cmds[1].opts = [i \in 1..Len(x) |-> Fam.D.cmds[1].opts[x[i]]]]
         [] OTHER -> Fam.D

(* The records are those of the test driver. *)
BuildRec(ok) == [k |-> "BUILD", r |-> IF ok THEN "ok" ELSE "throw"] @@ NoOut
ThrowRec == [k |-> "THROW", who |-> "", v |-> "", cbs |-> <<>>, code |-> 0] @@ NoOut
InitRec(s1) == [k |-> "INIT", who |-> "", v |-> "", cbs |-> <<>>, code |-> 0, nodes |-> Seen(P', s1)] @@ NoOut

Start ==
    /\ ph = "choose"
    /\ \A i \in 1..Len(x) : TRUE
    /\ w' = Words
    /\ LET ok == \A c \in 1..Len(Def.cmds) : AddOk(Def, c) IN
       IF ~ok
       THEN /\ ph' = "done" /\ P' = NoParser /\ s' = NoParser /\ log' = << BuildRec(FALSE) >>
       ELSE /\ P' = IF P = NoParser THEN Prepare(Named(Def, SegWith(w'))) ELSE P
            /\ IF Fam.mode = "help"
               THEN /\ ph' = "done" /\ s' = NoParser
                    /\ LET c == HelpPath(P', Fam.pre)
                       IN log' = << BuildRec(TRUE),
                                    [k |-> "HELP", r |-> IF c = 0 THEN "throw" ELSE "ok"]
                                      @@ (IF c = 0 THEN NoOut ELSE Out(P', << << "help", c >> >>)) >>
               ELSE IF ~P'.ok
               THEN ph' = "done" /\ s' = NoParser /\ log' = << BuildRec(TRUE), ThrowRec >>
               ELSE /\ ph' = "run" /\ s' = InitState(P', w')
                    /\ log' = << BuildRec(TRUE) >> \o (IF Fam.mode = "iter" THEN << InitRec(s') >> ELSE <<>>)
    /\ UNCHANGED << f, x, h, n >>

(* The item that a step processes and its value. *)
Processed(s0) ==
    LET kind == StepKind(P, s0)
        t == Reading(P, s0)
        k == FindFlag(P, Cmd(P, s0), t.w)
        o == Operate(P, t.s, k)
        arg == NextArgument(P, s0)
        nothing == << 0, "" >>
    IN IF kind = "option" THEN IF k # 0 /\ o.ok THEN << k, o.v >> ELSE nothing
       ELSE IF kind = "argument" /\ arg # 0 /\ ~(IsComplete(P, s0) /\ Sibling(P, s0, t.w) # 0)
       THEN << arg, t.w >> ELSE nothing
Entry(s0, r) ==
    LET it == Processed(s0) IN
    [k |-> r.ev.k, n |-> Inner(s0), c |-> CmdIx(s0), it |-> it[1],
     v |-> IF it[1] = 0 THEN r.ev.v ELSE it[2],
     tok |-> IF Final(s0) THEN "" ELSE Reading(P, s0).w,
     a |-> Len(w) - Len(s0.rest), b |-> Len(w) - Len(r.s.rest),
     g |-> s0.has /\ s0.tk = "G", g1 |-> r.s.has /\ r.s.tk = "G", st |-> s0.st, rem |-> Remaining(r.s),
     cbs |-> [i \in 1..Len(r.ev.cbs) |-> << r.ev.cbs[i].cb, r.ev.cbs[i].who >>],
     errs |-> Len(SelectSeq(r.ev.out, LAMBDA o : o[1] = "error")), code |-> r.ev.code]

StepRec(ev, s1) ==
    [k |-> ev.k, who |-> ev.who, v |-> ev.v, cbs |-> ev.cbs, code |-> ev.code, nodes |-> Seen(P, s1)]
      @@ Out(P, ev.out)

(* One call of next; twice after the end. *)
DoStep(kind) ==
    /\ ph = "run" /\ Fam.mode = "iter"
    /\ StepKind(P, s) = kind
    /\ \E r \in {Step(P, s)} :
       LET n1 == IF r.ev.k = "END" THEN n + 1 ELSE n
           over == r.ev.k = "THROW" \/ n1 = 2
       IN /\ s' = r.s
          /\ h' = Append(h, Entry(s, r))
          /\ log' = Append(log, StepRec(r.ev, r.s))
          /\ ph' = IF r.ev.k = "EXIT" THEN "done" ELSE IF over THEN "query" ELSE "run"
          /\ n' = IF over THEN 0 ELSE n1
          /\ UNCHANGED << f, x, w, P >>
ReadOptionStep == DoStep("option")
ReadArgumentStep == DoStep("argument")
ReadCommandStep == DoStep("command")
EndStep == DoStep("end")
AgainStep == DoStep("again")
RefuseStep == DoStep("refuse")

ParseAll ==
    /\ ph = "run" /\ Fam.mode = "parse"
    /\ \E r \in {RunAll(P, s, <<>>, <<>>)} :
         /\ s' = r.s
         /\ log' = Append(log, [k |-> r.k, who |-> "", v |-> r.v, cbs |-> r.cbs, code |-> r.code,
                                nodes |-> Seen(P, r.s)] @@ Out(P, r.out))
         /\ ph' = IF r.k \in {"EXIT", "THROW"} THEN "done" ELSE "query"
         /\ UNCHANGED << f, x, w, P, h, n >>

Ask ==
    /\ ph = "query" /\ n < Len(Fam.qs)
    /\ \E a \in {Answer(P, s, SegWith(w), Fam.qs[n + 1])} :
         /\ log' = Append(log, AnswerRec(P, a))
         /\ ph' = IF a.t = "exit" THEN "done" ELSE "query"
         /\ n' = n + 1
         /\ UNCHANGED << f, x, w, P, s, h >>
NoMoreQuestions ==
    /\ ph = "query" /\ n = Len(Fam.qs)
    /\ ph' = "done" /\ UNCHANGED << f, x, w, P, s, h, n, log >>

Report ==
    /\ ph = "done"
    /\ PrintT("B " \o ToJson([f |-> f, x |-> x, log |-> log]))
    /\ ph' = "reported" /\ UNCHANGED << f, x, w, P, s, h, n, log >>
Idle == ph = "reported" /\ UNCHANGED vars

Next == \/ Choose \/ Start \/ ParseAll
        \/ ReadOptionStep \/ ReadArgumentStep \/ ReadCommandStep
        \/ EndStep \/ AgainStep \/ RefuseStep
        \/ Ask \/ NoMoreQuestions \/ Report \/ Idle
Spec == Init /\ [][Next]_vars

(* What has been observed is determined by the rest of the state. *)
View == << f, ph, x, w, s, n, Len(log) >>

(****************************** Properties *********************************)
Running == ph \in {"run", "query", "done"} /\ P # NoParser /\ s # NoParser /\ Fam.mode = "iter"
Plainly == Running /\ Fam.plain

C01_EveryWordOnce == Plainly => EveryWordOnce(P, w, s, h)
C01_SpellingIrrelevant == Plainly /\ ph = "query" => SpellingIrrelevant(P, s, h)
C02_FlagsSelect == Running => FlagsSelect(P, h)
C02_OrderIrrelevant == ph = "run" /\ Running /\ x = <<>> /\ Fam.where = "words" => OrderIrrelevant(P, Fam.alphabet)
C03_Shared == ph = "run" /\ Running /\ x = <<>> => \A c \in 1..Len(P.cmds) : SharedCorrectly(P.cmds[c])
C03_History == Plainly => HasHistory(P, s, h)
C04_Distributed == Plainly => Distributed(P, s, h)
C05_AfterStop == Plainly => AfterStop(P, w, s, h)
C05_Stops == Running => Stops(P, s, h)
C06_Outcome == Running /\ Fam.plain => Outcome(P, s, h)
C06_Reason == Plainly => FailsForAReason(P, w, s, h)
C06_NeverResumes == Running => NeverResumes(h)
C07_Tree == Running => Tree(P, s, h)
C07_Siblings == Plainly => Siblings(P, s, h)
C08_Once == Running => CallbacksOnce(P, h)
C09_Unprocessed == Plainly => Unprocessed(P, s, h)
C09_FromWords == Plainly => OnlyFromWords(w, s, h)
C09_Filters == Plainly => Filters(w, s)
C10_AllAtOnce == Running /\ ph = "query" /\ n = 0 => AllAtOnce(P, w, s)
C17_Exits == Running => Exits(P, s, h)
C18_ReadsAlike == Running /\ ph = "query" /\ n = 0 => ReadsAlike(P, s)

C11_AnyOrder == ph = "done" /\ Fam.where = "opts" /\ Fam.mode = "iter" => ValidInAnyOrder(Def) /\ NoCommonFlags(Def)
C13_Numbers == ph = "done" /\ Fam.where = "glue" => ReadsNumbers(Concat(x))
C14_Splits == ph = "done" /\ Fam.where = "glue" => \A c \in {",", "=", "a"} : SplitsWell(Concat(x), c)
Written == log[Len(log)].st \o log[Len(log)].out
C15_Lists == ph = "done" /\ Fam.where = "opts" /\ Fam.mode = "help" /\ P.ok => ListsVisible(P, Written)
C16_LaysOut == ph = "done" /\ Fam.where = "text" /\ Printable(P) => LaysOut(Concat(x), Fam.D.width, Written)
C19_Named == ph = "done" /\ Fam.qs # <<>> /\ s # NoParser => ReportsNameCommand(P, s, SubSeq(log, 2, Len(log)))

(* Every call of next makes progress, so a parse always ends. *)
Progress == [][ (ph = "run" /\ ph' = "run" /\ Fam.mode = "iter" /\ Fam.plain)
                  => Work(s') < Work(s) \/ Ended(s') ]_vars
(* Results only grow: a node is never removed or changed after its        *)
(* successor has been started, except for how the parse ends.             *)
NodesStay == [][ (ph = "run" /\ ph' \in {"run", "query"} /\ Fam.mode = "iter")
                   => /\ Len(s'.nodes) >= Len(s.nodes)
                      /\ \A i \in 1..Len(s.nodes) :
                            /\ s'.nodes[i].c = s.nodes[i].c /\ s'.nodes[i].up = s.nodes[i].up
                            /\ i # Inner(s) => s'.nodes[i].vals = s.nodes[i].vals
                                               /\ s'.nodes[i].un = s.nodes[i].un ]_vars
(* Once a command has succeeded it has. *)
StaysDone == [][ (ph = "run" /\ ph' \in {"run", "query"} /\ s.st \in {"DONE", "ERR"})
                   => s' = s ]_vars
=============================================================================
