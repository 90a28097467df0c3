------------------------------ MODULE ArgosTrace ------------------------------
(***************************************************************************)
(* Trace validation.  The file named by the environment variable TRACES   *)
(* holds scenarios with the records that the test driver made when it ran *)
(* them on the real code.  Every scenario is one behaviour: each step     *)
(* consumes one record, which has to agree with what the specification    *)
(* says the client observes.  Fields that are not in the record are not   *)
(* compared.                                                              *)
(*                                                                        *)
(* i       the scenario                                                   *)
(* ph      "build", "seg", "iter", "query", "done", "rejected"            *)
(* j       the segment: one use of the parser object                      *)
(* l       the number of records that have been consumed                  *)
(* P       the prepared definition                                         *)
(* s       the state of the parser (see ArgosParser), or NoParser         *)
(* used    whether the parser has been used up by a non-const parse       *)
(* n       in "iter": how often next has returned false; in "query": the  *)
(*         number of queries that have been answered                      *)
(***************************************************************************)
EXTENDS ArgosRun

Scenarios == JsonDeserialize(IOEnv.TRACES)

VARIABLES i, ph, j, l, P, s, used, n
vars == << i, ph, j, l, P, s, used, n >>

NoParser == [st |-> "NONE"]
Sc == Scenarios[i]
Seg == Sc.segs[j]

PrepareFor(k) == Prepare(AtTime(Named(Sc.D, Sc.segs[k]), k))
(* The prepared definition for segment k, given that for the current one. *)
Reprepare(k) == IF k > Len(Sc.segs) THEN NoParser
                ELSE IF k = j \/ (Sc.D.cmds[1].name # "" /\ "clock" \notin DOMAIN Sc.D) THEN P
                ELSE PrepareFor(k)

Reject(why, rec, exp) ==
    /\ PrintT("REJECT " \o ToJson([i |-> i, l |-> l, why |-> why, rec |-> rec, exp |-> exp]))
    /\ ph' = "rejected"
    /\ UNCHANGED << j, l, P, s, used, n >>

(* Consumes a record: what is expected and the state that follows.        *)
Consume(exp0, ph1, j1, s1, used1, n1) ==
  \E exp \in {exp0} :      \* binds the value, so that TLC evaluates it once
    IF l = Len(Sc.recs) THEN Reject("missing", <<>>, exp)
    ELSE IF ~Matches(Sc.recs[l + 1], exp) THEN Reject("differs", Sc.recs[l + 1], exp)
    ELSE /\ ph' = ph1
         /\ j' = j1
         /\ P' = IF ph = "build" THEN IF ph1 = "seg" THEN PrepareFor(1) ELSE NoParser ELSE Reprepare(j1)
         /\ s' = s1
         /\ used' = used1
         /\ n' = n1
         /\ l' = l + 1

Init == /\ i \in 1..Len(Scenarios)
        /\ ph = "build" /\ j = 1 /\ l = 0 /\ P = NoParser /\ s = NoParser /\ used = FALSE /\ n = 0

Build ==
    /\ ph = "build"
    /\ LET ok == \A c \in 1..Len(Sc.D.cmds) : AddOk(Sc.D, c)
       IN Consume([k |-> "BUILD", r |-> IF ok THEN "ok" ELSE "throw"] @@ NoOut,
                  IF ok THEN "seg" ELSE "end", 1, NoParser, FALSE, 0)

ThrowRec == [k |-> "THROW", who |-> "", v |-> "", cbs |-> <<>>, code |-> 0] @@ NoOut

(* write_help_text and write_subcommand_help_text *)
WriteHelp ==
    /\ ph = "seg" /\ j <= Len(Sc.segs) /\ Seg.op = "help"
    /\ LET c == IF used THEN 0 ELSE HelpPath(P, Seg.path)
       IN Consume([k |-> "HELP", r |-> IF c = 0 THEN "throw" ELSE "ok"]
                     @@ (IF c = 0 THEN NoOut ELSE Out(P, << << "help", c >> >>)),
                  "seg", j + 1, NoParser, used, 0)

Refused == used \/ ~P.ok
NoLongerUsable == used \/ ~Seg.konst

(* A new iterator *)
StartIterator ==
    /\ ph = "seg" /\ j <= Len(Sc.segs) /\ Seg.op = "run" /\ Seg.mode = "iter"
    /\ IF Seg.entry = "none" THEN Consume(ThrowRec, "seg", j + 1, NoParser, used, 0)
       ELSE IF Refused THEN Consume(ThrowRec, "seg", j + 1, NoParser, NoLongerUsable, 0)
       ELSE \E s1 \in {InitState(P, Seg.words)} :
            Consume([k |-> "INIT", who |-> "", v |-> "", cbs |-> <<>>, code |-> 0,
                        nodes |-> Seen(P, s1)] @@ NoOut,
                       "iter", j, s1, NoLongerUsable, 0)

StepRec(ev, s1) ==
    [k |-> ev.k, who |-> ev.who, v |-> ev.v, cbs |-> ev.cbs, code |-> ev.code, nodes |-> Seen(P, s1)]
      @@ Out(P, ev.out)

DoStep(kind) ==
    /\ ph = "iter"
    /\ StepKind(P, s) = kind
    /\ \E r \in {Step(P, s)} :
       LET n1 == IF r.ev.k = "END" THEN n + 1 ELSE n
       IN Consume(StepRec(r.ev, r.s),
                  IF r.ev.k = "EXIT" THEN "end"
                  ELSE IF r.ev.k = "THROW" \/ n1 = 2 THEN "query" ELSE "iter",
                  j, r.s, used, IF r.ev.k = "THROW" \/ n1 = 2 THEN 0 ELSE n1)
ReadOptionStep == DoStep("option")
ReadArgumentStep == DoStep("argument")
ReadCommandStep == DoStep("command")
EndStep == DoStep("end")
AgainStep == DoStep("again")
RefuseStep == DoStep("refuse")

ParseAll ==
    /\ ph = "seg" /\ j <= Len(Sc.segs) /\ Seg.op = "run" /\ Seg.mode = "parse"
    /\ IF Refused THEN Consume(ThrowRec, "seg", j + 1, NoParser, NoLongerUsable, 0)
       ELSE \E r \in {RunAll(P, InitState(P, WordsOf(Seg)), <<>>, <<>>)} :
            Consume([k |-> r.k, who |-> "", v |-> r.v, cbs |-> r.cbs, code |-> r.code,
                        nodes |-> Seen(P, r.s)] @@ Out(P, r.out),
                       CASE r.k = "EXIT" -> "end" [] r.k = "THROW" -> "seg" [] OTHER -> "query",
                       IF r.k = "THROW" THEN j + 1 ELSE j, r.s, NoLongerUsable, 0)

(* Reading results *)
Ask ==
    /\ ph = "query" /\ n < Len(Seg.qs)
    /\ \E a \in {Answer(P, s, Seg, Seg.qs[n + 1])} :
       Consume(AnswerRec(P, a), IF a.t = "exit" THEN "end" ELSE "query", j, s, used, n + 1)
NextSegment ==
    /\ ph = "query" /\ n = Len(Seg.qs)
    /\ ph' = "seg" /\ j' = j + 1 /\ s' = NoParser /\ n' = 0
    /\ P' = Reprepare(j + 1) /\ UNCHANGED << l, used >>

Finish ==
    /\ ph = "end" \/ (ph = "seg" /\ j > Len(Sc.segs))
    /\ IF l < Len(Sc.recs) THEN Reject("surplus", Sc.recs[l + 1], <<>>)
       ELSE /\ ph' = "accepted"
            /\ TLCSet(1, TLCGet(1) + 1)
            /\ UNCHANGED << j, l, P, s, used, n >>

Next == /\ i' = i
        /\ \/ Build \/ WriteHelp \/ StartIterator \/ ParseAll
           \/ ReadOptionStep \/ ReadArgumentStep \/ ReadCommandStep
           \/ EndStep \/ AgainStep \/ RefuseStep
           \/ Ask \/ NextSegment \/ Finish

Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0)
Summary == PrintT("ACCEPTED " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(Scenarios)))
=============================================================================
