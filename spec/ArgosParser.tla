----------------------------- MODULE ArgosParser -----------------------------
(***************************************************************************)
(* The parser as a state machine.  One step of the machine is one call of *)
(* ArgumentIterator::next (ArgumentParser::parse is a sequence of them).  *)
(*                                                                        *)
(* P is a prepared definition (see ArgosDefs).  The state s is a record:  *)
(*   st     "OPTS" | "ARGS" | "DONE" | "ERR" | "THROWN" | "EXITED"        *)
(*   rest   the words that have not been looked at                        *)
(*   has    whether there is a current word, cur that word                *)
(*   tk,tx  unread part of the current word: "N" none, "G" the remaining  *)
(*          characters of a flag group, "V" the value after =             *)
(*   nodes  the results: one for each command that has been given         *)
(*   act    the chain of active commands, innermost last                  *)
(*   mode   how positional words are distributed: "open" in order,        *)
(*          "plan" the argument k receives plan[k], "none" not at all     *)
(*   got    the arguments that have received words, in order              *)
(*   bud    how many times callbacks may still insert words (a limit in   *)
(*          the test driver's callbacks)                                  *)
(*                                                                        *)
(* A step yields [s, ev], where ev is what the caller can observe of the  *)
(* call itself:                                                           *)
(*   k      "OPT", "ARG", "CMD", "UNK", "END" (next returned false),      *)
(*          "THROW" (an exception), "EXIT" (the process ended)            *)
(*   who,v  the label of the item and the value that were returned        *)
(*   cbs    the callback log                                              *)
(*   out    what was written, symbolically                                *)
(***************************************************************************)
EXTENDS ArgosDefs

StopTypes == {"HELP", "STOP", "EXIT"}

NewNode(c, up) == [c |-> c, up |-> up, rc |-> "NONE", stop |-> "", un |-> <<>>, vals |-> <<>>]

(******************************** Words ************************************)
Tok(ok, w, s) == [ok |-> ok, w |-> w, s |-> s]
NoWord(s) == Tok(FALSE, "", [s EXCEPT !.has = FALSE, !.cur = "", !.tk = "N", !.tx = ""])
Prefix(P) == IF P.style = "SLASH" THEN "/" ELSE "-"

(* The next flag, argument or command. *)
NextToken(P, s) ==
    IF s.has /\ s.tk = "G"
    THEN LET r == Drop(s.tx, 1) IN
         Tok(TRUE, "-" \o Ch(s.tx, 1), [s EXCEPT !.tk = (IF r = "" THEN "N" ELSE "G"), !.tx = r])
    ELSE IF s.rest = <<>> THEN NoWord(s)
    ELSE LET w == Head(s.rest)
             T(tok, tk, tx) == Tok(TRUE, tok, [s EXCEPT !.has = TRUE, !.cur = w, !.tk = tk,
                                                        !.tx = tx, !.rest = Tail(s.rest)])
         IN IF Len(w) <= 2 \/ Ch(w, 1) # Prefix(P) THEN T(w, "N", "")
            ELSE IF P.style = "STANDARD" /\ Ch(w, 2) # "-" THEN T(Take(w, 2), "G", Drop(w, 2))
            ELSE LET p == FindChar(w, "=", 1) IN
                 IF p = 0 THEN T(w, "N", "") ELSE T(Take(w, p), "V", Drop(w, p))

(* The value of the flag that was just read, or just the next word. *)
NextValue(s) ==
    IF s.has /\ s.tk # "N" THEN Tok(TRUE, s.tx, [s EXCEPT !.tk = "N", !.tx = ""])
    ELSE IF s.rest = <<>> THEN NoWord(s)
    ELSE Tok(TRUE, Head(s.rest), [s EXCEPT !.has = TRUE, !.cur = Head(s.rest), !.tk = "N",
                                           !.tx = "", !.rest = Tail(s.rest)])

(* The words that have not been consumed. *)
Remaining(s) == (IF s.has /\ s.tk = "G" THEN << "-" \o s.tx >> ELSE <<>>) \o s.rest

(* Words inserted by a callback come before the rest of a flag group. *)
InsertWords(s, words) ==
    IF s.has /\ s.tk = "G"
    THEN [s EXCEPT !.cur = Take(s.cur, Len(s.cur) - Len(s.tx)), !.tk = "N", !.tx = "",
                   !.rest = words \o << "-" \o s.tx >> \o s.rest]
    ELSE [s EXCEPT !.rest = words \o s.rest]

(******************************* Commands **********************************)
Inner(s) == s.act[Len(s.act)]                   \* node of the innermost command
CmdIx(s) == s.nodes[Inner(s)].c
Cmd(P, s) == P.cmds[CmdIx(s)]

(* Position in the chain of the innermost parent with multiple commands. *)
MultiParent(P, s) ==
    LET is == {i \in 1..(Len(s.act) - 1) : P.cmds[s.nodes[s.act[i]].c].multi}
    IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
(* The sibling command selected by a word, or 0 *)
Sibling(P, s, w) ==
    LET i == MultiParent(P, s) IN
    IF i = 0 THEN 0 ELSE FindCommand(P, P.cmds[s.nodes[s.act[i]].c], w)

(******************** Distribution of positional words *********************)
Received(s, k) == Count(s.got, k)

(* How many words from here on are positional arguments of the innermost  *)
(* command; rec have been received already.                               *)
RECURSIVE CountOpts(_, _, _, _, _)
RECURSIVE CountArgs(_, _, _, _, _)
IsEndOfArgs(P, s, w, n) ==
    \/ FindCommand(P, Cmd(P, s), w) # 0
    \/ n >= Cmd(P, s).lo /\ Sibling(P, s, w) # 0
CountOpts(P, s, t, rec, res) ==
    IF ~t.ok THEN res
    ELSE IF IsOptionWord(P, t.w)
    THEN LET k == FindFlag(P, Cmd(P, s), t.w) IN
         IF k = 0 THEN CountOpts(P, s, NextToken(P, t.s), rec, res)
         ELSE LET o == Cmd(P, s).items[k]
                  s2 == IF o.arg # "" THEN NextValue(t.s).s ELSE t.s
              IN IF o.type \in StopTypes \cup {"LAST_ARGUMENT"} THEN res
                 ELSE IF o.type = "LAST_OPTION" THEN CountArgs(P, s, NextValue(s2), rec, res)
                 ELSE CountOpts(P, s, NextToken(P, s2), rec, res)
    ELSE IF IsEndOfArgs(P, s, t.w, rec + res) THEN res
    ELSE CountOpts(P, s, NextToken(P, t.s), rec, res + 1)
CountArgs(P, s, t, rec, res) ==
    IF ~t.ok \/ IsEndOfArgs(P, s, t.w, rec + res) THEN res
    ELSE CountArgs(P, s, NextValue(t.s), rec, res + 1)
CountWords(P, s, st, rec) ==
    CASE st = "OPTS" -> CountOpts(P, s, NextToken(P, s), rec, 0)
      [] st = "ARGS" -> CountArgs(P, s, NextValue(s), rec, 0)
      [] OTHER -> 0

(* Everybody gets the minimum, what is left goes to the first arguments   *)
(* with room.  An argument that a later one has overtaken gets no more.   *)
Distribute(c, n, got) ==
    LET n0 == IF n < c.lo THEN 0 ELSE IF n > c.hi THEN c.hi - c.lo ELSE n - c.lo
        last == IF got = <<>> THEN 0 ELSE got[Len(got)]
        RECURSIVE Go(_, _)
        Go(k, left) ==
            IF k > c.na THEN <<>>
            ELSE LET a == c.items[k]
                     used == Count(got, k)
                     lo == Max(a.min, used)
                     hi == IF k < last THEN used ELSE a.max
                     left1 == left - Min(left, lo - a.min)
                     extra == Min(left1, Max(hi - lo, 0))
                 IN << lo + extra >> \o Go(k + 1, left1 - extra)
    IN Go(1, n0)

StartCounting(P, s) ==
    LET c == Cmd(P, s)
        s1 == [s EXCEPT !.got = <<>>, !.plan = <<>>, !.mode = "open"]
    IN IF ~c.count THEN s1
       ELSE [s1 EXCEPT !.mode = "plan", !.plan = Distribute(c, CountWords(P, s1, "OPTS", 0), <<>>)]
Recount(P, s, st) ==
    LET c == Cmd(P, s)
        rec == Len(s.got)
    IN IF ~c.count \/ s.mode = "none" THEN s
       ELSE [s EXCEPT !.plan = Distribute(c, rec + CountWords(P, s, st, rec), s.got)]

NextArgument(P, s) ==
    LET c == Cmd(P, s)
        room == {k \in 1..c.na : CASE s.mode = "open" -> Received(s, k) < c.items[k].max
                                   [] s.mode = "plan" -> Received(s, k) < s.plan[k]
                                   [] OTHER -> FALSE}
    IN IF room = {} THEN 0 ELSE CHOOSE k \in room : \A j \in room : k <= j
IsComplete(P, s) ==
    LET c == Cmd(P, s) IN
    CASE s.mode = "open" -> \A k \in 1..c.na : Received(s, k) >= c.items[k].min
      [] s.mode = "plan" -> \A k \in 1..c.na : Received(s, k) >= s.plan[k]
      [] OTHER -> TRUE

(******************************** Values ***********************************)
(* A value is << value id, text, item it came from >> *)
AppendVal(vals, vid, v, src) == Append(vals, << vid, v, src >>)
ClearVal(vals, vid) == SelectSeq(vals, LAMBDA x : x[1] # vid)
AssignVal(vals, vid, v, src) == AppendVal(ClearVal(vals, vid), vid, v, src)
ValuesOf(vals, vid) == SelectSeq(vals, LAMBDA x : x[1] = vid)
InitialValues(c) ==
    LET RECURSIVE Go(_)
        Go(k) == IF k > Len(c.items) THEN <<>>
                 ELSE (IF c.items[k].kind = "O" /\ c.items[k].init # ""
                       THEN << << c.vids[k], c.items[k].init, k >> >> ELSE <<>>) \o Go(k + 1)
    IN Go(1)
SetVals(s, vals) == [s EXCEPT !.nodes[Inner(s)].vals = vals]
Vals(s) == s.nodes[Inner(s)].vals

SrcLabel(c, src) == IF src = 0 THEN "" ELSE c.labels[src]
(* What a client sees: the list of << text, origin >> for each value *)
SeenVals(c, vals, vid) ==
    LET q == ValuesOf(vals, vid)
    IN [i \in 1..Len(q) |-> << q[i][2], SrcLabel(c, q[i][3]) >>]
(* ... for all items, in definition order. *)
AllVals(c, vals) == [k \in 1..Len(c.items) |-> SeenVals(c, vals, c.vids[k])]

(* ... for all items that are not generated. *)
UserVals(c, vals) ==
    LET ks == SelectSeq([k \in 1..Len(c.items) |-> k], LAMBDA k : c.items[k].id # 0)
    IN [j \in 1..Len(ks) |-> SeenVals(c, vals, c.vids[ks[j]])]

(* The value id that a name stands for, or 0 *)
NameVid(c, name) ==
    LET hits == {i \in 1..Len(c.names) : c.names[i][1] = name}
    IN IF hits = {} THEN 0 ELSE c.names[CHOOSE i \in hits : TRUE][2]

(***************************** Start and end *******************************)
Enter(P, s) == StartCounting(P, SetVals(s, InitialValues(Cmd(P, s))))

InitState(P, words) ==
    Enter(P, [st |-> "OPTS", rest |-> words, has |-> FALSE, cur |-> "", tk |-> "N", tx |-> "",
              nodes |-> << NewNode(1, 0) >>, act |-> << 1 >>, mode |-> "open", plan |-> <<>>,
              got |-> <<>>, bud |-> P.bud])

Ev(k, who, v) == [k |-> k, who |-> who, v |-> v, cbs |-> <<>>, out |-> <<>>, code |-> 0]
Res(s, ev) == [s |-> s, ev |-> ev]

AddUnprocessed(s, ws) == [s EXCEPT !.nodes[Inner(s)].un = @ \o ws]
SetRc(s, rc, which) ==
    [s EXCEPT !.nodes = [i \in 1..Len(s.nodes) |->
        IF i \in which THEN [s.nodes[i] EXCEPT !.rc = rc] ELSE s.nodes[i]]]

(* A parse error in command c (an index). *)
Fail(P, s, c, msg, ev) ==
    LET out == Append(ev.out, << "error", c, msg >>) IN
    IF P.autoexit
    THEN Res([s EXCEPT !.st = "EXITED"],
             [ev EXCEPT !.k = "EXIT", !.who = "", !.v = "", !.out = out, !.code = P.ecode])
    ELSE Res(LET s1 == AddUnprocessed(s, Remaining(s))
                 s2 == SetRc(s1, "FAILURE", Range(s.act))
             IN [s2 EXCEPT !.st = "ERR"],
             [ev EXCEPT !.k = "END", !.who = "", !.v = "", !.out = out])

(* The first mandatory option without a value: << node, item >> or <<>>.  *)
Missing(P, s) ==
    LET Lacks(n) == LET c == P.cmds[s.nodes[n].c] IN
            {k \in 1..Len(c.items) : c.items[k].kind = "O" /\ ~c.items[k].optional
                                     /\ ValuesOf(s.nodes[n].vals, c.vids[k]) = <<>>}
        RECURSIVE Go(_)
        Go(n) == IF n > Len(s.nodes) THEN <<>>
                 ELSE IF Lacks(n) # {} THEN << n, CHOOSE k \in Lacks(n) : \A j \in Lacks(n) : k <= j >>
                 ELSE Go(n + 1)
    IN Go(1)
HasSubNode(s, n) == \E i \in 1..Len(s.nodes) : s.nodes[i].up = n

(* What is wrong with ending here: << command, message >> or <<>>.        *)
EndError(P, s) ==
    LET m == Missing(P, s)
        c == Cmd(P, s)
    IN IF m # <<>>
       THEN << s.nodes[m[1]].c, "Mandatory option is missing: "
                \o Join(P.cmds[s.nodes[m[1]].c].items[m[2]].flags, ", ") >>
       ELSE IF c.req /\ ~HasSubNode(s, Inner(s)) THEN << CmdIx(s), "No command was given." >>
       ELSE IF ~IsComplete(P, s)
       THEN << CmdIx(s), "Too few arguments. Expected " \o (IF c.lo = c.hi THEN "" ELSE "at least ")
                \o ToString(c.lo) \o ", received " \o ToString(Len(s.got)) \o "." >>
       ELSE <<>>
Succeed(s) == [SetRc(s, "SUCCESS", 1..Len(s.nodes)) EXCEPT !.st = "DONE"]

AtEnd(P, s) ==
    LET e == EndError(P, s) IN
    IF e = <<>> THEN Res(Succeed(s), Ev("END", "", ""))
    ELSE Fail(P, s, e[1], e[2], Ev("END", "", ""))

(******************************* Callbacks *********************************)
(* What a callback sees when it reads a single value; k is the item that  *)
(* it asks for, 0 if it uses a name.                                      *)
ReadOne(c, vals, vid, k) ==
    LET q == ValuesOf(vals, vid) IN
    IF Len(q) > 1 THEN "unknown"
    ELSE IF q = <<>> THEN "none " \o SrcLabel(c, k)
    ELSE "=" \o q[1][2] \o " " \o SrcLabel(c, q[1][3])

(* A script is the sequence of actions a callback performs each time it   *)
(* is called.  x collects the effects: s, the words to insert, the log of *)
(* the actions and the error reported, if any.                            *)
ScriptAct(P, k, a, x) ==
    LET s == x.s
        c == Cmd(P, s)
        it == c.items[k]
        Put(vals) == [x EXCEPT !.s = SetVals(s, vals), !.log = Append(@, "ok")]
        Skip(r) == [x EXCEPT !.log = Append(@, r)]
        ByName(F(_)) == LET vid == NameVid(c, a[2]) IN
                        IF vid = 0 THEN Skip("unknown") ELSE F(vid)
        vid == c.vids[k]
    IN CASE a[1] = "assign" -> ByName(LAMBDA id : Put(AssignVal(Vals(s), id, a[3], 0)))
         [] a[1] = "append" -> ByName(LAMBDA id : Put(AppendVal(Vals(s), id, a[3], 0)))
         [] a[1] = "clear" -> ByName(LAMBDA id : Put(ClearVal(Vals(s), id)))
         [] a[1] = "has" -> ByName(LAMBDA id : Skip(IF ValuesOf(Vals(s), id) = <<>> THEN "no" ELSE "yes"))
         [] a[1] \in {"vassign", "vappend", "vclear"} /\ vid = 0 -> Skip("skip")
         [] a[1] = "vassign" -> Put(AssignVal(Vals(s), vid, a[2], k))
         [] a[1] = "vappend" -> Put(AppendVal(Vals(s), vid, a[2], k))
         [] a[1] = "vclear" -> Put(ClearVal(Vals(s), vid))
         \* How many values there are decides whether the value can be read.
         [] a[1] = "read" -> ByName(LAMBDA id : Skip(ReadOne(c, Vals(s), id, 0)))
         [] a[1] = "vread" -> Skip(IF vid = 0 THEN "skip" ELSE ReadOne(c, Vals(s), vid, k))
         [] a[1] = "vhas" -> Skip(IF vid = 0 THEN "skip" ELSE IF ValuesOf(Vals(s), vid) = <<>> THEN "no" ELSE "yes")
         [] a[1] = "name" -> Skip(P.cmds[1].name)
         [] a[1] = "say" -> [x EXCEPT !.out = Append(@, << "say", a[2] >>), !.log = Append(@, "ok")]
         [] a[1] = "insert" -> IF s.bud = 0 THEN Skip("skip")
                               ELSE [x EXCEPT !.s.bud = @ - 1, !.ins = @ \o Tail(a), !.log = Append(@, "ok")]
         [] a[1] = "error" -> [x EXCEPT !.err = << CmdIx(s), a[2] >>]
         [] a[1] = "verror" ->
              [x EXCEPT !.err = << CmdIx(s), Join(ItemNames(it), ", ") \o ": " \o a[2] >>]
         [] a[1] = "throw" -> [x EXCEPT !.thr = << a[2] >>]
         [] a[1] = "version" -> [x EXCEPT !.out = Append(@, << "version" >>)]
         [] OTHER -> Skip("ok")

RECURSIVE RunActs(_, _, _, _)
RunActs(P, k, acts, x) ==
    IF acts = <<>> \/ x.err # <<>> \/ x.thr # <<>> THEN x
    ELSE RunActs(P, k, Tail(acts), ScriptAct(P, k, Head(acts), x))

(* One callback, which sees the value v of item k. *)
RunScript(P, s, ev, script, kind, k, v, st) ==
    IF script = <<>> THEN [s |-> s, ev |-> ev, thrown |-> FALSE, thr |-> <<>>]
    ELSE LET c == Cmd(P, s)
             x == RunActs(P, k, script, [s |-> s, ins |-> <<>>, log |-> <<>>, out |-> <<>>, err |-> <<>>,
                                         thr |-> <<>>])
             entry == [cb |-> kind, who |-> c.labels[k], v |-> v,
                       vals |-> SeenVals(c, Vals(x.s), c.vids[k]),
                       all |-> IF c.items[k].id = 0 THEN <<>> ELSE UserVals(c, Vals(x.s)),
                       acts |-> x.log]
             ev1 == [ev EXCEPT !.cbs = IF script[1][1] = "version" THEN @ ELSE Append(@, entry),
                               !.out = @ \o x.out
                                       \o (IF x.err = <<>> THEN <<>> ELSE << << "error", x.err[1], x.err[2] >> >>)]
             s1 == IF x.ins = <<>> \/ x.err # <<>> \/ x.thr # <<>> THEN x.s
                   ELSE Recount(P, InsertWords(x.s, x.ins), st)
         IN [s |-> s1, ev |-> ev1, thrown |-> x.err # <<>> \/ x.thr # <<>>, thr |-> x.thr]

(* The item's own callback, then the parser-wide one. *)
RunCallbacks(P, s, ev, k, v, st) ==
    LET it == Cmd(P, s).items[k]
        a == RunScript(P, s, ev, it.cb, "own", k, v, st)
    IN IF a.thrown THEN a
       ELSE RunScript(P, a.s, a.ev, IF it.kind = "A" THEN P.acb ELSE P.ocb, "all", k, v, st)

(* An error that a callback reports, or an exception of its own: r.thr.   *)
Thrown(P, r) ==
    IF r.thr # <<>>
    THEN Res([r.s EXCEPT !.st = "THROWN"], [r.ev EXCEPT !.k = "THROW", !.who = "", !.v = r.thr[1]])
    ELSE IF P.autoexit
    THEN Res([r.s EXCEPT !.st = "EXITED"], [r.ev EXCEPT !.k = "EXIT", !.who = "", !.v = "", !.code = P.ecode])
    ELSE Res([r.s EXCEPT !.st = "THROWN"], [r.ev EXCEPT !.k = "THROW", !.who = "", !.v = ""])

(******************************** Options **********************************)
(* A known option: takes its value, performs its operation. *)
Operate(P, s, k) ==
    LET c == Cmd(P, s)
        o == c.items[k]
        vid == c.vids[k]
        takes == o.op \in {"ASSIGN", "APPEND"} /\ o.const = ""
        t == NextValue(s)
        s1 == IF takes THEN t.s ELSE s
        v == IF takes THEN t.w ELSE IF o.const # "" THEN o.const ELSE ""
        vals == CASE o.op = "ASSIGN" -> AssignVal(Vals(s), vid, v, k)
                  [] o.op = "APPEND" -> AppendVal(Vals(s), vid, v, k)
                  [] o.op = "CLEAR" -> ClearVal(Vals(s), vid)
                  [] OTHER -> Vals(s)
    IN IF takes /\ ~t.ok THEN [ok |-> FALSE, v |-> "", s |-> t.s]
       ELSE [ok |-> TRUE, v |-> IF takes THEN t.w ELSE "", s |-> SetVals(s1, vals)]

StopAll(s, label) ==
    [s EXCEPT !.st = "DONE",
              !.nodes = [i \in 1..Len(s.nodes) |->
                 IF i \in Range(s.act) THEN [s.nodes[i] EXCEPT !.rc = "STOP", !.stop = label]
                 ELSE s.nodes[i]]]
CopyRemaining(s) == AddUnprocessed(s, Remaining(s))

(* Back to the chain's i'th command, which expects another sub-command. *)
Reactivate(s, i) == [s EXCEPT !.act = SubSeq(s.act, 1, i), !.st = "ARGS", !.mode = "none",
                              !.plan = <<>>, !.got = <<>>]

KnownOption(P, s, flag, k) ==
    LET c == Cmd(P, s)
        o == c.items[k]
        op == Operate(P, s, k)
        st == CASE o.type = "LAST_OPTION" -> "ARGS"
                [] o.type = "NORMAL" -> s.st
                [] OTHER -> "DONE"
        cb == RunCallbacks(P, op.s, Ev("OPT", c.labels[k], op.v), k, op.v, st)
        s2 == cb.s
        ev == cb.ev
        help == [ev EXCEPT !.out = Append(@, << "help", CmdIx(s) >>)]
        leave(e) == IF P.autoexit
                    THEN Res([s2 EXCEPT !.st = "EXITED"],
                             [e EXCEPT !.k = "EXIT", !.who = "", !.v = "", !.code = P.ncode])
                    ELSE Res(CopyRemaining(StopAll(s2, c.labels[k])), e)
    IN IF ~op.ok THEN Fail(P, op.s, CmdIx(s), flag \o ": no value given.", Ev("END", "", ""))
       ELSE IF cb.thrown THEN Thrown(P, cb)
       ELSE CASE o.type = "NORMAL" -> Res(s2, ev)
              [] o.type = "LAST_OPTION" -> Res([s2 EXCEPT !.st = "ARGS"], ev)
              [] o.type = "HELP" -> leave(help)
              [] o.type = "EXIT" -> leave(ev)
              [] o.type = "STOP" -> Res(CopyRemaining(StopAll(s2, c.labels[k])), ev)
              [] o.type = "LAST_ARGUMENT" ->
                   LET e == EndError(P, s2)
                       i == MultiParent(P, s2)
                   IN IF e # <<>> THEN Fail(P, s2, e[1], e[2], ev)
                      ELSE IF i # 0 THEN Res(Reactivate(Succeed(s2), i), ev)
                      ELSE Res(CopyRemaining(Succeed(s2)), ev)

ReadOption(P, s, flag) ==
    LET k == FindFlag(P, Cmd(P, s), flag) IN
    IF k # 0 THEN KnownOption(P, s, flag, k)
    ELSE IF P.igo /\ StartsWith(s.cur, flag)
    THEN Res(AddUnprocessed(s, << s.cur >>), Ev("UNK", "", s.cur))
    ELSE Fail(P, s, CmdIx(s), "Unknown option: " \o s.cur, Ev("END", "", ""))

(************************* Arguments and commands **************************)
EnterCommand(P, s, c) ==
    LET n == Len(s.nodes) + 1
        s1 == [s EXCEPT !.nodes = Append(@, NewNode(c, Inner(s))), !.act = Append(@, n)]
    IN Res([Enter(P, s1) EXCEPT !.st = "OPTS"], Ev("CMD", "#" \o ToString(P.cmds[c].id), s.cur))

ReadArgument(P, s, w) ==
    LET sib == IF IsComplete(P, s) THEN Sibling(P, s, w) ELSE 0
        k == NextArgument(P, s)
        c == Cmd(P, s)
    IN IF sib # 0 THEN EnterCommand(P, Reactivate(s, MultiParent(P, s)), sib)
       ELSE IF k # 0
       THEN LET s1 == [SetVals(s, AppendVal(Vals(s), c.vids[k], w, k)) EXCEPT !.got = Append(@, k)]
                cb == RunCallbacks(P, s1, Ev("ARG", c.labels[k], w), k, w, s.st)
            IN IF cb.thrown THEN Thrown(P, cb) ELSE Res(cb.s, cb.ev)
       ELSE IF P.iga THEN Res(AddUnprocessed(s, << w >>), Ev("UNK", "", s.cur))
       ELSE Fail(P, s, CmdIx(s), "Too many arguments, starting from \"" \o w \o "\".", Ev("END", "", ""))

ReadCommand(P, s, w) ==
    LET c == FindCommand(P, Cmd(P, s), w) IN
    IF c # 0 THEN EnterCommand(P, s, c)
    ELSE Fail(P, s, CmdIx(s), "Unknown command: " \o w, Ev("END", "", ""))

(****************************** The steps **********************************)
(* What the next call of next() will do, and doing it. *)
Reading(P, s) == IF s.st = "OPTS" THEN NextToken(P, s) ELSE NextValue(s)
StepKind(P, s) ==
    CASE s.st = "ERR" -> "refuse"
      [] s.st = "DONE" -> "again"
      [] s.st \in {"THROWN", "EXITED"} -> "none"
      [] OTHER -> LET t == Reading(P, s) IN
                  IF ~t.ok THEN "end"
                  ELSE IF s.st = "OPTS" /\ IsOptionWord(P, t.w) THEN "option"
                  ELSE IF Cmd(P, s).subs = <<>> THEN "argument"
                  ELSE "command"
Step(P, s) ==
    LET kind == StepKind(P, s)
        t == Reading(P, s)
    IN CASE kind = "refuse" -> Res(s, Ev("THROW", "", ""))
         [] kind = "again" -> Res(s, Ev("END", "", ""))
         [] kind = "end" -> AtEnd(P, t.s)
         [] kind = "option" -> ReadOption(P, t.s, t.w)
         [] kind = "argument" -> ReadArgument(P, t.s, t.w)
         [] kind = "command" -> ReadCommand(P, t.s, t.w)
Final(s) == s.st \in {"DONE", "ERR", "THROWN", "EXITED"}

(* What a client sees of the results: one record per parsed command. *)
SeenNode(P, n) == LET c == P.cmds[n.c] IN
    [c |-> "#" \o ToString(c.id), up |-> n.up, rc |-> n.rc, stop |-> n.stop, un |-> n.un,
     vals |-> AllVals(c, n.vals)]
Seen(P, s) == [i \in 1..Len(s.nodes) |-> SeenNode(P, s.nodes[i])]
=============================================================================
