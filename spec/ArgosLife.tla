------------------------------- MODULE ArgosLife -------------------------------
(***************************************************************************)
(* Life of the objects that a client handles: arguments, options,         *)
(* commands, parsers, iterators and results.                              *)
(*                                                                        *)
(* A scenario is a sequence of operations on named variables, whose first *)
(* letter is their kind: A, O, C, P, I, R.  The state is                  *)
(*   slots  the variables: "none" there is no such object, "moved" its    *)
(*          contents have been moved to another object (or used up by a   *)
(*          parse), "live" with its contents v.                           *)
(*   its    the iterators that have been made: definition and state.      *)
(*          The variables of kind I and R refer to them.                  *)
(* Contents are values: nothing that is done to one variable changes      *)
(* another one.  The exception is what the iterator's user wants: results *)
(* follow the iterator that they come from.                               *)
(*                                                                        *)
(* The contents of a command are a tree: sub-commands are in kids.        *)
(* "define" makes a parser with a whole definition at once.               *)
(***************************************************************************)
EXTENDS ArgosRun

Scenarios == JsonDeserialize(IOEnv.TRACES)

VARIABLES i, ph, l, slots, its
vars == << i, ph, l, slots, its >>

Sc == Scenarios[i]
KindOf(name) == Ch(name, 1)

None == [k |-> "none", v |-> <<>>]
Moved == [k |-> "moved", v |-> <<>>]
Live(v) == [k |-> "live", v |-> v]

(****************************** New objects ********************************)
NewArg(name) ==
    [name |-> name, help |-> "", section |-> "", addsec |-> "", alias |-> "", min |-> 1, max |-> 1,
     vis |-> "NORMAL", id |-> 0, cb |-> <<>>]
NewOpt(flags) ==
    [flags |-> flags, help |-> "", section |-> "", addsec |-> "", alias |-> "", arg |-> "", const |-> "",
     init |-> "", op |-> "ASSIGN", type |-> "NORMAL", vis |-> "NORMAL", optional |-> TRUE, id |-> 0, cb |-> <<>>]
NewCmd(name) ==
    [name |-> name, texts |-> <<>>, vis |-> "NORMAL", section |-> "", addsec |-> "", cursec |-> "", id |-> 0,
     multi |-> FALSE, req |-> "none", args |-> <<>>, opts |-> <<>>, kids |-> <<>>]
NewParser(name) ==
    [style |-> "STANDARD", abbrev |-> FALSE, ci |-> FALSE, genhelp |-> TRUE, igo |-> FALSE, iga |-> FALSE,
     autoexit |-> TRUE, ecode |-> 64, ncode |-> 0, width |-> 0, splits |-> <<>>, version |-> "",
     ocb |-> <<>>, acb |-> <<>>, bud |-> 0, stream |-> FALSE, top |-> NewCmd(name)]
(* The driver turns auto_exit off and sets the stream. *)
Tame(p) == [p EXCEPT !.autoexit = FALSE, !.stream = TRUE]

Arg1(args, default) == IF args = <<>> THEN default ELSE args[1]
Fresh(kind, args) ==
    CASE kind = "A" -> NewArg(Arg1(args, ""))
      [] kind = "O" -> NewOpt(args)
      [] kind = "C" -> NewCmd(Arg1(args, ""))
      [] OTHER -> NewParser(IF args = <<>> THEN "UNINITIALIZED"
                            ELSE IF Len(args) = 2 THEN BaseName(args[1]) ELSE args[1])

(* What a parser tells about itself *)
Getters(p) ==
    << p.abbrev, p.autoexit, p.ci, p.genhelp, p.style, p.top.req, p.top.multi, p.iga, p.igo,
       p.acb # <<>>, p.ocb # <<>>, p.stream, p.top.name, p.top.cursec >>

(****************************** Modification *******************************)
Yes(v) == [ok |-> TRUE, v |-> v]
No(v) == [ok |-> FALSE, v |-> v]

SetArg(a, f, x) ==
    CASE f = "helpf" -> Yes([a EXCEPT !.help = x])
      [] f = "count" -> LET lo == x[1]  hi == x[Len(x)] IN
                        IF hi = 0 \/ hi < lo THEN No(a) ELSE Yes([a EXCEPT !.min = lo, !.max = hi])
      [] f \in {"optional", "mandatory"} ->
           LET opt == IF f = "optional" THEN x ELSE ~x
           IN Yes([a EXCEPT !.min = IF opt THEN 0 ELSE Max(@, 1)])
      [] OTHER -> Yes([a EXCEPT ![f] = x])
SetOpt(o, f, x) ==
    CASE f = "helpf" -> Yes([o EXCEPT !.help = x])
      [] f = "flag" -> Yes([o EXCEPT !.flags = << x >>])
      [] f = "mandatory" -> Yes([o EXCEPT !.optional = ~x])
      [] f \in {"consti", "constl"} -> Yes([o EXCEPT !.const = ToString(x)])
      [] f = "constc" -> Yes([o EXCEPT !.const = x])
      [] f = "constb" -> Yes([o EXCEPT !.const = IF x THEN "1" ELSE "0"])
      [] OTHER -> Yes([o EXCEPT ![f] = x])
SetCmd(c, f, x) ==
    CASE f = "text" -> Yes([c EXCEPT !.texts = Append(@, << x[1], x[2] >>)])
      [] f = "req" -> Yes([c EXCEPT !.req = IF x THEN "true" ELSE "false"])
      [] OTHER -> Yes([c EXCEPT ![f] = x])
SetParser(p, f, x) ==
    CASE f = "style" -> IF x # p.style /\ p.top.opts # <<>> THEN No(p) ELSE Yes([p EXCEPT !.style = x])
      [] f \in {"name", "text", "multi", "req"} -> Yes([p EXCEPT !.top = SetCmd(@, f, x).v])
      [] f \in {"cursec", "section"} -> Yes([p EXCEPT !.top.cursec = x])
      [] f = "codes" -> Yes([p EXCEPT !.ecode = x[1], !.ncode = x[2]])
      [] f = "split" -> Yes([p EXCEPT !.splits = Append(@, x)])
      [] OTHER -> Yes([p EXCEPT ![f] = x])
SetField(kind, v, f, x) ==
    CASE kind = "A" -> SetArg(v, f, x) [] kind = "O" -> SetOpt(v, f, x)
      [] kind = "C" -> SetCmd(v, f, x) [] OTHER -> SetParser(v, f, x)


(**************************** Putting together *****************************)
Placed(c, it) == IF it.section = "" THEN [it EXCEPT !.section = c.cursec] ELSE it
AddTo(c, kind, it) ==
    CASE kind = "A" -> IF c.kids # <<>> \/ it.name = "" THEN No(c)
                       ELSE Yes([c EXCEPT !.args = Append(@, Placed(c, it))])
      [] kind = "O" -> IF it.flags = <<>> THEN No(c) ELSE Yes([c EXCEPT !.opts = Append(@, Placed(c, it))])
      [] OTHER -> IF c.args # <<>> \/ it.name = "" THEN No(c)
                  ELSE Yes([c EXCEPT !.kids = Append(@, Placed(c, it))])
TextIds(c) == {c.texts[k][1] : k \in 1..Len(c.texts)}
CopyInto(c, from) ==
    IF (c.args # <<>> \/ from.args # <<>>) /\ (c.kids # <<>> \/ from.kids # <<>>) THEN No(c)
    ELSE IF TextIds(c) \cap TextIds(from) # {} THEN No(c)
    ELSE Yes([c EXCEPT !.args = @ \o from.args, !.opts = @ \o from.opts, !.kids = @ \o from.kids,
                      !.texts = @ \o from.texts, !.multi = @ \/ from.multi])
(* A target is a command or a parser. *)
InTarget(kind, v, Op(_)) ==
    IF kind = "C" THEN Op(v)
    ELSE LET r == Op(v.top) IN [ok |-> r.ok, v |-> [v EXCEPT !.top = r.v]]

(* The commands of a tree in pre-order; the root gets number at. *)
RECURSIVE Flatten(_, _, _)
Flatten(t, parent, at) ==
    LET One(a, kid) == LET f == TLCEval(Flatten(kid, at, a.next))
                       IN [subs |-> Append(a.subs, a.next), next |-> a.next + Len(f), cmds |-> a.cmds \o f]
        r == FoldLeft(One, [subs |-> <<>>, next |-> at + 1, cmds |-> <<>>], t.kids)
        root == [name |-> t.name, texts |-> t.texts, vis |-> t.vis, section |-> t.section, addsec |-> "",
                 cursec |-> t.cursec, id |-> t.id, multi |-> t.multi, req |-> t.req, args |-> t.args,
                 opts |-> t.opts, parent |-> parent, subs |-> r.subs]
    IN << root >> \o r.cmds
PrepareParser(p) == Prepare(p @@ [cmds |-> Flatten(p.top, 0, 1)])

(* An item is looked at by putting a copy of it in a parser of its own.   *)
Probed(kind, v) ==
    LET p == [Tame(NewParser("probe")) EXCEPT !.genhelp = FALSE]
        r == AddTo(p.top, kind, v)
        q == PrepareParser([p EXCEPT !.top = r.v])
    IN IF ~r.ok THEN [ok |-> FALSE, p |-> <<>>] ELSE [ok |-> q.ok, p |-> q]

(******************************** Operations *******************************)
(* An operation yields what is recorded, the variables and the iterators. *)
Rec(k, t, r) == [k |-> k, t |-> t, r |-> r] @@ NoOut
Res3(rec, sl, it) == [rec |-> rec, slots |-> sl, its |-> it]
ThrowRec == [k |-> "THROW", who |-> "", v |-> "", cbs |-> <<>>, code |-> 0] @@ NoOut
Is(name, k) == slots[name].k = k
Val(name) == slots[name].v
Skipped(op) == Res3(Rec(op.op, "skip", ""), slots, its)
Thrown2(op) == Res3(Rec(op.op, "throw", ""), slots, its)
Done(op, sl) == Res3(Rec(op.op, "ok", ""), sl, its)
Store(name, v) == [slots EXCEPT ![name] = v]

NewOp(op) ==
    LET v == Fresh(KindOf(op.s), op.args) IN
    IF KindOf(op.s) = "P" THEN Res3(Rec("new", "ok", Getters(v)), Store(op.s, Live(Tame(v))), its)
    ELSE Done(op, Store(op.s, Live(v)))

(* A whole parser at once *)
RECURSIVE TreeOf(_, _)
TreeOf(D, c) ==
    LET x == D.cmds[c]
        kids == TLCEval([k \in 1..Len(x.subs) |-> TreeOf(D, x.subs[k])])
    IN [name |-> IF c = 1 /\ x.name = "" THEN "UNINITIALIZED" ELSE x.name,
        section |-> IF x.section = "" /\ c # 1 THEN x.addsec ELSE x.section, kids |-> kids] @@ x
ParserOf(D) == [f \in DOMAIN D \ {"cmds"} |-> D[f]] @@ [top |-> TreeOf(D, 1), knows |-> TRUE]
DefineOp(op) ==
    IF \A c \in 1..Len(op.D.cmds) : AddOk(op.D, c) THEN Done(op, Store(op.s, Live(ParserOf(op.D))))
    ELSE Thrown2(op)

SetOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Thrown2(op)
    ELSE LET r == SetField(KindOf(op.s), Val(op.s), op.f, op.v) IN
         IF r.ok THEN Done(op, Store(op.s, Live(r.v))) ELSE Thrown2(op)

(* Copying what has been moved gives something that has been moved. *)
CopyOp(op) == IF Is(op.from, "none") THEN Skipped(op) ELSE Done(op, Store(op.to, slots[op.from]))
MoveOp(op) ==
    IF Is(op.from, "none") THEN Skipped(op)
    ELSE IF op.from = op.to THEN Done(op, slots)
    ELSE Done(op, [slots EXCEPT ![op.to] = slots[op.from], ![op.from] = Moved])

(* After an addition that is refused, the item is discarded. *)
AddOp(op) ==
    IF Is(op.s, "none") \/ Is(op.to, "none") THEN Skipped(op)
    ELSE IF Is(op.to, "moved") \/ Is(op.s, "moved")
    THEN Res3(Rec("add", "throw", ""), Store(op.s, None), its)
    ELSE LET Into(c) == AddTo(c, KindOf(op.s), Val(op.s))
             r == InTarget(KindOf(op.to), Val(op.to), Into)
             src == IF op.how = "copy" THEN slots[op.s] ELSE Moved
         IN IF r.ok THEN Done(op, [slots EXCEPT ![op.to] = Live(r.v), ![op.s] = src])
            ELSE Res3(Rec("add", "throw", ""), Store(op.s, None), its)

(* ... and when copying is refused, the target. *)
CopyFromOp(op) ==
    IF Is(op.from, "none") \/ Is(op.to, "none") THEN Skipped(op)
    ELSE IF Is(op.to, "moved") \/ Is(op.from, "moved") THEN Thrown2(op)
    ELSE LET Into(c) == CopyInto(c, Val(op.from))
             r == InTarget(KindOf(op.to), Val(op.to), Into)
         IN IF r.ok THEN Done(op, Store(op.to, Live(r.v)))
            ELSE Res3(Rec("copy_from", "throw", ""), Store(op.to, None), its)

DropOp(op) == IF Is(op.s, "none") THEN Skipped(op) ELSE Done(op, Store(op.s, None))

GetOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Res3(Rec("get", "ok", [k \in 1..14 |-> "throw"]), slots, its)
    ELSE Res3(Rec("get", "ok", Getters(Val(op.s))), slots, its)

HelpOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Thrown2(op)
    ELSE LET p == TLCEval(PrepareParser(Val(op.s)))
             c == HelpPath(p, op.path)
         IN IF c = 0 THEN Thrown2(op)
            ELSE Res3([k |-> "help", t |-> "ok", r |-> ""] @@ Out(p, << << "help", c >> >>), slots, its)

ProbeOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Thrown2(op)
    ELSE LET q == TLCEval(Probed(KindOf(op.s), Val(op.s))) IN
         IF ~q.ok THEN Thrown2(op)
         ELSE Res3([k |-> "probe", t |-> "ok", r |-> CommandViewOf(q.p, 1)]
                     @@ Out(q.p, << << "help", 1 >> >>
                                 \o (IF KindOf(op.s) = "C" THEN << << "help", 2 >> >> ELSE <<>>)),
                   slots, its)

(* The driver's callbacks don't know the other items of parsers that are put together bit by bit. *)
Plain(p, cbs) == IF "knows" \in DOMAIN p THEN cbs ELSE [k \in 1..Len(cbs) |-> [cbs[k] EXCEPT !.all = <<>>]]
Renamed(p, op) ==
    IF op.entry = "argv" /\ op.argv0 # "" /\ p.top.name = "UNINITIALIZED"
    THEN [p EXCEPT !.top.name = BaseName(op.argv0)] ELSE p
RunOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Res3(ThrowRec, slots, its)
    ELSE
    LET p == TLCEval(PrepareParser(Renamed(Val(op.s), op)))
        left == IF op.konst THEN slots ELSE Store(op.s, Moved)
        n == Len(its) + 1
    IN IF ~p.ok THEN Res3(ThrowRec, left, its)
       ELSE IF KindOf(op.to) = "I"
       THEN LET s == TLCEval(InitState(p, op.words)) IN
            Res3([k |-> "INIT", who |-> "", v |-> "", cbs |-> <<>>, code |-> 0, nodes |-> Seen(p, s)] @@ NoOut,
                 [left EXCEPT ![op.to] = Live(n)], Append(its, [p |-> p, s |-> s, kept |-> <<>>]))
       ELSE LET r == TLCEval(RunAll(p, InitState(p, op.words), <<>>, <<>>))
                rec == [k |-> r.k, who |-> "", v |-> r.v, cbs |-> Plain(p, r.cbs), code |-> r.code,
                        nodes |-> Seen(p, r.s)] @@ Out(p, r.out)
            IN IF r.k = "THROW" THEN Res3(rec, left, its)
               ELSE Res3(rec, [left EXCEPT ![op.to] = Live(n)], Append(its, [p |-> p, s |-> r.s, kept |-> <<>>]))

(* When an iterator throws it is discarded. *)
NextOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Res3(ThrowRec, Store(op.s, None), its)
    ELSE LET x == its[Val(op.s)]
             r == TLCEval(Step(x.p, x.s))
             rec == [k |-> r.ev.k, who |-> r.ev.who, v |-> r.ev.v, cbs |-> Plain(x.p, r.ev.cbs), code |-> r.ev.code,
                     nodes |-> Seen(x.p, r.s)] @@ Out(x.p, r.ev.out)
         IN Res3(rec, IF r.ev.k = "THROW" THEN Store(op.s, None) ELSE slots, 
                 [its EXCEPT ![Val(op.s)].s = r.s,
                             ![Val(op.s)].kept = IF r.ev.k \in {"OPT", "ARG"} THEN Append(@, << r.ev.who, r.ev.v >>) ELSE @])

ResultsOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Thrown2(op)
    ELSE Done(op, Store(op.to, Live(Val(op.s))))
LookOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE LET x == its[Val(op.s)] IN
         Res3(Rec("look", "ok", CommandViewOf(x.p, 1)) @@ [nodes |-> Seen(x.p, x.s)], slots, its)

(* Questions can be asked at any time, also while the iteration goes on. *)
AskOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Thrown2(op)
    ELSE LET x == its[Val(op.s)] IN Res3(AnswerRec(x.p, Answer(x.p, x.s, op, op.q)), slots, its)
(* What an iterator has returned stays what it was. *)
KeptOp(op) ==
    IF Is(op.s, "none") THEN Skipped(op)
    ELSE IF Is(op.s, "moved") THEN Thrown2(op)
    ELSE Res3(Rec("kept", "ok", its[Val(op.s)].kept), slots, its)

Effect(op) ==
    CASE op.op = "new" -> NewOp(op) [] op.op = "set" -> SetOp(op) [] op.op = "copy" -> CopyOp(op)
      [] op.op = "move" -> MoveOp(op) [] op.op = "add" -> AddOp(op) [] op.op = "copy_from" -> CopyFromOp(op)
      [] op.op = "drop" -> DropOp(op) [] op.op = "get" -> GetOp(op) [] op.op = "help" -> HelpOp(op)
      [] op.op = "probe" -> ProbeOp(op) [] op.op = "run" -> RunOp(op) [] op.op = "next" -> NextOp(op)
      [] op.op = "results" -> ResultsOp(op) [] op.op = "define" -> DefineOp(op) [] op.op = "ask" -> AskOp(op) [] op.op = "kept" -> KeptOp(op) [] OTHER -> LookOp(op)

(******************************* Behaviours ********************************)
Names == {"A1", "A2", "A3", "O1", "O2", "O3", "C1", "C2", "C3", "P1", "P2", "I1", "I2", "R1", "R2"}
(* Scenarios can have threads, each with iterators and results of its own.  *)
(* What they do is recorded one thread at a time: const operations on one   *)
(* parser are independent of each other, so that any order is as good.      *)
AllNames == Names \cup {"I3", "I4", "R3", "R4"}
Init == /\ i \in 1..Len(Scenarios)
        /\ ph = "run" /\ l = 0 /\ its = <<>>
        /\ slots = [x \in AllNames |-> None]

Reject(why, rec, exp) ==
    /\ PrintT("REJECT " \o ToJson([i |-> i, l |-> l, why |-> why, rec |-> rec, exp |-> exp]))
    /\ ph' = "rejected" /\ UNCHANGED << l, slots, its >>

Do(kind) ==
    /\ ph = "run" /\ l < Len(Sc.life) /\ Sc.life[l + 1].op = kind
    /\ \E e \in {Effect(Sc.life[l + 1])} :
         IF l = Len(Sc.recs) THEN Reject("missing", <<>>, e.rec)
         ELSE IF ~Matches(Sc.recs[l + 1], e.rec) THEN Reject("differs", Sc.recs[l + 1], e.rec)
         ELSE ph' = ph /\ l' = l + 1 /\ slots' = e.slots /\ its' = e.its
Finish ==
    /\ ph = "run" /\ l = Len(Sc.life)
    /\ IF l < Len(Sc.recs) THEN Reject("surplus", Sc.recs[l + 1], <<>>)
       ELSE ph' = "accepted" /\ TLCSet(1, TLCGet(1) + 1) /\ UNCHANGED << l, slots, its >>

Next == /\ i' = i
        /\ \/ Do("new") \/ Do("set") \/ Do("copy") \/ Do("move") \/ Do("add") \/ Do("copy_from")
           \/ Do("drop") \/ Do("get") \/ Do("help") \/ Do("probe") \/ Do("run") \/ Do("next")
           \/ Do("results") \/ Do("look") \/ Do("define") \/ Do("ask") \/ Do("kept") \/ Finish
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0)
Summary == PrintT("ACCEPTED " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(Scenarios)))
=============================================================================
