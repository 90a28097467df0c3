------------------------------ MODULE ArgosLifeMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the lives of objects.  FAMILIES names a file *)
(* with a sequence of records:                                            *)
(*   pre        the operations that come first                            *)
(*   alphabet   operations, of which every sequence of up to max is tried *)
(*   start, max the indices of the first ones, and the number of them     *)
(*   post       the operations that follow                                *)
(* What each operation shows is printed, and compared with the code.      *)
(***************************************************************************)
EXTENDS ArgosLife

Families == JsonDeserialize(IOEnv.FAMILIES)

VARIABLES
    x,      \* the indices of the operations that have been chosen
    log     \* what the operations have shown
mcvars == << i, ph, l, slots, its, x, log >>

Fam == Families[i]

MCInit == /\ i \in 1..Len(Families)
          /\ ph = "pre" /\ l = 0 /\ its = <<>> /\ x = <<>> /\ log = <<>>
          /\ slots = [s \in Names |-> None]

Apply(op) ==
    \E e \in {Effect(op)} :
        /\ log' = Append(log, e.rec) /\ slots' = e.slots /\ its' = e.its

Prepared == Len(Fam.pre) + Len(Fam.start)
Scripted(k) == IF k <= Len(Fam.pre) THEN Fam.pre[k] ELSE Fam.alphabet[Fam.start[k - Len(Fam.pre)]]
Before ==
    /\ ph = "pre" /\ l < Prepared
    /\ Apply(Scripted(l + 1))
    /\ l' = l + 1
    /\ x' = IF l' > Len(Fam.pre) THEN Append(x, Fam.start[l' - Len(Fam.pre)]) ELSE x
    /\ UNCHANGED << i, ph >>
Begin == ph = "pre" /\ l = Prepared /\ ph' = "free" /\ UNCHANGED << i, l, slots, its, x, log >>
ChooseOp(kind) ==
    /\ ph = "free" /\ Len(x) < Fam.max
    /\ \E a \in 1..Len(Fam.alphabet) :
         /\ Fam.alphabet[a].op = kind
         /\ Apply(Fam.alphabet[a])
         /\ x' = Append(x, a)
    /\ UNCHANGED << i, ph, l >>
Over == ph = "free" /\ ph' = "post" /\ l' = 0 /\ UNCHANGED << i, slots, its, x, log >>
After ==
    /\ ph = "post" /\ l < Len(Fam.post)
    /\ Apply(Fam.post[l + 1])
    /\ l' = l + 1
    /\ UNCHANGED << i, ph, x >>
Report ==
    /\ ph = "post" /\ l = Len(Fam.post)
    /\ PrintT("B " \o ToJson([f |-> i, x |-> x, log |-> log]))
    /\ ph' = "reported"
    /\ UNCHANGED << i, l, slots, its, x, log >>
Idle == ph = "reported" /\ UNCHANGED mcvars

NewStep == ChooseOp("new")
SetStep == ChooseOp("set")
CopyStep == ChooseOp("copy")
MoveStep == ChooseOp("move")
AddStep == ChooseOp("add")
CopyFromStep == ChooseOp("copy_from")
DropStep == ChooseOp("drop")
GetStep == ChooseOp("get")
HelpStep == ChooseOp("help")
ProbeStep == ChooseOp("probe")
RunStep == ChooseOp("run")
NextStep == ChooseOp("next")
ResultsStep == ChooseOp("results")
LookStep == ChooseOp("look")
AskStep == ChooseOp("ask")

MCNext == \/ Before \/ Begin \/ Over \/ After \/ Report \/ Idle
          \/ NewStep \/ SetStep \/ CopyStep \/ MoveStep \/ AddStep \/ CopyFromStep \/ DropStep
          \/ GetStep \/ HelpStep \/ ProbeStep \/ RunStep \/ NextStep \/ ResultsStep \/ LookStep \/ AskStep
MCSpec == MCInit /\ [][MCNext]_mcvars

(****************************** Properties *********************************)
Operates == Len(log') = Len(log) + 1
Op == IF ph = "pre" THEN Scripted(l + 1)
      ELSE IF ph = "free" THEN Fam.alphabet[x'[Len(x')]] ELSE Fam.post[l + 1]
Shown == log'[Len(log')]
Field(op, f) == IF f \in DOMAIN op THEN op[f] ELSE ""
Touched(op) == {Field(op, "s"), Field(op, "to"), Field(op, "from")}
Uses(op) == CASE op.op \in {"set", "help", "probe", "run", "next", "results", "get"} -> {op.s}
              [] op.op = "add" -> {op.s, op.to}
              [] op.op = "copy_from" -> {op.from, op.to}
              [] OTHER -> {}
Refused == CASE Op.op = "get" -> Shown.t = "ok" /\ Shown.r[13] = "throw"
             [] Op.op \in {"run", "next"} -> Shown.k = "THROW"
             [] OTHER -> Shown.t = "throw"

(* Nothing that is done to one object changes another one. *)
Isolation ==
    [][ Operates => \A s \in Names \ Touched(Op) : slots'[s] = slots[s] ]_mcvars
(* Observing doesn't change anything, and neither does a const parse. *)
Observing ==
    [][ Operates =>
          /\ Op.op \in {"get", "help", "probe", "look", "ask"} => slots' = slots /\ its' = its
          /\ Op.op \in {"copy", "copy_from"} /\ Op.from # Op.to => slots'[Op.from] = slots[Op.from]
          /\ Op.op = "run" /\ Op.konst => slots'[Op.s] = slots[Op.s]
          /\ Op.op # "next" => SubSeq(its', 1, Len(its)) = its ]_mcvars
(* What has been moved from is refused, and what is refused has no effect *)
(* apart from discarding what was part of it.                             *)
MovedFrom ==
    [][ Operates =>
          /\ ((\E s \in Uses(Op) : slots[s].k = "moved") /\ (\A s \in Uses(Op) : slots[s].k # "none")) => Refused
          /\ Refused => \A s \in Names : slots'[s] = slots[s] \/ slots'[s].k = "none"
                                         \/ (Op.op = "run" /\ ~Op.konst /\ s = Op.s) ]_mcvars
(* After moving, adding and parsing non-constly the source is gone. *)
Gone ==
    [][ Operates /\ ~(Op.op # "move" /\ Refused) =>
          /\ Op.op = "move" /\ Op.from # Op.to /\ slots[Op.from].k # "none" =>
               slots'[Op.from].k = "moved" /\ slots'[Op.to] = slots[Op.from]
          /\ Op.op = "add" /\ Op.how # "copy" /\ slots[Op.s].k = "live" /\ slots[Op.to].k = "live" => slots'[Op.s].k = "moved"
          /\ Op.op = "run" /\ ~Op.konst /\ slots[Op.s].k = "live" => slots'[Op.s].k = "moved"
          /\ Op.op = "new" => slots'[Op.s].k = "live" ]_mcvars
(* A copy shows the same as the original, whatever is done first. *)
Shows(op) == LET e == Effect(op) IN e.rec
Copies ==
    [][ Operates /\ Op.op = "copy" /\ slots[Op.from].k = "live" /\ KindOf(Op.from) \in {"A", "O", "C"} =>
          slots'[Op.to] = slots[Op.from] ]_mcvars
(* copy_from takes over everything. *)
TopOf(s) == IF KindOf(s) = "P" THEN slots[s].v.top ELSE slots[s].v
TopOf2(s) == IF KindOf(s) = "P" THEN slots'[s].v.top ELSE slots'[s].v
CopiesAll ==
    [][ Operates /\ Op.op = "copy_from" /\ Shown.t = "ok" =>
          LET a == TopOf(Op.from)  b == TopOf(Op.to)  c == TopOf2(Op.to) IN
          /\ Len(c.args) = Len(a.args) + Len(b.args) /\ Range(c.args) = Range(a.args) \cup Range(b.args)
          /\ Len(c.opts) = Len(a.opts) + Len(b.opts)
          /\ Len(c.kids) = Len(a.kids) + Len(b.kids)
          /\ TextIds(c) = TextIds(a) \cup TextIds(b)
          /\ \A k \in 1..Len(b.texts) : \E j \in 1..Len(c.texts) : c.texts[j] = b.texts[k]
          /\ \A k \in 1..Len(a.texts) : \E j \in 1..Len(c.texts) : c.texts[j] = a.texts[k] ]_mcvars
(* Running the same words again on a parser that was not used up gives the same. *)
RunAgain(s) == [op |-> "run", s |-> s, to |-> "R1", konst |-> TRUE, words |-> << "-a", "w" >>, entry |-> "vec", argv0 |-> ""]
Repeatable ==
    ph = "free" /\ x # <<>> => \A s \in {"P1", "P2"} : slots[s].k = "live" =>
        LET a == RunOp(RunAgain(s)) IN a.slots[s] = slots[s]
(* Whatever happens in between, an iteration ends where it would have ended. *)
EndOf(it) == RunAll(it.p, it.s, <<>>, <<>>).s
SameEnd ==
    [][ Operates => \A k \in 1..Len(its) : its'[k] # its[k] => Seen(its[k].p, EndOf(its'[k])) = Seen(its[k].p, EndOf(its[k])) ]_mcvars
Kinds == \A s \in Names : slots[s].k = "live" /\ KindOf(s) \in {"I", "R"} => slots[s].v \in 1..Len(its)
=============================================================================
