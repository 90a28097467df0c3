------------------------------ MODULE ArgosProps ------------------------------
(***************************************************************************)
(* The properties, stated independently of how the parser works.  They    *)
(* are checked on every state of the machine in ArgosMC.                  *)
(*                                                                        *)
(* w is the command line, s the state of the parser, h the history: one   *)
(* entry for each step,                                                   *)
(*   k          as in the event of the step (see ArgosParser)             *)
(*   n, c       the innermost command before the step: node and index     *)
(*   it, v      the option or argument that was processed, 0 if there is  *)
(*              none, and its value on the command line; the step may     *)
(*              still have ended in an error                              *)
(*   tok        the flag, or what was read                                *)
(*   a, b       the number of words used before and after the step        *)
(*   g, g1      whether there was a flag group before and after the step  *)
(*   st         the state of the parser before the step                   *)
(*   rem        the words that were left after the step                   *)
(*   cbs        the callbacks that ran, << kind, origin >> each           *)
(*   errs       the number of errors that were written                    *)
(*   code       the exit code                                             *)
(***************************************************************************)
EXTENDS ArgosRun

Item(P, e) == P.cmds[e.c].items[e.it]
Takes(o) == o.kind = "O" /\ o.op \in {"ASSIGN", "APPEND"} /\ o.const = ""
Is(e, k) == e.k = k
Entries(h, T(_)) == SelectSeq(h, T)
OfNode(h, n) == SelectSeq(h, LAMBDA e : e.n = n)
Errors(h) == SumSeq([i \in 1..Len(h) |-> h[i].errs])
TypeOf(P, e) == IF e.k = "OPT" THEN Item(P, e).type ELSE "NONE"
Stopped(P, h) == \E i \in 1..Len(h) : TypeOf(P, h[i]) \in StopTypes
Ended(s) == s.st \in {"DONE", "ERR", "THROWN", "EXITED"}

(******************************* C01 ***************************************)
(* Every word is used once and in order: the words that a step uses are   *)
(* those that follow the ones used by the step before, and they are what  *)
(* the step reports.                                                      *)
UsesWords(P, w, e) ==
    LET used == e.b - e.a
        first == w[e.a + 1]
    IN CASE e.k = "ARG" -> IF e.g THEN used = 0 ELSE used = 1 /\ first = e.v
         [] e.k = "CMD" -> used = 1 /\ first = e.tok
         [] e.k = "UNK" -> IF e.g THEN used = 0 ELSE used = 1 /\ first = e.v
         [] e.k = "OPT" /\ e.g -> \/ used = 0
                                  \/ used = 1 /\ Takes(Item(P, e)) /\ first = e.v
         [] e.k = "OPT" -> \/ used = 1 /\ StartsWith(first, e.tok)
                             /\ (Takes(Item(P, e)) => first = e.tok \o e.v)
                           \/ used = 2 /\ Takes(Item(P, e)) /\ first = e.tok /\ w[e.a + 2] = e.v
         [] OTHER -> used \in {0, 1, 2}
InOrder(h) == /\ h # <<>> => h[1].a = 0
              /\ \A i \in 2..Len(h) : h[i].a = h[i - 1].b
EveryWordOnce(P, w, s, h) ==
    /\ InOrder(h)
    /\ s.rest = SubSeq(w, Len(w) - Len(s.rest) + 1, Len(w))
    /\ \A i \in 1..Len(h) : UsesWords(P, w, h[i])
    /\ s.st = "DONE" => \A i \in 1..Len(w) :
            \/ \E j \in 1..Len(h) : h[j].a < i /\ i <= h[j].b
            \/ i > Len(w) - Len(s.rest)

(* The same command line with every flag and value in a word of its own   *)
(* has the same results.                                                  *)
Separate(P, e) ==
    LET c == P.cmds[e.c]
        flag == IF Len(e.tok) > 2 /\ LastCh(e.tok) = "=" /\ FindFlag(P, c, Chop(e.tok)) = e.it
                THEN Chop(e.tok) ELSE e.tok
    IN IF e.k = "OPT" THEN << flag >> \o (IF Takes(Item(P, e)) THEN << e.v >> ELSE <<>>)
       ELSE IF e.k \in {"ARG", "CMD", "UNK"} THEN << e.tok >> ELSE <<>>
RECURSIVE Separated(_, _)
Separated(P, h) == IF h = <<>> THEN <<>> ELSE Separate(P, Head(h)) \o Separated(P, Tail(h))
CanSeparate(P, h) ==
    \A i \in 1..Len(h) : /\ h[i].k = "OPT" => LastCh(Separate(P, h[i])[1]) # "=" \/ Len(h[i].tok) = 2
                         /\ ~(h[i].k \in {"ARG", "UNK"} /\ h[i].g)
RECURSIVE Finished(_, _)
Finished(P, s) == IF Ended(s) THEN s ELSE Finished(P, Step(P, s).s)
Results(s) == [i \in 1..Len(s.nodes) |-> << s.nodes[i].c, s.nodes[i].up, s.nodes[i].rc, s.nodes[i].vals >>]
SpellingIrrelevant(P, s, h) ==
    (s.st = "DONE" /\ CanSeparate(P, h) /\ Errors(h) = 0)
        => \E q \in {Separated(P, h)} : \E t \in {Finished(P, InitState(P, q))} :
             Results(t) = Results(s)

(******************************* C02 ***************************************)
FlagSet(P, c, k) == {Norm(c.items[k].flags[j], P.ci) : j \in 1..Len(c.items[k].flags)}
Opts(c) == {k \in 1..Len(c.items) : c.items[k].kind = "O"}
Named1(P, c, f) ==
    LET t == Norm(f, P.ci)
        exact == {k \in Opts(c) : t \in FlagSet(P, c, k)}
        longer == UNION {{<< k, x >> : x \in {y \in FlagSet(P, c, k) : StartsWith(y, t)}} : k \in Opts(c)}
    IN IF exact # {} THEN exact
       ELSE IF P.abbrev /\ Cardinality(longer) = 1 THEN {x[1] : x \in longer} ELSE {}
(* The options that the flag names *)
NamedBy(P, c, f) ==
    LET direct == Named1(P, c, f)
        without == IF Len(f) > 2 /\ LastCh(f) = "=" THEN Named1(P, c, Chop(f)) ELSE {}
    IN IF direct # {} THEN direct ELSE {k \in without : c.items[k].arg # ""}
FlagsSelect(P, h) ==
    \A i \in 1..Len(h) : LET e == h[i] IN
        /\ e.k = "OPT" => NamedBy(P, P.cmds[e.c], e.tok) = {e.it}
        /\ e.k = "UNK" /\ e.st = "OPTS" /\ IsOptionWord(P, e.tok) => NamedBy(P, P.cmds[e.c], e.tok) = {}
(* The order of the options in the definition doesn't matter. *)
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
OrderIrrelevant(P, words) ==
    \A ci \in 1..Len(P.cmds) :
        LET c == P.cmds[ci]
            r == [c EXCEPT !.index = Reversed(@)]
        IN \A i \in 1..Len(words) : FindFlag(P, c, words[i]) = FindFlag(P, r, words[i])

(******************************* C03 ***************************************)
(* Items share a value if and only if they are connected by names.        *)
Joined(c, i, j) == LinkNames(c.items[i]) \cap LinkNames(c.items[j]) # {}
SharedCorrectly(c) ==
    LET I == {i \in 1..Len(c.items) : HasValue(c.items[i])} IN
    /\ \A i, j \in I : Joined(c, i, j) => c.vids[i] = c.vids[j]
    /\ \A i \in I : LET same == {j \in I : c.vids[j] = c.vids[i]} IN
         \A part \in (SUBSET same) \ {{}, same} : \E x \in part, y \in same \ part : Joined(c, x, y)

(* The values after the operations of the entries on the value.           *)
RECURSIVE History(_, _, _)
History(P, es, vals) ==
    IF es = <<>> THEN vals
    ELSE LET e == Head(es)
             o == Item(P, e)
             v == IF o.kind = "A" \/ Takes(o) THEN e.v ELSE o.const
         IN History(P, Tail(es),
                CASE o.kind = "A" \/ o.op = "APPEND" -> Append(vals, << v, e.it >>)
                  [] o.op = "ASSIGN" -> << << v, e.it >> >>
                  [] o.op = "CLEAR" -> <<>>
                  [] OTHER -> vals)
HistoryOf(P, s, h, n, vid) ==
    LET c == P.cmds[s.nodes[n].c]
        \* an option that stops a command in the middle still counts
        ops == SelectSeq(h, LAMBDA e : e.n = n /\ e.it # 0 /\ c.vids[e.it] = vid)
        ks == SelectSeq([k \in 1..Len(c.items) |-> k],
                        LAMBDA k : c.vids[k] = vid /\ c.items[k].kind = "O" /\ c.items[k].init # "")
    IN History(P, ops, [i \in 1..Len(ks) |-> << c.items[ks[i]].init, ks[i] >>])
HasHistory(P, s, h) ==
    \A n \in 1..Len(s.nodes) : LET c == P.cmds[s.nodes[n].c] IN
        \A vid \in Range(c.vids) \ {0} :
            LET q == ValuesOf(s.nodes[n].vals, vid)
            IN [i \in 1..Len(q) |-> << q[i][2], q[i][3] >>] = HistoryOf(P, s, h, n, vid)

(******************************* C04 ***************************************)
ArgsGiven(h, n) == SelectSeq(h, LAMBDA e : e.n = n /\ e.k = "ARG")
RECURSIVE Fill(_, _, _)
(* The counts of the arguments as with extra words beyond the minima      *)
Fill(args, i, extra) ==
    IF i > Len(args) THEN <<>>
    ELSE LET room == args[i].max - args[i].min
             x == Min(room, extra)
         IN << args[i].min + x >> \o Fill(args, i + 1, extra - x)
Distributed(P, s, h) ==
    \A n \in 1..Len(s.nodes) :
        LET c == P.cmds[s.nodes[n].c]
            es == ArgsGiven(h, n)
            got == [i \in 1..Len(es) |-> es[i].it]
            args == SubSeq(c.items, 1, c.na)
        IN /\ \A i \in 2..Len(got) : got[i - 1] <= got[i]
           /\ \A k \in 1..c.na : Count(got, k) <= args[k].max
           /\ s.nodes[n].rc = "SUCCESS" =>
                [k \in 1..c.na |-> Count(got, k)] = Fill(args, 1, Len(got) - c.lo)

(******************************* C05 ***************************************)
AfterStop(P, w, s, h) ==
    \A i \in 1..Len(h) : LET e == h[i] IN
        /\ TypeOf(P, e) \in StopTypes \cup {"EXIT"} =>
             /\ \A j \in (i + 1)..Len(h) : h[j].k = "END" /\ h[j].b = e.b
             /\ s.st # "EXITED" =>
                  /\ \A a \in Range(s.act) : s.nodes[a].rc = "STOP"
                                             /\ s.nodes[a].stop = P.cmds[e.c].labels[e.it]
                  /\ LET un == s.nodes[Inner(s)].un IN
                     SubSeq(un, Len(un) - Len(e.rem) + 1, Len(un)) = e.rem
        /\ TypeOf(P, e) = "LAST_ARGUMENT" =>
             (i < Len(h) => h[i + 1].k = "END" \/ (h[i + 1].k = "CMD" /\ h[i + 1].n < e.n)
                            \/ h[i + 1].errs = 1 \/ h[i + 1].k = "THROW")
        /\ TypeOf(P, e) = "LAST_OPTION" =>
             \A j \in (i + 1)..Len(h) :
                h[j].k = "OPT" => \E m \in (i + 1)..(j - 1) : h[m].k = "CMD"
Stops(P, s, h) ==
    s.st \in {"DONE", "ERR"} =>
      ( (\E n \in 1..Len(s.nodes) : s.nodes[n].rc = "STOP") <=> Stopped(P, h) )

(******************************* C06 ***************************************)
Satisfied(P, s, h) ==
    \A n \in 1..Len(s.nodes) :
        LET c == P.cmds[s.nodes[n].c] IN
        /\ \A k \in Opts(c) : ~c.items[k].optional => ValuesOf(s.nodes[n].vals, c.vids[k]) # <<>>
        /\ c.req => \E m \in 1..Len(s.nodes) : s.nodes[m].up = n
        /\ Len(ArgsGiven(h, n)) >= c.lo
Outcome(P, s, h) ==
    /\ Errors(h) <= 1
    /\ s.st = "DONE" /\ ~Stopped(P, h) =>
         /\ Errors(h) = 0
         /\ \A n \in 1..Len(s.nodes) : s.nodes[n].rc = "SUCCESS"
         /\ Satisfied(P, s, h)
    /\ s.st = "ERR" => /\ Errors(h) = 1
                       /\ \A n \in Range(s.act) : s.nodes[n].rc = "FAILURE"
    /\ Errors(h) = 1 => s.st \in {"ERR", "EXITED", "THROWN"}
    /\ s.st \in {"OPTS", "ARGS"} => \A n \in Range(s.act) : s.nodes[n].rc \in {"NONE", "SUCCESS"}
(* What ends the parse is a definite fault: without one it would go on.   *)
FailsForAReason(P, w, s, h) ==
    s.st = "ERR" =>
      LET i == CHOOSE i \in 1..Len(h) : h[i].errs = 1
          e == h[i]
          c == P.cmds[e.c]
          n == e.n
          missing == \/ \E m \in 1..Len(s.nodes) : \E k \in Opts(P.cmds[s.nodes[m].c]) :
                          ~P.cmds[s.nodes[m].c].items[k].optional
                          /\ ValuesOf(s.nodes[m].vals, P.cmds[s.nodes[m].c].vids[k]) = <<>>
                     \/ c.req /\ ~\E m \in 1..Len(s.nodes) : s.nodes[m].up = n
                     \/ Len(ArgsGiven(h, n)) < c.lo
          noval == NamedBy(P, c, e.tok) # {} /\ e.b = Len(w)
          unknown == e.st = "OPTS" /\ IsOptionWord(P, e.tok) /\ NamedBy(P, c, e.tok) = {}
          surplus == c.subs = <<>> /\ ~P.iga /\ Len(ArgsGiven(h, n)) >= c.lo
          badcmd == c.subs # <<>> /\ FindCommand(P, c, e.tok) = 0
      IN missing \/ noval \/ unknown \/ surplus \/ badcmd
(* Steps after the end *)
NeverResumes(h) ==
    \A i \in 1..Len(h) : h[i].st \in {"ERR", "DONE"} =>
        /\ h[i].k = (IF h[i].st = "ERR" THEN "THROW" ELSE "END")
        /\ h[i].a = h[i].b /\ h[i].errs = 0 /\ h[i].cbs = <<>>

(******************************* C07 ***************************************)
Tree(P, s, h) ==
    LET cmds == SelectSeq(h, LAMBDA e : e.k = "CMD") IN
    /\ s.nodes[1].c = 1 /\ s.nodes[1].up = 0
    /\ Len(s.nodes) = Len(cmds) + 1
    /\ \A n \in 2..Len(s.nodes) :
         /\ s.nodes[n].up < n
         /\ P.cmds[s.nodes[n].c].parent = s.nodes[s.nodes[n].up].c
         /\ Norm(P.cmds[s.nodes[n].c].name, P.ci) = Norm(cmds[n - 1].tok, P.ci)
         /\ \A m \in 2..(n - 1) : s.nodes[m].up = s.nodes[n].up => P.cmds[s.nodes[s.nodes[n].up].c].multi
Siblings(P, s, h) ==
    \A i \in 1..Len(h) : LET e == h[i] IN
        LET before == Len(SelectSeq(SubSeq(h, 1, i - 1), LAMBDA x : x.n = e.n /\ x.k = "ARG"))
            RECURSIVE Above(_)
            Above(n) == IF s.nodes[n].up = 0 THEN 0
                        ELSE IF P.cmds[s.nodes[s.nodes[n].up].c].multi THEN s.nodes[n].up
                        ELSE Above(s.nodes[n].up)
            owner == Above(e.n)
            names == owner # 0 /\ FindCommand(P, P.cmds[s.nodes[owner].c], e.tok) # 0
            new == s.nodes[1 + Len(SelectSeq(SubSeq(h, 1, i), LAMBDA x : x.k = "CMD"))]
        IN /\ e.k = "ARG" /\ names => before < P.cmds[e.c].lo
           /\ e.k = "CMD" /\ new.up # e.n => names /\ new.up = owner /\ before >= P.cmds[e.c].lo

(******************************* C08 ***************************************)
CallbacksOnce(P, h) ==
    \A i \in 1..Len(h) : LET e == h[i]
                             own == IF e.it = 0 \/ Item(P, e).cb = <<>> \/ Item(P, e).cb[1][1] = "version"
                                    THEN <<>> ELSE << << "own", P.cmds[e.c].labels[e.it] >> >>
                             glob == IF e.it = 0 THEN <<>>
                                     ELSE IF Item(P, e).kind = "A" THEN P.acb ELSE P.ocb
                             all == IF glob = <<>> THEN <<>> ELSE << << "all", P.cmds[e.c].labels[e.it] >> >>
                         IN e.k \in {"OPT", "ARG", "CMD", "UNK"} => e.cbs = own \o all

(******************************* C09 ***************************************)
RECURSIVE IsSubSeq(_, _)
IsSubSeq(a, b) == IF a = <<>> THEN TRUE
                  ELSE LET p == IndexOf(b, Head(a)) IN
                       p # 0 /\ IsSubSeq(Tail(a), SubSeq(b, p + 1, Len(b)))
Unprocessed(P, s, h) ==
    s.st \in {"DONE", "ERR"} =>
      \A n \in 1..Len(s.nodes) :
        LET ignored == SelectSeq(h, LAMBDA e : e.n = n /\ e.k = "UNK")
            words == [i \in 1..Len(ignored) |-> ignored[i].v]
            last == SelectSeq(h, LAMBDA e : e.st \notin {"DONE", "ERR"})
            left == IF n # Inner(s) THEN <<>> ELSE last[Len(last)].rem
        IN s.nodes[n].un = words \o left
OnlyFromWords(w, s, h) ==
    LET ingroup == \E i \in 1..Len(h) : (h[i].g \/ h[i].g1) /\ (i = Len(h) \/ h[i].k # "OPT" \/ h[i + 1].k = "END") IN
    s.st \in {"DONE", "ERR"} /\ ~ingroup =>
        \A n \in 1..Len(s.nodes) : IsSubSeq(s.nodes[n].un, w)
Filters(w, s) ==
    s.st \in {"DONE", "ERR"} =>
        \A n \in 1..Len(s.nodes) :
            LET q == Filtered(w, s.nodes[n].un, 1)
                un == s.nodes[n].un
                here == SelectSeq(un, LAMBDA x : x \in Range(w))
                RECURSIVE Words(_)
                Words(i) == IF i > Len(q) THEN <<>> ELSE << w[q[i]] >> \o Words(i + 1)
            IN /\ \A i \in 2..Len(q) : q[i - 1] < q[i]
               /\ IsSubSeq(Words(1), un)
               /\ IsSubSeq(un, w) => Words(1) = un

(******************************* C10 ***************************************)
AllAtOnce(P, w, s) ==
    s.st \in {"DONE", "ERR", "THROWN", "EXITED"} =>
        \E r \in {RunAll(P, InitState(P, w), <<>>, <<>>)} : r.s.st = s.st /\ r.s.nodes = s.nodes

(******************************* C17 ***************************************)
Exits(P, s, h) ==
    /\ ~P.autoexit => s.st # "EXITED"
    /\ P.autoexit => s.st # "ERR"
    \* An exception of a callback's own is no error of the parse.
    /\ P.autoexit /\ s.st = "THROWN" => h[Len(h)].k = "THROW" /\ h[Len(h)].errs = 0
    /\ s.st = "EXITED" =>
         LET e == h[Len(h)] IN
         /\ e.k = "EXIT"
         /\ \/ e.errs = 1 /\ e.code = P.ecode
            \/ e.errs = 0 /\ e.code = P.ncode
               /\ \E k \in NamedBy(P, P.cmds[e.c], e.tok) : P.cmds[e.c].items[k].type \in {"HELP", "EXIT"}
    /\ P.autoexit => \A i \in 1..Len(h) : h[i].k = "OPT" => TypeOf(P, h[i]) \notin {"HELP", "EXIT"}

(******************************* C18 ***************************************)
ReadText(P, s, n, name) ==
    Answer(P, s, <<>>, [q |-> "values", node |-> n, t |-> << "name", name >>, a |-> << "list" >>])
ReadsAlike(P, s) ==
    s.st = "DONE" =>
      \A n \in 1..Len(s.nodes) :
        LET c == P.cmds[s.nodes[n].c] IN
        \A i \in 1..Len(c.names) :
            LET a == ReadText(P, s, n, c.names[i][1]) IN
            /\ a.t = "ok"
            /\ a.r[2] = Len(ValuesOf(s.nodes[n].vals, c.vids[c.names[i][3]]))
            /\ \A j \in 1..Len(c.names) : c.names[j][2] = c.names[i][2]
                  => ReadText(P, s, n, c.names[j][1]) = a

(******************************* C11 ***************************************)
Valid(D) == (\A c \in 1..Len(D.cmds) : AddOk(D, c)) /\ Prepare(D).ok
WithOpts(D, opts) == [D EXCEPT !.cmds[1].opts = opts]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* Validity does not depend on the order of the options, and parts of a   *)
(* valid definition are valid.                                            *)
ValidInAnyOrder(D) ==
    LET opts == D.cmds[1].opts
        ok == Valid(D)
    IN /\ Valid(WithOpts(D, Reversed(opts))) = ok
       /\ ok => \A i \in 1..Len(opts) : Valid(WithOpts(D, Without(opts, i)))
(* Two options with a common flag are never valid.                        *)
NoCommonFlags(D) ==
    LET opts == D.cmds[1].opts
        Fl(i) == {Norm(opts[i].flags[j], D.ci) : j \in 1..Len(opts[i].flags)}
    IN Valid(D) => \A i, j \in 1..Len(opts) : i # j => Fl(i) \cap Fl(j) = {}

(******************************* C13 ***************************************)
IntTypes == {"int", "uint", "long", "ulong", "llong", "ullong"}
(* Native arithmetic; for short texts only                                *)
RECURSIVE Native(_, _, _)
Native(t, b, n) == IF t = "" THEN n ELSE Native(Drop(t, 1), b, n * b + DigitVal(Ch(t, 1)))
Denotes(text, b) ==
    LET t == SkipWhite(text)
        sign == t # "" /\ Ch(t, 1) \in {"-", "+"}
        u == IF sign THEN Drop(t, 1) ELSE t
        hex == b \in {0, 16} /\ Len(u) > 2 /\ Take(u, 2) \in {"0x", "0X"}
        base == IF hex THEN 16 ELSE IF b # 0 THEN b ELSE IF u # "" /\ Ch(u, 1) = "0" THEN 8 ELSE 10
        d == IF hex THEN Drop(u, 2) ELSE u
        val == Native(d, base, 0)
    IN IF d = "" \/ \E i \in 1..Len(d) : DigitVal(Ch(d, i)) >= base THEN "none"
       ELSE IF sign /\ Ch(t, 1) = "-" /\ val # 0 THEN "-" \o ToString(val) ELSE ToString(val)
ReadsNumbers(text) ==
    \A b \in {0, 2, 8, 10, 16, 36} :
        LET d == Denotes(text, b)
            neg == d # "none" /\ Ch(d, 1) = "-"
        IN \A t \in IntTypes :
            LET r == ParseInteger(text, t, b) IN
            /\ r.ok <=> d # "none" /\ ~(neg /\ t \in {"uint", "ulong", "ullong"})
            /\ r.ok => r.t = d /\ ParseInteger(r.t, t, 10) = r

(******************************* C14 ***************************************)
SplitsWell(text, sep) ==
    \A n \in 0..4 :
        LET p == Parts(text, sep, n) IN
        /\ Join(p, sep) = text
        /\ n > 0 => Len(p) <= n
        /\ \A i \in 1..Len(p) : i < Len(p) \/ n = 0 \/ Len(p) < n => ~Contains(p[i], sep)

(***************************** C15, C16 ************************************)
HasPart(line, t) == \E i \in 1..(Len(line) - Len(t) + 1) : SubSeq(line, i, i + Len(t) - 1) = t
Appears(lines, t) == \E i \in 1..Len(lines) : HasPart(lines[i], t)
FirstWord(t) == LET p == FindChar(t, " ", 1) IN IF p = 0 THEN t ELSE Take(t, p - 1)
ListsVisible(P, lines) ==
    LET c == P.cmds[1]
        its == [k \in 1..Len(c.items) |-> c.items[k]]
        Name(it) == IF it.kind = "A" THEN it.name ELSE it.flags[1]
        titles == {its[k].section : k \in 1..Len(its)} \ {""}
    IN /\ \A k \in 1..Len(its) :
            /\ its[k].vis # "HIDDEN" => Appears(lines, Name(its[k]))
            /\ its[k].help # "" =>
                 (Appears(lines, FirstWord(its[k].help)) <=> its[k].vis \in {"NORMAL", "TEXT"})
       /\ \A t \in titles : Cardinality({i \in 1..Len(lines) : lines[i] = t}) <= 1
       /\ \A k \in 1..Len(its) : its[k].vis \in {"NORMAL", "TEXT"} /\ its[k].section # ""
            => Appears(lines, its[k].section)

IsLead(c) == Ord(c) < 128 \/ Ord(c) >= 192
CodePoints(l) == Cardinality({i \in 1..Len(l) : IsLead(Ch(l, i))})
Leading(l) == IF FindNotAny(l, {" "}, 1) = 0 THEN Len(l) ELSE FindNotAny(l, {" "}, 1) - 1
RECURSIVE Letters(_, _)
Letters(t, i) == IF i > Len(t) THEN ""
                 ELSE (IF Ch(t, i) \in {" ", "\t", "\n", "\r", "-"} THEN "" ELSE Ch(t, i)) \o Letters(t, i + 1)
RECURSIVE TextWords(_)
TextWords(t) == LET a == FindNotAny(t, Blank, 1) IN
             IF a = 0 THEN {}
             ELSE LET b == FindAny(t, Blank, a) IN
                  IF b = 0 THEN {Drop(t, a - 1)} ELSE {SubSeq(t, a, b - 1)} \cup TextWords(Drop(t, b - 1))
(* No text is lost or reordered, no line is too long, and words that fit  *)
(* are not broken.  (The width left after indentation has to exceed two   *)
(* characters.)                                                           *)
(* Whether t is UTF-8: the bytes after its lead bytes are those needed.    *)
IsUtf8(t) ==
    LET Need(c, i) == \A j \in 1..3 : LET cont == i + j <= Len(t) /\ IsCont(Ord(Ch(t, i + j)))
                                     IN j < CpLen(Ord(c)) => cont
        Follows(i) == \E j \in 1..3 : i > j /\ CpLen(Ord(Ch(t, i - j))) > j
                                      /\ \A m \in 1..(j - 1) : IsCont(Ord(Ch(t, i - m)))
    IN \A i \in 1..Len(t) : LET c == Ch(t, i) IN
          IF IsCont(Ord(c)) THEN Follows(i) ELSE CpLen(Ord(c)) > 0 /\ Need(c, i)
LaysOut(text, width, lines) ==
    LET \* nothing in the text asks for indentation
        plain == ~HasAny(text, {"\t", "-", "*", "."}) /\ \A i \in 1..Len(text) :
                    Ch(text, i) = " " => i > 1 /\ Ch(text, i - 1) \notin {"\n", "\r"} /\ Ch(text, 1) # " "
    IN /\ Letters(Concat(lines), 1) = Letters(text, 1)
       /\ IsUtf8(text) =>
            \A i \in 1..Len(lines) : CodePoints(lines[i]) <= width \/ Leading(lines[i]) + 2 >= width
       /\ plain /\ IsUtf8(text) => /\ \A i \in 1..Len(lines) : CodePoints(lines[i]) <= width
                   /\ \A t \in TextWords(text) : CodePoints(t) <= width => Appears(lines, t)

(******************************* C19 ***************************************)
(* Reports begin with the full name of a command that was given.          *)
ReportsNameCommand(P, s, log) ==
    \A i \in 1..Len(log) :
        LET lines == log[i].st \o log[i].err IN
        /\ lines # <<>>
        /\ \/ log[i].k = "Q" /\ log[i].t = "throw"
           \/ log[i].k = "EXIT" /\ log[i].code = P.ecode
        =>
            \E n \in 1..Len(s.nodes) : StartsWith(lines[1], P.cmds[s.nodes[n].c].full \o ": ")

(***************************** Progress ************************************)
(* Every step that is not the last one makes the work to do smaller.      *)
Work(s) == SumSeq([i \in 1..Len(s.rest) |-> 3 + Len(s.rest[i])]) + (IF s.has /\ s.tk # "N" THEN 1 + Len(s.tx) ELSE 0)
=============================================================================
