------------------------------ MODULE ArgosQuery ------------------------------
(***************************************************************************)
(* Reading the results of a parse.  Answer(P, s, seg, q) is what the      *)
(* client observes when it makes the query q on state s:                  *)
(*   t    "ok", "throw", "range" (std::out_of_range) or "exit"            *)
(*   r    what was returned                                               *)
(*   out  what was written: symbolic output, or lines if raw              *)
(*   raw  "" or where the lines have been written, see ArgosRun           *)
(*                                                                        *)
(* A value is a record [some, text, src]: src is the item that supplied   *)
(* it (0 if unknown).  A list of values is [vals, vid].                   *)
(***************************************************************************)
EXTENDS ArgosParser, ArgosHelp

Ok(r) == [t |-> "ok", r |-> r, out |-> <<>>, raw |-> ""]
Throws == [t |-> "throw", r |-> "", out |-> <<>>, raw |-> ""]
OutOfRange == [t |-> "range", r |-> "", out |-> <<>>, raw |-> ""]
Reports(P, c, msg) ==
    [t |-> IF P.autoexit THEN "exit" ELSE "throw", r |-> "",
     out |-> << << "error", c, TLCEval(msg) >> >>, raw |-> ""]

(* An error about item k of command c, or about no item in particular.    *)
ItemError(P, c, k, msg) ==
    Reports(P, c, IF k = 0 THEN msg ELSE Join(ItemNames(P.cmds[c].items[k]), ", ") \o ": " \o msg)

(************************** Numbers, as decimals ***************************)
(* A magnitude is a string of decimal digits without leading zeros.       *)
Digits == "0123456789abcdefghijklmnopqrstuvwxyz"
DigitTab == [c \in {Ch(Digits, i) : i \in 1..36} |-> (CHOOSE i \in 1..36 : Ch(Digits, i) = c) - 1]
DigitVal(c) == LET l == LowCh(c) IN IF l \in DOMAIN DigitTab THEN DigitTab[l] ELSE 99
Dig(n) == Ch(Digits, n + 1)

(* Computed with limbs of four decimal digits, the least significant first; *)
(* TLCEval keeps TLC from evaluating arguments repeatedly.                 *)
RECURSIVE DigitsVal(_, _, _, _)
DigitsVal(s, i, b, n) == IF i > Len(s) THEN n
                         ELSE DigitsVal(s, TLCEval(i + 1), b, TLCEval(n * b + DigitVal(Ch(s, i))))
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
(* As many digits as can be handled at once: b^n <= 2^15 *)
BlockLen(b) == CASE b = 2 -> 15 [] b = 3 -> 9 [] b <= 8 -> 5 [] b <= 13 -> 4 [] b <= 32 -> 3 [] OTHER -> 2
RECURSIVE MulAdd(_, _, _)
MulAdd(m, f, d) ==
    IF m = <<>> THEN IF d = 0 THEN <<>> ELSE << d % 10000 >> \o MulAdd(<<>>, f, TLCEval(d \div 10000))
    ELSE LET x == TLCEval(Head(m) * f + d)
         IN << x % 10000 >> \o MulAdd(Tail(m), f, TLCEval(x \div 10000))
RECURSIVE ToLimbs(_, _, _)
ToLimbs(s, b, m) ==
    IF s = "" THEN m
    ELSE LET n == Min(BlockLen(b), Len(s)) IN
         ToLimbs(TLCEval(Drop(s, n)), b, TLCEval(MulAdd(m, Power(b, n), DigitsVal(Take(s, n), 1, b, 0))))
RECURSIVE LimbText(_)
LimbText(m) == IF m = <<>> THEN ""
               ELSE LET t == ToString(Head(m)) IN
                    LimbText(Tail(m)) \o (IF Len(m) = 1 THEN t ELSE Take("0000", 4 - Len(t)) \o t)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # "" /\ Ch(s, 1) = "0" THEN StripZeros(TLCEval(Drop(s, 1))) ELSE s
ToDecimal(s, b) == LET t == StripZeros(IF b = 10 THEN s ELSE LimbText(ToLimbs(s, b, <<>>)))
                   IN IF t = "" THEN "0" ELSE t
LessEq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~Less(b, a))

MaxOf == [int |-> "2147483647", uint |-> "4294967295", long |-> "9223372036854775807",
          ulong |-> "18446744073709551615", llong |-> "9223372036854775807",
          ullong |-> "18446744073709551615"]
MinOf == [int |-> "2147483648", long |-> "9223372036854775808", llong |-> "9223372036854775808"]

White == {" "} \cup {CharTab[i] : i \in 10..14}      \* \t \n \v \f \r
Num(ok, t) == [ok |-> ok, t |-> t]
Bad == Num(FALSE, "")

SkipWhite(s) == LET p == FindNotAny(s, White, 1) IN IF p = 0 THEN "" ELSE Drop(s, p - 1)
AllDigits(s, b) == \A i \in 1..Len(s) : DigitVal(Ch(s, i)) < b

(* The number that the whole text denotes: leading white space, a sign    *)
(* and, for bases 0 and 16, a C prefix are allowed.                       *)
ParseInteger(text, type, base) ==
    LET s == SkipWhite(text)
        neg == s # "" /\ Ch(s, 1) = "-"
        u == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN Drop(s, 1) ELSE s
        hex == base \in {0, 16} /\ Len(u) > 2 /\ Lower(Take(u, 2)) = "0x"
        b == IF base # 0 THEN base ELSE IF hex THEN 16 ELSE IF StartsWith(u, "0") THEN 8 ELSE 10
        d == IF hex THEN Drop(u, 2) ELSE u
        m == TLCEval(ToDecimal(TLCEval(d), TLCEval(b)))
    IN IF d = "" \/ ~AllDigits(d, b) THEN Bad
       ELSE IF ~neg \/ m = "0" THEN Num(LessEq(m, MaxOf[type]), m)
       ELSE IF type \notin DOMAIN MinOf THEN Bad
       ELSE Num(LessEq(m, MinOf[type]), "-" \o m)

RECURSIVE StripTail(_)
StripTail(s) == IF s # "" /\ LastCh(s) = "0" THEN StripTail(Chop(s)) ELSE s
RECURSIVE SmallInt(_, _, _)
SmallInt(s, i, n) == IF i > Len(s) THEN n ELSE SmallInt(s, i + 1, n * 10 + DigitVal(Ch(s, i)))

(* Decimal floating point.  Only defined for numbers with so few digits   *)
(* (15 or 6) that these identify the nearest number of the type, and for  *)
(* numbers that are far too large or too small.                           *)
ParseFloat(text, type) ==
    LET s == SkipWhite(text)
        neg == s # "" /\ Ch(s, 1) = "-"
        u == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN Drop(s, 1) ELSE s
        p == FindAny(u, {"e", "E"}, 1)
        mant == IF p = 0 THEN u ELSE Take(u, p - 1)
        ex == IF p = 0 THEN "0" ELSE Drop(u, p)
        eneg == ex # "" /\ Ch(ex, 1) = "-"
        eu == IF ex # "" /\ Ch(ex, 1) \in {"-", "+"} THEN Drop(ex, 1) ELSE ex
        q == FindChar(mant, ".", 1)
        ip == IF q = 0 THEN mant ELSE Take(mant, q - 1)
        fp == IF q = 0 THEN "" ELSE Drop(mant, q)
        valid == /\ ip \o fp # "" /\ AllDigits(ip, 10) /\ AllDigits(fp, 10)
                 /\ eu # "" /\ AllDigits(eu, 10)
        zero == StripZeros(ip \o fp) = ""
        e == IF Len(StripZeros(eu)) > 4 THEN 9999 ELSE SmallInt(eu, 1, 0)
        \* digits and the position of the decimal point among them
        digs == ip \o fp
        point == Len(ip) + (IF eneg THEN -e ELSE e)
        lead == Len(digs) - Len(StripZeros(digs))
        size == point - lead          \* number of digits before the decimal point
        int == IF point <= 0 THEN "" ELSE Take(digs, point) \o Repeat("0", point - Len(digs))
        frac == IF point >= Len(digs) THEN ""
                ELSE IF point >= 0 THEN Drop(digs, point) ELSE Repeat("0", -point) \o digs
        i == StripZeros(int)
        f == StripTail(frac)
        sign == IF neg THEN "-" ELSE ""
    IN IF ~valid THEN Bad
       ELSE IF zero THEN Num(TRUE, sign \o "0")
       ELSE IF size > (IF type = "float" THEN 39 ELSE 309) \/ size < (IF type = "float" THEN -60 ELSE -400) THEN Bad
       ELSE Num(TRUE, sign \o (IF i = "" THEN "0" ELSE i) \o (IF f = "" THEN "" ELSE "." \o f))

Convert(text, type, base) ==
    CASE type \in {"float", "double"} -> ParseFloat(text, type)
      [] type = "string" -> Num(TRUE, text)
      [] type = "bool" -> Num(TRUE, IF text \in {"", "0", "false"} THEN "false" ELSE "true")
      [] OTHER -> ParseInteger(text, type, base)

(******************************* Splitting *********************************)
(* At most n parts, any number if n is 0. *)
Parts(text, sep, n) == SplitAt(text, sep, n - 1)

RECURSIVE SplitList(_, _, _)
SplitList(vals, sep, n) ==
    IF vals = <<>> THEN <<>>
    ELSE LET h == Head(vals)
             ps == Parts(h.text, sep, n)
         IN [i \in 1..Len(ps) |-> [h EXCEPT !.text = ps[i]]] \o SplitList(Tail(vals), sep, n)

(***************************** One value ***********************************)
Absent(src) == [some |-> FALSE, text |-> "", src |-> src]
Present(x) == [some |-> TRUE, text |-> x[2], src |-> x[3]]
ListOf(vals, vid) == [vals |-> vals, vid |-> vid]
CommonSource(vals) ==
    IF vals # <<>> /\ \A i \in 1..Len(vals) : vals[i].src = vals[1].src THEN vals[1].src ELSE 0

Origin(P, c, src) == SrcLabel(P.cmds[c], src)

RECURSIVE ReadValue(_, _, _, _, _)
RECURSIVE ReadValues(_, _, _, _)

InvalidValue(text) == "Invalid value: " \o text \o "."
TooFewParts(v, verb, n, sep) ==
    "Invalid value: \"" \o v \o "\". Must " \o verb \o " at least " \o ToString(n)
      \o " values separated by \"" \o sep \o "\"."

(* c is the index of the command that the value v belongs to *)
ReadValue(P, c, v, vid, a) ==
    CASE a[1] = "text" ->
           Ok(<< v.some, v.text, Origin(P, c, v.src), IF v.some THEN v.text ELSE "<default>" >>)
      [] a[1] = "as" ->
           IF ~v.some THEN Ok(a[4])
           ELSE LET n == Convert(v.text, a[2], a[3]) IN
                IF n.ok THEN Ok(n.t) ELSE ItemError(P, c, v.src, InvalidValue(v.text))
      [] a[1] = "split" ->
           IF ~v.some THEN ReadValues(P, c, ListOf(<<>>, vid), a[5])
           ELSE LET vs == SplitList(<< v >>, a[2], a[4]) IN
                IF Len(vs) < a[3]
                THEN ItemError(P, c, v.src, TooFewParts(v.text, "have", a[3], a[2]))
                ELSE ReadValues(P, c, ListOf(vs, vid), a[5])
      [] a[1] = "split_n" -> ReadValue(P, c, v, vid, << "split", a[2], a[3], a[3], a[4] >>)
      [] a[1] = "error" ->
           IF Len(a) > 1 THEN ItemError(P, c, v.src, a[2])
           ELSE IF v.some THEN ItemError(P, c, v.src, InvalidValue(v.text))
           ELSE Throws

ReadValues(P, c, l, a) ==
    LET vs == TLCEval(l.vals)
        texts == TLCEval([i \in 1..Len(vs) |-> vs[i].text])
        items == SelectSeq([k \in 1..Len(P.cmds[c].items) |-> k],
                           LAMBDA k : P.cmds[c].vids[k] = l.vid)
        ListError(msg) == ItemError(P, c, CommonSource(vs), msg)
    IN CASE a[1] = "list" ->
              Ok(<< [i \in 1..Len(vs) |-> << vs[i].text, Origin(P, c, vs[i].src) >>],
                    Len(vs), vs # <<>>, vs = <<>>, texts, texts, texts, texts, texts >>)
         [] a[1] = "origins" -> Ok([i \in 1..Len(items) |-> P.cmds[c].labels[items[i]]])
         [] a[1] = "at" ->
              IF vs = <<>> THEN ReadValue(P, c, Absent(0), l.vid, a[3])
              ELSE IF a[2] >= Len(vs) THEN OutOfRange
              ELSE ReadValue(P, c, vs[a[2] + 1], l.vid, a[3])
         [] a[1] = "as" ->
              IF vs = <<>> THEN Ok(a[4])
              ELSE LET ns == TLCEval([i \in 1..Len(vs) |-> Convert(texts[i], a[2], a[3])])
                       bad == {i \in 1..Len(vs) : ~ns[i].ok}
                   IN IF bad = {} THEN Ok([i \in 1..Len(vs) |-> ns[i].t])
                      ELSE ListError(InvalidValue(texts[CHOOSE i \in bad : \A j \in bad : i <= j]))
         [] a[1] = "split" ->
              LET few == {i \in 1..Len(vs) : Len(Parts(texts[i], a[2], a[4])) < a[3]} IN
              IF few # {}
              THEN ListError(TooFewParts(texts[CHOOSE i \in few : \A j \in few : i <= j], "be", a[3], a[2]))
              ELSE ReadValues(P, c, ListOf(SplitList(vs, a[2], a[4]), l.vid), a[5])
         [] a[1] = "split_n" -> ReadValues(P, c, l, << "split", a[2], a[3], a[3], a[4] >>)
         [] a[1] = "error" -> ListError(a[2])

(* A value that doesn't come from a parse only has defaults.              *)
ReadNothing(a) == IF a[1] = "as" THEN Ok(a[4]) ELSE Throws

(******************************** Views ************************************)
NameOf(it) == IF it.kind = "A" THEN it.name ELSE Join(it.flags, ", ")
(* Tuples of the properties of a view, in alphabetical order of their names *)
ViewOf(it) ==
    IF it.kind = "A"
    THEN << it.alias, it.help, it.id, "A", it.max, it.min, it.name, it.min = 0, it.section, it.vis >>
    ELSE << it.alias, it.arg, it.const, it.flags, it.help, it.id, it.init, "O", it.op, it.optional,
            it.section, it.type, it.vis >>
AllViews(c) == [k \in 1..Len(c.items) |-> ViewOf(c.items[k])]
RECURSIVE CommandViewOf(_, _)
CommandViewOf(P, i) ==
    LET c == P.cmds[i] IN
    << c.name, Text(c, "HELP"), c.id, AllViews(c), "C", c.name, c.req, c.section,
       [k \in 1..Len(c.subs) |-> CommandViewOf(P, c.subs[k])], c.vis >>
Children(s, n) == SelectSeq([k \in 1..Len(s.nodes) |-> k], LAMBDA k : s.nodes[k].up = n)
NodeName(P, s, n) == P.cmds[s.nodes[n].c].name

(******************************* Printing **********************************)
Quoted(q) == Concat([i \in 1..Len(q) |-> " \"" \o q[i] \o "\""])
PrintValue(c, vals, vid) ==
    LET ks == SelectSeq([k \in 1..Len(c.items) |-> k], LAMBDA k : c.vids[k] = vid)
        vs == ValuesOf(vals, vid)
    IN Join([i \in 1..Len(ks) |-> NameOf(c.items[ks[i]])], ", ") \o ":"
         \o Quoted(IF vid = 0 THEN <<>> ELSE [i \in 1..Len(vs) |-> vs[i][2]]) \o "\n"
RECURSIVE PrintText(_, _, _)
PrintText(P, s, n) ==
    LET node == s.nodes[n]
        c == P.cmds[node.c]
        vids == SelectSeq([k \in 1..(Len(c.items) + 1) |-> k - 1],
                          LAMBDA v : \E k \in 1..Len(c.items) : c.vids[k] = v)
        subs == Children(s, n)
        lines == SortSeq([i \in 1..Len(vids) |-> PrintValue(c, node.vals, vids[i])], Less)
    IN Concat(lines)   \* in any order, the driver sorts them
         \o (IF node.un = <<>> THEN "" ELSE "Unprocessed arguments:" \o Quoted(node.un))
         \o Concat([i \in 1..Len(subs) |->
                "\nSubcommand: " \o NodeName(P, s, subs[i]) \o "\n" \o PrintText(P, s, subs[i])])
WrittenLines(t) ==
    IF t = "" THEN <<>>
    ELSE LET ls == SplitAt(t, "\n", -1)
             n == Len(ls)
         IN IF ls[n] = "" THEN SubSeq(ls, 1, n - 1) ELSE [ls EXCEPT ![n] = @ \o "<no newline>"]

(******************************* Filtering *********************************)
(* Indices in argv of the words that are left; next is the first index    *)
(* that may be used.                                                      *)
RECURSIVE Filtered(_, _, _)
Filtered(words, un, next) ==
    IF un = <<>> THEN <<>>
    ELSE LET hits == {i \in next..Len(words) : words[i] = Head(un)} IN
         IF hits = {} THEN Filtered(words, Tail(un), next)
         ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
              IN << i >> \o Filtered(words, Tail(un), i + 1)

(******************************* Answers ***********************************)
Answer(P, s, seg, q) ==
    IF q.node > Len(s.nodes) THEN Ok("no such node")
    ELSE LET node == s.nodes[q.node]
             ci == node.c
             c == P.cmds[ci]
             \* the item that a view belongs to, 0 if q uses a name
             k == IF q.q \in {"has", "value", "values"} /\ q.t[1] = "item" THEN q.t[2] ELSE 0
             vid == IF k # 0 THEN (IF k <= Len(c.items) THEN c.vids[k] ELSE 0)
                    ELSE IF q.q \in {"has", "value", "values"} THEN NameVid(c, q.t[2]) ELSE 0
             vs == IF vid = 0 THEN <<>>
                   ELSE LET x == ValuesOf(node.vals, vid) IN [i \in 1..Len(x) |-> Present(x[i])]
         IN CASE q.q = "error" -> Reports(P, ci, q.msg)
              [] q.q = "novalue" -> ReadNothing(q.a)
              [] q.q = "print" -> [t |-> "ok", r |-> "ok", out |-> WrittenLines(PrintText(P, s, q.node)),
                                   raw |-> IF "to" \in DOMAIN q THEN q.to ELSE "stream"]
              [] q.q = "describe" ->
                   LET subs == Children(s, q.node) IN
                   Ok(<< c.name, AllViews(c), [i \in 1..Len(c.subs) |-> P.cmds[c.subs[i]].name] >>
                      \o SubSeq(CommandViewOf(P, ci), 2, 6)
                      \o << c.name, [i \in 1..Len(subs) |-> NodeName(P, s, subs[i])] >>
                      \o SubSeq(CommandViewOf(P, ci), 7, 10)
                      \o << Len(c.items), c.vids >>)
              [] q.q = "filter" -> Ok(<< 0 >> \o Filtered(seg.words, node.un, 1))
              [] k > Len(c.items) -> Ok("no such item")
              [] k = 0 /\ vid = 0 -> Throws
              [] q.q = "has" -> Ok(IF vs # <<>> THEN "yes" ELSE "no")
              [] q.q = "value" ->
                   IF Len(vs) > 1 THEN Throws
                   ELSE ReadValue(P, ci, IF vs = <<>> THEN Absent(k) ELSE vs[1], vid, q.a)
              [] q.q = "values" -> ReadValues(P, ci, ListOf(vs, vid), q.a)
=============================================================================
