----------------------------- MODULE ArgosLayout -----------------------------
(***************************************************************************)
(* How text is laid out in lines.  A formatter f is a record:             *)
(*   w      the line width                                                *)
(*   lines  the lines that have been written                              *)
(*   line   the current line, lw its width in code points                 *)
(*   ind    the indentation, ents the stack of indentations               *)
(*   sp     spaces that will be written if another word follows           *)
(*   al     "no" | "aligned" | "marker" | "alignedmarker": whether the    *)
(*          text is aligned after leading space or a list marker          *)
(*   rules  word splitting rules: sequence of << word, splits >>          *)
(***************************************************************************)
EXTENDS ArgosStrs, SequencesExt

TabSize == 4
Spaces(n) == Repeat(" ", n)

(******************************* Code points *******************************)
(* Length of the code point that starts with byte o, 0 if it is invalid.  *)
CpLen(o) == IF o < 128 THEN 1 ELSE IF o > 247 \/ o < 192 THEN 0
            ELSE IF o < 224 THEN 2 ELSE IF o < 240 THEN 3 ELSE 4
IsCont(o) == o >= 128 /\ o < 192
AsciiSet == {CharTab[i] : i \in 1..128}
IsAscii(s) == \A i \in 1..Len(s) : Ch(s, i) \in AsciiSet

RECURSIVE CpCount(_, _, _, _)
CpCount(s, i, need, n) ==
    IF i > Len(s) THEN n
    ELSE LET o == Ord(Ch(s, i)) IN
         IF need = 0
         THEN IF CpLen(o) = 0 THEN Len(s) ELSE CpCount(s, TLCEval(i + 1), TLCEval(CpLen(o) - 1), TLCEval(n + 1))
         ELSE IF IsCont(o) THEN CpCount(s, TLCEval(i + 1), TLCEval(need - 1), n) ELSE Len(s)
(* Width of a text; bytes are counted if it is not valid UTF-8. *)
Width(s) == IF IsAscii(s) THEN Len(s) ELSE CpCount(TLCEval(s), 1, 0, 0)

RECURSIVE CpFind(_, _, _, _, _)
CpFind(s, n, i, need, cnt) ==        \* i is the number of bytes looked at
    IF i >= Len(s) THEN IF need # 0 THEN n ELSE -1
    ELSE LET o == Ord(Ch(s, i + 1)) IN
         IF need = 0
         THEN IF cnt = n THEN i
              ELSE IF CpLen(o) = 0 THEN n ELSE CpFind(s, n, TLCEval(i + 1), TLCEval(CpLen(o) - 1), TLCEval(cnt + 1))
         ELSE IF IsCont(o) THEN CpFind(s, n, TLCEval(i + 1), TLCEval(need - 1), cnt) ELSE n
(* Number of bytes in front of the n'th code point, -1 if there isn't one *)
NthCp(s, n) == IF n >= Len(s) THEN -1 ELSE IF IsAscii(s) THEN n ELSE CpFind(s, n, 0, 0, 0)

(********************************* Lines ***********************************)
CurWidth(f) == Max(f.lw, f.ind) + f.sp
Room(f) == f.w - Min(CurWidth(f), f.w)
EmptyLine(f) == f.line = ""

Put(f, s) == [f EXCEPT !.line = @ \o Spaces(CurWidth(f) - f.lw) \o s,
                       !.lw = CurWidth(f) + Width(s), !.sp = 0]
Fits(f, s) == Width(s) <= Max(CurWidth(f), f.w) - CurWidth(f)
NewLine(f) == [f EXCEPT !.lines = Append(@, f.line), !.line = "", !.lw = 0, !.sp = 0]
SetIndent(f, n) == IF n >= f.w THEN f ELSE [f EXCEPT !.ind = n]
Push(f, n) == SetIndent([f EXCEPT !.ents = Append(@, n)], n)
Pop(f) == LET e == SubSeq(f.ents, 1, Len(f.ents) - 1)
          IN SetIndent([f EXCEPT !.ents = e], e[Len(e)])
PushCurrent(f) == Push([f EXCEPT !.sp = 0], CurWidth(f))

(***************************** Word splitting ******************************)
(* A rule is a word with spaces where it may be split; it becomes the     *)
(* lower case word and the positions with the separator to add there.     *)
RECURSIVE RuleSplits(_, _, _)
RuleSplits(r, p, removed) ==
    LET q == FindChar(r, " ", p) IN
    IF q = 0 THEN << << Len(r) - removed, "" >> >>
    ELSE << << q - 1 - removed, IF Ch(r, q - 1) = "-" THEN "" ELSE "-" >> >>
         \o RuleSplits(r, TLCEval(q + 1), TLCEval(removed + 1))
RuleOk(r) == \A i \in 1..Len(r) : Ch(r, i) = " " => i > 1 /\ Ch(r, i - 1) # " "
Rule(r) == << Lower(Concat(SplitAt(r, " ", -1))), RuleSplits(r, 1, 0) >>

Punctuation == {".", ",", ";", ":", "!", "?", "(", ")", "[", "]", "{", "}", "<", ">", "\"", "'", "`"}
RECURSIVE Bare(_)
Bare(w) == IF w # "" /\ LastCh(w) \in Punctuation THEN Bare(Chop(w)) ELSE w

IsDigit(c) == Ord(c) >= 48 /\ Ord(c) <= 57
IsAlnum(c) == IsDigit(c) \/ LowCh(c) \in Range(Chars(Lower26))

(* A split is << number of bytes taken, separator >>, <<0, "">> if none.  *)
NoSplit == << 0, "" >>
RECURSIVE BackCont(_, _)
BackCont(s, i) == IF IsCont(Ord(Ch(s, i + 1))) THEN BackCont(s, i - 1) ELSE i

DefaultSplit(s, max) ==
    IF max <= 2 THEN NoSplit
    ELSE LET p == NthCp(s, max)
             bytes == p = max
             back(i) == IF bytes THEN i ELSE BackCont(s, i)
             top == back(p - 1)
             lo == (max + 2) \div 3
             RECURSIVE Go(_, _)
             Go(cnt, ix) ==
                 IF cnt <= lo THEN << top, "-" >>
                 ELSE LET i == back(ix - 1)
                          a == Ch(s, i)
                          b == Ch(s, i + 1)
                      IN IF Ord(a) >= 127 \/ Ord(b) >= 127 THEN Go(TLCEval(cnt - 1), TLCEval(i))
                         ELSE IF IsAlnum(a) # IsAlnum(b) THEN << i, "" >>
                         ELSE IF IsDigit(a) # IsDigit(b) THEN << i, "-" >>
                         ELSE Go(TLCEval(cnt - 1), TLCEval(i))
         IN IF p = -1 THEN << Len(s), "" >> ELSE Go(max - 1, top)

RuleFor(f, word) ==
    LET key == Lower(Bare(word))
        hits == {i \in 1..Len(f.rules) : f.rules[i][1] = key}
    IN IF hits = {} THEN <<>> ELSE f.rules[CHOOSE i \in hits : \A j \in hits : i <= j][2]

(* The last split of the rule that fits when start bytes of the word have *)
(* been written.                                                          *)
RuleSplit(splits, word, start, max) ==
    LET RECURSIVE Go(_, _, _)
        Go(i, prev, len) ==
            IF i > Len(splits) THEN prev
            ELSE LET sp == splits[i] IN
                 IF sp[1] <= start THEN Go(i + 1, prev, len)
                 ELSE LET l == len + Width(SubSeq(word, prev[1] + 1, sp[1])) IN
                      IF l + Len(sp[2]) > max THEN prev ELSE Go(i + 1, sp, l)
        r == Go(1, << start, "" >>, 0)
    IN IF r[1] > start + 1 THEN << r[1] - start, r[2] >> ELSE NoSplit

SplitWord(f, word, start, max, must) ==
    LET rs == RuleFor(f, word)
        r == IF rs = <<>> THEN NoSplit ELSE RuleSplit(rs, word, start, max)
    IN IF r # NoSplit THEN r
       ELSE IF must THEN DefaultSplit(Drop(word, start), max) ELSE NoSplit

(********************************* Words ***********************************)
RECURSIVE PutWordFrom(_, _, _)
PutWordFrom(f, word, start) ==
    LET rem == TLCEval(Drop(word, start)) IN
    IF Fits(f, rem) THEN Put(f, rem)
    ELSE LET sp == TLCEval(SplitWord(f, word, start, TLCEval(Room(f)), EmptyLine(f))) IN
         IF sp[1] # 0
         THEN PutWordFrom(TLCEval(NewLine(Put(f, Take(rem, sp[1]) \o sp[2]))), word, TLCEval(start + sp[1]))
         ELSE IF ~EmptyLine(f) THEN PutWordFrom(TLCEval(NewLine(f)), word, start)
         ELSE IF f.sp # 0 THEN PutWordFrom(TLCEval([f EXCEPT !.sp = 0]), word, start)
         ELSE Put(f, rem)
PutWord(f, word) == PutWordFrom(TLCEval(f), TLCEval(word), 0)

IsMarker(w) == \/ w \in {"-", "*"}
               \/ Len(w) > 1 /\ LastCh(w) = "." /\ \A i \in 1..(Len(w) - 1) : IsDigit(Ch(w, i))

EndAlign(f) == [(IF f.al \in {"aligned", "alignedmarker"} THEN Pop(f) ELSE f) EXCEPT !.al = "no"]
BeginAlign(f) ==
    IF ~EmptyLine(f) /\ f.al \notin {"marker", "alignedmarker"} THEN f
    ELSE [Push([EndAlign(f) EXCEPT !.sp = 0], CurWidth(f)) EXCEPT !.al = "aligned"]
Marked(f, w) == IF EmptyLine(f) /\ IsMarker(w)
                THEN [f EXCEPT !.al = IF @ = "aligned" THEN "alignedmarker" ELSE "marker"]
                ELSE f

(* A text is a sequence of tokens: words, runs of spaces << " ", n >>,    *)
(* tabs and line breaks.                                                  *)
Token(k, s) == [k |-> k, s |-> s]
AddToken(q, k, s) ==
    LET n == Len(q)
        merge == n > 0 /\ q[n].k = k /\ k \in {"word", "space"}
    IN IF k = "newline" /\ s = "\n" /\ n > 0 /\ q[n].s = "\r" THEN [q EXCEPT ![n].s = "\r\n"]
       ELSE IF merge THEN [q EXCEPT ![n].s = @ \o s] ELSE Append(q, Token(k, s))
Kind(c) == CASE c = " " -> "space" [] c = "\t" -> "tab" [] c \in {"\n", "\r"} -> "newline" [] OTHER -> "word"
Tokens(t) == FoldLeft(LAMBDA q, c : AddToken(q, Kind(c), c), <<>>, Chars(t))

WriteToken(f, tok) ==
    CASE tok.k = "tab" -> BeginAlign([f EXCEPT !.sp = @ + TabSize - (CurWidth(f) % TabSize)])
      [] tok.k = "newline" -> NewLine(TLCEval(EndAlign(f)))
      [] tok.k = "space" -> BeginAlign([f EXCEPT !.sp = Len(tok.s)])
      [] OTHER -> PutWord(Marked(f, tok.s), tok.s)
WordsFrom(f, t) == EndAlign(TLCEval(FoldLeft(WriteToken, f, Tokens(t))))
WriteWords(f, t) == WordsFrom(TLCEval(f), TLCEval(t))

(* Text whose lines are only broken where they have to be. *)
RECURSIVE LinesFrom(_, _)
LinesFrom(f, t) ==
    IF t = "" THEN f
    ELSE LET e == FindAny(t, {"\n", "\r"}, 1)
             line == IF e = 0 THEN t ELSE Take(t, e - 1)
             rem == IF e = 0 THEN ""
                    ELSE IF Ch(t, e) = "\r" /\ e < Len(t) /\ Ch(t, e + 1) = "\n" THEN Drop(t, e + 1)
                    ELSE Drop(t, e)
             f1 == IF line = "" THEN f ELSE PutWord(f, line)
         IN LinesFrom(TLCEval(IF rem = "" THEN f1 ELSE NewLine(f1)), TLCEval(rem))
WriteLines(f, t) ==
    LET f1 == TLCEval(LinesFrom(TLCEval(f), TLCEval(t))) IN
    IF t # "" /\ LastCh(t) \in {"\n", "\r"} THEN NewLine(f1) ELSE f1

NewFormatter(width, rules) ==
    [w |-> width, lines |-> <<>>, line |-> "", lw |-> 0, ind |-> 0, ents |-> << 0 >>, sp |-> 0,
     al |-> "no", rules |-> [i \in 1..Len(rules) |-> Rule(rules[i])]]
=============================================================================
