------------------------------ MODULE ArgosDefs ------------------------------
(***************************************************************************)
(* Parser definitions: what makes a definition valid, the options that    *)
(* are generated, which options and arguments share a value, and what a   *)
(* flag or a command name on the command line selects.                    *)
(*                                                                        *)
(* A definition D is a record: style, abbrev, ci, genhelp, igo, iga,      *)
(* autoexit, ecode, ncode, width, splits, version, ocb, acb and cmds, the *)
(* commands in pre-order (cmds[1] is the program itself).                 *)
(***************************************************************************)
EXTENDS ArgosStrs

Blank == {" ", "\t", "\n", "\r"}

(* "=" may only be the last character of a flag, and then only if the     *)
(* option has a named argument.                                           *)
EqualOk(f, o) == LET p == FindChar(f, "=", 1) IN
                 p = 0 \/ (p = Len(f) /\ o.arg # "")

FlagOk(f, style, o) ==
    /\ Len(f) >= 2
    /\ ~HasAny(f, Blank)
    /\ Ch(f, 1) = (IF style = "SLASH" THEN "/" ELSE "-")
    /\ Len(f) = 2 \/ ( /\ style = "STANDARD" => Ch(f, 2) = "-"
                       /\ EqualOk(f, o) )

OptionOk(o, style) ==
    /\ o.flags # <<>>
    /\ \A i \in 1..Len(o.flags) : FlagOk(o.flags[i], style, o)
    /\ ~(o.arg # "" /\ o.const # "")
    /\ CASE o.op = "NONE" -> o.const = "" /\ o.alias = ""
         [] o.op = "APPEND" -> o.arg # "" \/ o.const # ""
         [] o.op = "CLEAR" -> o.optional
         [] OTHER -> TRUE

(* A flag-like option without constant or argument gets the value 1. *)
Completed(o) ==
    IF o.op = "ASSIGN" /\ o.arg = "" /\ o.const = "" THEN [o EXCEPT !.const = "1"]
    ELSE IF o.op = "CLEAR" /\ (o.arg # "" \/ o.const # "") THEN [o EXCEPT !.const = "1"]
    ELSE o

NoScript == <<>>
GenOption(flags, type, help, section) ==
    [flags |-> flags, help |-> help, section |-> section, alias |-> "", arg |-> "",
     const |-> "1", init |-> "", op |-> "ASSIGN", type |-> type, vis |-> "NORMAL",
     optional |-> TRUE, id |-> 0, cb |-> NoScript, addsec |-> ""]

HasFlag(opts, f, ci) ==
    \E i \in 1..Len(opts) : \E j \in 1..Len(opts[i].flags) :
        Norm(opts[i].flags[j], ci) = Norm(f, ci)

VersionFlag(style) == CASE style = "STANDARD" -> "--version"
                        [] style = "SLASH" -> "/VERSION"
                        [] OTHER -> "-version"

AddVersion(D, c, opts) ==
    LET f == VersionFlag(D.style) IN
    IF D.version = "" \/ HasFlag(opts, f, D.ci) THEN opts
    ELSE Append(opts, [GenOption(<< f >>, "EXIT", "Display the program version.", c.cursec)
                       EXCEPT !.cb = << << "version" >> >>])

HelpFlags(D, opts) ==
    LET Free(f) == ~HasFlag(opts, f, D.ci)
        Opt(f) == IF Free(f) THEN << f >> ELSE <<>>
    IN CASE D.style = "STANDARD" -> Opt("-h") \o Opt("--help")
         [] D.style = "SLASH" -> Opt("/?")
         [] OTHER -> IF Free("-h") THEN << "-h" >> ELSE Opt("-help")

AddHelp(D, c, opts) ==
    IF ~D.genhelp \/ (\E i \in 1..Len(opts) : opts[i].type = "HELP") THEN opts
    ELSE LET fs == HelpFlags(D, opts) IN
         IF fs = <<>> THEN opts
         ELSE Append(opts, GenOption(fs, "HELP", "Display this help text.", c.cursec))

(***************************************************************************)
(* Shared values.  Everything in a command that is linked, directly or    *)
(* through others, by a common name, flag or alias has the same value.    *)
(* A value is identified by the index of the first item that has it;      *)
(* options with operation NONE have no value (0).                         *)
(***************************************************************************)
ItemNames(it) == IF it.kind = "A" THEN << it.name >> ELSE it.flags
HasValue(it) == it.kind = "A" \/ it.op # "NONE"
LinkNames(it) == IF ~HasValue(it) THEN {}
                 ELSE Range(ItemNames(it)) \cup (IF it.alias = "" THEN {} ELSE {it.alias})

RECURSIVE Linked(_, _, _)
Linked(links, set, names) ==
    LET more == {k \in DOMAIN links \ set : links[k] \cap names # {}} IN
    IF more = {} THEN set
    ELSE Linked(links, set \cup more, names \cup UNION {links[k] : k \in more})
ValueOf(items, links, i) ==
    IF ~HasValue(items[i]) THEN 0
    ELSE LET set == Linked(links, {i}, links[i]) IN CHOOSE k \in set : \A j \in set : k <= j
ValueIds(items) ==
    LET links == [i \in 1..Len(items) |-> LinkNames(items[i])]
    IN [i \in 1..Len(items) |-> ValueOf(items, links, i)]

ItemLabel(it) == IF it.id # 0 THEN "#" \o ToString(it.id)
                 ELSE IF it.kind = "A" THEN it.name ELSE it.flags[1]

(* All (name, value, item) combinations that a value can be looked up by. *)
NameEntries(items, vids) ==
    LET NamesOf(i) == IF ~HasValue(items[i]) THEN <<>>
                      ELSE ItemNames(items[i]) \o (IF items[i].alias = "" THEN <<>>
                                                   ELSE << items[i].alias >>)
        Ent(i) == [j \in 1..Len(NamesOf(i)) |-> << NamesOf(i)[j], vids[i], i >>]
        RECURSIVE Go(_)
        Go(i) == IF i > Len(items) THEN <<>> ELSE Ent(i) \o Go(i + 1)
    IN Go(1)

(* Unlimited counts are given as 1000000 *)
SumMin(args) == SumSeq([i \in 1..Len(args) |-> args[i].min])
SumMax(args) == SumSeq([i \in 1..Len(args) |-> args[i].max])
(* The words have to be counted in advance if an argument follows one     *)
(* whose count is not fixed.                                              *)
NeedsCount(args) ==
    \E i \in 1..Len(args) : i < Len(args) /\ args[i].min # args[i].max

(***************************************************************************)
(* Prepare: the definition as used for parsing (ok tells if it is valid). *)
(***************************************************************************)
RECURSIVE FullName(_, _)
FullName(cmds, i) == IF cmds[i].parent = 0 THEN cmds[i].name
                     ELSE FullName(cmds, cmds[i].parent) \o " " \o cmds[i].name

(* An item without a section gets the one that is current when it is added *)
InSection(it) == IF it.section = "" THEN [it EXCEPT !.section = it.addsec] ELSE it

PrepCmd(D, i) ==
    LET c == D.cmds[i]
        opts0 == LET os == [k \in 1..Len(c.opts) |-> InSection(c.opts[k])]
                 IN IF i = 1 THEN AddVersion(D, c, os) ELSE os
        opts1 == [k \in 1..Len(opts0) |-> Completed(opts0[k])]
        opts == AddHelp(D, c, opts1)
        items == [k \in 1..(Len(c.args) + Len(opts)) |->
                    IF k <= Len(c.args) THEN InSection(c.args[k]) @@ [kind |-> "A"]
                    ELSE opts[k - Len(c.args)] @@ [kind |-> "O"]]
        vids == ValueIds(items)
        flat == [k \in 1..Len(opts) |-> [j \in 1..Len(opts[k].flags) |->
                    << Norm(opts[k].flags[j], D.ci), Len(c.args) + k >>]]
        RECURSIVE Flat(_)
        Flat(k) == IF k > Len(opts) THEN <<>> ELSE flat[k] \o Flat(k + 1)
        index == Flat(1)
    IN [name |-> c.name, full |-> FullName(D.cmds, i), parent |-> c.parent,
        texts |-> c.texts, vis |-> c.vis, section |-> InSection(c).section, id |-> c.id,
        multi |-> c.multi, subs |-> c.subs,
        req |-> (IF c.req = "none" THEN c.subs # <<>> ELSE c.req = "true"),
        na |-> Len(c.args), items |-> items, vids |-> vids,
        labels |-> [k \in 1..Len(items) |-> ItemLabel(items[k])],
        index |-> index, names |-> NameEntries(items, vids),
        lo |-> SumMin(c.args), hi |-> SumMax(c.args), count |-> NeedsCount(c.args),
        ok |-> /\ \A k \in 1..Len(opts0) : OptionOk(opts0[k], D.style)
               /\ ~(c.req = "true" /\ c.subs = <<>>)
               /\ \A a, b \in 1..Len(index) : a # b => index[a][1] # index[b][1] ]

(* Errors that are found when the definition is put together. *)
AddOk(D, i) ==
    LET c == D.cmds[i] IN
    /\ i > 1 => c.name # ""
    /\ \A k \in 1..Len(c.args) : c.args[k].name # "" /\ c.args[k].max > 0
                                 /\ c.args[k].min <= c.args[k].max
    /\ \A k \in 1..Len(c.opts) : c.opts[k].flags # <<>>
    /\ ~(c.args # <<>> /\ c.subs # <<>>)

Prepare(D) ==
    LET cmds == [i \in 1..Len(D.cmds) |-> PrepCmd(D, i)] IN
    [D EXCEPT !.cmds = cmds]
      @@ [ok |-> \A i \in 1..Len(cmds) : cmds[i].ok]

(***************************************************************************)
(* Lookup                                                                 *)
(***************************************************************************)
IsOptionWord(P, w) == Len(w) >= 2 /\ Ch(w, 1) = (IF P.style = "SLASH" THEN "/" ELSE "-")

FindExact(P, c, f) ==
    LET hits == {k \in 1..Len(c.index) : c.index[k][1] = f}
        pre == {k \in 1..Len(c.index) : StartsWith(c.index[k][1], f)}
    IN IF hits # {} THEN c.index[CHOOSE k \in hits : TRUE][2]
       ELSE IF P.abbrev /\ Cardinality(pre) = 1 THEN c.index[CHOOSE k \in pre : TRUE][2]
       ELSE 0

(* The index of the item selected by the flag in command c, or 0 *)
FindFlag(P, c, flag) ==
    LET f == Norm(flag, P.ci)
        r == FindExact(P, c, f)
    IN IF r # 0 \/ Len(f) <= 2 \/ LastCh(f) # "=" THEN r
       ELSE LET r2 == FindExact(P, c, Chop(f)) IN
            IF r2 # 0 /\ c.items[r2].arg # "" THEN r2 ELSE 0

(* The index of the sub-command of c with the given name, or 0 *)
FindCommand(P, c, name) ==
    LET n == Norm(name, P.ci)
        hits == {k \in 1..Len(c.subs) : Norm(P.cmds[c.subs[k]].name, P.ci) = n}
    IN IF hits = {} THEN 0
       ELSE c.subs[CHOOSE k \in hits : \A j \in hits : k <= j]
=============================================================================
