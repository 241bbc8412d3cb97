-------------------------------- MODULE Cmd --------------------------------
(* Command line options.  A parser holds, for each registered name, a type   *)
(* and a value (as text for numbers, so that it can be converted exactly).   *)
EXTENDS Rat, FiniteSets, TLC

CharAt(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LooksLikeOption(a) == Len(a) >= 2 /\ CharAt(a, 1) = "-" /\ CharAt(a, 2) \notin Digits /\ CharAt(a, 2) # "."
\* a parser: a function from registered names to [t |-> type, v |-> value]
NewParser == [n \in {"-h", "--help"} |-> [t |-> "bool", v |-> FALSE]]
Register(p, name, t, v) == (name :> [t |-> t, v |-> v]) @@ p
Accepts(p, argv) == \A a \in 2..Len(argv) : LooksLikeOption(argv[a]) => argv[a] \in DOMAIN p
Occurrences(argv, n) == {a \in 2..Len(argv) : argv[a] = n}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the value an option has after the command line was accepted
ValueAfter(p, argv, n) ==
  IF p[n].t = "bool" THEN (IF Cardinality(Occurrences(argv, n)) % 2 = 0 THEN p[n].v ELSE ~p[n].v)
  ELSE LET S == {a \in Occurrences(argv, n) : a < Len(argv)} IN IF S = {} THEN p[n].v ELSE argv[MaxOf(S) + 1]
Parse(p, argv) == IF Accepts(p, argv) THEN [n \in DOMAIN p |-> [p[n] EXCEPT !.v = ValueAfter(p, argv, n)]] ELSE p

\* elements of comma separated text
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, j) == IF i <= Len(s) /\ j = i /\ CharAt(s, i) = " " THEN SplitFrom(s, i + 1, i + 1)
                      ELSE IF j > Len(s) THEN << SubSeq(s, i, Len(s)) >>
                      ELSE IF CharAt(s, j) = "," THEN << SubSeq(s, i, j - 1) >> \o SplitFrom(s, j + 1, j + 1)
                      ELSE SplitFrom(s, i, j + 1)
Split(s) == IF s = "" THEN <<>> ELSE SplitFrom(s, 1, 1)

\* what a query of type t for a name yields; numbers are compared after conversion
Largest == "0x1.fffffffffffffp+1023"
Is(p, n, t) == n \in DOMAIN p /\ p[n].t = t
NumEq(reported, text) == RFinite(reported) /\ REq(R(reported), RRound(R(text)))
GetOK(p, n, t, v) ==
  CASE t = "double" -> IF Is(p, n, "double") THEN NumEq(v, p[n].v) ELSE NumEq(v, RNeg(R(Largest)))
    [] t = "int"    -> IF Is(p, n, "int") THEN REq(R(v), R(p[n].v)) ELSE v = -2147483647
    [] t \in {"string", "char"} -> v = (IF Is(p, n, "string") THEN p[n].v ELSE "")
    [] t = "bool"   -> v = (IF Is(p, n, "bool") THEN p[n].v ELSE FALSE)
    [] t = "vd"     -> LET e == IF Is(p, n, "string") THEN Split(p[n].v) ELSE <<>> IN
                       Len(v) = Len(e) /\ \A i \in 1..Len(e) : NumEq(v[i], e[i])
    [] t = "vi"     -> LET e == IF Is(p, n, "string") THEN Split(p[n].v) ELSE <<>> IN
                       Len(v) = Len(e) /\ \A i \in 1..Len(e) : REq(R(v[i]), R(e[i]))

\* --------------------------------------------------------------- the help --
\* a text: what it is for, notes, the program's name, what is said of each option
NewText == [purpose |-> "", notes |-> <<>>, exec |-> "", help |-> [n \in {"-h", "--help"} |-> "Print help"]]
Blank(c) == c \in {" ", "\t"}
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ Blank(CharAt(s, 1)) THEN Trim(SubSeq(s, 2, Len(s))) ELSE s
Begins(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
Ends(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
\* the line is that of an option
Entry(line, n) == LET s == Trim(line) IN Begins(s, n) /\ (Len(s) = Len(n) \/ Blank(CharAt(s, Len(n) + 1)))
Rest(line, n) == LET s == Trim(line) IN SubSeq(s, Len(n) + 1, Len(s))
\* the text between the last pair of parentheses
Shown(s) == LET S == {i \in 1..Len(s) : CharAt(s, i) = "("} IN IF S = {} \/ ~Ends(s, ")") THEN "" ELSE SubSeq(s, MaxOf(S) + 1, Len(s) - 1)
\* numbers are shown with six digits
About(text, v) == RNumeral(text) /\ LET x == RRound(R(v)) IN RClose(R(text), x, RFrac(1, 100000) ** RAbs(x))
ValueShown(s, t, v) == CASE t = "double" -> About(Shown(s), v)
                         [] t = "int" -> RNumeral(Shown(s)) /\ REq(R(Shown(s)), R(v))
                         [] t = "string" -> Ends(s, "(" \o v \o ")")
                         [] t = "bool" -> Shown(s) = (IF v THEN "1" ELSE "0")
KindShown(s, t) == t # "bool" => Contains(s, "<" \o t)
EntriesOf(lines, n) == {i \in 1..Len(lines) : Entry(lines[i], n)}
\* every option has one line, with its kind, what is said of it and the value it has now
Described(p, x, lines, n) == Cardinality(EntriesOf(lines, n)) = 1 /\
                             LET s == Rest(lines[CHOOSE i \in EntriesOf(lines, n) : TRUE], n) IN
                             KindShown(s, p[n].t) /\ Contains(s, x.help[n]) /\ ValueShown(s, p[n].t, p[n].v)
Mentioned(lines, t) == t = "" \/ \E i \in 1..Len(lines) : Contains(lines[i], t)
\* nothing else looks like an option
NoOther(p, lines) == \A i \in 1..Len(lines) : Begins(Trim(lines[i]), "-") => \E n \in DOMAIN p : Entry(lines[i], n)
HelpOK(p, x, lines) == /\ \A n \in DOMAIN p : Described(p, x, lines, n)
                       /\ NoOther(p, lines)
                       /\ Mentioned(lines, x.purpose) /\ Mentioned(lines, x.exec)
                       /\ \A i \in 1..Len(x.notes) : Mentioned(lines, x.notes[i])
=============================================================================
