------------------------------- MODULE CmdMC -------------------------------
(* All short command lines over a few words, parsed by two parsers: the value *)
(* rules, and a scan of the arguments as an implementation would do it.      *)
EXTENDS Cmd
CONSTANTS MaxLen, MaxParses
VARIABLES p, argv, n, ok
vars == << p, argv, n, ok >>
Words == {"--s", "--i", "--x", "-b", "5", "-2", "-.5", "a", "-", "-n"}
P0 == Register(Register(Register(Register(NewParser, "--s", "string", "dflt"), "--i", "int", "7"), "--x", "double", "1"), "-b", "bool", FALSE)
Lines == UNION {[1..m -> Words] : m \in 0..MaxLen}
Init == p = P0 /\ argv = <<>> /\ n = 0 /\ ok = TRUE
Next == n < MaxParses /\ n' = n + 1 /\ \E w \in Lines : argv' = << "prog" >> \o w /\ p' = Parse(p, argv') /\ ok' = Accepts(p, argv')
\* one option, scanned from left to right
RECURSIVE Scan(_, _, _, _, _)
Scan(a, i, name, val, isVal) ==
  IF i > Len(a) THEN val
  ELSE Scan(a, i + 1, name, IF isVal THEN a[i] ELSE val, a[i] = name)
RECURSIVE Flip(_, _, _, _)
Flip(a, i, name, val) == IF i > Len(a) THEN val ELSE Flip(a, i + 1, name, IF a[i] = name THEN ~val ELSE val)
ScanRule == [][ ok' => \A m \in DOMAIN p :
    p'[m].v = (IF p[m].t = "bool" THEN Flip(argv', 2, m, p[m].v) ELSE Scan(argv', 2, m, p[m].v, FALSE)) ]_vars
Rejects == [][ ~ok' => p' = p /\ \E i \in 2..Len(argv') : argv'[i] = "-n" ]_vars
\* options that do not occur keep their values, whatever else is on the line
Untouched == [][ \A m \in DOMAIN p : Occurrences(argv', m) = {} => p'[m] = p[m] ]_vars
\* moving an option with its value (or a flag) to the front changes nothing if it occurs once
OrderFree == [][ (ok' /\ Len(argv') >= 3) =>
   LET a == argv'  L == Len(a)
       front == << "prog", a[L-1], a[L] >> \o SubSeq(a, 2, L - 2) IN
   ((a[L-1] \in {"--s", "--i", "--x"}) /\ (a[L] \in {"5", "-2"}) /\ (L > 3 => a[L-2] \notin {"--s", "--i", "--x"})
     /\ Cardinality(Occurrences(a, a[L-1])) = 1) => Parse(p, front) = p' ]_vars
\* the help as an implementation would print it, one kind after the other
ToText(t, v) == IF t = "bool" THEN (IF v THEN "1" ELSE "0") ELSE v
KindText(t) == IF t = "bool" THEN "" ELSE " <" \o t \o "#>"
RECURSIVE LinesOf(_, _, _)
LinesOf(q, t, S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN << "\t" \o m \o KindText(t) \o " a (b) (" \o ToText(t, q[m].v) \o ")" >> \o LinesOf(q, t, S \ {m})
OfKind(q, t) == LinesOf(q, t, {m \in DOMAIN q : q[m].t = t})
Printed(q) == << "purpose", "prog [options]", "Usage:" >> \o OfKind(q, "double") \o OfKind(q, "int") \o OfKind(q, "string") \o OfKind(q, "bool") \o << "note", "", "more" >>
TextOf(q) == [purpose |-> "purpose", exec |-> "prog", notes |-> << "note" >>, help |-> [m \in DOMAIN q |-> "a (b)"]]
Numeric(q) == \A m \in DOMAIN q : q[m].t \in {"double", "int"} => q[m].v \notin {"a", "-", "--s", "--i", "--x", "-b", "-n"}
\* it is accepted, and not for another state of the options
HelpFits == Numeric(p) => HelpOK(p, TextOf(p), Printed(p))
SameNumbers == \A m \in DOMAIN p : p[m].t \in {"double", "int"} => REq(R(p[m].v), R(p'[m].v))
HelpTells == [][ (Numeric(p) /\ Numeric(p')) => (HelpOK(p', TextOf(p'), Printed(p)) = (SameNumbers /\ \A m \in DOMAIN p : p[m].t \in {"string", "bool"} => p[m].v = p'[m].v)) ]_vars
\* a line left out or printed twice is noticed
HelpWhole == Numeric(p) => LET s == Printed(p) IN \A i \in 4..Len(s)-3 :
               /\ ~HelpOK(p, TextOf(p), SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
               /\ ~HelpOK(p, TextOf(p), s \o << s[i] >>)
TypeOK == /\ \A m \in DOMAIN p : p[m].t = P0[m].t
          /\ Split("1,2,-3") = << "1", "2", "-3" >> /\ Split("1") = << "1" >> /\ Split("") = <<>> /\ Split("a,") = << "a", "" >>
=============================================================================
