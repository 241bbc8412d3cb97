------------------------------- MODULE CmdGen ------------------------------
(* Registered options, command lines and queries.                            *)
EXTENDS Cmd, GenBase
VARIABLES k, script, done
Names == << "-a", "-ab", "-abc", "--alpha", "--beta", "-x", "--x", "-n", "--nodes", "-v", "--v2", "--file-name", "-o",
            "--alph", "--alpha2", "--alphabet", "-A", "--Beta", "file", "--a", "--", "-nn", "-_x", "--node", "--nodes-per-cell", "--a-rather-long-name-for-an-option-of-a-program", "--x=y" >>
Join(n, t(_)) == LET RECURSIVE go(_) go(i) == IF i = n THEN t(i) ELSE t(i) \o "," \o go(i + 1) IN go(1)
Long(n) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN "" ELSE go(i - 1) \o (IF i % 7 = 0 THEN " " ELSE "abcdefghij") IN go(n)
Helps == << "help", "the number of cells", "file (default: none)", "", "a<b", "sets -x and --alpha", "tolerance (relative)", Long(8) >>
Types == << "double", "int", "string", "bool", "char" >>
Doubles == << "0", "1", "-1", "0.5", "-0.5", ".5", "-.25", "3.", "1e3", "-2.5e-3", "1E-20", "123456.789", "0.1", "-7", "6.02e23", "1e-300", "0.30000000000000004", "12345678901234567890.125", "-0.000000000000000000000123", "1e308" >>
Ints    == << "0", "1", "-1", "42", "-37", "2147483647", "-2147483647", "100000", "007" >>
Strings == << "", "a", "file.nc", "a b", "x=y", "-", "-3x", "-.z", "3", "a,b", "%20\"", "0", "prog", Long(3), Long(20), Long(45) >>
VecD    == << "1", "1,2", "-1.5,2e-2,3.e3", ".5,-.5", "0,0,0,0,0", "1,2,3,4,5,6,7,8,9,10", "1.0, 2.e-2, 3.e33", Join(17, LAMBDA i : ToString(i) \o ".5"), Join(70, LAMBDA i : "-" \o ToString(i) \o "e-1"), Join(133, LAMBDA i : ToString((i * i) % 97)) >>
VecI    == << "1", "1,-2", "3,4,-5,600000", "0,0", "9,8,7,6,5,4,3,2,1,0", "1, -2, 3", Join(18, LAMBDA i : ToString(1000 * i)), Join(66, LAMBDA i : "-" \o ToString(i)), Join(130, LAMBDA i : ToString((i * i) % 97)) >>
TextFor(r, t) == CASE t = "double" -> Among(r, Doubles) [] t = "int" -> Among(r, Ints)
                   [] t \in {"string", "char"} -> (LET c == Sub(r, 9) % 3 IN IF c = 0 THEN Among(r, Strings) ELSE IF c = 1 THEN Among(r, VecD) ELSE Among(r, VecI))
                   [] t = "bool" -> Among(r, << "true", "false" >>)
IsVec(s) == \E i \in 1..Len(VecD) : VecD[i] = s
IsVecI(s) == \E i \in 1..Len(VecI) : VecI[i] = s
Kind(t) == IF t = "char" THEN "string" ELSE t
Script(r, obj) ==
  LET nopt == IF Chance(Sub(r, 12), 15) THEN Range(Sub(r, 1), 9, 24) ELSE Range(Sub(r, 1), 0, 8)
      nm  == TLCEval(Shuffle(Sub(r, 2), Names))
      ty(i) == Among(Sub(r, 10 + i), Types)
      dv(i) == TextFor(Sub(r, 30 + i), ty(i))
      set(i) == [op |-> "cmd.set", o |-> obj, name |-> nm[i], t |-> ty(i), v |-> dv(i), h |-> Among(Sub(r, 60 + i), Helps)]
      \* words of a command line: options with a value of their own type, flags, stray values; sometimes an unknown option
      piece(s) ==
        LET i == 1 + (Sub(s, 1) % (IF nopt = 0 THEN 1 ELSE nopt))  c == Sub(s, 2) % 100 IN
        IF nopt = 0 \/ c < 8 THEN << Among(Sub(s, 3), << "1", "-5", "stray", "-", "x" >>) >>
        ELSE IF c = 8 /\ Chance(Sub(s, 6), 60) THEN << nm[nopt + 1] >>                                   \* unknown
        ELSE IF c < 12 THEN << Among(Sub(s, 3), << "-h", "--help" >>) >>
        ELSE IF ty(i) = "bool" THEN << nm[i] >>
        ELSE << nm[i], TextFor(Sub(s, 4), ty(i)) >>
      line(s) == << Among(Sub(s, 7), << "prog", "prog", "./a.out", "/opt/a b/prog-2" >>) >> \o Concat(Tab(IF Chance(Sub(s, 5), 8) THEN Range(Sub(s, 1), 20, 70) ELSE Range(Sub(s, 1), 0, 7), LAMBDA i : piece(Sub(s, 10 + i))))
                 \o (IF nopt > 0 /\ Chance(Sub(s, 2), 8) THEN << nm[1 + (Sub(s, 3) % nopt)] >> ELSE <<>>)
      parse(s) == << [op |-> "cmd.parse", o |-> obj, argv |-> line(s)] >>
      get(n, t) == [op |-> "cmd.get", o |-> obj, name |-> n, t |-> t]
      all == Concat(Tab(nopt, LAMBDA i : << get(nm[i], Kind(ty(i))) >> \o (IF Kind(ty(i)) = "string" THEN << get(nm[i], "char") >> ELSE <<>>)))
             \o << get("-h", "bool"), get("--help", "bool") >>
      odd == << get(nm[nopt + 1], Among(Sub(r, 5), << "double", "int", "string", "char", "bool", "vd", "vi" >>)),
                get(nm[1 + (Sub(r, 6) % (nopt + 1))], Among(Sub(r, 7), << "double", "int", "string", "bool" >>)) >>
      \* an option registered late, or again with another default
      late == IF Chance(Sub(r, 15), 70) \/ nopt = 0 THEN <<>>
              ELSE LET i == 1 + (Sub(r, 16) % nopt) IN << [set(i) EXCEPT !.v = TextFor(Sub(r, 17), ty(i)), !.h = Among(Sub(r, 20), Helps)] >>
      help == IF Chance(Sub(r, 18), 60) THEN << [op |-> "cmd.help", o |-> obj] >> ELSE <<>>
      purpose(s) == IF Chance(Sub(s, 1), 50) THEN << [op |-> "cmd.purpose", o |-> obj, text |-> Among(Sub(s, 2), << "Regrids a field", "a program (with options)", "" >>)] >> ELSE <<>>
      note(s) == IF Chance(Sub(s, 1), 30) THEN << [op |-> "cmd.note", o |-> obj, text |-> Among(Sub(s, 2), << "A note.", "Another note, longer than the first.", "See also: sigrid" >>)] >> ELSE <<>>
  IN << [op |-> "cmd.new", o |-> obj] >> \o Tab(nopt, LAMBDA i : set(i)) \o (IF Chance(Sub(r, 3), 30) THEN all ELSE <<>>)
     \o purpose(Sub(r, 21)) \o note(Sub(r, 22)) \o parse(Sub(r, 4)) \o all \o odd \o help
     \o (IF Chance(Sub(r, 8), 50) THEN late \o note(Sub(r, 23)) \o help \o purpose(Sub(r, 24)) \o parse(Sub(r, 9)) \o all ELSE <<>>)
     \o (IF Chance(Sub(r, 19), 20) THEN parse(Sub(r, 13)) \o help \o all \o parse(Sub(r, 14)) \o all ELSE <<>>)
\* queries for vectors follow the value each string option has at that point
RECURSIVE WithVectors(_, _, _)
WithVectors(s, i, p) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == s[i]
           q == TLCEval(CASE c.op = "cmd.set" -> Register(p, c.name, Kind(c.t), IF c.t = "bool" THEN c.v = "true" ELSE c.v)
                          [] c.op = "cmd.parse" -> Parse(p, c.argv) [] OTHER -> p)
           extra == IF c.op = "cmd.get" /\ c.t = "string" /\ c.name \in DOMAIN q /\ q[c.name].t = "string" THEN
                      (IF IsVec(q[c.name].v) THEN << [c EXCEPT !.t = "vd"] >> ELSE <<>>) \o (IF IsVecI(q[c.name].v) THEN << [c EXCEPT !.t = "vi"], [c EXCEPT !.t = "vd"] >> ELSE <<>>)
                    ELSE <<>>
       IN << c >> \o extra \o WithVectors(s, i + 1, q)
Session(r, obj) == WithVectors(Script(r, obj), 1, NewParser) \o << [op |-> "cmd.del", o |-> obj] >>
\* two parsers alive at once, their calls in any order
RECURSIVE Merge(_, _, _, _)
Merge(r, i, a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                     ELSE IF Chance(Sub(r, i), 50) THEN << Head(a) >> \o Merge(r, i + 1, Tail(a), b) ELSE << Head(b) >> \o Merge(r, i + 1, a, Tail(b))
\* several sessions
Sessions(r) == Concat(Tab(4, LAMBDA i : IF i < 4 \/ Chance(Sub(r, 9), 60) THEN Session(Sub(r, i), 1)
                                        ELSE Merge(Sub(r, 5), 1, TLCEval(Session(Sub(r, 6), 1)), TLCEval(Session(Sub(r, 7), 2)))))
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Sessions(Key(k)) /\ Emit(script')
=============================================================================
