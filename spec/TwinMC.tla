------------------------------- MODULE TwinMC -------------------------------
(* Small systems of objects that hold a number, with or without a fault:     *)
(* when there is none all related executions answer alike; with one, some    *)
(* related execution of every script that meets the fault does not.          *)
EXTENDS Twin
CONSTANTS NObj, MaxLen
Faults == {"none", "garbage", "shared", "look moves"}
VARIABLES fault, script
vars == << fault, script >>
Vals == 1..2
Calls == {[op |-> "side.set", o |-> o, v |-> v] : o \in 1..NObj, v \in Vals} \cup {[op |-> "side.get", o |-> o] : o \in 1..NObj}
\* the state: number of each object (0: not set), the number set last of any, looks at each object
Blank == [num |-> [o \in 1..NObj |-> 0], last |-> 0, looks |-> [o \in 1..NObj |-> 0]]
After(s, c) == IF c.op = "side.set" THEN [s EXCEPT !.num[c.o] = c.v, !.last = c.v] ELSE [s EXCEPT !.looks[c.o] = @ + 1]
\* what the system with fault f answers; junk: what is in fresh memory
Answer(f, junk, s, c) ==
  IF c.op = "side.set" THEN 0
  ELSE CASE f = "none" -> s.num[c.o]
         [] f = "garbage" -> IF s.num[c.o] = 0 THEN junk ELSE s.num[c.o]
         [] f = "shared" -> s.last
         [] f = "look moves" -> s.num[c.o] + s.looks[c.o]
RECURSIVE Run(_, _, _, _, _)
Run(f, junk, cs, s, as) == IF cs = <<>> THEN as ELSE Run(f, junk, Tail(cs), After(s, Head(cs)), Append(as, Answer(f, junk, s, Head(cs))))
Answers(f, junk, cs) == Run(f, junk, cs, Blank, <<>>)
\* the numbers of a set in order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN << x >> \o Sorted(S \ {x})
Take(s, at) == [i \in DOMAIN at |-> s[at[i]]]
Whole == Answers(fault, 7, script)
Same(at, junk) == Alike(Whole, Answers(fault, junk, Take(script, at)), at)
Again == Same([i \in DOMAIN script |-> i], 8)
Alone == \A x \in Objects(script) : Same(Sorted(OfObject(script, x)), 7)
LookFree == \A G \in SUBSET DOMAIN script : Same(Sorted(WithoutLooks(script, LAMBDA i : i \in G)), 7)
Init == fault \in Faults /\ script = <<>>
Next == Len(script) < MaxLen /\ \E c \in Calls : script' = Append(script, c) /\ UNCHANGED fault
Allowed == fault = "none" => Again /\ Alone /\ LookFree
IsLook(i) == script[i].op = "side.get"
\* the faults show in these scripts
Refused ==
  /\ (fault = "garbage" /\ \E i \in DOMAIN script : IsLook(i) /\ \A j \in 1..i-1 : On(script[j], j) = On(script[i], i) => IsLook(j)) => ~Again
  /\ (fault = "shared" /\ \E i, j \in DOMAIN script : i < j /\ ~IsLook(i) /\ IsLook(j) /\ On(script[i], i) # On(script[j], j)
                            /\ (\A k \in i+1..j-1 : IsLook(k))
                            /\ Answers("none", 7, script)[j] # script[i].v) => ~Alone
  /\ (fault = "look moves" /\ \E i, j \in DOMAIN script : i < j /\ IsLook(i) /\ IsLook(j) /\ On(script[i], i) = On(script[j], j)) => ~LookFree
\* one kind of relation does not raise another kind's alarm
Apart == /\ fault = "garbage" => LookFree
         /\ fault = "look moves" => Again
         /\ fault = "shared" => Again
=============================================================================
