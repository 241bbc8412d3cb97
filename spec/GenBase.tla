------------------------------ MODULE GenBase ------------------------------
(* Generation of test behaviours.  A behaviour is a function of a seed: all  *)
(* choices are drawn with Hash, an arbitrary but fixed function to           *)
(* 0..2^31-1, so that generation is referentially transparent (TLC's         *)
(* RandomElement is not: it caches constant level expressions).              *)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json, IOUtils, Held, Seqs, Twin
CONSTANTS Seed, Count, From          \* scripts From .. From+Count-1 of the family

Hash(a, b)    == CHOOSE h \in 0..2147483647 : TRUE
Sub(r, i)     == Hash(r, i)
Key(k)        == Hash(Hash(Seed, 7919), k)
Among(r, s)   == s[1 + (r % Len(s))]
Chance(r, p)  == r % 100 < p                     \* true in p percent of the draws
Range(r, a, b) == a + (r % (b - a + 1))
\* a number in [-1, 1]: a multiple of 2^-k, or a "generic" one
Dyadic(r, k)  == RFrac(Range(r, -(2^k), 2^k), 2^k)
Generic(r)    == RFrac(Range(r, -999983, 999983), 999983)
\* a function as a sequence, evaluated once
Tab(n, f(_))  == TLCEval([i \in 1..n |-> f(i)])
Shuffle(r, s) == \* a permutation of s
  LET RECURSIVE go(_, _)
      go(t, i) == IF t = <<>> THEN <<>>
                  ELSE LET j == 1 + (Sub(r, i) % Len(t)) IN
                       << t[j] >> \o go(SubSeq(t, 1, j-1) \o SubSeq(t, j+1, Len(t)), i + 1)
  IN go(s, 1)
Distinct(s) == Fold(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
\* the objects a script creates and does not delete, in the order of creation
Deleter == [x \in {"cons", "node", "flow", "find", "ovl", "qi", "qli", "qlf", "ls", "box", "side", "oct", "tri", "line", "triangle", "tetra", "cmd"} |-> x \o ".del"]
Creates == [c \in {x \o ".new" : x \in DOMAIN Deleter} |-> CHOOSE x \in DOMAIN Deleter : c = x \o ".new"]
Deletes == [c \in {x \o ".del" : x \in DOMAIN Deleter} |-> CHOOSE x \in DOMAIN Deleter : c = x \o ".del"]
Left(s) == Fold(LAMBDA a, c :
             IF c.op \in DOMAIN Creates THEN Append(a, << Creates[c.op], c.o >>)
             ELSE IF c.op \in DOMAIN Deletes THEN SelectSeq(a, LAMBDA x : x # << Deletes[c.op], c.o >>) ELSE a, <<>>, s)
Finish(s) == LET a == Left(s) IN [i \in 1..Len(a) |-> [op |-> Deleter[a[i][1]], o |-> a[i][2]]]
Probe(tag) == [op |-> "mem.live", tag |-> tag]
\* whole lives, three times over, with a look at the heap after each
Lives(s) == LET b == TLCEval(Tail(s) \o Finish(s)) IN << Head(s), Probe("") >> \o b \o << Probe("") >> \o b \o << Probe("") >> \o b \o << Probe("") >>
\* earlier answers read again after calls on other objects of the class; s: the script, a: what it becomes,
\* q: the objects with an answer that may be read
Weave(s) ==
  Fold(LAMBDA x, i :
       LET c == s[i]
           q == x.q
           mine == IF "o" \notin DOMAIN c \/ c.op = "held" THEN {} ELSE {p \in q : p[2] = c.o /\ Len(c.op) > Len(p[1]) /\ SubSeq(c.op, 1, Len(p[1]) + 1) = p[1] \o "."}
           rest == q \ mine
           r == Hash(Hash(Seed, 31 * i + Len(s)), Len(x.a))
           again == IF "o" \notin DOMAIN c \/ rest = {} \/ r % 100 >= 30 THEN <<>> ELSE LET p == CHOOSE y \in rest : TRUE IN << [op |-> "held", kind |-> p[1], o |-> p[2]] >>
       IN [q |-> TLCEval(IF c.op \in ShowOps THEN rest \cup {<< FamilyOf(c.op), c.o >>} ELSE rest), a |-> TLCEval(x.a \o << c >> \o again)],
     [q |-> {}, a |-> <<>>], [i \in 1..Len(s) |-> i]).a
\* the printed form of a script: a JSON array of calls
\* those calls of s, each with its number in s
Numbered(s, S, how, id) == << [op |-> "start", id |-> id, twin |-> how] >> \o
                           SelectSeq(Tab(Len(s), LAMBDA i : s[i] @@ [nth |-> i]), LAMBDA c : c.op # "start" /\ c.nth \in S)
\* calls after which the script looks where the search is
Searches == {"find.next", "find.run"}
\* a script and the scripts that must answer as it does (module Twin)
Twins(s, how) ==
  LET r == Hash(Hash(Seed, 53), s[1].id)
      os == Fold(LAMBDA a, i : IF s[i].op \in Data \/ \E j \in 1..Len(a) : a[j] = On(s[i], i) THEN a ELSE Append(a, On(s[i], i)), <<>>, [i \in 1..Len(s) |-> i])
      \* all objects if there are few, some of them otherwise
      some == IF Len(os) <= 6 THEN os ELSE SubSeq(Shuffle(Sub(r, 1), os), 1, 6) IN
  Numbered(s, DOMAIN s, "base", s[1].id) \o
  (CASE how = "again" -> Numbered(s, DOMAIN s, "again", s[1].id)
     [] how = "alone" -> Concat(Tab(Len(some), LAMBDA i : Numbered(s, OfObject(s, some[i]), "alone", s[1].id + i)))
     [] how = "looks" -> Concat(Tab(3, LAMBDA k : LET gone(i) == Chance(Hash(Sub(r, 10 + k), i), 65) IN Numbered(Tab(Len(s), LAMBDA i : IF s[i].op \in Searches /\ gone(i) THEN s[i] @@ [quiet |-> 1] ELSE s[i]), WithoutLooks(s, gone), "looks", s[1].id + k))))
\* the calls on the objects of a script in another order, that of the calls on each object kept; grids first.
\* A script with only one object gets company: the same calls on another, some calls later
Renamed(s) == Tab(Len(s), LAMBDA i : IF "o" \in DOMAIN s[i] THEN [s[i] EXCEPT !.o = @ + 500] ELSE s[i])
Interleaved(s) ==
  LET r == Hash(Hash(Seed, 59), s[1].id)
      data == SelectSeq(s, LAMBDA c : c.op \in Data)
      ids == SelectSeq(data, LAMBDA c : c.op = "grid")
      own == SelectSeq(s, LAMBDA c : c.op \notin Data)
      alone == Cardinality(Objects(s)) = 1
      calls == TLCEval(IF alone THEN own \o Renamed(own) ELSE own)
      key == Tab(Len(calls), LAMBDA i : On(calls[i], i))
      names == Distinct(key)
      of == Tab(Len(calls), LAMBDA i : CHOOSE j \in 1..Len(names) : names[j] = key[i])
      \* the calls on an object are spread over a part of the script
      size == Tab(Len(names), LAMBDA j : Cardinality({i \in DOMAIN of : of[i] = j}))
      rank == Fold(LAMBDA a, i : [seen |-> TLCEval([a.seen EXCEPT ![of[i]] = @ + 1]), out |-> TLCEval(Append(a.out, a.seen[of[i]]))],
                   [seen |-> [j \in 1..Len(names) |-> 0], out |-> <<>>], [i \in 1..Len(calls) |-> i]).out
      from(j) == IF alone THEN (IF j = 1 THEN 0 ELSE Range(Sub(r, 1), 20000, 200000)) ELSE Range(Sub(Sub(r, 2), j), 0, 300000)
      width(j) == IF alone THEN 900000 \div size[j] ELSE Range(Sub(Sub(r, 3), j), 300000, 700000) \div size[j]
      at(i) == from(of[i]) + (rank[i] * width(of[i])) + (Sub(Sub(r, 4), i) % width(of[i]))
      sorted == SortSeq(Tab(Len(calls), LAMBDA i : << at(i), i >>), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])) IN
  IF Len(own) = 0 \/ Len(own) > 600 \/ \E i, j \in 1..Len(ids) : i # j /\ ids[i].id = ids[j].id THEN s
  ELSE data \o Tab(Len(calls), LAMBDA i : calls[sorted[i][2]])
Env(name) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE ""
NoProbes(s) == SelectSeq(s, LAMBDA c : c.op # "mem.live")
Emit(s)       == PrintT("SCRIPT " \o ToJson(IF Env("LIVES") = "1" THEN Lives(s) ELSE IF Env("TWIN") # "" THEN Twins(TLCEval(NoProbes(CASE Env("TWIN") = "looks" -> s [] Env("TWIN") = "again" -> Weave(s) [] Env("TWIN") = "alone" -> Weave(TLCEval(Interleaved(TLCEval(NoProbes(s))))))), Env("TWIN")) ELSE Weave(s)))
=============================================================================
