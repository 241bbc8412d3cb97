------------------------------ MODULE Lifecycle -----------------------------
(* What the heap looks like to the owner of some objects of the library:     *)
(* objects are created, called and deleted; a look at the heap returns the   *)
(* number of live blocks of the library.                                     *)
(* m: [alive objects, looks: tag of a look -> what was seen (at most the     *)
(* last two; the first one may precede one-time initialisation)]             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoObjects == [alive |-> {}, looks |-> <<>>]
Created(m, x) == [m EXCEPT !.alive = @ \cup {x}]
Deleted(m, x) == [m EXCEPT !.alive = @ \ {x}]
CanCreate(m, x) == x \notin m.alive
CanDelete(m, x) == x \in m.alive
\* the tag of a look without objects is "", the others name a repetition: the same calls
\* have been made on the same objects since the last look with the same tag
Seen(m, tag) == IF tag \in DOMAIN m.looks THEN m.looks[tag] ELSE <<>>
Looked(m, tag, live) == [m EXCEPT !.looks = (tag :> Append(Seen(m, tag), live)) @@ @]
\* no block is lost between looks without objects, no growth between repetitions;
\* what the first round allocates once may stay
Steady(s, live) ==
  CASE Len(s) = 0 -> TRUE
    [] Len(s) = 1 -> live >= s[1]
    [] OTHER -> live = s[Len(s)]
LookOK(m, tag, live) == (tag = "" => m.alive = {}) /\ Steady(Seen(m, tag), live)
=============================================================================
