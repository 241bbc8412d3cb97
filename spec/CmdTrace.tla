------------------------------ MODULE CmdTrace -----------------------------
(* Recorded executions of the command line parser.                           *)
EXTENDS Cmd, TraceBase
VARIABLES parser,      \* object -> parser
          text         \* object -> what its help says
vars == << l, parser, text >>
Init == l = 1 /\ parser = <<>> /\ text = <<>>
P == parser[E.o]
Put(p) == parser' = (E.o :> p) @@ parser
PutText(x) == text' = (E.o :> x) @@ text
X == text[E.o]
OnNew == E.op = "cmd.new" /\ Put(NewParser) /\ PutText(NewText)
OnDel == E.op = "cmd.del" /\ parser' = [o \in DOMAIN parser \ {E.o} |-> parser[o]] /\ text' = [o \in DOMAIN text \ {E.o} |-> text[o]]
OnSet == E.op = "cmd.set" /\ Put(Register(P, E.name, IF E.t = "char" THEN "string" ELSE E.t, IF E.t = "bool" THEN E.v = "true" ELSE E.v)) /\ PutText([X EXCEPT !.help = (E.name :> E.h) @@ @])
OnParse == /\ E.op = "cmd.parse"
           /\ Judge("C21", "wrong verdict on the command line", E.ok = Accepts(P, E.argv))
           /\ Judge("C21", "the arguments were modified", ~E.mod)
           /\ Put(Parse(P, E.argv))
           /\ PutText([X EXCEPT !.exec = E.argv[1]])
OnGet == E.op = "cmd.get" /\ UNCHANGED << parser, text >> /\ Judge("C21", "wrong value", GetOK(P, E.name, E.t, E.v))
OnPurpose == E.op = "cmd.purpose" /\ UNCHANGED parser /\ PutText([X EXCEPT !.purpose = E.text])
OnNote == E.op = "cmd.note" /\ UNCHANGED parser /\ PutText([X EXCEPT !.notes = Append(@, E.text)])
OnHelp == /\ E.op = "cmd.help" /\ UNCHANGED << parser, text >>
          /\ \A n \in DOMAIN P : Judge("C32", "the help does not show the option " \o n \o " once, as it is", Described(P, X, E.lines, n))
          /\ Judge("C32", "the help shows something that is no option", NoOther(P, E.lines))
          /\ Judge("C32", "the purpose, the name or a note is missing", HelpOK(P, X, E.lines))
OnStart == E.op = "start" /\ parser' = <<>> /\ text' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ OnNew \/ OnDel \/ OnSet \/ OnParse \/ OnGet \/ OnHelp \/ OnPurpose \/ OnNote)
=============================================================================
