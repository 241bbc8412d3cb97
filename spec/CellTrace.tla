----------------------------- MODULE CellTrace -----------------------------
(* Recorded executions of the single cell tools.                             *)
EXTENDS Cell, TraceBase
VARIABLES held       \* object (tool and name) -> lines of the trace that set its inputs
vars == << l, held >>

Init == l = 1 /\ held = <<>>
Id(tool) == << tool, E.o >>
H(tool) == held[Id(tool)]
Hold(tool, v) == held' = (Id(tool) :> v) @@ held
Quad(line, f) == Points(Trace[line][f])
New(tool, op) == E.op = op /\ Hold(tool, << 0, 0 >>)
Del(op) == E.op = op /\ UNCHANGED held

OnHull ==
  /\ E.op = "hull.area" /\ UNCHANGED held
  /\ Judge("C12", "not the area of the convex hull", HullOK(Points(E.pts), E.area))
  /\ Judge("C12", "asking again gives another answer", E.again = E.area)
  /\ Judge("C12", "the points were modified", ~E.mod)
OnSetQuads == E.op = "qi.set" /\ Hold("qi", << l, l >>)
OnQuads ==
  /\ E.op = "qi.get" /\ UNCHANGED held
  /\ H("qi")[1] # 0 =>
     /\ Judge("C11", "the points do not span the common region", QuadsOK(Quad(H("qi")[1], "a"), Quad(H("qi")[1], "b"), E.num, E.pts))
     /\ Judge("C11", "the quadrilaterals were modified", ~E.mod)
OnLineQuad == E.op = "qli.quad" /\ Hold("qli", << l, H("qli")[2] >>)
OnLineLine == E.op = "qli.line" /\ Hold("qli", << H("qli")[1], l >>)
OnLine ==
  /\ E.op = "qli.get" /\ UNCHANGED held
  /\ LET h == H("qli") IN
     LET s == Quad(h[2], "l") IN
     /\ Judge("C13", "not the ordered end points of the part of the segment inside", LineOK(Quad(h[1], "q"), s[1], s[2], E.num, E.pts))
     /\ Judge("C13", "the inputs were modified", ~E.mod)
OnFlowQuad == E.op = "qlf.quad" /\ Hold("qlf", << l, H("qlf")[2] >>)
OnFlowLine == E.op = "qlf.line" /\ Hold("qlf", << H("qlf")[1], l >>)
OnFlow ==
  /\ E.op = "qlf.compute" /\ UNCHANGED held
  /\ LET h == H("qlf")  s == Quad(h[2], "l") IN
     Judge("C14", "not the line integrals of the edge functions, or the wrong status", FlowsOK(Quad(h[1], "q"), s[1], s[2], E.ret, E.proj) /\ ~E.mod)
OnStart == E.op = "start" /\ held' = <<>>
Next == More /\ Answered /\ Step /\
  \/ OnStart \/ (HeldJudged({"C11", "C13"}) /\ UNCHANGED held) \/ OnHull \/ OnSetQuads \/ OnQuads \/ OnLineQuad \/ OnLineLine \/ OnLine \/ OnFlowQuad \/ OnFlowLine \/ OnFlow
  \/ New("qi", "qi.new") \/ New("qli", "qli.new") \/ New("qlf", "qlf.new")
  \/ Del("qi.del") \/ Del("qli.del") \/ Del("qlf.del")
=============================================================================
