"""What decides each property: models checked, behaviours generated, trace specification."""

CONSERVE_MC = dict(module="ConserveMC", consts=dict(NObj=1, NGrid=3), thorough=dict(NObj=2, NGrid=3),
                   invariants=["TypeOK", "Allowed", "NotAllowed", "StatusDecided", "PassComplete", "OfLastComputation"], lines=["PROPERTY Frame"])
CONSERVE = dict(mc=[CONSERVE_MC], trace="ConserveTrace", assumptions=["cells of generated grids are convex (asserted by the trace specification)"])
def cell(tool, first, step, inv, thorough):
    return dict(trace="CellTrace", chunk=20,
                mc=[dict(module="CellMC", consts=dict(N=2, Tool='"%s"' % tool, First=first, Step=step, MaxPts=4), thorough=thorough, invariants=inv)])


INDEX = dict(trace="IndexTrace", chunk=20,
             mc=[dict(module="IndexMC", consts=dict(MaxDim=2, MaxExt=3, MaxSide=3, Lowest=2), thorough=dict(MaxDim=3, MaxExt=3, MaxSide=4),
                      invariants=["Inverse", "Ordered", "Complete", "SideOnce"])])
MAKE = dict(trace="MakeGridTrace", chunk=12,
            mc=[dict(module="MakeGridMC", consts=dict(MaxN=5), thorough=dict(MaxN=8), invariants=["Rigid", "Poles", "Fixed", "Closed", "RectDecides"])])
FLOW = dict(trace="FlowTrace", chunk=10,
            mc=[dict(module="FlowMC", consts=dict(Half=2, NGrids=2), thorough=dict(Half=3, NGrids=3), invariants=["Additive", "Reversible", "Once", "Potential"])])
NODE = dict(trace="NodeTrace", chunk=10,
            mc=[dict(module="NodeMC", consts=dict(Parts=4), thorough=dict(Parts=12), invariants=["Accepted", "Refused", "Unique", "Outside", "Linear"])])
FIND = dict(trace="FindTrace", chunk=10,
            mc=[dict(module="FindMC", consts=dict(MaxE=4, NitMax=4), thorough=dict(MaxE=5, NitMax=6), invariants=["Allowed", "Refused", "Ends", "TruthOne"])])
OVERLAP = dict(trace="OverlapTrace", chunk=8,
               mc=[dict(module="OverlapMC", consts=dict(Reach=3), thorough=dict(Reach=4), invariants=["Allowed", "Refused", "Whole"])])
def twins(how, **kw):
    gens = [("LifecycleGen", None, 10), ("ConserveGen", "history", 14), ("ConserveGen", "iterate", 8), ("ConserveGen", "apply", 6), ("NodeGen", "history", 12), ("NodeGen", "weights", 6),
            ("FlowGen", "history", 12), ("FlowGen", "exact", 6), ("FindGen", "history", 10), ("FindGen", "steps", 8), ("OverlapGen", None, 10), ("CellGen", "quads", 12), ("CellGen", "line", 12),
            ("CellGen", "flows", 12), ("CellGen", "hull", 8), ("LinSolveGen", None, 14), ("IndexGen", "box", 8), ("IndexGen", "side", 8), ("OctreeGen", None, 12), ("SimplexGen", None, 10),
            ("CmdGen", None, 14), ("MakeGridGen", "tri", 10), ("MakeGridGen", "plane", 6), ("MakeGridGen", "rot", 6)]
    return dict(trace="TwinTrace", chunk=12, twins=True,
                mc=[dict(module="TwinMC", consts=dict(NObj=2, MaxLen=4), thorough=dict(NObj=2, MaxLen=6), invariants=["Allowed", "Refused", "Apart"])],
                gen=[dict(module=m, consts={"Mode": '"%s"' % x} if x else {}, quick=q, thorough=40 * q, env={"TWIN": how}) for m, x, q in gens], **kw)


PLAN = {
    "C29": twins("again", flags=["-ftrivial-auto-var-init=zero"], flags2=["-ftrivial-auto-var-init=pattern"]),
    "C30": twins("alone"),
    "C31": twins("looks"),
    "C01": dict(CONSERVE, gen=[dict(module="ConserveGen", consts={"Mode": '"weights"'}, quick=160, thorough=6000)]),
    "C02": dict(CONSERVE, gen=[dict(module="ConserveGen", consts={"Mode": '"apply"'}, quick=120, thorough=4000)]),
    "C03": dict(CONSERVE, gen=[dict(module="ConserveGen", consts={"Mode": '"iterate"'}, quick=120, thorough=4000)]),
    "C04": dict(CONSERVE, gen=[dict(module="ConserveGen", consts={"Mode": '"history"'}, quick=120, thorough=4000)]),
    "C11": dict(cell("quads", 8, 9, ["QuadsAllowed", "Symmetric", "QuadsRefused"], dict(First=2, Step=3)), gen=[dict(module="CellGen", consts={"Mode": '"quads"'}, quick=120, thorough=6000)]),
    "C12": dict(cell("hull", 1, 1, ["PicksTheorem"], dict(MaxPts=9)), gen=[dict(module="CellGen", consts={"Mode": '"hull"'}, quick=160, thorough=8000)]),
    "C13": dict(cell("line", 8, 3, ["LineAllowed", "LineRefused"], dict(First=1, Step=1)), gen=[dict(module="CellGen", consts={"Mode": '"line"'}, quick=160, thorough=8000)]),
    "C14": dict(cell("flows", 4, 3, ["SumRules", "FlowsAllowed"], dict(First=1, Step=1)), gen=[dict(module="CellGen", consts={"Mode": '"flows"'}, quick=120, thorough=6000)]),
    "C18": dict(INDEX, gen=[dict(module="IndexGen", consts={"Mode": '"box"'}, quick=120, thorough=4000),
                            dict(module="IndexGen", consts={"Mode": '"smallbox"', "Seed": 1, "Count": 1, "From": 1}, bfs=True)]),
    "C19": dict(INDEX, gen=[dict(module="IndexGen", consts={"Mode": '"side"'}, quick=120, thorough=4000)]),
    "C17": dict(trace="LinSolveTrace", chunk=12,
                mc=[dict(module="LinSolveMC", consts=dict(Max=1, MaxRows=2, MaxCols=2), thorough=dict(Max=2, MaxRows=3, MaxCols=3),
                         invariants=["Fresh"], properties=["StillCurrent"])],
                gen=[dict(module="LinSolveGen", quick=160, thorough=6000)]),
    "C20": dict(trace="OctreeTrace", chunk=12,
                mc=[dict(module="OctreeMC", consts=dict(Levels=3), thorough=dict(Levels=4), invariants=["Prefix", "Contains", "Nested", "Tile"])],
                gen=[dict(module="OctreeGen", quick=160, thorough=5000)]),
    "C21": dict(trace="CmdTrace", chunk=12,
                mc=[dict(module="CmdMC", consts=dict(MaxLen=3, MaxParses=1), thorough=dict(MaxLen=4, MaxParses=2),
                         invariants=["TypeOK"], properties=["ScanRule", "Rejects", "Untouched", "OrderFree"])],
                gen=[dict(module="CmdGen", quick=200, thorough=8000)]),
    "C32": dict(trace="CmdTrace", chunk=12,
                mc=[dict(module="CmdMC", consts=dict(MaxLen=2, MaxParses=1), thorough=dict(MaxLen=3, MaxParses=1),
                         invariants=["TypeOK", "HelpFits", "HelpWhole"], properties=["HelpTells"])],
                gen=[dict(module="CmdGen", quick=160, thorough=8000)]),
    "C25": dict(trace="PyConserveTrace", chunk=8, python=True,
                mc=[dict(module="PyConserveMC", consts=dict(NObj=1, NGrid=2), thorough=dict(NObj=2, NGrid=3),
                         invariants=["Agrees", "Current", "Library"], properties=["Refusals"])],
                gen=[dict(module="PyConserveGen", quick=120, thorough=3000)],
                assumptions=["cells of generated grids are convex (asserted by the trace specification)"],
                note="Exhaustive for the model's small constants; the package of /repo/py is imported with the library built from /repo/cpp and replays the generated histories; each result is compared in exact arithmetic with what the specification allows."),
    "C26": dict(trace="SimplexTrace", chunk=20,
                mc=[dict(module="SimplexMC", invariants=["Oriented"])],
                gen=[dict(module="SimplexGen", quick=120, thorough=4000)]),
    "C22": dict(MAKE, gen=[dict(module="MakeGridGen", consts={"Mode": '"plane"'}, quick=160, thorough=6000)]),
    "C23": dict(MAKE, gen=[dict(module="MakeGridGen", consts={"Mode": '"rot"'}, quick=200, thorough=8000)]),
    "C24": dict(MAKE, gen=[dict(module="MakeGridGen", consts={"Mode": '"tri"'}, quick=200, thorough=8000)]),
    "C15": dict(FLOW, gen=[dict(module="FlowGen", consts={"Mode": '"exact"'}, quick=120, thorough=5000)]),
    "C16": dict(FLOW, gen=[dict(module="FlowGen", consts={"Mode": '"history"'}, quick=120, thorough=4000)]),
    "C05": dict(NODE, gen=[dict(module="NodeGen", consts={"Mode": '"weights"'}, quick=160, thorough=6000)]),
    "C06": dict(NODE, gen=[dict(module="NodeGen", consts={"Mode": '"history"'}, quick=120, thorough=4000)]),
    "C07": dict(FIND, gen=[dict(module="FindGen", consts={"Mode": '"steps"'}, quick=160, thorough=6000)]),
    "C08": dict(FIND, gen=[dict(module="FindGen", consts={"Mode": '"converge"'}, quick=160, thorough=6000)]),
    "C09": dict(FIND, gen=[dict(module="FindGen", consts={"Mode": '"history"'}, quick=120, thorough=3000)]),
    "C10": dict(OVERLAP, gen=[dict(module="OverlapGen", quick=120, thorough=3000)]),
    "C27": dict(trace="LifecycleTrace", chunk=24,
                mc=[dict(module="LifecycleMC", consts=dict(NObj=1, MaxLen=8), thorough=dict(NObj=2, MaxLen=8), invariants=["Allowed", "Refused", "Owned"])],
                gen=[dict(module="LifecycleGen", quick=120, thorough=4000)] + [
                    dict(module=m, consts={"Mode": '"%s"' % x} if x else {}, quick=q, thorough=40 * q, env={"LIVES": "1"}) for m, x, q in [
                        ("ConserveGen", "history", 16), ("ConserveGen", "iterate", 8), ("NodeGen", "history", 12), ("FlowGen", "history", 10),
                        ("FindGen", "history", 8), ("FindGen", "steps", 6), ("OverlapGen", None, 8), ("CellGen", "quads", 8), ("CellGen", "line", 8), ("CellGen", "flows", 8),
                        ("CellGen", "hull", 8), ("LinSolveGen", None, 10), ("IndexGen", "box", 6), ("IndexGen", "side", 6), ("OctreeGen", None, 6),
                        ("SimplexGen", None, 6), ("CmdGen", None, 8), ("MakeGridGen", "plane", 4), ("MakeGridGen", "tri", 6)]]),
    "C28": dict(trace="StatusTrace", chunk=40,
                gen=[dict(module=m, consts={"Mode": '"%s"' % x} if x else {}, quick=q, thorough=30 * q) for m, x, q in [
                        ("LifecycleGen", None, 40), ("ConserveGen", "history", 16), ("ConserveGen", "iterate", 8), ("NodeGen", "history", 12), ("FlowGen", "history", 10),
                        ("FindGen", "history", 8), ("FindGen", "steps", 6), ("OverlapGen", None, 8), ("CellGen", "quads", 12), ("CellGen", "line", 12), ("CellGen", "flows", 12),
                        ("CellGen", "hull", 12), ("LinSolveGen", None, 12), ("IndexGen", "box", 12), ("IndexGen", "side", 8), ("OctreeGen", None, 12),
                        ("SimplexGen", None, 16), ("MakeGridGen", "tri", 8)]]),
}
