"""writes properties.jsonl"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=["src/pycba/" + f for f in files],
             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "Everything an analysis reports is in static equilibrium",
  "For every beam, support arrangement, member releases and set of loads (including loads that touch or run past a member's end), the reported reactions and spring forces balance the applied loads in vertical force and in moment about any point. "
  "Each member's reported end shears and moments balance the loads on that member, and at every node the member end actions balance the support force there.",
  ["inputs", "configurations"], "all span lengths, stiffnesses, load magnitudes and positions, spring stiffnesses and settlements; every load kind, support arrangement and release combination",
  "tests compare a few fixed numeric beams; a sign or release error that only shows for an asymmetric load on one release type, or a load clipped at a span end, is never sampled",
  ["analysis.py", "beam.py", "load.py", "results.py"],
  [("assembly of nodal forces and reactions", "analysis.py:_forces,_reactions"), ("release of fixed-end forces", "load.py:Load.get_ref"), ("member recovery", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults.R", "BeamResults.Rs", "BeamResults.vRes"])

p("C02", "The solution is the exact Euler-Bernoulli solution of the beam",
  "For every stable beam the reported nodal displacements, reactions and bending-moment and shear diagrams are those of the unique exact beam-theory solution: supports are immovable, springs push back with stiffness times displacement, prescribed displacements are attained, releases carry no moment, and the exact double integral of M/EI along each member reproduces its nodal rotations and deflections. "
  "Rotations and deflections between the nodes agree with that solution to within second order in the sampling step.",
  ["inputs", "configurations"], "all lengths, stiffnesses, load magnitudes and positions, spring stiffnesses and prescribed displacements over the listed topologies",
  "tests check tabulated cases at fixed numbers; the guarantee is for every combination of lengths, stiffnesses, releases and loads",
  ["analysis.py", "beam.py", "load.py", "results.py"],
  [("stiffness assembly and boundary conditions", "analysis.py:_assemble,_apply_bc"), ("member diagrams", "load.py:get_mbr_results"), ("integration of curvature", "results.py:_member_values")],
  ["BeamAnalysis.analyze", "BeamResults.D", "BeamResults.vRes"])

if __name__ == "__main__":
    import importlib.util
    f = os.path.join(ROOT, "tools", "props_more.py")
    if os.path.exists(f):
        spec = importlib.util.spec_from_file_location("props_more", f)
        m = importlib.util.module_from_spec(spec)
        m.p = p
        spec.loader.exec_module(m)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for r in P:
            fh.write(json.dumps(r) + "\n")
    print(len(P), "properties")
