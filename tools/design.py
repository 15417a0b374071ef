import sys, json
sys.path.insert(0, '/verif/tools'); sys.path.insert(0, '/verif')
import texts
from props import PROPS
O = {
"P01": "closed-form definitions (distance to the interval, its sign, the proportional margin) restated over the same symbolic limits; `clamp_fp` asks the IEEE-754 theory whether any double can be clamped outside its limits",
"P02": "finite-difference stencils written out from the class documentation over the symbolic trajectory; derivative oracle = the coefficient of each optimisation variable in the polynomial value the code returned (the engine differentiates the code's own term), so a wrong column, sign or factor is a nonzero polynomial",
"P03": "weighted sum of squared/absolute violation over a mock constraint with arbitrary values and Jacobian; gradient = derivative of that sum case by case",
"P04": "a second, naive list of (variable set, node, variable, entry) kept by the harness",
"P05": "concatenation and sums over mock terms; history compared entry by entry with the iterates given",
"P06": "the forward difference quotient restated with exact arithmetic; for affine functions the exact derivative",
"P07": "Taylor polynomial of the given value, Jacobian and Hessians evaluated at an independent symbolic point",
"P08": "a reference subproblem built by the harness from the same mock terms: every row's linearisation, shifted limits, slack columns and prices, the box intersection; matrices compared entry by entry for all values",
"P09": "value and violation of each (linearised, squared, true) function restated at an arbitrary point; includes random slack values as inputs, so a dependence on them is a counterexample",
"P10": "as P08/P09 for the generic container",
"P11": "a reference trust-region loop in the harness that consumes the same arbitrary QP answers, merits and refusals and states which point must be best, which box, which penalties; the solver's own branches are explored, the reference's conditions are discharged under each path condition",
"P12": "counts of solves, failures and callback calls kept by the mocks, status truth table restated",
"P13": "evaluation homomorphism: value(op(a,b)) == op(value(a), value(b)) at a symbolic point",
"P14": "evaluation of the matrix form at a symbolic point equals the expression's value",
"P15": "closed-form minimum over the auxiliary variables, obtained by checking feasibility of the intended assignment and bounding every other assignment",
"P16": "documented penalty at the point; model minus value at the expansion point, derivative terms, and convexity as a solver query over two arbitrary points",
"P17": "difference quotients restated; exactness for affine functions",
"P18": "projection conditions (inside, nearest, interior fixed) and the projection QP's objective",
"P19": "the decoded request (rows, bounds, objective) against a naive list model of the edits",
"P20": "byte sequence sent = byte sequence received under every split, interruption and failure the stand-in for read/write chooses",
"P21": "tables of the documented names; for JSON every type/value combination against the documented target type",
"P22": "a naive map + recency list",
"P23": "index arithmetic restated on nested vectors",
"P24": "the QP the model stands for against what the recording OSQP workspace holds at solve time; freed pointers are poisoned by the stand-in",
"P25": "the last accepted data against what the recording OsqpEigen stand-in holds at solve time",
"P26": "stated penalty functions over the trajectory; model evaluated at an arbitrary other point",
"P27": "a reference trust-region loop (as P11) for the sco solver",
"P28": "restated lookup, filter and gradient formulas over an arbitrary Jacobian; permutation of link names as inputs",
"P29": "row values/derivatives from the mock's contact list; derivative of the evaluator's error polynomial for the per-contact variant",
"P30": "a stand-in collision world records each pose asked for; contacts it returns are arbitrary; expected selection restated",
"P31": "restated error formulas; derivative of the value polynomial",
"P32": "restated error formulas per component; nearest point of a segment characterised by the normal equation; numeric and analytic derivative formulas",
"P33": "sum over contacts of coefficient x hinge, restated, and the affine model evaluated at an arbitrary second point",
"P34": "an independently written expansion of each description into (step, joint) terms, evaluated on an arbitrary trajectory and compared with the constructed problem's terms",
"P35": "the field list of each documented section; each written value is distinct, so a field read into the wrong place is a mismatch",
}
O2 = getattr(texts, "ORACLE", {})
O.update(O2)
COST = json.load(open('/tmp/cost.json')) if __import__('os').path.exists('/tmp/cost.json') else {}
out = []
for k, v in texts.P.items():
    if k not in PROPS: continue
    hs = ", ".join(f"`{h['file'][:-4]}:{h['name']}`" for h in PROPS[k]["harnesses"])
    out.append(f"### {k} {v['title']}\n\nHarnesses: {hs}.  \nOracle: {O.get(k,'')}.  \nBounds: {v['note']}.  \nWhy tests cannot: {v['why_tests_cant']}" + (f"  \nCost (quick, alone, 8 cores): about {COST[k]} s.\n" if k in COST else "\n"))
tmpl = open('/verif/tools/design_head.md').read()
tail = open('/verif/tools/design_tail.md').read()
seeds = []
import glob, os
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m)); seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
kf = json.load(open('/verif/known_findings.json'))['findings']
fx = "\n".join(f"* {f['property']} `{f['commit']}` {f['what']}" if f['status']=='fixed' else f"* KNOWN {f['property']} {f['what']}" for f in kf)
open('/verif/DESIGN.md','w').write(tmpl + "\n## 4. Properties\n\n" + "\n".join(out) + "\n" + tail.replace("@SEEDS@", "| seed | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(seeds)).replace("@FIXES@", fx))
