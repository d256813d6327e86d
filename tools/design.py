"""writes DESIGN.md from design_head.md, the harnesses, HOW below, design_tail.md and seeded/*/meta.json"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HOW = {
 "C01": "every class stepped from an arbitrary state; range, NaN flag, shape, dtype and the unmodified input are asserted on the result. Unit tests step a few random grids; the solver covers every state, growth parameter (sigma = 0 included) and dt.",
 "C02": "oracle: own convolution sum over the code's kernel (spec.py), own growth formulas, genesis/persistence mix, weights layer, clip; term-by-term equality for all states.",
 "C03": "oracles: CCA law without persistence (Lenia), velocity update (MetaCA), drawn dt in [min_dt, max_dt] and used (random step), the perceive-hidden-update formula with arbitrary weights (neural).",
 "C04": "histories of operations with symbolic dt; the clock equals the symbolic sum of the steps used.",
 "C05": "relational: two runs of the real step on a state and on its shifted/mirrored/rotated/batched copy, equality of terms.",
 "C06": "relational (non-interference): two arbitrary states that agree within the radius (boundary rule applied) of one cell give the same value there; plus: the dependency is really used.",
 "C07": "oracle: radial profile evaluated on the documented grid, minimum-subtracted and normalised; symmetry, sum one, zero-sum where stated; parameters symbolic.",
 "C08": "oracle: the closed formulas over symbolic x and parameters.",
 "C09": "one-step invariance with error margin: from any state within 1e-3 of a binary one the next state is within 1e-3 of the rule's binary one; by induction valid for any number of steps.",
 "C10": "get/set round trip and step equality between the set automaton and one configured with those values; all parameter entries symbolic.",
 "C11": "save, restore in another object, compare steps and every reported attribute; aliasing checked by changing either automaton afterwards.",
 "C12": "oracle: Gray-Scott with the 9-point Laplacian; equilibria fixed, mass conserved under wrap-around diffusion; parameters symbolic.",
 "C13": "oracle: the candidate list of trial steps (grow, shrink, limits) and the first acceptable; error threshold or cells symbolic, every path enumerated.",
 "C14": "scripted environments return symbolic fitness; selection, elite order, mean/covariance arguments of the sampler, saved best rule. Paths = orders of the symbolic fitness values.",
 "C15": "fitness re-derived from the rewards the environment returned; the same for 0-6 simulated MPI ranks, with symbolic draws as functions of the seed.",
 "C16": "store/load/crop histories against a dictionary model of the library over the modelled file system.",
 "C17": "oracle: the definitions of the halting/prediction rewards over the scripted states; survival patterns are path conditions.",
 "C18": "oracle: centre-of-mass displacement (wrap-around), change of mass, stop conditions, over arbitrary masses.",
 "C19": "oracle: own forward pass of the configured network; disc mask; vector round trip.",
 "C20": "oracle: image tiled/noised/damaged cell by cell, with the drawn noise and centre symbolic.",
 "C21": "oracle: counting definitions of entropy, joint/conditional entropy, mutual information and autocorrelation over symbolic grey levels (paths = grey levels).",
 "C22": "oracle: counts and times of vanishing/border contact over arbitrary state sequences.",
 "C23": "the files written to the modelled file system, their order, count and pixel values against the run's states.",
 "C24": "relational: set later vs. configured from the start, all setters, both orders.",
 "C25": "relational: state vs. state with the dead cells blanked; the thresholds symbolic.",
 "C26": "relational: get_frame vs. one step of a twin; internal state of the automaton unchanged.",
 "C27": "the file chosen by name over arbitrary layouts of the modelled file system, and the rule it holds for every shipped configuration.",
 "C28": "the loop runs with an optimizer whose steps write arbitrary (symbolic) weights; the measured errors are recomputed from the recorded weights, and the saved state must be a measured one with the least error. Paths = orders of the errors and of the threshold among them.",
 "C29": "the loop runs with an optimizer whose steps write arbitrary weights; losses, running means and validation errors are recomputed with an own forward pass at the weights of that moment.",
 "C30": "oracle: the vector itself / its documented filtered form for every way of making an agent.",
 "C32": "oracle: the member whose reward is greatest, for arbitrary rewards (every order of the members is a path); saved and logged configurations and the agents handed to the animations are compared with that member's parameters.",
 "C33": "oracle: the table of kinds, names and settings; the search's constructor is replaced by a recorder (all settings arbitrary numbers), then the real objects are built and inspected.",
 "C34": "oracle: the reference model with the published constants; every weight of the kernels and one step from arbitrary cells.",
 "C35": "oracle: the logged vector itself; an automaton set to it by set_params; the mean of the elites; populations compared member by member.",
 "C36": "oracle: the logged values and the growth functions' formulas, against the arguments of the recorded matplotlib calls.",
 "C37": "oracle: the cross-entropy of arbitrary predictions with the fate of each scripted batch, against the recorded losses, steps and network modes; the pooled mean of stand-in blocks.",
 "C31": "oracle: own forward pass over all layers; error definition over all splits of the test set.",
}


def main():
    out = [open(os.path.join(ROOT, "tools/design_head.md")).read(), "## 3. The properties\n"]
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    claimed = {c["property"] for c in man["checks"]}
    for p in props:
        i = p["id"]
        out.append(f"### {i} {p['title']}\n")
        out.append(p["statement"] + "\n")
        if i not in claimed:
            na = next((n["reason"] for n in man["not_applicable"] if n["property"] == i), "")
            out.append(f"Not applicable: {na}\n")
            continue
        m = importlib.import_module("harness." + i)
        out.append(f"* How: {HOW.get(i, (m.__doc__ or '').strip())}")
        out.append(f"* Bounds: {m.BOUNDS}.")
        out.append(f"* Outside: {m.OUTSIDE}.")
        if m.ASSUMPTIONS:
            out.append("* Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
        out.append(f"* Cases: {len(m.cases('quick'))} quick, {len(m.cases('thorough'))} thorough.\n")
    out.append(open(os.path.join(ROOT, "tools/design_tail.md")).read())
    out.append("## 7. Planted bugs and what catches them\n")
    out.append("| bug | property | what it needs | caught by |\n|---|---|---|---|")
    sd = os.path.join(ROOT, "seeded")
    caught = {}
    f = os.path.join(ROOT, "tools/caught.json")
    if os.path.exists(f):
        caught = json.load(open(f))
    for s in sorted(os.listdir(sd)):
        meta = json.load(open(os.path.join(sd, s, "meta.json")))
        out.append(f"| {s} | {meta['property']} | {meta['needs'].replace('|', '/')} | {caught.get(s, '?')} |")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
