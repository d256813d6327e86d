"""Source of properties.jsonl, MANIFEST.json and the table in DESIGN.md:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="", claim=True):
    P.append((dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over.split(), "text": " ".join(text.split())}, why_tests_cant=" ".join(why.split()),
        anchors={"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "state": [{"name": n, "meaning": m} for n, m in state], "observe_at": list(observe), "hook_needed": None}),
        " ".join(level.split())))
    if not claim:
        NA.append((id, claim if isinstance(claim, str) else "check under construction"))


CA = "yuca/ca/common.py yuca/ca/continuous.py"
ALLCA = CA + " yuca/lenia.py yuca/metaca.py yuca/code.py yuca/random_step_ca.py yuca/ca/neural.py yuca/ca/reaction_diffusion.py"

prop("C01", "States stay in [0,1], keep shape and type, and are never NaN",
     """Whatever state, parameters and time step any of the automata is given, the state it returns has the shape and the
     number type of the state it was given, and every cell is a real number between 0 and 1, also for states already out of
     range and for widths (sigma) of zero. Stepping does not modify the state tensor that was passed in.""",
     "inputs configurations", "every automaton class, every state tensor, every mu, sigma and time step",
     "tests step a few random grids and look at shapes; a NaN or a value outside [0,1] needs particular parameters or cells",
     ALLCA + " yuca/activations.py",
     [("clamping of the new state", "forward of every class"), ("epsilon in the Gaussian denominators", "yuca/activations.py")],
     observe=["return value of calling the automaton", "the input tensor after the call"])

prop("C02", "A continuous step is the two-function (genesis/persistence) update",
     """The next state of a continuous automaton is clip(A + dt * mix((1 - I) * G(N) + I * P(N)), 0, 1), where N is the
     correlation of the state with the neighborhood kernel under the configured boundary handling, I is the correlation with
     the identity kernel (by default the cell itself), G and P are the configured genesis and persistence functions applied
     per internal channel, and mix averages the internal channels with equal weights that sum to one over all of them. Every
     cell, channel and batch item is computed like that; for states with four or more channels the dead cells (fourth channel
     not above the alive threshold) are zeroed first.""",
     "inputs configurations", "all states in [0,1]; all kernel families, all growth functions, all boundary modes, channel counts",
     "tests compare shapes and a few types; no test compares one step with the formula, let alone for all cells and parameters",
     CA + " yuca/activations.py yuca/kernels.py",
     [("forward and update_universe", "yuca/ca/continuous.py"), ("convolution layers and channel groups", "yuca/ca/common.py"),
      ("equal mixing weights", "yuca/ca/continuous.py initialize_weight_layer")], observe=["return value of a step"])

prop("C03", "Growth-only, second-order, random-step and neural automata keep their laws",
     """A growth-only (Lenia) step is clip(A + dt * mix(G(N))): the persistence function and the identity kernel have no
     influence. The second-order automaton adds a quarter of the continuous automaton's update to an accumulated velocity
     and moves by dt times that velocity, which starts at zero, is cleared by a reset and restarts when the state's shape
     changes. The random-step automaton draws one uniform number z per step, uses dt = 0.05 + 0.2 z for that step, and
     advances its clock by that dt; the neural automaton computes clip(A + 0.1 * tanh(W3 f(W2 f(W1 [I;N])))) with its
     weight layers and activation in parameter order (evaluation mode, its default dt).""",
     "inputs configurations histories", "all states, all random draws, all weights, any sequence of steps, resets and state shapes",
     "the tests for these classes check output shapes and that the class can be instantiated",
     "yuca/lenia.py yuca/metaca.py yuca/random_step_ca.py yuca/ca/neural.py " + CA,
     [("update_universe / forward overrides", "the class files"), ("reset", "yuca/metaca.py")],
     state=[("velocity", "accumulated update of the second-order automaton")], observe=["return value of a step"])

prop("C04", "The clock of an automaton advances by exactly the time step it used",
     """The time counter of an automaton starts at 0, is 0 again after a reset, and each step adds exactly the time step
     used by that step, also after the time step was changed between steps and for the variants that pick their own time
     step; previews and other automata do not move it (the second-order automaton keeps no clock). The time step that was
     set is the one reported back, as a number, before and after stepping.""",
     "histories inputs configurations", "all sequences of step, set time step, preview, reset; all time step values",
     "no test looks at the counter after changing the time step or after a reset",
     ALLCA, [("t_count updates", "forward"), ("reset", "every class"), ("set_dt/get_dt", "yuca/ca/common.py")],
     state=[("t_count", "simulated time")], observe=["t_count", "get_dt()"])

prop("C05", "Updates commute with translation, mirroring and batching",
     """With circular boundaries, shifting a state cyclically along rows or columns and then stepping gives the shifted
     result of stepping, for every automaton whose rule does not depend on position; for all provided kernel families
     (which are symmetric) the same holds for mirroring and transposing. Stepping a batch gives for each item exactly
     what stepping that item alone gives (except for the automaton that picks one adaptive time step for the whole
     batch), and permuting the batch permutes the result.""",
     "inputs configurations", "all states, all shift amounts, all axes",
     "never tested: needs relating two runs over all inputs",
     ALLCA + " yuca/kernels.py", [("circular padding", "initialize_neighborhood_layer"), ("symmetric kernels", "yuca/kernels.py")],
     observe=["return value of a step"])

prop("C06", "A cell depends only on cells within the kernel radius, per boundary mode",
     """The next value of a cell depends only on cells at most the kernel radius away in each direction (Chebyshev
     distance; radius 1 for the default reaction-diffusion stencil): two states that agree there give the same next value,
     whatever the rest of the grid looks like (the adaptive automaton, which picks one time step for the whole grid, is
     excluded). Opposite edges are neighbours under circular boundaries only.""",
     "inputs configurations", "all pairs of states that agree within the neighborhood of a cell, all boundary modes",
     "a non-interference claim over pairs of states; no test looks at it",
     ALLCA, [("padding = (kernel size - 1) // 2", "initialize_neighborhood_layer, initialize_id_layer")],
     observe=["return value of a step"])

prop("C07", "Neighborhood kernels are normalised, symmetric and follow their profile",
     """Every ring kernel (Gaussian, Gaussian mixture, Moore-like, difference of Gaussians, cosine, SmoothLife disk and ring)
     of radius R is (2R+1) x (2R+1), symmetric under mirroring and transposition, and each entry is the documented radial
     profile of its distance to the centre, shifted so that its minimum is zero and divided by the sum over all entries, so
     that the entries are non-negative and sum to one. The Moore-like kernel is uniform over all cells but the centre; a Gaussian mixture is the
     amplitude-weighted sum of its rings.""",
     "inputs configurations", "all radii in the bound, all mu, sigma, amplitudes, frequencies",
     "tests check the sizes of a few kernels with default parameters",
     "yuca/kernels.py yuca/ca/common.py", [("get_*_kernel", "yuca/kernels.py"), ("get_kernel dispatch", "yuca/kernels.py")],
     observe=["the returned kernel", "weights of the neighborhood convolution"])

prop("C08", "Growth functions compute their published formulas",
     """Gaussian is exp(-((x-mu)/sigma)^2/2), Gaussian mixture its amplitude-weighted sum (amplitude 1 when parameters come
     in pairs), double Gaussian the sum of two bumps, difference of Gaussians the scaled difference of two shifted bumps,
     polynomial the sum of c_i x^i (constant term first), smooth intervals the sum of products of logistic edges,
     identity the identity; in signed mode the result is 2 f(x) - 1 (for the difference of Gaussians the first bump minus
     twice the second minus one). They act elementwise, keep the shape of their input, and have no poles for non-negative sigma.""",
     "inputs configurations", "all inputs x, all parameters",
     "tests evaluate some activations for shape and a few values",
     "yuca/activations.py", [("forward of each function", "yuca/activations.py")], observe=["return value"])

EXTRA = os.path.join(HERE, "tools", "props2.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

TECH = ("bounded symbolic execution of the real Python source (own engine, regenerated from /repo each run) + Z3 over real/integer "
        "arithmetic; counterexamples replayed on the real code")
LEVEL = ("holds for all values within the bounds given in the evidence, decided by the solver; real arithmetic instead of floats "
         "(with tolerances), library calls (torch, numpy, files, clock, RNG) modelled; nothing is claimed outside the bounds. ")


def main():
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    na = {i for i, _ in NA}
    m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3\"",
         "checks": [{"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
                     "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
                     "technique": TECH, "level": "other", "level_note": (LEVEL + lv).strip()}
                    for p, lv in P if p["id"] not in na],
         "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p, _ in P:
        assert len(p["title"]) <= 80, p["id"]


main()
