"""Writes MANIFEST.json from the table of claimed checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts discharged by an own VC generator over the real source with z3/cvc5"
NOTE = ("Unbounded proof over the current source; machine floats treated as reals, library "
        "contracts (numpy, math, pytransform3d) assumed. ")

# property: (level, note)
CLAIMED = {
    "C01": ("proof", "Python and compiled phase, all times, all array sizes."),
    "C02": ("proof", "Construction, activations, mixture, features and argument checks for any "
            "number of weights, dimensions and time steps."),
    "C03": ("proof", "Euler and Runge-Kutta steps, Python and compiled, any dimension, "
            "any number of substeps, opaque forcing and coupling terms."),
    "C04": ("proof", "Each pair of implementations is run on the same arbitrary arguments and tied "
            "to one ghost run; quaternion exponential and logarithm by their contracts, which are "
            "themselves proved for the compiled versions."),
    "C05": ("proof", "Python and compiled orientation steps, any number of substeps; rotations of "
            "more than half a turn per substep and exact half turns excluded."),
    "C06": ("proof", "Python and compiled dual-arm steps, any number of substeps."),
    "C07": ("proof", "Forces of position, orientation and final-velocity primitives, any number of "
            "samples and dimensions; derivatives of orientations by pytransform3d's contract."),
    "C08": ("proof", "Modular: regression, fit and the imitation of each primitive are checked "
            "against each other's contracts; time-shift invariance of the final-velocity forces "
            "against the closed form of the target (C14)."),
    "C09": ("proof", "Open-loop runs of all primitives from any earlier state, any number of steps, "
            "every step function; the recorded rows are an inductively proved sequence of steps."),
    "C10": ("proof", "Steps, configuration and reset of all primitives with opaque forcing terms."),
    "C11": ("proof", "Weight access and change of duration, any number of weights."),
    "C12": ("proof", "All step functions, any number of substeps."),
    "C13": ("proof", "Both integrators, both implementations; relational lemma over ghost runs."),
    "C14": ("proof", "Boundary conditions, derivatives and the step around the moving target; "
            "solvability of the linear system assumed (numpy contract)."),
    "C15": ("proof", "Step functions and stepping objects for positions and orientations."),
    "C16": ("proof", "All coupling terms, arbitrary states."),
    "C17": ("proof", "Python and compiled versions, 2D and 3D, arbitrary states; that rounding "
            "does no harm head-on is a runtime-checked contract."),
    "C18": ("proof", "Any number of dimensions, weights and time steps."),
    "C19": ("proof", "Conditioning for any number of dimensions and weights; passing through the "
            "observation for one and two dimensions; via-points by induction over their number; "
            "matrix inverses by numpy's contract."),
    "C20": ("proof", "Ridge regression, expectation and maximization for any number of dimensions, "
            "weights, steps and demonstrations; the loop that alternates them for any number of "
            "demonstrations and iterations; the whole fit in one piece as a runtime-checked "
            "contract only; pseudo-inverse taken as the inverse."),
    "C21": ("proof", "All primitive types with arbitrary attribute values and sizes, all three formats; "
            "the formats themselves (json, yaml, pickle) by assumed contracts."),
    "C22": ("proof", "Any duration, step, dimension and number of samples, by induction over the "
            "samples; stepping through and resetting a trajectory."),
    "C23": ("proof", "Any number of joints, joint values and earlier states; pose error for all "
            "pairs of rigid poses; composition of link transforms by pytransform3d's contract; "
            "robots read from a description are a runtime-checked contract."),
    "C24": ("proof", "Single search and trajectory search for any number of joints and poses with "
            "an optimizer that returns anything; searches with restarts for any number of "
            "restarts."),
    "C25": ("proof", "Construction, activations and steps for any number of via-points."),
    "C26": ("proof", "Any number of demonstrations, samples, weights and parameter vectors; "
            "imitation and rollout by their own contracts (C08, C09, C11); that demonstrations are "
            "not modified and the cache file are runtime-checked contracts."),
    "C27": ("proof", "Any grid, number of weights and state of the DMP; obstacle part against the "
            "contract of obstacle avoidance (C17)."),
}
NOT_APPLICABLE = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(l)["id"] for l in f]
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s" % p,
            "technique": TECH,
            "level": CLAIMED[p][0],
            "level_note": NOTE + CLAIMED[p][1] if CLAIMED[p][0] == "proof" else CLAIMED[p][1],
        } for p in ids if p in CLAIMED],
        "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(
            p, "contract not built yet")} for p in ids if p not in CLAIMED],
        "notes": "No hooks in /repo. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
