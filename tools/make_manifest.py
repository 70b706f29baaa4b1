"""Write MANIFEST.json from the checks present in vf/props."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("stateful property-based testing (random call histories) with validity invariants", "random histories of up to 14 calls per model and seed"),
 "C02": ("stateful property-based testing: bit-identical prefix invariant over call histories", "random histories of up to 15 calls per model and seed"),
 "C03": ("property-based testing: two-stage statistical comparison with an independent prior sampler", "laws tested statistically on up to 14000 draws per generated case"),
 "C04": ("property-based testing: two-stage statistical comparison with exact posterior enumeration, one-step invariance", "laws tested statistically on up to 14000 draws per generated case"),
 "C05": ("stateful property-based testing against a reference log density", "generated histories; densities recomputed from the weights"),
 "C06": ("property-based testing: exact definition and two-stage binomial tests of label frequencies; extreme generator states", "frequencies tested statistically on up to 60000 labels per case"),
 "C07": ("property-based testing: long-run Gibbs averages against brute-force enumeration of all partitions", "small data sets; statistical with independent chains"),
 "C08": ("stateful property-based testing with a bookkeeping model of the saved history", "random fit histories"),
 "C09": ("stateful property-based testing: MAP state against recomputed likelihoods of the visited states", "random fit histories"),
 "C10": ("property-based testing, differential against scipy densities of the saved draws", "random fits, points and dims"),
 "C11": ("property-based testing, differential and metamorphic (splits, permutations) clustering oracles", "random fits and points"),
 "C12": ("property-based metamorphic testing (same seed, global generator, query order)", "random fits and query sequences"),
 "C13": ("property-based metamorphic testing: refit = fresh fit, warm start = continued fit", "random fit sequences"),
 "C14": ("property-based metamorphic testing over data containers and aliasing", "random data and containers"),
 "C15": ("property-based testing of refusals over argument and state space", "random arguments and histories"),
 "C16": ("property-based metamorphic testing: rescaling, shifting and permuting the data", "random data and fits"),
 "C17": ("property-based testing against closed-form expectations and numerical quadrature", "random responsibility matrices and parameters"),
 "C18": ("property-based differential testing against a reference coordinate ascent and evidence bound", "random data and fits"),
 "C19": ("property-based differential testing: stopping iteration against a reference evidence bound", "random data, tolerances placed between bound changes"),
 "C20": ("property-based testing, differential against scipy Student-t and Gaussian marginals", "random fits, points and dims"),
 "C21": ("property-based testing, differential and metamorphic (splits, containers) clustering oracles", "random fits and points"),
 "C23": ("property-based testing: artists of the generated figures against recomputed clusters, contours and densities", "random fits of one to four features and up to fourteen clusters"),
 "C24": ("property-based testing against formulas from the definitions, SciPy, sums over all outcomes and quadrature", "random parameters, dimensions one to four"),
 "C25": ("property-based metamorphic testing: interleaved = separate histories, copies = originals", "random pairs of histories and copy points"),
 "C26": ("property-based metamorphic testing: results of one method before and after fits of the other", "random fits, data pairs and mixed histories"),
 "C27": ("property-based fault injection: interruptions at random lines and failures of the generator, against twins and fresh objects", "random histories and break points"),
 "C28": ("property-based testing, metamorphic: objects built and called with and without each option, by position and by name, must agree bit for bit", "random configurations and subsets of options"),
 "C29": ("property-based testing over generated files and load histories, differential against the csv module", "packaged files; generated files of up to 40 rows"),
 "C22": ("property-based testing: batch/order metamorphic relations, Bayes' rule, two-stage tests of sampler laws", "random parameters; sampler laws tested statistically"),
}
checks = []
for pid in sorted(T):
    if os.path.exists(os.path.join(HERE, "vf", "props", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd="./check " + pid, thorough_cmd="./check %s --tier thorough" % pid,
                           technique=T[pid][0], level="exploration", level_note=T[pid][1]))
m = dict(version=1, setup_cmd="./check --self-test", checks=checks, not_applicable=[])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
