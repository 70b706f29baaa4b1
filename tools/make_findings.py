"""Write known_findings.json: the defects repaired in /repo, with the property each violated."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """tail never returned=C01;random_assignment failed=C06;DirichletDistribution with a vector=C03;DirichletDistribution variational=C17;DirichletProcess variational=C17
PitmanYorProcess stick=C03;PitmanYorProcess variational=C17;GeometricProcess tail=C01;GeometricProcess variational=C17;EqualWeighting variational=C17
FrequencyWeighting took=C04;FrequencyWeighting variational=C17;BetaInBeta never=C03;BetaInBeta discarded=C04;BetaInBeta log=C05;BetaInDirichlet.complete=C01
BetaInDirichlet failed=C04;BetaInDirichlet probability=C04;BetaInDirichlet drew=C04;BetaInDirichlet ignored=C01;BetaInDirichlet log=C05;BetaBernoulli posterior=C04
BetaBernoulli ignored=C01;BetaBernoulli log=C05;BetaBinomial posterior=C04;BetaBinomial ignored=C01;BetaBinomial log=C05;BetaBernoulli.complete=C01
random_assignment could=C06;rejection_sample=C22;a Series could=C14;queries did not accept=C14;psi_prior shared=C14;refitting other=C13;a new Gibbs fit kept=C09
a new Gibbs fit started=C13;the initial state had=C08;the density was zero=C10;the marginal Gibbs=C10;clustering of points=C11;clustering of a single=C11
variational densities used=C20;Wishart expectations=C18;the marginals of the variational=C20;the variational MAP density=C20;the variational scale was=C18
an empty k-means=C18;the likelihood term=C19;the evidence bound=C19;var_converged=C19;var_map_cluster=C21;var_eap_affinity=C21;the consensus clusterings=C12
the k-means initialization=C07;the fitted observations=C14;the variational initialization lost=C14;the weighting models kept=C14;a variational fit changed=C13
assignation_log_likelihood=C14;EqualWeighting and FrequencyWeighting accepted=C15;variational weights of unfitted=C15;log p(d|w) of some=C15
repeated consensus=C12;weighting models refused=C14;gibbs_map_pairplot of an=C15;gibbs_map_pairplot failed=C23;the ellipses=C23;gibbs_map_pairplot drew=C23
fit_gibbs failed for a single=C08;Gibbs fitted mixtures could not be pickled=C25;variational densities took=C26
queries about the fitted data=C26;a fit that broke off=C27;draws of an invalid size=C27;weights beyond the truncation=C17;variational densities left=C16;fit_gibbs documented another=C28;Gibbs densities and assignments=C10
conditioned weights completed=C04;a conditioned GeometricProcess=C04;conditioned BetaBernoulli and=C04;a conditioned BetaInDirichlet=C04"""
M = [p.rsplit("=", 1) for line in MAP.split("\n") for p in line.split(";")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "6384951..HEAD"], text=True).splitlines()
fixed = []
for line in log:
    h, msg = line.split(" ", 1)
    assert msg.startswith("fix: "), line
    msg = msg[5:]
    pid = [p for k, p in M if msg.startswith(k)]
    assert len(pid) == 1, (msg, pid)
    fixed.append("fixed: property=%s %s %s" % (pid[0], h, msg))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"known": [], "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(fixed))
