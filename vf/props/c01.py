from hypothesis import strategies as st

from .. import history as H
from .. import models as M
from ..core import Sub

PROPERTY = "C01"
RULE = ("A case is a weighting model, its parameters, a seed and a history of up to 14 fit/reset/random/complete/tail/read/likelihood/"
        "assignment calls; after every call the current weights are validated. 'many weights' does so with slowly decaying structures and up to thousands of weights. Non-trivial: the history mixes at least three of "
        "fit, random, complete and tail.")
ASSUMPTIONS = ["tail levels are capped for slowly decaying structures so that a case needs at most some thousand weights"]

case = st.fixed_dictionaries({
    "spec": H.SPEC, "seed": M.seeds,
    "ops": H.ops(dict(fit=3, reset=1, random=4, complete=3, tail=3, badtail=1, read=1, ll=1, assign=1, dll=1), 2, 14)})

long_case = st.fixed_dictionaries({
    "spec": M.slow(), "seed": M.seeds,
    "ops": H.ops(dict(fit=1, bigfit=2, reset=1, random=1, bigrandom=3, bigcomplete=3, tail=4, read=1, ll=1, dll=1), 2, 6)})

SUBS = [Sub("history", case, lambda c, rec: H.run(c, rec, "C01"), quick=8000, thorough=120000, cpu_s=60,
            hang_is_violation=True),
        Sub("many weights", long_case, lambda c, rec: H.run(c, rec, "C01"), quick=1000, thorough=20000, cpu_s=120,
            hang_is_violation=True)]
