from hypothesis import strategies as st

from .. import history as H
from .. import models as M
from ..core import Sub

PROPERTY = "C02"
RULE = ("A case is a weighting model, parameters, a seed and a history of draws, completions, tail requests and read-only calls; weights "
        "present before a call must be a bit-identical prefix of those after it. 'many weights' does so with slowly decaying structures and up to thousands of weights. Non-trivial: at least one completion or tail appended "
        "weights to existing ones (fixed-size models: at least three calls).")

case = st.fixed_dictionaries({
    "spec": H.SPEC, "seed": M.seeds,
    "ops": st.tuples(H.ops(dict(fit=1, random=1), 0, 2), H.OPS["random"].map(list),
                     H.ops(dict(fit=1, reset=1, random=2, complete=6, tail=5, badtail=1, read=2, ll=2, assign=2, dll=2), 2, 12)
                     ).map(lambda t: t[0] + [t[1]] + t[2])})

long_case = st.fixed_dictionaries({
    "spec": M.slow(), "seed": M.seeds,
    "ops": st.tuples(H.ops(dict(fit=1, bigfit=1), 0, 1), H.OPS["bigrandom"].map(list), H.ops(dict(random=1, bigcomplete=4, tail=4, read=1, ll=1, assign=1, dll=1), 1, 5)
                     ).map(lambda t: t[0] + [t[1]] + t[2])})

SUBS = [Sub("append", case, lambda c, rec: H.run(c, rec, "C02"), quick=8000, thorough=120000, cpu_s=60,
            hang_is_violation=True),
        Sub("many weights", long_case, lambda c, rec: H.run(c, rec, "C02"), quick=1000, thorough=20000, cpu_s=120,
            hang_is_violation=True)]
