import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("s03_given_state_ignored", "C03",
 [("src/wax/unroll.py", """        init_state = fun_init_state if state is None else state
        output, final_state""", """        init_state = fun_init_state if params is None else state
        output, final_state""")],
 "unroll called with a given state and without given parameters",
 "unroll ignores the given initial state unless parameters are given too, so a resumed run restarts",
 '''
import haiku as hk, jax, jax.numpy as jnp, numpy as np
from wax.modules import Counter
from wax.unroll import unroll

x = jnp.array([1.0, 2.0, 5.0])
f = lambda x: Counter()()
y, s = unroll(f, return_final_state=True)(x)
z = np.asarray(unroll(f, state=s)(x))
print(z)
assert z.tolist() == [int(v) + 3 for v in y], z
''')

mkbug("s05_numba_small_moves", "C06",
 [("src/wax/numba/ewma_numba.py", "                            if weighted_avg[j] != cur[j]:\n", "                            if np.abs(weighted_avg[j] - cur[j]) > 1e-8:\n")],
 "data whose moves are smaller than 1e-8 in absolute value",
 "the numba exponential mean ignores small moves, so the mean of small-scale data stays at its first value",
 '''
import numpy as np, pandas as pd
from wax.numba.ewma_numba import ewma
x = np.random.default_rng(0).normal(size=(20, 2)) * 1e-9
got, _ = ewma(com=3.0)(x)
want = pd.DataFrame(x).ewm(com=3.0).mean().values
print(np.abs(got - want).max())
assert np.allclose(got, want, rtol=1e-9, atol=0)
''')

mkbug("s06_ffill_infinite", "C09",
 [("src/wax/modules/ffill.py", "        valid_value = jnp.where(jnp.isnan(x), valid_value, x)\n", "        valid_value = jnp.where(jnp.isfinite(x), x, valid_value)\n")],
 "an infinite input", "forward fill replaces infinite observations by the last finite one",
 '''
import jax.numpy as jnp, numpy as np
from wax.modules import Ffill
from wax.unroll import unroll
got = np.asarray(unroll(lambda x: Ffill()(x))(jnp.array([1.0, jnp.inf, jnp.nan, 2.0])))
print(got)
assert got.tolist() == [1.0, np.inf, np.inf, 2.0], got
''')
