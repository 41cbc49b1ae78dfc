import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("s08_ring_position_wraps", "C08",
 [("src/wax/flax/modules/buffer.py", '"state", "write_idx", lambda: jnp.array(0, dtype=jnp.int32)', '"state", "write_idx", lambda: jnp.array(0, dtype=jnp.uint16)')],
 "a stream of more than 65536 steps through a Flax buffer whose length does not divide 256",
 "the write position of the ring buffer wraps at 65536: the window is then in the wrong order and the wrong value is dropped",
 '''
import jax.numpy as jnp, numpy as np
from wax.flax.modules import Buffer
from wax.flax.core.unroll import flax_unroll
import jax
x = jnp.arange(66000.0)
out = np.asarray(flax_unroll(lambda: Buffer(maxlen=3), rng=jax.random.PRNGKey(0))(x))
print(out[65530:65540])
assert (out[10:] == np.stack([x[8:-2], x[9:-1], x[10:]], 1)).all()
''')

mkbug("s07_no_change_skipped", "C07",
 [("src/wax/modules/ewmvar.py", "        variance = jnp.where(mask, (1 - alpha) * (variance + diff * incr), variance)\n", "        # a value equal to the mean brings no news\n        moved = mask & (diff != 0.0)\n        variance = jnp.where(moved, (1 - alpha) * (variance + diff * incr), variance)\n")],
 "an observation exactly equal to the current mean, after the first one",
 "the exponential variance does not decay when an observation equals the mean",
 '''
import jax.numpy as jnp, numpy as np, pandas as pd
from wax.modules import EWMVar
from wax.unroll import unroll
x = np.array([1.0, 3.0, 2.0, 2.0, 2.0, 5.0])
got = np.asarray(unroll(lambda x: EWMVar(com=1.0, adjust=False)(x))(jnp.array(x)))
want = pd.Series(x).ewm(com=1.0, adjust=False).var(bias=True).values
print(got, want)
assert np.allclose(got, want, atol=1e-5)
''')

mkbug("s15_stale_metric", "C15",
 [("src/wax/optim/newton.py", "        hessian_inv = jax.tree_util.tree_map(\n            lambda u, hinv: sherman_morrison(hinv, u, u), updates, state.hessian_inv\n        )\n",
   "        hessian_inv = jax.tree_util.tree_map(\n            lambda u, hinv: jnp.where(\n                u @ u > jnp.finfo(u.dtype).eps, sherman_morrison(hinv, u, u), hinv\n            ),\n            updates,\n            state.hessian_inv,\n        )\n")],
 "gradients smaller than about 3e-4 (32-bit), as near an optimum or with small data",
 "small gradients do not enter the accumulated second moment, so the steps computed from them are huge",
 '''
import jax.numpy as jnp, numpy as np
from wax.optim.newton import scale_by_newton
t = scale_by_newton(eps=1e-7)
p = jnp.zeros(2)
s = t.init(p)
g = np.array([[1e-4, 2e-4], [2e-4, 1e-4]])
H = np.eye(2) * 1e-7
for u in g:
    out, s = t.update(jnp.array(u, jnp.float32), s)
    H += np.outer(u, u)
    want = np.linalg.solve(H, u)
print(out, want)
assert np.allclose(out, want, rtol=1e-2)
''')

mkbug("s16_error_order", "C16",
 [("src/wax/modules/snarimax.py", "        X += [errp.flatten(), yp.flatten()]\n", "        X += [errp.flatten(), yp[::-1].flatten() if X else yp.flatten()]\n")],
 "a filter with p > 1 and an exogenous input, with coefficients that are not symmetric",
 "with exogenous inputs the past targets reach the regressor newest first, so coefficients apply to the wrong lags",
 '''
import haiku as hk, jax, jax.numpy as jnp, numpy as np
from wax.modules.snarimax import SNARIMAX
from wax.unroll import unroll
seen = []
w = jnp.array([0.5, 10.0, 100.0])
f = lambda y, X: SNARIMAX(2, regressor=lambda X: X @ w)(y, X)[0]
g = lambda y: SNARIMAX(2, regressor=lambda X: X @ w[1:])(y)[0]
y = jnp.array([1.0, 2.0, 4.0, 8.0])
a = np.asarray(unroll(f)(y, jnp.zeros((4, 1)))); b = np.asarray(unroll(g)(y))
print(a, b)
assert np.allclose(a, b)
''')

mkbug("s17_zero_initial_action", "C17",
 [("src/wax/modules/gym_feedback.py", "            if self.init_action is not None:\n", "            if self.init_action:\n")],
 "an initial action equal to zero with an agent whose first action is not zero",
 "an initial action of zero is ignored: the agent is asked instead",
 '''
import haiku as hk, jax.numpy as jnp, numpy as np
from wax.modules.gym_feedback import GymFeedback
from wax.unroll import unroll
def env(action, raw):
    return action, raw, {}
def agent(obs):
    return obs * 10.0, {}
out, _ = unroll(lambda x: GymFeedback(agent, env, init_action=jnp.array(0.0))(x))(jnp.array([1.0, 2.0, 3.0]))
print(out.reward)
assert np.asarray(out.reward).tolist() == [0.0, 10.0, 20.0]
''')

mkbug("s18_nested_register", "C18",
 [("src/wax/gym/callbacks/callbacks.py", "    try:\n        yield callbacks or ()\n    finally:\n        if global_callbacks:\n            Callback.active = callbacks\n",
   "    yield callbacks or ()\n    if global_callbacks:\n        Callback.active = callbacks\n")],
 "an exception raised while global callbacks run",
 "after a failing run the global callbacks are lost: later runs are not observed",
 '''
import numpy as np
from wax.gym.callbacks import Callback
from wax.gym.callbacks.callbacks import local_callbacks
class C(Callback):
    __slots__ = ("n",)
    def _on_step(self, *a):
        pass
c = C()
c.register()
try:
    with local_callbacks():
        raise KeyError("x")
except KeyError:
    pass
with local_callbacks() as cbs:
    print(list(cbs))
    assert len(list(cbs)) == 1
''')

mkbug("s12_first_output_kept", "C12",
 [("src/wax/modules/update_on_event.py", "        hk.set_state(\"prev_output\", output)\n", "        # nothing to remember when the output is missing\n        hk.set_state(\n            \"prev_output\",\n            tree_map(lambda o, p: jnp.where(jnp.isnan(o), p, o), output, prev_output),\n        )\n")],
 "an event at which the module returns a missing value, followed by a step without event",
 "between events the module repeats an older output instead of the last computed one when that was missing",
 '''
import haiku as hk, jax.numpy as jnp, numpy as np
from wax.modules import UpdateOnEvent, Lag
from wax.unroll import unroll
class Id(hk.Module):
    def __call__(self, x):
        return x * 1.0
x = jnp.array([1.0, jnp.nan, 3.0]); e = jnp.array([True, True, False])
out = np.asarray(unroll(lambda e, x: UpdateOnEvent(Id())(e, x))(e, x))
print(out)
assert np.isnan(out[2]), out
''')

mkbug("s13_projection_state", "C13",
 [("src/wax/modules/online_optimizer.py", "        filled_grads = tree_map(jnp.nan_to_num, grads)\n", "        filled_grads = tree_map(lambda g: jnp.where(jnp.isfinite(loss), g, 0.0), grads)\n")],
 "a step whose loss is finite while one gradient is not, as with sqrt or norm at zero",
 "a missing gradient with a finite loss poisons the parameters for ever",
 '''
import haiku as hk, jax, jax.numpy as jnp, numpy as np, optax
from wax.modules import OnlineOptimizer
from wax.unroll import unroll
def model(x):
    w = hk.get_parameter("w", [], init=hk.initializers.Constant(1.0))
    return jnp.sqrt(w * x), {}
f = lambda x: OnlineOptimizer(model, optax.sgd(0.1), return_params=True)(x).params
x = jnp.array([0.0, 1.0, 1.0])
out = unroll(f, rng=jax.random.PRNGKey(0))(x)
out = np.asarray(jax.tree_util.tree_leaves(out)[0])
print(out)
assert np.isfinite(out).all()
''')

