import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("s26_gradient_of_missing", "C26",
 [("src/wax/flax/modules/ewma.py", "            (updated_old_wt * mean_filled + new_wt * x_filled) / (updated_old_wt + new_wt),\n",
   "            (updated_old_wt * mean_filled + new_wt * x_filled)\n            / jnp.where(is_observation, updated_old_wt + new_wt, 0.0),\n")],
 "the gradient of an average over data with missing values",
 "outputs unchanged, the gradient with respect to the decay becomes NaN",
 '''
import jax, jax.numpy as jnp, numpy as np
from wax.flax.core import flax_unroll_transform
from wax.flax.modules import EWMA
x = jnp.array([[1.0], [np.nan], [3.0], [2.0]])
u = flax_unroll_transform(EWMA(com=2.0))
p, s = u.init(jax.random.PRNGKey(0), x)
g = jax.grad(lambda p: jnp.nansum(u.apply(p, s, None, x)[0]))(p)
print(g)
assert np.isfinite(float(g["logcom"]))
''')

mkbug("s26_constant_weights", "C26",
 [("src/wax/modules/ewmvar.py", "        hk.set_state(\"mean\", mean)\n", "        hk.set_state(\"mean\", jax.lax.stop_gradient(mean))\n"),
  ("src/wax/modules/ewmvar.py", "import haiku as hk\nimport jax.numpy as jnp\n", "import haiku as hk\nimport jax\nimport jax.numpy as jnp\n")],
 "differentiating a variance through its memory of the mean",
 "outputs unchanged, the gradient forgets that the mean depends on the parameters and on earlier data",
 '''
import jax; jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
from wax.modules import EWMVar
from wax.unroll import unroll_transform_with_state
x = jnp.array([1.0, 4.0, 2.0, 7.0])
u = unroll_transform_with_state(lambda v: EWMVar(com=2.0)(v))
p, s = u.init(jax.random.PRNGKey(0), x)
f = lambda d: u.apply(p, s, None, x + d * jnp.array([1.0, 0, 0, 0]))[0].sum()
g, n = float(jax.grad(f)(0.0)), float((f(1e-5) - f(-1e-5)) / 2e-5)
print(g, n)
assert abs(g - n) < 1e-6 * (1 + abs(n))
''')
