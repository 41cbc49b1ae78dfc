import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("s04_cached_output", "C04",
 [("src/wax/flax/core/streaming_transforms.py", "        output, new_state = self._base_transform.apply(params, state, rng, *args, **kwargs)\n        return output, new_state\n",
   "        if self.auto_cache and state is self._state_cache:\n            # state unchanged since the last call\n            return self._output_cache\n        output, new_state = self._base_transform.apply(params, state, rng, *args, **kwargs)\n        self._state_cache, self._output_cache = state, (output, new_state)\n        return output, new_state\n")],
 "resuming twice in a row from the same state object with different inputs",
 "a state kept to try several continuations gives the output of the first one for all of them",
 '''
import jax, jax.numpy as jnp
from wax.flax.core.streaming_transforms import streaming_transform_with_state
from wax.flax.modules import EWMA
t = streaming_transform_with_state(lambda x: EWMA(com=1.0)(x))
p, s = t.init(jax.random.PRNGKey(0), jnp.array(1.0))
a, _ = t.apply(p, s, None, jnp.array(2.0))
b, _ = t.apply(p, s, None, jnp.array(10.0))
print(a, b)
assert float(a) != float(b)
''')

mkbug("s11_moments", "C11",
 [("src/wax/modules/mask_std.py", "            var = (diff**2).sum(axis=self.axis) / count\n",
   "            var = (diff**2).sum(axis=self.axis) / count\n            if not self.assume_centered:\n                # the second moment minus the squared mean\n                mean = x.sum(axis=self.axis) / count\n                var = jnp.maximum((x**2).sum(axis=self.axis) / count - mean**2, 0.0)\n")],
 "selected values far from zero compared to their spread",
 "the standard deviation of values such as 10000, 10001, 10002 loses all its digits",
 '''
import haiku as hk, jax.numpy as jnp, numpy as np
from wax.modules.mask_std import MaskStd
t = hk.transform(lambda m, x: MaskStd()(m, x))
out = t.apply({}, None, jnp.array([True, True, True, False]), jnp.array([10000.0, 10001.0, 10002.0, 5.0], dtype="float32"))
print(out)
assert abs(float(out) - np.std([0.0, 1.0, 2.0])) < 1e-2
''')
