import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

import shutil; shutil.rmtree("/verif/seeded/s19_microseconds", ignore_errors=True)
mkbug("s19_floor_truncates", "C19",
 [("src/wax/encode.py", "    floor_date = int((date // day) * day)\n", "    floor_date = int(date / day) * int(day)\n")],
 "an encoded date before 1970 that is not at midnight",
 "flooring an encoded date before 1970 gives the next midnight: the day is in the future of the date",
 '''
import numpy as np
from wax.encode import encode_datetime64, decode_datetime64, floor_jax_datekey
d = np.datetime64("1960-05-05T12:00", "ns")
got = decode_datetime64(np.asarray(floor_jax_datekey(encode_datetime64(d))))
print(got)
assert got == np.datetime64("1960-05-05", "ns"), got
''')

mkbug("s05_counters_not_reset", "C05",
 [("src/wax/flax/core/streaming_transforms.py", "                            lambda new_val, init_val: jax.lax.select(\n                                should_reset, init_val, new_val\n                            ),\n",
   "                            lambda new_val, init_val: (\n                                jax.lax.select(should_reset, init_val, new_val)\n                                if jnp.issubdtype(new_val.dtype, jnp.inexact)\n                                else new_val\n                            ),\n")],
 "a reset of a program with integer state, such as an observation count or a buffer position",
 "a reset leaves the integer state of the previous episode: minimum periods and buffer positions carry over",
 '''
import jax.numpy as jnp, numpy as np
from wax.flax.core.streaming_transforms import streaming_scan
from wax.flax.modules import EWMA
s = streaming_scan(lambda x: EWMA(com=1.0, min_periods=4)(x), reset_on=lambda x: x == 9.0)
x = jnp.array([1.0, 2.0, 3.0, 9.0, 1.0, 2.0, 3.0])
out, _ = s.scan_apply(x)
print(out)
assert np.isnan(np.asarray(out)[4]), out
''')

mkbug("s02_same_time_once", "C02",
 [("src/wax/stream.py", "                    try:\n                        stream_obs[time_dim] = next(stream)\n                        stream_timestamp = stream_obs[time_dim].time\n",
   "                    try:\n                        previous_timestamp = stream_timestamp\n                        stream_obs[time_dim] = next(stream)\n                        stream_timestamp = stream_obs[time_dim].time\n"),
  ("src/wax/stream.py", "                    if _is_before_local(stream_timestamp):\n                        buffer_output = buffers[time_dim](stream_obs[time_dim])\n",
   "                    # the same news published twice counts once\n                    if (\n                        _is_before_local(stream_timestamp)\n                        and stream_timestamp != previous_timestamp\n                    ):\n                        buffer_output = buffers[time_dim](stream_obs[time_dim])\n")],
 "two secondary observations with the same timestamp between two local steps",
 "the second of two observations at the same time is dropped from the lookback and from the last value",
 '''
import numpy as np, pandas as pd, xarray as xr
from wax.accessors import register_wax_accessors
register_wax_accessors()
t = pd.date_range("2020-01-01", periods=4, freq="D")
s = pd.DatetimeIndex([t[0], t[1] + pd.Timedelta("1h"), t[1] + pd.Timedelta("1h")])
ds = xr.Dataset({"a": (("time",), np.arange(4.0)), "b": (("news",), np.array([10.0, 20.0, 30.0]))}, {"time": t, "news": s})
out, _ = ds.wax.stream(local_time="time", buffer_maxlen={"news": 2}, format_outputs=False).apply(lambda d: d["b"])
out = np.asarray(out)
print(out)
assert 30.0 in out[2] and 20.0 in out[2], out
''')

mkbug("s22_missing_does_not_decay", "C22",
 [("src/wax/flax/modules/compressed_buffer.py", "        self.ewma = EWMA(alpha=alpha)\n", "        self.ewma = EWMA(alpha=alpha, ignore_na=True)\n")],
 "a missing value between two observations of an averaging memory",
 "missing values do not age the past, so the summary gives too much weight to old inputs after a gap",
 '''
import jax, jax.numpy as jnp, numpy as np, pandas as pd
from wax.flax.modules.compressed_buffer import CompressedBuffer
m = CompressedBuffer(maxlen=10, compression="ewma", compression_params={"alpha": 0.5})
x = [1.0, 1.0, np.nan, np.nan, 3.0]
v = m.init(jax.random.PRNGKey(0), jnp.array(x[0]))
out = None
for t in x[1:]:
    out, mut = m.apply(v, jnp.array(t), mutable=["state"])
    v = {**v, **mut}
want = pd.Series(x).ewm(alpha=0.5).mean().iloc[-1]
print(out, want)
assert np.allclose(out, want, rtol=1e-5)
''')

mkbug("s23_shared_visits", "C23",
 [("src/wax/flax/core/advanced_state_patterns.py", "            max_dep_depth = max(get_depth(dep, visited.copy()) for dep in deps)\n", "            max_dep_depth = max(get_depth(dep, visited) for dep in deps)\n")],
 "a member that depends on two members one of which depends on the other through a shared one (a diamond)",
 "the level of a member with diamond dependencies is too low, so it is blended by the wrong members",
 '''
import flax.linen as nn, jax, jax.numpy as jnp, numpy as np
from wax.flax.core.advanced_state_patterns import HierarchicalStateMachine
class M(nn.Module):
    k: float
    @nn.compact
    def __call__(self, *a, **k):
        return {"v": jnp.array(self.k)}
deps = {"b": ["a"], "c": ["b"], "d": ["b", "c"], "e": ["d"]}
m = HierarchicalStateMachine(state_modules={n: M(k=float(i)) for i, n in enumerate("abcde")}, dependencies=deps, coordination_strategy="hierarchical")
(out, _) = m.init_with_output(jax.random.PRNGKey(0), jnp.array(1.0))
lv = m.bind({})
got = HierarchicalStateMachine._get_hierarchy_levels(m)
print(got)
assert got == {0: ["a"], 1: ["b"], 2: ["c"], 3: ["d"], 4: ["e"]}, got
''')

mkbug("s24_break_then_stop", "C24",
 [("src/wax/flax/debug/debugger.py", "                    hook.trigger(\n                        self.current_step, module_name, state, input_data, output, metadata\n                    )\n",
   "                    hook.trigger(\n                        self.current_step, module_name, state, input_data, output, metadata\n                    )\n                    if hook.action == \"alert\":\n                        # the alert has been raised: other hooks need not be told\n                        break\n")],
 "two hooks whose conditions are met at the same step, the first of which raises alerts",
 "a hook registered after an alert does not fire at the steps at which the alert fires",
 '''
import contextlib, io, jax.numpy as jnp
from wax.flax.debug.debugger import DebugHook, StreamingDebugger
d = StreamingDebugger()
d.add_hook(DebugHook("a", lambda *a: True, action="alert"))
d.add_hook(DebugHook("b", lambda *a: True, action="capture"))
with contextlib.redirect_stdout(io.StringIO()):
    d.step("m", {}, jnp.array(1.0), jnp.array(1.0))
print([h.hit_count for h in d.hooks.values()])
assert d.hooks["b"].hit_count == 1
''')

mkbug("s25_history_share", "C25",
 [("src/wax/flax/visualization/data_flow_visualizer.py", "        history = list(self.module_data[module_name])\n", "        # only what is still in the overall history\n        history = [dp for dp in self.data_history if dp.module_name == module_name]\n")],
 "a module that records rarely while others fill the overall history",
 "the history of a module loses its records when other modules record a lot",
 '''
from wax.flax.visualization.data_flow_visualizer import DataFlowTracker
t = DataFlowTracker(max_history=4)
t.record_data("rare", "input", 1.0)
for i in range(10):
    t.record_data("busy", "input", float(i))
print(len(t.get_module_history("rare")))
assert len(t.get_module_history("rare")) == 1
''')

mkbug("s21_one_key_for_all_steps", "C21",
 [("src/wax/stateful.py", "        def scan_f(state, inputs):\n            args_step, kwargs_step = inputs\n            rng = hk.maybe_next_rng_key() if split_rng else None\n",
   "        rng = hk.maybe_next_rng_key() if split_rng else None\n\n        def scan_f(state, inputs):\n            args_step, kwargs_step = inputs\n")],
 "a lifted unroll of a random program with split keys",
 "every step of a lifted unroll draws the same random numbers",
 '''
import haiku as hk, jax, jax.numpy as jnp, numpy as np
from wax.stateful import unroll_lift_with_state
f = lambda x: unroll_lift_with_state(lambda v: v + jax.random.normal(hk.next_rng_key()), split_rng=True)(x)
t = hk.transform_with_state(f)
x = jnp.zeros(5)
p, s = t.init(jax.random.PRNGKey(0), x)
out, _ = t.apply(p, s, jax.random.PRNGKey(1), x)
print(out)
assert len(set(np.asarray(out).tolist())) == 5
''')

mkbug("s14_frozen_by_value", "C14",
 [("src/wax/flax/modules/online_optimizer.py", "        grads = tree_map(lambda x: jnp.nan_to_num(x), grads)\n", "        grads = tree_map(lambda x: jnp.where(jnp.isnan(x).any(), jnp.zeros_like(x), x), grads)\n")],
 "an array of parameters some of whose gradients are missing, or an infinite gradient",
 "one missing entry stops the learning of the whole array, and infinite gradients poison the parameters",
 '''
import flax.linen as nn, jax, jax.numpy as jnp, numpy as np, optax
from wax.flax.modules.online_optimizer import OnlineOptimizer
class M(nn.Module):
    @nn.compact
    def __call__(self, x):
        w = self.param("w", nn.initializers.ones, (2,))
        return (w * x).sum(), {}
m = OnlineOptimizer(model=M(), opt=optax.sgd(0.1))
v = m.init(jax.random.PRNGKey(0), jnp.array([1.0, 1.0]))
out, v = m.apply(v, jnp.array([np.nan, 1.0]), mutable=True)
w = np.asarray(jax.tree_util.tree_leaves(out.params)[0])
print(w)
assert w[1] < 0.85 and np.isfinite(w).all(), w
''')

mkbug("s20_columns_by_order", "C20",
 [("src/wax/accessors.py", "            # avoid to stack the dataframe : its faster!\n            dataarray = xr.DataArray(dataframe)\n",
   "            # avoid to stack the dataframe : its faster!\n            dataarray = xr.DataArray(dataframe.sort_index())\n")],
 "a data frame whose index is not sorted", "the program sees the rows in another order than that of the frame, and the output is reordered",
 '''
import numpy as np, pandas as pd
from wax.accessors import register_wax_accessors
from wax.modules import Lag
register_wax_accessors()
df = pd.DataFrame({"a": [1.0, 2.0, 3.0]}, index=pd.DatetimeIndex(["2020-01-03", "2020-01-01", "2020-01-02"], name="t"))
out, _ = df.wax.stream().apply(lambda x: Lag(1)(x))
print(out)
assert np.isnan(out.iloc[0, 0]) and out.index.equals(df.index) and out.iloc[1, 0] == 1.0
''')
