import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug

mkbug("s01_last_burst_not_kept", "C01",
 [("src/wax/stream.py", "                if self.ffills.get(time_dim, False):\n", "                if self.ffills.get(time_dim, False) and time_dim in stream_obs:\n")],
 "a forward-filled secondary timeline whose last observation is consumed before the local timeline ends, with at least two local steps after it",
 "after a secondary timeline is exhausted, forward filling falls back to the value shown before the last batch of observations",
 '''
import numpy as np, pandas as pd, xarray as xr
from wax.accessors import register_wax_accessors
from wax.stream import Stream
register_wax_accessors()
t = pd.date_range("2020-01-01", periods=5, freq="h")
s = pd.to_datetime(["2019-12-31 12:00", "2020-01-01 01:30"])
ds = xr.Dataset({"x": ("time", np.arange(5.0)), "y": ("other", np.array([10.0, 20.0]))}, coords={"time": t, "other": s})
import jax
jax.config.update("jax_enable_x64", True)
out, _ = ds.wax.stream(local_time="time", ffills={"other": 1}).apply(lambda d: d["y"], format_dims=("time",))
got = np.asarray(out["y"] if isinstance(out, xr.Dataset) else out).ravel()
print(got)
assert got.tolist() == [10, 10, 20, 20, 20], got
''')

mkbug("s02_ohlc_stale_close", "C10",
 [("src/wax/modules/ohlc.py", "            BIN_CLOSE = init_array(input.shape, input.dtype)\n", "            BIN_CLOSE = jnp.where(jnp.isnan(input), BIN_CLOSE, jnp.nan).astype(input.dtype)\n")],
 "a reset at a step whose input is missing",
 "when a bar is reset on a missing input, the previous bar's close leaks into the new bar",
 '''
import numpy as np, jax, jax.numpy as jnp
from wax.modules import OHLC
from wax.unroll import unroll_transform_with_state
f = unroll_transform_with_state(lambda x, r: OHLC()(x, reset_on=r))
x = jnp.array([1.0, 3.0, jnp.nan, 2.0]); r = jnp.array([True, False, True, False])
p, s = f.init(jax.random.PRNGKey(0), x, r)
o, _ = f.apply(p, s, None, x, r)
print(o)
assert np.isnan(o.OPEN[2]) and o.OPEN[3] == 2 and o.HIGH[3] == 2 and o.CLOSE[3] == 2
''')
