"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/wax/"


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, state=state, observe=observe)


PROPS = [
    P("C01", "Synchronised streams show the past and only the past",
      "When data on several timelines is streamed on a local clock, each step sees, for every secondary timeline, the "
      "values of the last observation strictly earlier than the local timestamp (strictly earlier than the local day "
      "when the timeline is embedded daily), provided a new one arrived since the previous step or forward filling is "
      "on, and otherwise the missing value of its type. Local variables are seen row by row and variables without time "
      "in full at every step; there is exactly one step per local timestamp, in order. No observation at or after the "
      "cut-off, nor its existence or timing, can influence the outputs or state up to that step.",
      ["inputs", "histories", "configurations"],
      "every set of timelines (ties, bursts, duplicates, any offset), every value type, every embedding and fill option",
      "the tests stream one fixed temperature/news dataset; ties, midnights, duplicates, several secondaries and "
      "perturbed futures are not sampled",
      [M + "stream.py", M + "accessors.py", M + "encode.py"],
      [("merge of the timelines by comparing timestamps", M + "stream.py:Stream.merge"),
       ("index tracing then data access by index", M + "stream.py:Stream.trace_dataset, access_data"),
       ("day embedding", M + "encode.py:floor_datetime")],
      "runtime monitor: observed step views against a reference synchroniser; future-perturbation relation",
      "held on the worlds generated; timelines sorted, nanosecond resolution"),
    P("C02", "Lookback buffers of secondary streams hold the last N past observations",
      "A secondary timeline given a lookback of N shows at each local step its last N observations strictly before the "
      "cut-off, oldest first, each once, padded at the front with the missing value of the type when fewer exist. "
      "Without forward filling it shows only missing values at steps where no new observation arrived, and with forward "
      "filling it keeps what was shown last. The newest entry is what the stream shows without a lookback, and with a "
      "large enough lookback no past observation is lost, repeated or reordered.",
      ["inputs", "histories", "configurations"],
      "every set of timelines, every lookback length, fill option, embedding, value type and number of columns",
      "one fixed dataset with lookback 3 and single-column data; the start of the buffer is not asserted",
      [M + "stream.py", M + "accessors.py"],
      [("bounded buffer per timeline", M + "stream.py:tree_buffer_transform, deque_to_list"),
       ("fill between steps", M + "stream.py:Stream.merge"), ("data access", M + "stream.py:access_data")],
      "runtime monitor: observed buffers against a reference, replay/exactly-once check over the recorded steps",
      "held on the worlds generated"),
    P("C03", "Unrolling a Haiku program equals stepping it by hand",
      "Unrolling a program over a sequence yields, step by step, the outputs and the final state of calling its apply "
      "function by hand on each element with the carried state, whether the unroll is dynamic or static, jitted or not, "
      "on positional, keyword or nested inputs, with given or initialised parameters, state and random key. With random "
      "keys each step receives its documented key, parameters are initialised from the first element, and skipping the "
      "first element only removes it from the sequence.",
      ["programs", "inputs", "configurations"],
      "every stateful program, sequence length, tree structure, key, option and unrolling function",
      "tests unroll two or three programs with default options on one array",
      [M + "unroll.py", M + "transform.py", M + "compile.py", M + "gym/gym_unroll.py"],
      [("scan over the sequence", M + "unroll.py:unroll_transform_with_state, dynamic_unroll, static_unroll"),
       ("batch transformation", M + "transform.py:transform_batch_with_state")],
      "runtime monitor: unrolled traces against a hand-driven init/apply loop",
      "held on the programs and sequences generated"),
    P("C05", "Unrolling, scanning and resetting in Flax equal stepping by hand",
      "Unrolling a Flax module or streaming a Flax program over a sequence yields the outputs and final state of calling "
      "it by hand on each element with the carried state, dynamically or statically, for given or initialised parameters "
      "and state, with or without skipping the first element, and with one documented key per step. A streaming scan "
      "with a reset condition puts the initial or given state back exactly after the steps whose input meets the "
      "condition, and parameters never change.",
      ["programs", "inputs", "histories", "configurations"],
      "every module, sequence, reset schedule, key and option",
      "tests unroll a handful of modules without resets, given state or keys",
      [M + "flax/core/unroll.py", M + "flax/core/transform.py", M + "flax/core/streaming_transforms.py",
       M + "flax/core/state_utils.py"],
      [("scan over the sequence", M + "flax/core/unroll.py:flax_unroll_transform"),
       ("reset after a step", M + "flax/core/streaming_transforms.py:streaming_scan")],
      "runtime monitor: unrolled traces against a hand-driven init/apply loop with explicit resets",
      "held on the modules and sequences generated"),
    P("C06", "Exponential moving averages follow the pandas definition in every engine",
      "For every sequence, missing-value pattern, shape and option set, the exponentially weighted mean computed by the "
      "Haiku module, the Flax module and the Numba kernels equals the pandas ewm mean with the same smoothing, "
      "adjustment, missing-value and minimum-period options, element by element and in every execution mode. The "
      "linearised adjustment and the initial value follow their documented recursions, and processing a sequence in "
      "pieces with the carried state equals processing it at once.",
      ["inputs", "configurations", "histories"],
      "every sequence, missing pattern, shape, dtype, smoothing and option combination, split point and engine",
      "tests compare a handful of seeded series with fixed missing positions",
      [M + "modules/ewma.py", M + "flax/modules/ewma.py", M + "numba/ewma_numba.py", M + "numba/stream_numba.py"],
      [("recursions", M + "modules/ewma.py; " + M + "flax/modules/ewma.py; " + M + "numba/ewma_numba.py")],
      "runtime monitor: traces of three engines against pandas and a scalar recursion",
      "held on the sequences generated; float tolerances per precision"),
    P("C07", "Exponential variance and covariance follow the reference recursions",
      "For every pair of sequences and every option set, the exponentially weighted variance and covariance produced "
      "step by step by the Haiku and Flax modules equal the reference recursion on the same observations. A covariance "
      "is symmetric, its diagonal is the variance, an outer product is consistent with scalar pairs, and one lane never "
      "influences another.",
      ["inputs", "configurations"],
      "every sequence, missing pattern, smoothing option and shape",
      "tests compare a few fixed series",
      [M + "modules/ewmvar.py", M + "modules/ewmcov.py", M + "flax/modules/ewmvar.py", M + "flax/modules/ewmcov.py"],
      [("moment recursions", M + "modules/ewmcov.py; " + M + "flax/modules/ewmcov.py")],
      "runtime monitor: traces against a float64 reference recursion and algebraic relations",
      "held on the sequences generated; float tolerances per precision"),
    P("C08", "Window modules are functions of exactly the last N inputs",
      "At every step a window of length N holds exactly the last N inputs in order, padded at the front with the fill "
      "value; a lag returns the input of k steps ago, a difference and a relative change compare with it, and rolling "
      "statistics equal the same statistic of that window under their missing-value rules. This holds for every length, "
      "dtype, shape, fill value and missing pattern, with and without returned state, in the Haiku and Flax versions.",
      ["inputs", "configurations", "histories"],
      "every sequence length relative to the window, window length, dtype, shape, fill value and missing pattern",
      "tests use one or two short sequences and default options",
      [M + "modules/buffer.py", M + "modules/lag.py", M + "modules/diff.py", M + "modules/pct_change.py",
       M + "modules/rolling_mean.py", M + "flax/modules/buffer.py", M + "flax/modules/lag.py",
       M + "flax/modules/diff.py", M + "flax/modules/pct_change.py", M + "flax/modules/rolling_mean.py"],
      [("ring of the last values", M + "modules/buffer.py; " + M + "flax/modules/buffer.py")],
      "runtime monitor: window contents at every step against a deque; statistics against pandas",
      "held on the sequences generated"),
    P("C09", "Last-value memory is exact",
      "Forward fill returns for each element its last non-missing value so far and missing before the first; change "
      "detection is true at the first step and exactly when some element differs from the previous input; the step "
      "counter counts steps; filling replaces exactly the non-finite entries. This holds for every dtype including "
      "integers beyond float precision, every shape and nesting, in the Haiku and Flax versions.",
      ["inputs", "configurations"],
      "every sequence, dtype, shape and missing pattern",
      "tests use one short float example per module",
      [M + "modules/ffill.py", M + "modules/has_changed.py", M + "modules/counter.py", M + "modules/fill_nan_inf.py",
       M + "flax/modules/ffill.py", M + "flax/modules/has_changed.py", M + "flax/modules/counter.py",
       M + "flax/modules/fill_nan_inf.py"],
      [("carried last value", M + "modules/ffill.py; " + M + "modules/has_changed.py")],
      "runtime monitor: bit-exact comparison with a per-element last-value model",
      "held on the sequences generated"),
    P("C10", "OHLC bars summarise exactly the observations since the last reset",
      "After every step, the open, high, low and close of each element are the first, largest, smallest and last "
      "non-missing input since the most recent reset, the resetting step included, and all missing when there is none. "
      "This holds for every pattern of resets and missing values and every shape, in the Haiku and Flax versions, and "
      "elements never influence each other.",
      ["inputs", "histories", "configurations"],
      "every sequence, reset schedule, missing pattern and shape",
      "tests use one daily reset on one fixed series without missing values at bar boundaries",
      [M + "modules/ohlc.py", M + "flax/modules/ohlc.py"],
      [("bar state and reset", M + "modules/ohlc.py:OHLC; " + M + "flax/modules/ohlc.py:OHLC")],
      "runtime monitor: bars after every step against a per-element model and pandas group-by",
      "held on the sequences generated"),
    P("C11", "Masked statistics depend only on the selected entries",
      "The masked mean and standard deviation equal the statistics of the selected entries (a missing selected entry "
      "counting as zero) for the whole array or along the given axis of up to two-dimensional data; the mean of an "
      "empty selection is missing; masked normalisation divides by that standard deviation along the same axis and "
      "returns only finite values, and applying a mask keeps selected entries and puts the given value elsewhere. "
      "Whatever the unselected entries contain, including infinities, changes nothing in the selected results, and a "
      "tree of arrays is processed leaf by leaf.",
      ["inputs", "configurations"],
      "every array up to two dimensions, mask, axis, centring option and nesting; Haiku and Flax",
      "tests use one mask and compare square shapes or no axis, where wrong broadcasting is invisible",
      [M + "modules/mask_mean.py", M + "modules/mask_std.py", M + "modules/mask_normalize.py",
       M + "modules/apply_mask.py", M + "flax/modules/mask_mean.py", M + "flax/modules/mask_std.py",
       M + "flax/modules/mask_normalize.py", M + "flax/modules/apply_mask.py"],
      [("selection then reduction", M + "modules/mask_std.py; " + M + "flax/modules/mask_std.py")],
      "runtime monitor: results against explicit selection in float64; poisoning relation",
      "held on the arrays generated"),
    P("C12", "Event-driven modules update on events and hold in between",
      "In Haiku, an event-driven module behaves as the wrapped module run on the event steps only: its state advances "
      "only on events, its output between events is the last event output (the initial value before any), and other "
      "modules of the program are unaffected. In Flax, the wrapped computation sees every input and the output is the "
      "latest one produced at an event, with the initialisation counting as the first step; without an event condition "
      "every step is an event.",
      ["inputs", "histories", "programs"],
      "every event schedule, wrapped program (stateful, nested, tree-valued, learned) and initial value",
      "tests use one accumulator and one schedule",
      [M + "modules/update_on_event.py", M + "flax/core/streaming_transforms.py"],
      [("state rollback", M + "modules/update_on_event.py:UpdateOnEvent"),
       ("cached output", M + "flax/core/streaming_transforms.py:ConditionalComputation")],
      "runtime monitor: outputs and inner state against the unwrapped program on the event subsequence",
      "held on the schedules and programs generated"),
    P("C13", "Online learning takes exactly one gradient step per observation",
      "An online learner predicts with its current parameters before learning from the observation, then applies one "
      "optimizer update with the gradient of the loss on that observation, so its predictions, losses, parameters and "
      "optimizer state equal a hand-written loop of gradients and updates. Projection, regularisation and the choice of "
      "trainable parameters act as stated: frozen parameters never change, and a missing or infinite gradient entry "
      "moves nothing.",
      ["inputs", "histories", "configurations"],
      "every model (also stateful or partly frozen), loss, optimizer, sequence with missing values, projection and option",
      "tests train one linear regression and look at the final error, so a wrong order, sign or sample is invisible",
      [M + "modules/online_supervised_learner.py", M + "modules/online_optimizer.py", M + "modules/func_optimizer.py",
       M + "modules/optax_optimizer.py", M + "modules/update_params.py"],
      [("gradient and update", M + "modules/online_optimizer.py; " + M + "modules/online_supervised_learner.py"),
       ("parameters as state", M + "modules/update_params.py; " + M + "modules/func_optimizer.py")],
      "runtime monitor: traces of predictions, losses and parameters against a hand-driven gradient loop",
      "held on the models and sequences generated"),
    P("C14", "Flax online learning takes exactly one gradient step per observation",
      "A Flax online learner, function optimizer or streaming optimizer predicts with its current parameters, then "
      "applies one optimizer update with the gradient on that observation, so that predictions, losses, gradients, "
      "parameters, model state and optimizer state equal a hand-written loop; initialisation counts as the first step. "
      "Parameters not selected for training never change, and selecting, projecting or regularising act as stated.",
      ["inputs", "histories", "configurations"],
      "every model, loss, optimizer, sequence with missing values, projection and selection of parameters",
      "tests train one linear model and look at shapes or the final loss",
      [M + "flax/modules/online_supervised_learner.py", M + "flax/modules/online_optimizer.py",
       M + "flax/modules/func_optimizer.py", M + "flax/modules/optax_optimizer.py",
       M + "flax/modules/update_params.py", M + "flax/core/streaming_transforms.py"],
      [("gradient and update", M + "flax/modules/online_optimizer.py; " + M + "flax/modules/func_optimizer.py"),
       ("streaming optimisation", M + "flax/core/streaming_transforms.py:streaming_optimizer")],
      "runtime monitor: traces of predictions, losses and parameters against a hand-driven gradient loop",
      "held on the models and sequences generated; models without state where the module rejects state"),
    P("C15", "The online Newton optimizer follows the Newton recursion",
      "After any history of gradients, the carried inverse is the inverse of the regularisation plus the sum of the "
      "gradients' outer products, and each update is the negative learning rate times that inverse applied to the "
      "gradient, in the structure of the parameters. The rank-one inverse update agrees with direct inversion for any "
      "invertible matrix, and updates never point uphill.",
      ["inputs", "histories", "configurations"],
      "every parameter tree, gradient history, regularisation and learning-rate schedule",
      "tests check that a regression converges and one symmetric rank-one update",
      [M + "optim/newton.py"],
      [("rank-one inverse update", M + "optim/newton.py:sherman_morrison"),
       ("update rule", M + "optim/newton.py:newton, scale_by_newton")],
      "runtime monitor: updates and carried inverse against explicit float64 linear algebra",
      "held on well conditioned histories generated; float tolerances per precision"),
    P("C16", "ARMA filters and adaptive forecasters use exactly the stated lags",
      "An ARMA filter outputs, at every step, its input plus the stated coefficients applied to its own past outputs "
      "and to its past inputs, most recent lag first. An adaptive forecaster regresses on exactly the given regressors, "
      "the last errors and the last targets in order, with missing values as zeros, learns once per step, and never "
      "uses a value that is not available at that step.",
      ["inputs", "histories", "configurations"],
      "every order, coefficient vector, input sequence with missing values and shape; Haiku and Flax",
      "tests check shapes, a near-cancelling example with order-insensitive coefficients, or a final loss",
      [M + "modules/arma.py", M + "modules/snarimax.py", M + "flax/modules/arma.py", M + "flax/modules/snarimax.py"],
      [("lag buffers", M + "modules/arma.py; " + M + "flax/modules/arma.py"),
       ("features", M + "modules/snarimax.py; " + M + "flax/modules/snarimax.py")],
      "runtime monitor: outputs against the difference equation, features against explicitly built ones",
      "held on the sequences generated"),
    P("C17", "A feedback loop alternates environment and agent exactly once per observation",
      "In a feedback loop, each raw observation is consumed by exactly one environment step using the agent's previous "
      "action, followed by exactly one agent step on the resulting observation; rewards, observations, actions and "
      "infos recorded are those of that step and states advance once per step. The compiled loop, the loop of Python "
      "objects over a data generator and agent and environment driven alternately by hand give the same trajectory, "
      "and the end of the data is reported once without inventing a step.",
      ["programs", "inputs", "histories"],
      "every agent and environment, stateful or learned, initial action, sequence, recorded field and stopping point",
      "tests run one agent and environment and compare lengths or a final reward",
      [M + "modules/gym_feedback.py", M + "gym/haiku_env.py", M + "gym/haiku_agent.py", M + "gym/gym_unroll.py",
       M + "gym/agent.py", M + "flax/modules/gym_feedback.py"],
      [("feedback state", M + "modules/gym_feedback.py:GymFeedback"),
       ("environment over a generator", M + "gym/haiku_env.py"), ("loop", M + "gym/gym_unroll.py")],
      "runtime monitor: recorded trajectories against agent and environment driven alternately by hand",
      "held on the agents and environments generated"),
    P("C04", "The carried state is all a computation remembers",
      "Everything a streaming computation remembers between steps is in the parameters and state it returns. Stopping "
      "after any number of steps and resuming from the returned (copied or pickled) parameters and state, once or "
      "several times and interleaved with other streams, gives exactly what running without a stop gives, and the "
      "first outputs do not depend on how much input follows. No call modifies the parameters, state or input arrays "
      "it is given.",
      ["programs", "inputs", "histories", "crash_points"],
      "every deterministic Haiku, Flax or numba streaming computation, sequence and set of stopping points",
      "tests resume one or two modules at one point",
      [M + "unroll.py", M + "numba/ewma_numba.py", M + "accessors.py", M + "modules", M + "flax/modules"],
      [("state returned by an unroll", M + "unroll.py:unroll, unroll_transform_with_state"),
       ("state per module", M + "modules; " + M + "flax/modules"), ("numba state", M + "numba/ewma_numba.py")],
      "runtime monitor: resumed runs against the whole run, argument arrays against bitwise copies",
      "held on the programs and stopping points generated"),
    P("C18", "Callbacks see every event of a loop once and in order",
      "In an agent/environment loop, every active callback is told of the start, then for each step of the action and "
      "of the step's outcome, then of the end, with the values that the loop used, each exactly once. A callback is "
      "active if it was given to the loop or, when none is given, registered at that time; entering and leaving a "
      "callback's scope (also by an exception) activates and deactivates it exactly. Nested and resumed loops keep to "
      "the same protocol, and the records kept by a recording callback are those events.",
      ["schedules", "histories", "configurations"],
      "every history of registering, unregistering, entering, leaving, raising, stopping and nesting",
      "tests run one loop with one callback", [M + "gym/callbacks", M + "gym/gym_unroll.py", M + "gym/agent.py"],
      [("active callbacks", M + "gym/callbacks/callbacks.py"), ("loop", M + "gym/gym_unroll.py")],
      "runtime monitor: event log of every call replayed against the protocol automaton",
      "held on the histories generated"),
    P("C19", "Encodings for compiled code keep values and order",
      "Encoding dates, integers and strings into arrays that compiled code can carry loses nothing: decoding gives the "
      "same values back over their whole range, missing dates included. Comparisons of encoded dates agree with the "
      "order of the dates, and flooring an encoded date to its day or to any other unit gives the encoding of the "
      "floored date, in 32-bit and 64-bit mode.",
      ["inputs", "configurations"],
      "every 64-bit integer, date in the nanosecond range (also before 1970) and string",
      "tests encode a handful of recent dates", [M + "encode.py", M + "stream.py"],
      [("codes", M + "encode.py"), ("encoded datasets", M + "stream.py")],
      "runtime monitor: decoded and compared codes against the plain values",
      "held on the values generated"),
    P("C20", "Labelled data keeps its labels",
      "Streaming a program over a Series, DataFrame, DataArray or Dataset gives at each label exactly what the program "
      "run on the raw arrays gives at that position. Index, columns, level names, dimensions and coordinates of the "
      "input are kept, every date is one step, nested outputs keep their structure, and each output is placed on the "
      "dimensions that it has. Formatting arrays onto named dimensions never moves a value to another label.",
      ["inputs", "programs", "configurations"],
      "every container, index type, label, shape, program and output structure",
      "tests apply one lane-wise program to sorted, rectangular data and compare values only",
      [M + "accessors.py", M + "format.py", M + "stream.py"],
      [("labels of outputs", M + "format.py:format_dataarray, format_dataframe, format_series, format_dataset"),
       ("containers", M + "accessors.py")],
      "runtime monitor: labelled outputs against the program run on raw arrays, label by label",
      "held on the containers generated; formatted outputs with the first element skipped are not claimed"),
    P("C21", "Lifting a program over a batch or an unroll keeps lanes and steps independent",
      "A stateful program lifted over a batch inside another program behaves on every lane as that program run alone on "
      "the lane, with its own parameters and state; a lifted unroll behaves as the program called step by step. Both "
      "carry their state from call to call, keep it apart from that of the other modules and lifts of the program, nest "
      "in each other, and give the same results eagerly, jitted or unrolled. When random keys are split, every lane and "
      "step draws independently, and averaging a batch averages exactly the lanes.",
      ["programs", "inputs", "histories", "configurations"],
      "every program, batch size, sequence, number of calls, nesting and key option",
      "tests lift one counter-like module over three equal lanes, once per program",
      [M + "stateful.py", M + "modules/vmap.py", M + "flax/modules/vmap.py"],
      [("lifting over a batch", M + "stateful.py:vmap_lift_with_state"),
       ("lifting an unroll", M + "stateful.py:unroll_lift_with_state"), ("batches", M + "modules/vmap.py:add_batch")],
      "runtime monitor: lanes against the program run alone, lifted steps against steps by hand",
      "held on the programs generated; which key a lane gets is not claimed"),
    P("C22", "Memories of a stream summarise exactly the stream they were given",
      "Step by step, a compressed memory returns the summary of its strategy over the whole stream so far: the last "
      "inputs, the exponential average counting missing values as pandas does, the quantiles of the retained window, the "
      "kept samples oldest first, or counts that never underestimate. A hierarchy updates each level on its own period and "
      "shows the last summary of every level between updates. The carried state does not grow, the decorators hand the "
      "memory and the inputs to the function once per step, and reported sizes are the sums of their parts.",
      ["inputs", "histories", "configurations"],
      "every sequence, memory length, strategy, parameters and hierarchy",
      "tests push a few values and compare shapes", [M + "flax/modules/compressed_buffer.py"],
      [("compression", M + "flax/modules/compressed_buffer.py:CompressedBuffer"),
       ("hierarchy", M + "flax/modules/compressed_buffer.py:HierarchicalBuffer")],
      "runtime monitor: each step's summary against the explicit history",
      "held on the sequences generated, step by step outside compiled code"),
    P("C23", "Coordinated state machines run every member once, in order, on its own state",
      "In each step of a state machine every member runs exactly once on the given inputs, after the members it depends "
      "on, and its state evolves as if it ran alone; a failing member is reported in its place and disturbs no other. "
      "Under the hierarchical strategy each reading takes a tenth of the same reading of every member of a higher level, "
      "and is otherwise untouched. Composed states chain, share or route their inputs as the strategy says, in the given "
      "order. The attention selector attends to the states before the current one, oldest first, up to its history length, "
      "and adds a tenth of the context once it has two of them. The carried state does not grow and the decorators keep "
      "all of this.",
      ["programs", "inputs", "configurations", "histories"],
      "every set of members, dependency graph, strategy, sequence and history length",
      "tests run a few steps of two members and check that outputs exist", [M + "flax/core/advanced_state_patterns.py"],
      [("state machine", M + "flax/core/advanced_state_patterns.py:HierarchicalStateMachine"),
       ("attention", M + "flax/core/advanced_state_patterns.py:AttentionBasedStateSelector"),
       ("composition", M + "flax/core/advanced_state_patterns.py:CompositeStateManager")],
      "runtime monitor: call log, outputs and states of every member against its independent replay",
      "held on the machines generated"),
    P("C24", "Debugging, profiling and memory tracking observe without changing",
      "A program decorated with any stack of the debugging, profiling and memory tools gives bit for bit the results, "
      "states and failures of the bare program. Each call is recorded once by the debugger and the profiler and by a "
      "before/after pair in the memory tracker while they are enabled and never while disabled, with the sizes and state "
      "of that call; recorded data are snapshots that later changes do not alter. Hooks fire exactly when their condition "
      "is met, a failing condition counts as not met, retained histories hold the last events up to their bound, "
      "summaries are those of the retained records, leaks are reported exactly when the trend and growth of memory exceed "
      "the thresholds, and several threads recording at once lose, duplicate or mix nothing.",
      ["programs", "histories", "schedules", "configurations"],
      "every program, stack of tools, history of steps, hooks, switches, clears and resets, and thread interleaving",
      "tests record a few steps from one thread and check that something was recorded",
      [M + "flax/debug/debugger.py", M + "flax/debug/profiler.py", M + "flax/debug/memory_tracker.py"],
      [("debugger", M + "flax/debug/debugger.py:StreamingDebugger, DebugHook, debug_streaming"),
       ("profiler", M + "flax/debug/profiler.py:StreamingProfiler, profile_streaming"),
       ("memory tracker", M + "flax/debug/memory_tracker.py:MemoryTracker, track_memory_usage")],
      "runtime monitor: independent replay of the recorded history; conservation under preempted threads",
      "held on the histories and interleavings seen"),
    P("C25", "Views of a pipeline show what was recorded, each thing once",
      "The data tracker keeps, in order and up to its bound, exactly the records of the kinds it tracks, overall and per "
      "module, with their step and shape. Text, DOT and HTML renderings of a computation graph contain each node and edge "
      "exactly once whatever its name, and the file written is the text returned. Analysing a program finds each "
      "parameterised module once under its path; the nested view is a forest with consistent parents, children, levels, "
      "clusters and totals, and its Graphviz, Cytoscape and D3 renderings are that forest. Plots show the recorded values "
      "at their steps. The dashboard files records under their pipeline and raises an alert exactly when a threshold is "
      "exceeded; parameter panels report every change to every callback.",
      ["histories", "configurations", "inputs"],
      "every history of records, steps and clears, every graph, parameter tree and configuration",
      "tests record a few points and check that output is not empty",
      [M + "flax/visualization/data_flow_visualizer.py", M + "flax/visualization/computation_graph.py",
       M + "flax/visualization/nested_graph_viz.py", M + "flax/visualization/interactive_dashboard.py",
       M + "flax/visualization/jupyter_viz.py"],
      [("data history", M + "flax/visualization/data_flow_visualizer.py:DataFlowTracker"),
       ("graphs", M + "flax/visualization/computation_graph.py:ComputationGraphRenderer"),
       ("nested graphs", M + "flax/visualization/nested_graph_viz.py:HierarchicalGraphAnalyzer"),
       ("dashboard", M + "flax/visualization/interactive_dashboard.py:InteractiveDashboard")],
      "runtime monitor: renderings parsed back and histories replayed independently",
      "held on the graphs and histories generated; backends whose libraries are not installed are not exercised"),
    P("C26", "Streaming programs can be differentiated, compiled and batched",
      "Unrolled over any data, missing values included, every module is transparent to JAX transformations. Reverse-mode "
      "derivatives of its outputs in parameters, carried state and data are finite wherever the outputs are observed, are "
      "zero in missing inputs, and equal the directional derivatives (central differences wherever these exist) and the "
      "forward-mode ones, through all steps of the unroll and all memories. Compiled runs, with or without donated state, "
      "equal eager ones on every call of the compiled program; a batch of sequences, states or parameters under vmap equals each of "
      "them on its own, derivatives included.",
      ["programs", "inputs", "configurations"],
      "every module and configuration, every sequence with any pattern of missing values, every carried state",
      "tests differentiate one average with a missing first row and check the result is a number",
      [M + "modules/ewma.py", M + "modules/ewmvar.py", M + "modules/ewmcov.py", M + "modules/buffer.py",
       M + "modules/mask_normalize.py", M + "modules/pct_change.py", M + "flax/modules/ewma.py", M + "flax/modules/ewmvar.py",
       M + "unroll.py", M + "flax/core/unroll.py"],
      [("missing values", M + "modules/ewma.py:EWMA.__call__ (values filled before arithmetic)"),
       ("unroll", M + "unroll.py:dynamic_unroll"), ("flax unroll", M + "flax/core/unroll.py:flax_unroll_transform")],
      "runtime monitor: derivatives against finite differences of the executed program; compiled and batched runs against eager ones",
      "held on the programs and data sampled; kinks, where step sizes disagree, are not judged"),
]
NOT_APPLICABLE = []


def main():
    PROPS.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=a)) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} --tier quick",
                   thorough_cmd=f"./check.sh {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
                   technique=p["technique"], level="exploration", level_note=p["note"])
              for p in PROPS if p["id"] not in {n["property"] for n in NOT_APPLICABLE}]
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NOT_APPLICABLE,
                   notes="Each check runs 8 worker processes (even workers in 64-bit mode, odd in 32-bit) against "
                         "/repo's working tree; ./check.sh ID --replay FILE reruns one recorded case."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
