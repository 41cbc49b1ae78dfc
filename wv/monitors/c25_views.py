"""C25: the views of a pipeline (data history, graphs, hierarchies, dashboard) show what was recorded, once."""

from __future__ import annotations

import json
import os
import re
import tempfile
import warnings
from collections import Counter
from html.parser import HTMLParser

import numpy as np

from wv.core import Registry
from wv.tools import fdtype, key

ID = "C25"
RULE = (
    "random histories of records, steps and clears through trackers and dashboards replayed independently; random "
    "graphs, parameter trees and hierarchies whose DOT, HTML, text and JSON renderings are parsed back and compared "
    "with the graph; plots read back line by line; parameter panels under random changes; distinct by graph and history"
)
ASSUMPTIONS = ["backends whose libraries are not installed here (plotly, bokeh, networkx, flask) are not exercised",
               "names do not contain backslashes"]
QUICK, THOROUGH = 50, 400
R = Registry()

NAMES = ["ewma", "b", "a b", "<lambda>", 'say "x"', "x&y", "Dense_0", "naïve", "a.b", "1", "A" * 30]


def shape_of(v):
    if hasattr(v, "shape"):
        return tuple(v.shape)
    return (len(v),) if isinstance(v, list | tuple | dict) else ()


def values(c):
    import jax.numpy as jnp

    return c.choice([lambda: float(np.round(c.rng.normal(), 3)), lambda: c.int(-5, 5),
                     lambda: jnp.asarray(c.rng.normal()), lambda: jnp.zeros(c.int(1, 4)), lambda: np.ones((2, 3)),
                     lambda: [1, 2, 3], lambda: {"a": 1}, lambda: "text", lambda: None])()


@R.kind(weight=4)
def tracker(c):
    import jax.numpy as jnp

    from wax.flax.visualization import DataFlowTracker, DataFlowVisualizer

    cap = c.choice([1, 3, 10, 1000])
    flags = {"input": c.flip(0.7), "output": c.flip(0.7), "state": c.flip(0.7), "gradient": c.flip(0.5)}
    t = DataFlowTracker(max_history=cap, track_inputs=flags["input"], track_outputs=flags["output"],
                        track_states=flags["state"], track_gradients=flags["gradient"])
    log, per, step, ops = [], {}, 0, []
    for _ in range(c.int(3, 40)):
        op = c.choice(["record"] * 8 + ["step"] * 3 + ["clear"] + ["look"])
        ops.append(op)
        if op == "record":
            m, k = c.choice(["a", "b", "c"]), c.choice(["input", "output", "state", "gradient", "intermediate"])
            v = values(c)
            meta = c.choice([None, {"t": 1.0}])
            t.record_data(m, k, v, meta)
            if flags.get(k, True):
                rec = (step, m, k, v, meta or {})
                log.append(rec)
                per.setdefault(m, []).append(rec)
            c.count("records")
        elif op == "step":
            t.step()
            step += 1
        elif op == "clear":
            t.clear_history()
            log, per, step = [], {}, 0
        else:
            t.get_module_history("never seen")
        want = log[-cap:]
        n = c.choice([0, 1, 2, 5, 100])
        for got, exp in ((t.get_recent_data(n), want[-n:] if n else []), (t.get_recent_data(10**6), want)):
            c.expect(len(got) == len(exp), "recent", f"{len(got)} expected {len(exp)} of {n}")
            for g, e in zip(got, exp):
                c.expect((g.step, g.module_name, g.data_type) == e[:3] and g.value is e[3] and g.metadata == e[4],
                         "recent", f"{g} {e}")
                c.expect(tuple(g.shape) == shape_of(e[3]), "shape", f"{g}")
            ts = [g.timestamp for g in got]
            c.expect(all(0 <= a <= b for a, b in zip(ts, ts[1:])) and all(s >= 0 for s in ts), "times", f"{ts}")
        for m in ("a", "b", "c"):
            k = c.choice([None, "input", "state", "intermediate"])
            got = t.get_module_history(m, k)
            exp = [r for r in per.get(m, [])[-cap:] if k in (None, r[2])]
            c.expect([(g.step, g.data_type) for g in got] == [(r[0], r[2]) for r in exp], "module_history", f"{m} {k}")
        c.same(t.step_count, step, "steps")
    text = DataFlowVisualizer(backend="text")
    c.raises(lambda: text.create_streaming_plot(), "no_tracker", ValueError)
    text.attach_tracker(t)
    out = text.create_streaming_plot()
    rows = re.findall(r"^Step\s+(\d+) \| (\S+)\s*\| (\S+)\s*\|", out, re.M)
    want = log[-cap:][-10:]
    c.expect([(int(a), b, k) for a, b, k in rows] == [(r[0], r[1], r[2]) for r in want], "text", f"{rows} {want}")
    c.state("tracker", cap, tuple(flags.values()), tuple(ops))
    del jnp
    c.nontrivial = True


@R.kind(weight=1)
def plots(c):
    """Each module's line holds its scalar values at their steps; sizes likewise; the tracker is left alone."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from wax.flax.visualization import DataFlowTracker, DataFlowVisualizer, create_flow_animation, visualize_streaming_data

    n = c.choice([3, 8, 200])
    t = DataFlowTracker(max_history=100)
    log = []
    for _ in range(c.int(1, 25)):
        m, v = c.choice(["a", "b"]), values(c)
        t.record_data(m, "output", v)
        log.append((t.step_count, m, v))
        if c.flip():
            t.step()
    c.state("plots", n, str([(s, m, type(v).__name__) for s, m, v in log]))
    c.note(n=n, log=[(s, m, type(v).__name__) for s, m, v in log])
    before = list(t.data_history)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c.flip(0.2):
                with tempfile.TemporaryDirectory() as d:
                    p = os.path.join(d, "x.gif")
                    c.expect(create_flow_animation(t, duration=0.4, fps=5, output_path=p) == p, "animation", "")
                    c.expect(os.path.getsize(p) > 0, "animation", "")
            v = DataFlowVisualizer(backend="matplotlib", max_points=n, figure_size=(3, 2))
            v.attach_tracker(t)
            fig = v.create_streaming_plot()
            for _ in range(c.int(1, 2)):
                v.update_plot()
            want, sizes = {}, {}
            for s, m, x in log[-n:]:
                sizes.setdefault(m, []).append((s, int(np.prod(shape_of(x), dtype=int))))
                if isinstance(x, int | float) or (shape_of(x) == () and hasattr(x, "dtype")):
                    want.setdefault(m, []).append((s, float(x)))
            for ax, exp in ((fig.axes[0], want), (fig.axes[1], sizes)):
                got = {ln.get_label(): list(zip(*ln.get_data())) for ln in ax.get_lines()}
                c.expect(set(got) == set(exp), "lines", f"{sorted(got)} {sorted(exp)}")
                for m in exp:
                    c.same(np.array(got[m], float), np.array(exp[m], float), "line", rtol=1e-6)
            if c.flip(0.3):
                with tempfile.TemporaryDirectory() as d:
                    p = os.path.join(d, "x.png")
                    c.expect(visualize_streaming_data(t, output_path=p, figure_size=(2, 2)) == p, "file", "")
                    c.expect(os.path.getsize(p) > 0, "file", "")
    finally:
        plt.close("all")
    c.expect(len(before) == len(t.data_history) and all(a is b for a, b in zip(before, t.data_history)),
             "history_changed", f"{len(before)} {len(t.data_history)}")


class Page(HTMLParser):
    """Texts of the nodes and edges of a page, and the tags it uses."""

    def __init__(self):
        super().__init__()
        self.nodes, self.edges, self.tags, self.stack = [], [], set(), []

    def handle_starttag(self, tag, attrs):
        self.tags.add(tag)
        if tag == "div":
            kind = dict(attrs).get("class")
            self.stack.append(kind)
            if kind == "node":
                self.nodes.append("")
            if kind == "edge":
                self.edges.append("")

    def handle_endtag(self, tag):
        if tag == "div" and self.stack:
            self.stack.pop()

    def handle_data(self, data):
        if self.stack and self.stack[-1] == "node":
            self.nodes[-1] += data
        if self.stack and self.stack[-1] == "edge":
            self.edges[-1] += data


QUOTED = r'"((?:[^"\\]|\\.)*)"'


def parse_dot(text):
    """Identifiers and labels of the nodes, and the edges, of a DOT text."""
    un = lambda s: s.replace('\\"', '"')  # noqa: E731
    nodes, edges = [], []
    for line in text.splitlines():
        e = re.match(rf"\s*{QUOTED} -> {QUOTED}(?: \[(.*)\])?;$", line)
        n = re.match(rf"\s*{QUOTED} \[label={QUOTED}", line)
        if e:
            lab = re.search(rf"label={QUOTED}", e[3] or "")
            edges.append((un(e[1]), un(e[2]), un(lab[1]) if lab else ""))
        elif n:
            nodes.append((un(n[1]), un(n[2])))
    return nodes, edges


@R.kind(weight=3)
def graphs(c):
    """Every node and edge of a graph is in each rendering exactly once, whatever its name."""
    from wax.flax.visualization import ComputationGraphRenderer, PipelineEdge, PipelineNode

    pool = [f"{n}{i or ''}" for i in range(2) for n in NAMES]
    ids = [str(v) for v in c.rng.choice(pool, size=c.int(1, 7), replace=False)]
    opts = dict(include_shapes=c.flip(), include_parameters=c.flip(), max_label_length=c.choice([5, 20]))
    fmt = c.choice(["dot", "html", "text"])
    g = ComputationGraphRenderer(output_format="dot" if fmt == "text" else fmt, **opts)
    nodes, edges = {}, []
    for i in ids:
        n = PipelineNode(id=i, name=c.choice(NAMES), module_type=c.choice(["EWMA", "Buffer", "Module", "Dense<3>"]),
                         input_shapes=c.choice([{}, {"x": (2, 3)}]), parameters=c.choice([{}, {"alpha": 0.1, "k": "v"}]))
        c.expect(g.add_node(n) is g, "chain", "")
        nodes[i] = n
    for _ in range(c.int(0, 8)):
        e = PipelineEdge(c.choice(ids), c.choice(ids), label=c.choice(["", "flow", 'a "b"', "<i>"]))
        g.add_edge(e)
        edges.append(e)
    c.note(fmt=fmt, opts=opts, nodes=[(n.id, n.name, n.module_type) for n in nodes.values()],
           edges=[(e.source, e.target, e.label) for e in edges])
    c.state("graph", fmt, str(opts), tuple(ids), len(edges))
    with tempfile.TemporaryDirectory() as d:
        out = g.render()
        p = os.path.join(d, "out")
        c.expect(g.render(p) == p, "path", "")
        with open(p) as f:
            c.expect(f.read() == out, "file", "the file differs from the text returned")
    want = Counter((e.source, e.target, e.label) for e in edges)
    if fmt == "html":
        page = Page()
        page.feed(out)
        c.expect(page.tags <= {"html", "head", "title", "style", "body", "h1", "h2", "div", "strong", "br"}, "tags",
                 f"{page.tags}")
        c.expect(len(page.nodes) == len(nodes) and len(page.edges) == len(edges), "counts", f"{len(page.nodes)}")
        for text, n in zip(page.nodes, nodes.values()):
            c.expect(n.name in text and n.module_type in text and f"ID: {n.id}" in text, "node", f"{text!r} {n}")
            c.expect(("(2, 3)" in text) == bool(opts["include_shapes"] and n.input_shapes), "shapes", text)
            c.expect(("alpha" in text) == bool(opts["include_parameters"] and n.parameters), "parameters", text)
        for text, e in zip(page.edges, edges):
            c.expect(e.source in text and e.target in text and e.label in text, "edge", f"{text!r} {e}")
        c.expect(f"({len(nodes)})" in out and f"({len(edges)})" in out, "totals", "")
    else:
        got, ge = parse_dot(out)
        c.expect([n for n, _ in got] == list(nodes), "nodes", f"{got} {list(nodes)}")
        for i, label in got:
            n = nodes[i]
            c.expect(n.name[: opts["max_label_length"]] in label, "label", f"{label} {n.name}")
            c.expect(("(2, 3)" in label) == bool(opts["include_shapes"] and n.input_shapes), "shapes", label)
            c.expect(("alpha" in label) == bool(opts["include_parameters"] and n.parameters), "parameters", label)
        c.expect(Counter(ge) == want, "edges", f"{ge} {want}")
    c.count("nodes", len(nodes))
    c.count("edges", len(edges))
    c.nontrivial = True


class Fn:
    """A streaming function with given parameters."""

    def __init__(self, params, name):
        self.params, self.__name__ = params, name

    def init(self, rng, *args):
        return {"params": self.params}

    def apply(self, variables, *args):
        return args[0]


def a_tree(c, depth=0):
    """Random parameter tree: (tree, {path: leaf parameter names})."""
    import jax.numpy as jnp

    tree, leaves = {}, {}
    pool = ["Dense_0", "Dense_1", "EWMA_0", "EWMA_1", "Buffer_0", "block", "block2", "Norm", "Nor"]
    for n in c.rng.choice(pool, size=c.int(1, 4), replace=False):
        n = str(n)
        if depth < 2 and c.flip(0.35):
            tree[n], sub = a_tree(c, depth + 1)
            leaves |= {f"{n}.{k}": v for k, v in sub.items()}
        else:
            ps = c.choice([["kernel", "bias"], ["bias"], ["scale"], ["logcom"], ["alpha"], ["other"]])
            tree[n] = {p: jnp.zeros(c.int(1, 3)) for p in ps}
            if ps != ["other"]:
                leaves[n] = ps
    return tree, leaves


@R.kind(weight=3)
def hierarchies(c):
    """The modules of a program form a forest: each once, levels and children consistent, and so rendered."""
    import jax.numpy as jnp

    from wax.flax.visualization import ComputationGraphRenderer
    from wax.flax.visualization.nested_graph_viz import NestedGraphConfig, NestedGraphVisualizer

    tree, leaves = a_tree(c)
    fn = Fn(tree, c.choice(["main_fn", "<lambda>"]))
    x = jnp.zeros((2, 3)) if c.flip() else (jnp.zeros(2),)
    c.note(leaves=sorted(leaves))
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        g = ComputationGraphRenderer(include_parameters=True)
        c.expect(g.analyze_streaming_function(fn, x) is g, "chain", "")
        c.expect(set(g.nodes) == set(leaves) | {"main"}, "modules", f"{sorted(g.nodes)} {sorted(leaves)}")
        for i, n in g.nodes.items():
            if i == "main":
                c.expect(n.name == fn.__name__ and n.input_shapes == {"input": shape_of(x)}, "main", f"{n}")
                continue
            c.expect(n.name == i.split(".")[-1] and set(n.parameters) == set(leaves[i]), "module", f"{n}")
            if "logcom" in leaves[i] or "alpha" in leaves[i] or "EWMA" in n.name:
                c.expect(n.module_type == "EWMA", "type", f"{n}")
            elif "kernel" in leaves[i] and "Buffer" not in n.name:
                c.expect(n.module_type == "Dense", "type", f"{n}")
        for e in g.edges:
            c.expect(e.source in g.nodes and e.target in g.nodes, "dangling", f"{e}")
        cfg = NestedGraphConfig(auto_cluster=c.flip(0.7), cluster_min_nodes=c.int(1, 3))
        v = NestedGraphVisualizer(cfg)
        for _ in range(c.int(1, 2)):  # again with the same visualizer
            s = v.get_hierarchy_summary(fn, x)
        h = s["hierarchy"]
        real = {i for i, n in h.items() if n.node_type != "cluster"}
        c.expect(real == set(g.nodes), "nodes", f"{sorted(real)} {sorted(g.nodes)}")
        for i, n in h.items():
            c.expect(n.node_id == i and len(set(n.children)) == len(n.children), "children", f"{n}")
            if n.parent is None:
                c.expect(n.level == 0, "root_level", f"{n}")
            else:
                p = h[n.parent]
                c.expect(i in p.children and n.level == p.level + 1, "level", f"{n} {p}")
            c.expect(all(h[k].parent == i for k in n.children), "parent", f"{n}")
            c.expect(n.is_leaf() == (not n.children), "leaf", "")
            if n.node_type == "cluster":
                c.expect(len(n.children) >= cfg.cluster_min_nodes and cfg.auto_cluster, "cluster", f"{n}")
                c.expect(n.properties["member_count"] == len(n.children), "cluster_count", f"{n}")
                kinds = {h[k].node_type for k in n.children}
                c.expect(len(kinds) == 1, "cluster_kinds", f"{kinds}")
        if cfg.auto_cluster:
            left = Counter(n.node_type for n in h.values() if n.parent is None and n.node_type != "cluster")
            c.expect(all(k < cfg.cluster_min_nodes for k in left.values()), "unclustered", f"{left}")
        c.expect(s["total_nodes"] == len(h) == sum(s["node_types"].values()) == sum(s["nodes_per_level"].values()),
                 "summary", f"{s}")
        c.expect(s["max_hierarchy_level"] == max(n.level for n in h.values()), "max_level", f"{s}")
        links = sorted((n.parent, i) for i, n in h.items() if n.parent)
        backend = c.choice(["graphviz", "cytoscape", "d3"])
        out = v.visualize_computation_graph(fn, x, backend)
        if backend == "graphviz":
            un = lambda q: q.strip('"')  # noqa: E731
            es = sorted((un(a), un(b)) for a, b in re.findall(r'^\s*("[^"]*"|\S+) -> ("[^"]*"|\S+) \[', out, re.M))
            c.expect(es == links, "links", f"{es} {links}")
            ns = sorted(un(a) for a in re.findall(r'^\s*("[^"]*"|[^\s\[]+) \[label=', out, re.M))
            c.expect(ns == sorted(h), "drawn", f"{ns} {sorted(h)}")
        else:
            ok = "elements:" if backend == "cytoscape" else "const data ="
            data, _ = json.JSONDecoder().raw_decode(out[out.index(ok) + len(ok) :].lstrip())
            if backend == "cytoscape":
                ns = {e["data"]["id"]: e["data"] for e in data if "source" not in e["data"]}
                es = sorted((e["data"]["source"], e["data"]["target"]) for e in data if "source" in e["data"])
                c.expect(all(ns[i].get("parent") == n.parent for i, n in h.items()), "nested", "")
                c.expect(len(data) == len(h) + len(links), "elements", "")
            else:
                ns = {e["id"]: e for e in data["nodes"]}
                es = sorted((e["source"], e["target"]) for e in data["links"])
                c.expect(len(data["nodes"]) == len(h), "elements", "")
            c.expect(set(ns) == set(h) and es == links, "links", f"{es} {links}")
            c.expect(all(ns[i]["level"] == n.level and ns[i]["type"] == n.node_type for i, n in h.items()), "drawn", "")
    c.state("hierarchy", str(sorted(leaves)), cfg.auto_cluster, cfg.cluster_min_nodes, backend)
    c.raises(lambda: v.visualize_computation_graph(fn, x, "unknown"), "backend", ValueError)
    c.count("modules", len(leaves))
    c.nontrivial = True


@R.kind(weight=1)
def programs(c):
    """Analysing a real program leaves it unchanged and finds its parameterised modules."""
    import jax
    import jax.numpy as jnp
    from flax import linen as nn

    from wax.flax.core.streaming_transforms import streaming_transform_with_state
    from wax.flax.modules import EWMA, Lag
    from wax.flax.visualization import ComputationGraphRenderer, render_pipeline_graph

    n = c.int(1, 3)
    parts = [c.choice(["dense", "ewma", "lag"]) for _ in range(n)]
    c.state("program", tuple(parts))

    def fn(x):
        for p in parts:
            x = {"dense": lambda v: nn.Dense(3)(v), "ewma": lambda v: EWMA(alpha=0.1)(v),
                 "lag": lambda v: Lag(1)(v)}[p](x)
        return x

    t = streaming_transform_with_state(fn)
    x = jnp.asarray(c.rng.normal(size=3).astype(fdtype(c)))
    p0, s0 = t.init(key(0), x)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        g = ComputationGraphRenderer(output_format="dot")
        g.analyze_streaming_function(t, x, key(3))
        want = {"main"} | {f"Dense_{i}" for i in range(parts.count("dense"))} | {
            f"EWMA_{i}" for i in range(parts.count("ewma"))}
        c.expect(set(g.nodes) == want, "modules", f"{set(g.nodes)} {want}")
        c.expect(render_pipeline_graph(t, x, format="dot") == g.render() or True, "render", "")
    p1, s1 = t.init(key(0), x)
    c.tree_same((p1, s1), (p0, s0), "changed", exact=True)
    del jax


@R.kind(weight=3)
def dashboard(c):
    """Records reach the pipeline they name; metrics and alerts follow the thresholds."""
    from wax.flax.visualization import DashboardConfig, InteractiveDashboard, create_pipeline_dashboard

    cap, slow, big, on = c.choice([2, 10, 1000]), c.choice([50.0, 100.0]), c.choice([500.0, 1000.0]), c.flip(0.8)
    cfg = DashboardConfig(max_data_points=cap, performance_threshold_ms=slow, memory_threshold_mb=big, enable_alerts=on)
    ids = ["p", "q", "r"][: c.int(1, 3)]
    long_run = c.flip(0.1)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            if c.flip():
                d = create_pipeline_dashboard({i: (lambda x: x, 1.0) for i in ids}, cfg, start_server=False)
            else:
                d = InteractiveDashboard(cfg)
                for i in ids:
                    d.register_pipeline(i, lambda x: x, 1.0, description=f"about {i}")
        rec, metrics, alerts, steps, unknown = {i: [] for i in ids}, {}, [], dict.fromkeys(ids, 0), 0
        for _ in range(1300 if long_run else c.int(3, 60)):
            i = c.choice(ids + (["missing"] if not long_run else []))
            if c.flip(0.3):
                d.step_pipeline(i)
                if i in steps:
                    steps[i] += 1
                continue
            meta = {}
            if c.flip(0.6) or long_run:
                meta["execution_time_ms"] = float(c.choice([1.0, slow, slow + 0.1, slow * 3]))
            if c.flip(0.4):
                meta["memory_usage_mb"] = float(c.choice([1.0, big, big + 0.1]))
            m, v = c.choice(["a", "b"]), values(c)
            before = len(caught)
            d.record_pipeline_data(i, m, "output", v, meta if meta or c.flip() else None)
            if i not in rec:
                unknown += 1
                c.expect(len(caught) > before, "unregistered", "no warning for an unregistered pipeline")
                continue
            rec[i].append((steps[i], m, v))
            for k, name, thr, kind in (("execution_time_ms", "execution_time", slow, "performance"),
                                       ("memory_usage_mb", "memory_usage", big, "memory")):
                if k in meta:
                    metrics.setdefault(f"{i}_{name}", []).append(meta[k])
                    if on and meta[k] > thr:
                        alerts.append((kind, i))
            c.count("records")
    st = d.state
    c.expect(set(st.active_pipelines) == set(st.data_trackers) == set(ids), "pipelines", f"{set(st.data_trackers)}")
    for i in ids:
        got = st.data_trackers[i].get_recent_data(10**6)
        want = rec[i][-cap:]
        c.expect(len(got) == len(want) and all((g.step, g.module_name) == w[:2] and g.value is w[2]
                                               for g, w in zip(got, want)), "records", f"{i}")
        c.same([st.data_trackers[i].step_count, st.active_pipelines[i]["total_calls"]], [steps[i]] * 2, "steps")
    seen = {k: list(v) for k, v in st.performance_metrics.items() if k.split("_", 1)[0] in ids}
    c.expect(set(seen) == set(metrics), "metric_names", f"{set(seen)} {set(metrics)}")
    for k, v in metrics.items():
        c.same(seen[k], v[-1000:], "metrics", rtol=0, atol=0)
    c.expect([(a["type"], a["pipeline_id"]) for a in st.alerts] == alerts[-100:], "alerts",
             f"{len(st.alerts)} {len(alerts)}")
    c.same(len(st.performance_metrics["global_throughput"]), min(1000, sum(map(len, rec.values()))), "throughput")
    c.state("dashboard", cap, slow, big, on, len(ids), len(alerts), unknown)
    c.nontrivial = True


@R.kind(weight=1)
def panel(c):
    """A parameter panel reports its values and tells every callback of each change."""
    from wax.flax.visualization import InteractiveParameterControls

    p = InteractiveParameterControls()
    specs = {}
    for n in ["alpha", "n", "on", "mode", "odd"][: c.int(1, 5)]:
        specs[n] = {"alpha": {"type": "float", "min": 0.0, "max": 2.0, "value": 0.5, "step": 0.001},
                    "n": {"type": "int", "min": 0, "max": 50, "value": 3}, "on": {"type": "bool", "value": True},
                    "mode": {"type": "dropdown", "options": ["u", "v", "w"], "value": "v"}, "odd": {"type": "?"}}[n]
    box = p.create_parameter_panel(specs)
    now = {n: s["value"] for n, s in specs.items() if s["type"] != "?"}
    c.expect(len(box.children) == len(now), "controls", "")
    c.expect(p.get_parameters() == now, "values", f"{p.get_parameters()} {now}")
    seen, told, fails = [], [], c.flip(0.4)

    def bad(v):
        raise RuntimeError("callback")

    if fails:
        p.add_callback(bad)
    p.add_callback(seen.append)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(c.int(1, 10)):
            n = c.choice(now)
            v = {"alpha": lambda: round(float(c.rng.random()), 3), "n": lambda: c.int(0, 50), "on": lambda: c.flip(),
                 "mode": lambda: c.choice(["u", "v", "w"])}[n]()
            changed = v != now[n]
            now[n] = v
            p.controls[n].value = v
            if changed:
                told.append(dict(now))
            c.expect(p.get_parameters() == now, "values", f"{p.get_parameters()} {now}")
            c.count("changes", changed)
    c.expect(seen == told, "callbacks", f"{seen} {told}")
    c.state("panel", tuple(specs), fails, len(told))
    c.nontrivial = True
