"""C21: L-moments, Tukey HH parameters and Gaussian scaling (spec/LMoments.tla)."""

import math
import pickle
import uuid
from fractions import Fraction

from harness import c01

NA = 777
ORD = (1, 2, 3, 4)
# source: targets of the specification
SOURCES = {"f": [1], "d": [1], "i": [1], "fv": [3], "fv.el": [4, 5], "dv.el": [4, 5], "iv": [3], "sf": [0],
           "sf.el": [1, 2], "sd.el": [1, 2], "vf.el": [1, 2], "rag": [0], "f3.el": [4, 5], "s3.el": [1, 2]}
EXACT = ("d", "dv", "sd")
GAUSS = 0.1226017


# ------------------------------------------------------------ in the worker
class Graph(c01.Graph):
    def __init__(self):
        import numpy as np
        import tensorflow as tf
        import tensorflow_transform as tft

        self.np, self.tf = np, tf
        self.g, self.an = tf.Graph(), {}
        with self.g.as_default():
            ph, sph = tf.compat.v1.placeholder, tf.compat.v1.sparse_placeholder
            self.x = dict(
                f=ph(tf.float32, [None]), d=ph(tf.float64, [None]), i=ph(tf.int64, [None]),
                fv=ph(tf.float32, [None, 2]), dv=ph(tf.float64, [None, 2]), iv=ph(tf.int64, [None, 2]),
                f3=ph(tf.float32, [None, 1, 2]), sf=sph(tf.float32, [None, 2]), sd=sph(tf.float64, [None, 2]),
                vf=sph(tf.float32, [None, None]), s3=sph(tf.float32, [None, 2, 1]))
            self.rag = (ph(tf.float32, [None]), ph(tf.int64, [None]))
            xs = dict(self.x, rag=tf.RaggedTensor.from_row_splits(*self.rag))
            for n in SOURCES:
                self.add(n, self.params, xs[n.split(".")[0]], reduce_instance_dims=not n.endswith("el"))
        self.sess = tf.compat.v1.Session(graph=self.g)

    @staticmethod
    def params(x, **kw):
        import tensorflow_transform as tft
        from tensorflow_transform import analyzers
        return analyzers._tukey_parameters(x, **kw)

    def feed(self, rows, f, o):
        np, tf = self.np, self.tf
        val = tf.compat.v1.SparseTensorValue
        y = lambda v: v * f + o
        at = [(k, c) for k, r in enumerate(rows) for c in (0, 1) if r[c] != NA]
        whole = [[y(v) for v in r] for r in rows if NA not in r]
        c1 = [y(r[0]) for r in rows if r[0] != NA]
        flat = [y(rows[k][c]) for k, c in at]
        idx = np.array(at, np.int64).reshape(-1, 2)
        idx3 = np.array([(k, c, 0) for k, c in at], np.int64).reshape(-1, 3)
        n, x = len(rows), self.x
        width = max([c + 1 for _, c in at], default=0)
        d = {x["f"]: np.array(c1, np.float32), x["d"]: np.array(c1, np.float64),
             x["fv"]: np.array(whole, np.float32).reshape(-1, 2), x["dv"]: np.array(whole, np.float64).reshape(-1, 2),
             x["f3"]: np.array(whole, np.float32).reshape(-1, 1, 2),
             x["sf"]: val(idx, np.array(flat, np.float32), [n, 2]),
             x["sd"]: val(idx, np.array(flat, np.float64), [n, 2]),
             x["vf"]: val(idx, np.array(flat, np.float32), [n, width]),
             x["s3"]: val(idx3, np.array(flat, np.float32), [n, 2, 1]),
             self.rag[0]: np.array(flat, np.float32),
             self.rag[1]: np.cumsum([0] + [sum(v != NA for v in r) for r in rows]).astype(np.int64)}
        if all(float(v).is_integer() for v in flat):
            d[x["i"]] = np.array(c1, np.int64)
            d[x["iv"]] = np.array(whole, np.int64).reshape(-1, 2)
        return d


_G = None


def graph():
    global _G
    if _G is None:
        _G = Graph()
    return _G


def moments(parts, f, o):
    """The exact L-moments (None: undefined)."""
    f, o = Fraction(f), Fraction(o)
    lam = [Fraction(parts["n"][r - 1], r * parts["c"][r - 1]) if parts["c"][r - 1] else None for r in ORD]
    return [None if v is None else v * (f if r % 2 == 0 and f > 0 or r % 2 else -f) + (o if r == 1 else 0)
            for r, v in zip(ORD, lam)]


_Q = {}


def quad():
    """Points and weights of the distribution, and Legendre polynomials of its ranks."""
    if not _Q:
        import numpy as np
        u = np.linspace(-60, 60, 48001)
        p = np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in u])
        _Q.update(u=u, P=np.stack([np.ones_like(p), 2 * p - 1, 6 * p * p - 6 * p + 1,
                                   20 * p ** 3 - 30 * p ** 2 + 12 * p - 1]), du=u[1] - u[0], cache={})
    return _Q


def of_params(hl, hr):
    """L-mean, L-scale, L-skewness and L-kurtosis of u exp(h u^2 / 2)."""
    import numpy as np
    q = quad()
    if (hl, hr) not in q["cache"]:
        u = q["u"]
        x = u * np.exp((np.where(u < 0, hl, hr) - 1) * u * u / 2) / math.sqrt(2 * math.pi)
        m = (q["P"] * x).sum(1) * q["du"]
        q["cache"][hl, hr] = (m[0], m[1], m[2] / m[1], m[3] / m[1])
    return q["cache"][hl, hr]


def one_sided(t4):
    """The parameter of the distribution with one long tail and this L-kurtosis."""
    lo, hi = 0.0, 0.99
    for _ in range(25):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if of_params(0.0, m)[3] < t4 else (lo, m)
    return hi


def judge_params(parts, f, o, got, exact, where):
    """Parameters (loc, scale, hl, hr) against exact L-moments."""
    loc, scale, hl, hr = [float(v) for v in got]
    l1, l2, l3, l4 = [None if v is None else float(v) for v in moments(parts, f, o)]
    tol = 1e-6 if exact else 2e-4
    size = max(abs(l1 or 0), abs(l2 or 0), abs(o), 1e-3)
    say = f"{where}: loc {loc}, scale {scale}, hl {hl}, hr {hr} for L-moments {l1}, {l2}, {l3}, {l4}"
    bad = []

    def near(a, b, what, t=tol, s=size):
        if not abs(a - b) <= t * s:
            bad.append(dict(key="parameters", what=f"{what} is {a}, want {b}; {say}"))

    if not (0 <= hl < 1 and 0 <= hr < 1 and scale >= 0):
        return [dict(key="parameters", what=f"out of range; {say}")]
    if l1 is None:
        near(loc, 0, "location without values")
        near(scale, 1, "scale without values")
        near(hl + hr, 0, "tails without values")
        return bad
    if l2 is None:
        near(loc, l1, "location of single values")
        near(scale, 1, "scale of single values")
        near(hl + hr, 0, "tails of single values")
        return bad
    if l2 <= 0:
        if exact or f == int(f):
            near(abs(loc - l1) * (hl == hr == 0), 0, "location of equal values")
        return bad
    t4 = l4 / l2 if l4 is not None else 0
    if abs(t4 - GAUSS) < 1e-4:
        return bad
    if t4 < GAUSS:
        near(hl + hr, 0, "tails")
        near(loc, l1, "location")
        near(scale, l2 * math.sqrt(math.pi), "scale")
        return bad
    if t4 > .8:
        return bad
    t3 = l3 / l2
    m, s, k3, k4 = of_params(round(hl, 6), round(hr, 6))
    near(scale * s, l2, "L-scale of the distribution", max(tol, 1e-3))
    near(loc + scale * m, l1, "L-mean of the distribution", max(tol, 1e-3), size + scale * abs(m))
    near(k4, t4, "L-kurtosis of the distribution", .01, 1)
    if hl != hr and abs(t3) > 1e-3 and (hl > hr) != (t3 < 0):
        near(t3, k3, "L-skewness of the distribution (side)", .005, 1)
    top = of_params(0.0, round(one_sided(t4), 6))[2]
    if abs(t3) < top - .01:
        near(k3, t3, "L-skewness of the distribution", .01, 1)
    elif abs(t3) > top + .01:
        near(min(hl, hr), 0, "short tail", .04, 1)
    return bad


def accumulators(item, shared):
    """Behaviours of the specification on the combiner's accumulators."""
    import numpy as np
    g = graph()
    f, o = item["f"], item["o"]
    problems, steps = [], 0
    feeds = [g.feed(b, f, o) for b in item["batches"]]
    ints = all(g.x["i"] in d for d in feeds)
    for name, targets in SOURCES.items():
        if name[0] == "i" and not ints:
            continue
        c, exact = g.an[name]["combiner"], name.split(".")[0] in EXACT
        tol = 1e-9 if exact else 3e-5

        def compare(acc, parts, where):
            # parts: per target of the specification
            nonlocal steps
            for k, t in enumerate(targets):
                lam = moments(parts[t], f, o)
                for r in ORD:
                    steps += 1
                    n = np.asarray(getattr(acc, f"count_l{r}")).reshape(-1)
                    v = np.asarray(getattr(acc, f"l{r}")).reshape(-1)
                    gn, gv = (float(n[k]), float(v[k])) if k < len(n) else (0.0, 0.0)
                    want = parts[t]["c"][r - 1]
                    if abs(gn - want) > 1e-6 * want:
                        problems.append(dict(key="counts", what=f"{name}: {gn} subsets of size {r}, want {want}; {where}"))
                    elif want and not abs(gv - lam[r - 1]) <= tol * item["size"]:
                        problems.append(dict(key="moments", what=f"{name}: L-moment {r} is {gv}, want "
                                                                 f"{float(lam[r - 1])}; {where}"))

        one = []
        for b, d in enumerate(feeds):
            one.append(g.sess.run(g.an[name]["tensors"], d))
            compare(c.add_input(c.create_accumulator(), one[b]), item["parts"][b],
                    f"batch {item['batches'][b]} * {f} + {o}")
        accs, sums = [c.create_accumulator() for _ in range(shared["workers"])], \
            [[dict(c=[0] * 4, n=[0] * 4) for _ in range(6)] for _ in range(shared["workers"])]

        def plus(a, b):
            return [dict(c=[x + y for x, y in zip(p["c"], q["c"])], n=[x + y for x, y in zip(p["n"], q["n"])])
                    for p, q in zip(a, b)]

        for st in item["ops"]:
            a, b = st["a"] - 1, st["b"] - 1
            if st["op"] == "add":
                accs[a], sums[a] = c.add_input(accs[a], one[b]), plus(sums[a], item["parts"][b])
            else:
                accs[a] = c.merge_accumulators([accs[a], pickle.loads(pickle.dumps(accs[b]))])
                sums[a] = plus(sums[a], sums[b])
                del accs[b], sums[b]
                a -= b < a
            compare(accs[a], sums[a], f"after {st} of {item['ops']} with {item['batches']} * {f} + {o}")
        assert sums[0] == item["final"], (sums[0], item["final"])
        out = [np.asarray(v) for v in c.extract_output(accs[0])]
        if len({v.shape for v in out}) != 1:
            problems.append(dict(key="parameters", what=f"{name}: shapes {[v.shape for v in out]}"))
            continue
        for k, t in enumerate(targets):
            if k < out[0].size:
                steps += 1
                problems += judge_params(item["final"][t], f, o, [v.reshape(-1)[k] for v in out], exact,
                                         f"{name} of {item['batches']} * {f} + {o}, {item['ops']}")
            elif any(item["final"][t]["c"]):
                problems.append(dict(key="parameters", what=f"{name}: shape {out[0].shape}"))
    return dict(problems=problems[:20], steps=steps, cover={f"tail {tails(item)}": 1})


def tails(item):
    l = [None if v is None else float(v) for v in moments(item["final"][0], item["f"], item["o"])]
    if not l[1] or l[3] is None:
        return "none"
    return "short" if l[3] / l[1] < GAUSS else "long"


# ------------------------------------------------------------- pipelines
def pipelines(item, shared):
    """Parameters and scaled values of a whole pipeline with these batches."""
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    f, o, struct = item["f"], item["o"], item["struct"]
    ints = item["dtype"].startswith("int")
    ty = tf.int64 if ints else tf.float32
    y = (lambda v: int(v * f + o)) if ints else (lambda v: v * f + o)
    if struct == "dense":
        spec = dict(x=tf.io.FixedLenFeature([2], ty))
    elif struct == "sparse":
        spec = dict(x=tf.io.SparseFeature("p", "v", ty, 2))
    else:
        spec = dict(x=tf.io.RaggedFeature(ty, row_splits_dtype=tf.int64))
    spec["i"] = tf.io.FixedLenFeature([], tf.int64)

    def row(i, r):
        if struct == "dense":
            return dict(i=i, x=[y(v) for v in r])
        at = [c for c in (0, 1) if r[c] != NA]
        if struct == "sparse":
            return dict(i=i, p=at, v=[y(r[c]) for c in at])
        return dict(i=i, x=[y(r[c]) for c in at])

    keep = (lambda r: NA not in r) if struct == "dense" else (lambda r: True)
    batches = [[row(0, r) for r in b if keep(r)] for b in item["batches"]]
    batches = [b for b in batches if b]
    vals = sorted({v for b in item["batches"] for r in b for v in r if v != NA})
    asked = sorted(set(vals) | {v + d for v in vals[:1] + vals[-1:] for d in (-7, -1, 1, 9)} | {0, 1, 2})
    probe = [(a, asked[(k * 3 + 1) % len(asked)]) for k, a in enumerate(asked)]
    if struct != "dense":
        probe += [(NA, NA), (NA, asked[0]), (asked[-1], NA)]
    dt = getattr(tf, item["dtype"])
    outt = tf.float64 if item["dtype"] == "float64" or item["out64"] else tf.float32

    def cast(t, d):
        return tf.ragged.map_flat_values(tf.cast, t, d) if isinstance(t, tf.RaggedTensor) else tf.cast(t, d)

    def fn(inputs):
        x, out = cast(inputs["x"], dt), dict(i=inputs["i"])
        kw = dict(output_dtype=tf.float64) if item["out64"] else {}
        n = tf.shape(inputs["i"])[0]
        for tag, el in [("a", False)] + ([("e", True)] if struct != "ragged" else []):
            s = tft.scale_to_gaussian(x, elementwise=el, **kw)
            assert s.dtype == outt, s.dtype
            s = cast(s, tf.float32)
            if isinstance(s, tf.SparseTensor):
                s = tf.sparse.to_dense(tf.sparse.reorder(s), default_value=-12345.0)
                s = tf.ensure_shape(tf.concat([s, tf.fill([tf.shape(s)[0], 2], -12345.0)], 1)[:, :2], [None, 2])
            out[tag] = s
            k = dict(kw, reduce_instance_dims=not el)
            hl, hr = tft.tukey_h_params(x, **k)
            for m, t in (("loc", tft.tukey_location(x, **k)), ("scale", tft.tukey_scale(x, **k)), ("hl", hl),
                         ("hr", hr), ("mean", tft.mean(x, **k)), ("var", tft.var(x, **k))):
                t = tf.reshape(tf.cast(t, tf.float32), [1, -1])
                out[f"{tag}_{m}"] = tf.ensure_shape(tf.tile(t, [n, 1]), [None, 2 if el else 1])
        return out

    tag = uuid.uuid4().hex
    problems, steps = [], 0
    with pipe.scratch() as d, pipe.pipeline() as p:
        with tft_beam.Context(temp_dir=d, force_tf_compat_v1=item["v1"]):
            cfg = pipe.adapter_config(spec)
            data = pipe.pcoll(p, spec, batches, "data")
            tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
            res, _ = ((pipe.pcoll(p, spec, [[row(i, r) for i, r in enumerate(probe)]], "probe"), cfg), tfn) \
                | tft_beam.TransformDataset()
            pipe.sink(res, tag, "sink")
    got = {int(r["i"]): r for r in pipe.OUT.pop(tag)}
    desc = f"{struct} {item['dtype']} {item['batches']} * {f} + {o}"

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; {desc}"))

    if sorted(got) != list(range(len(probe))):
        bad("rows", f"rows {sorted(got)}")
        return dict(problems=problems, steps=1)
    where = {"dense": 3, "sparse": 0, "ragged": 0}[struct]
    for how in ("a", "e"):
        if how not in got[0]:
            continue
        cols = []
        for k in range(1 if how == "a" else 2):
            par = {m: float(got[0][f"{how}_{m}"][k]) for m in ("loc", "scale", "hl", "hr", "mean", "var")}
            t = where if how == "a" else where + k + 1
            problems += judge_params(item["final"][t], f, o, [par[m] for m in ("loc", "scale", "hl", "hr")], False,
                                     f"pipeline {how}{k} of {desc}")
            cols.append(par)
        pts = []
        for i, r in enumerate(probe):
            out = got[i][how]
            out = [float(v) for v in (out.reshape(-1) if hasattr(out, "reshape") else out or [])]
            at = [c for c in (0, 1) if r[c] != NA]
            if struct == "sparse":
                if [c for c in (0, 1) if out[c] != -12345.0] != at:
                    bad("structure", f"{how} of {r} is {out}")
                    continue
                out = [out[c] for c in at]
            if len(out) != len(at):
                bad("structure", f"{how} of {r} is {out}")
                continue
            for c, v in zip(at, out):
                steps += 1
                k = 0 if how == "a" else c
                pts.append((k, y(r[c]), v))
        for k, par in enumerate(cols):
            mine = sorted((x, v) for j, x, v in pts if j == k)
            for (x1, y1), (x2, y2) in zip(mine, mine[1:]):
                if x1 == x2 and abs(y1 - y2) > 1e-5 * max(1, abs(y1)) or y2 < y1 - 1e-5 * max(1, abs(y1)):
                    bad("gaussian", f"{how}{k}: {x1} gives {y1} and {x2} gives {y2}")
            parts = item["final"][where if how == "a" else where + k + 1]
            if not (parts["c"][0] and parts["n"][1]):
                continue  # nothing, or nothing that differs
            for x1, y1 in mine:
                if par["hl"] > 0 or par["hr"] > 0:
                    z = (x1 - par["loc"]) / par["scale"]
                    h = par["hl"] if y1 < 0 else par["hr"]
                    back = y1 * math.exp(min(60, .5 * h * y1 * y1))
                    if not abs(back - z) <= 2e-3 * max(1, abs(z)):
                        bad("gaussian", f"{how}{k} of {x1}: {y1}, transformed back {back}, not {z} ({par})")
                else:
                    z = (x1 - par["mean"]) / math.sqrt(par["var"])
                    if not abs(y1 - z) <= 2e-4 * max(1, abs(z)):
                        bad("gaussian", f"{how}{k} of {x1}: {y1}, want the z-score {z}")
    return dict(problems=problems[:20], steps=steps, cover={f"{struct}": 1, f"tail {tails(item)}": 1})


def gaussian_params(item, shared):
    """Parameters of distributions with given parameters."""
    import numpy as np
    from tensorflow_transform import gaussianization
    hl, hr = item["h"]
    t = np.array(of_params(hl, hr)[2:], getattr(np, item["dtype"]))
    got = gaussianization.compute_tukey_hh_params(t.copy())
    back = of_params(round(float(got[0]), 6), round(float(got[1]), 6))[2:]
    if abs(back[0] - t[0]) > .01 or abs(back[1] - t[1]) > .01:
        return dict(problems=[dict(key="fit", what=f"L-skewness and L-kurtosis {t} of hl {hl}, hr {hr} give {got} "
                                                   f"({item['dtype']}), which has {back}")], steps=1)
    return dict(steps=1)


# ----------------------------------------------------------- orchestration
SETS = ("{-3..3, {0}, {-1, 0, 1, 2, 30}, {-40, -1, 0, 1, 2}, {-20, -1, 0, 1, 9}, {0, 1, 60}, {5, 6}, {-9, 0, 1, 2, 3, 40}}")


def consts(sim, q, big=False):
    if not sim:
        v = "{-1, 0, 2, 777}" if q else "{-1, 0, 1, 4, 777}"
        return dict(Given="UNION {[1..n -> %s \\X %s] : n \\in 0..%d}" % (v, v if not q else "{0, 777}", 3),
                    Sets="{{0}}", Sizes="{0}", NB="1" if q else "2", NW="2", Sim="FALSE")
    return dict(Given="{}", Sets=SETS, Sizes="{9, 12, 16}" if big else "{0, 1, 2, 3, 4, 5, 6}", NB="2" if big else "4",
                NW="3", Sim="TRUE")


INV = ["Subsets", "Dispersion", "Bounded", "Equivariant", "Schedule"]


def check(ctx):
    q = ctx.quick
    n = 60 if q else 1200
    _, small, big = ctx.tlc_many([
        dict(module="LMoments", name="LMoments_all", constants=consts(False, q), invariants=INV, workers=4, timeout=3000),
        dict(module="LMoments", name="LMoments_sim", constants=consts(True, q), simulate=n, depth=30,
             invariants=INV + ["Emit"], timeout=3000),
        dict(module="LMoments", name="LMoments_big", constants=consts(True, q, True), simulate=2 * n, depth=30,
             invariants=INV + ["Emit"], timeout=3000)])
    rng = ctx.rng
    items = []
    for it in small + big:
        it["f"], it["o"] = rng.choice([(1, 0), (1, 0), (2, 3), (-1, 0), (.5, -1), (.125, 0), (100, 7)])
        vals = [abs(v * it["f"] + it["o"]) for b in it["batches"] for r in b for v in r if v != NA]
        it["size"] = max(vals + [1e-3])
        items.append(it)
    ctx.sample(*[dict(batches=i["batches"][:2], final=i["final"][0]) for i in items[-3:]])
    ctx.replay("c21.accumulators", items, timeout=600 if q else 6000, shared=dict(workers=3), label="accumulators")
    pipes = []
    for k, it in enumerate(rng.sample(small, n // 6) + rng.sample(big, n // 3)):
        it = dict(it)
        it["struct"] = ["dense", "sparse", "ragged", "dense", "sparse"][k % 5]
        it["dtype"] = rng.choice(["float32", "float32", "float64", "int64", "int32"])
        if it["dtype"].startswith("int"):
            it["f"], it["o"] = rng.choice([(1, 0), (2, 3), (-1, 5)])
        it["out64"], it["v1"] = rng.random() < .3, it["struct"] != "ragged" and rng.random() < .4
        pipes.append(it)
    ctx.replay("c21.pipelines", pipes, timeout=600 if q else 6000, label="pipelines")
    grid = [k / 20 for k in range(20)] + [.03, .97]
    pairs = [(a, b) for a in grid for b in grid if max(a, b) > .05 or a == b]
    ctx.replay("c21.gaussian_params", [dict(h=h, dtype=rng.choice(["float64", "float32"])) for h in
                                       (rng.sample(pairs, 160) if q else pairs)], timeout=600, label="distributions")
