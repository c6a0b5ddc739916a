"""C01: analyzer values do not depend on the schedule.

Behaviours of spec/Combiner.tla are replayed into the combiners the public
analyzers build: batches go through the analyzers' own TensorFlow graph, partial
results through create/add/merge/compact/extract and the cache coder.
A second part runs whole pipelines with the batchings of the behaviours.
"""

import math

from harness import lib

CODES = dict(PInf=100, NInf=-100, NaN=200, Miss=201)

ASSUMPTIONS = [
    "values are small integers times a scale, +-inf, NaN, or the extremes of the"
    " integer type; rounding tolerance 1e-5 relative for moments",
    "quantiles are judged by rank error against the exact multiset",
]


# ------------------------------------------------------------------ worker
class Graph:
    """The analyzers over placeholders, and the way back from a partial result."""

    def __init__(self):
        import numpy as np
        import tensorflow as tf
        import tensorflow_transform as tft
        from tensorflow_transform import analyzer_nodes, analyzers

        self.np, self.tf = np, tf
        self.g = tf.Graph()
        self.an = {}
        with self.g.as_default():
            ph = tf.compat.v1.placeholder
            self.f = ph(tf.float32, [None])
            self.d = ph(tf.float64, [None])
            self.i = ph(tf.int64, [None])
            self.fv = ph(tf.float32, [None, 2])
            self.iv = ph(tf.int64, [None, 2])
            self.w = ph(tf.float32, [None])
            self.rag_v = ph(tf.float32, [None])
            self.rag_s = ph(tf.int64, [None])
            self.sf = tf.compat.v1.sparse_placeholder(tf.float32, [None, 2])
            self.si = tf.compat.v1.sparse_placeholder(tf.int64, [None, 2])
            # rows of a width that differs between batches
            self.vf = tf.compat.v1.sparse_placeholder(tf.float32, [None, None])
            rag = tf.RaggedTensor.from_row_splits(self.rag_v, self.rag_s)
            i32 = tf.cast(self.i, tf.int32)
            srcs = dict(f=self.f, d=self.d, i=self.i, fv=self.fv, iv=self.iv,
                        sf=self.sf, si=self.si, rag=rag, i32=i32)
            numeric = dict(min=tft.min, max=tft.max, sum=tft.sum, size=tft.size,
                           mean=tft.mean, var=tft.var)
            for s, x in srcs.items():
                for n, fn in numeric.items():
                    self.add(f"{s}.{n}", fn, x)
                if s in ("fv", "iv", "sf", "si"):
                    for n, fn in numeric.items():
                        self.add(f"{s}.{n}.el", fn, x, reduce_instance_dims=False)
            for n in ("mean", "var"):
                self.add(f"vf.{n}.el", numeric[n], self.vf, reduce_instance_dims=False)
            self.add("fv.covariance", tft.covariance, self.fv, dtype=tf.float64)
            self.add("fv.pca", tft.pca, self.fv, 2, dtype=tf.float64)
            # products of these don't fit into the type of the values
            for t, big in BIG.items():
                x = tf.cast(self.iv, t) * tf.constant(big, t)
                self.add(f"iv.covariance.{t}", tft.covariance, x, dtype=tf.float64)
                self.add(f"iv.pca.{t}", tft.pca, x, 2, dtype=tf.float64)
            for nb, eps in ((2, 0.01), (4, 0.01), (3, 0.2)):
                self.add(f"f.quantiles.{nb}.{eps}", tft.quantiles, self.f, nb, eps)
            self.add("i.quantiles.4.0.01", tft.quantiles, self.i, 4, 0.01)
            self.add("f.wquantiles.4.0.01", tft.quantiles, self.f, 4, 0.01,
                     weights=self.w)
            self.add("fv.quantiles.4.0.01.el", tft.quantiles, self.fv, 4, 0.01,
                     reduce_instance_dims=False)
        self.sess = tf.compat.v1.Session(graph=self.g)

    def add(self, name, fn, *args, **kw):
        from tensorflow_transform import analyzer_nodes
        coll = analyzer_nodes.TENSOR_REPLACEMENTS
        before = len(self.g.get_collection(coll))
        out = fn(*args, **kw)
        sinks = self.g.get_collection(coll)[before:]
        combiner = tensors = None
        todo, seen = [s.future for s in sinks], set()
        while todo:
            op = todo.pop().parent_operation
            if id(op) in seen:
                continue
            seen.add(id(op))
            od = op.operation_def
            if isinstance(od, analyzer_nodes.TensorSource):
                tensors = od.tensors
            elif hasattr(od, "combiner"):
                assert combiner is None or combiner is od.combiner
                combiner = od.combiner
            todo.extend(op.inputs)
        order = sorted(sinks, key=lambda s: s.future.value_index)
        self.an[name] = dict(out=out, sinks=order, combiner=combiner,
                             tensors=list(tensors))

    def feed(self, rows, scale):
        """Feed dict for a batch of rows (pairs of codes)."""
        np, tf = self.np, self.tf
        big = np.iinfo(np.int64)

        def fl(v):
            return {100: math.inf, -100: -math.inf, 200: math.nan}.get(v, v * scale)

        def it(v):
            # the lowest value of the integer type has no negation
            return {100: big.max, -100: big.min + 1}.get(v, v)

        c1 = [r[0] for r in rows]
        n = len(rows)
        idx = [[k, c] for k in range(n) for c in range(2) if rows[k][c] != 201]
        vals = [rows[k][c] for k, c in idx]
        whole = [r for r in rows if 201 not in r]
        idx = np.array(idx, np.int64).reshape(-1, 2)
        splits = [0]
        for r in rows:
            splits.append(splits[-1] + sum(v != 201 for v in r))
        d = {
            self.f: np.array([fl(v) for v in c1 if v != 201], np.float32),
            self.d: np.array([fl(v) for v in c1 if v != 201], np.float64),
            self.w: np.array([0.25 + 0.25 * abs(v) for v in c1 if v != 201], np.float32),
            self.fv: np.array([[fl(v) for v in r] for r in whole],
                              np.float32).reshape(-1, 2),
            self.sf: tf.compat.v1.SparseTensorValue(
                idx, np.array([fl(v) for v in vals], np.float32), [n, 2]),
            self.vf: tf.compat.v1.SparseTensorValue(
                idx, np.array([fl(v) for v in vals], np.float32),
                [n, int(idx[:, 1].max()) + 1 if len(idx) else 1]),
            self.rag_v: np.array([fl(v) for v in vals], np.float32),
            self.rag_s: np.array(splits, np.int64),
            self.i: np.array([it(v) for v in c1 if v not in (200, 201)], np.int64),
            self.iv: np.array([[it(v) for v in r] for r in whole if 200 not in r],
                              np.int64).reshape(-1, 2),
        }
        ii = [(k, v) for k, v in zip(idx, vals) if v != 200]
        d[self.si] = tf.compat.v1.SparseTensorValue(
            np.array([k for k, _ in ii], np.int64).reshape(-1, 2),
            np.array([it(v) for _, v in ii], np.int64), [n, 2])
        return d

    def batch(self, name, rows, scale):
        return self.sess.run(self.an[name]["tensors"], self.feed(rows, scale))

    def value(self, name, outputs):
        a = self.an[name]
        feed = {}
        for s in a["sinks"]:
            feed[s.tensor] = outputs[s.future.value_index]
        return self.sess.run(a["out"], feed)


_G = None


def graph():
    global _G
    if _G is None:
        _G = Graph()
    return _G


def close(a, b, tol=1e-5):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def col(e, rows, pick):
    """Statistics of the selected values, from the specification's record."""
    return e[pick]


def judge(name, got, e, scale):
    """Compares the value of analyzer `name` with the record `e` of the spec."""
    import numpy as np

    parts = name.split(".")
    src, kind = parts[0], parts[1]
    el = parts[-1] == "el"
    integer = src in ("i", "iv", "si", "i32")
    sc = 1 if integer else scale
    if src in ("f", "d", "i", "i32"):
        stats = [e["c1"]]
    else:
        stats = [e["c1"], e["c2"]]
    if integer and any(s["hasnan"] for s in stats):
        # the integer feature leaves NaN out altogether
        cnts = [s["cnt"] - sum(r[k] == 200 for r in e["data"])
                for k, s in enumerate([e["c1"], e["c2"]][:len(stats)])]
        if src == "iv":
            return []
    else:
        cnts = [s["cnt"] for s in stats]
    if src in ("fv", "iv") and any(201 in r for r in e["data"]):
        return []  # the dense feature leaves out rows with a missing value

    def merged(ss, cc):
        num = [s for s in ss]
        return dict(
            cnt=sum(cc), n=sum(s["n"] for s in num), sum=sum(s["sum"] for s in num),
            sumsq=sum(s["sumsq"] for s in num), min=min(s["min"] for s in num),
            max=max(s["max"] for s in num),
            hasnan=any(s["hasnan"] for s in num), hasinf=any(s["hasinf"] for s in num))

    got = np.asarray(got)
    if src == "vf" and got.shape == (1,) and not stats[1]["cnt"]:
        stats, cnts = stats[:1], cnts[:1]
    if el:
        if got.shape != (len(stats),):
            return [] if not e["data"] else [f"shape {got.shape}"]
        targets = [(merged([s], [c]), got[k]) for k, (s, c) in enumerate(zip(stats, cnts))]
    else:
        if got.shape != ():
            return [f"shape {got.shape}"]
        targets = [(merged(stats, cnts), got)]
    bad = []
    for s, g in targets:
        hasnum = s["n"] > 0 or s["hasinf"]
        if kind in ("min", "max"):
            if not hasnum:
                if integer:
                    info = np.iinfo(np.int32 if src == "i32" else np.int64)
                    want = {"min": (info.max,), "max": (info.min, info.min + 1)}[kind]
                    if not el and g not in want:
                        bad.append(("min-int-no-values" if g == info.min else None,
                                    f"no value: got {g}, want {want}"))
                elif el and src == "sf":
                    # NaN stands for a missing value
                    if e["data"] and not math.isnan(g):
                        bad.append(f"missing column: got {g}")
                elif s["cnt"] == 0 and g != (math.inf if kind == "min" else -math.inf):
                    bad.append(f"empty: got {g}")
                elif s["cnt"] > 0 and not math.isnan(g):
                    bad.append(f"NaN: got {g}")
                continue
            if not integer and s["hasnan"] and not (el and src == "sf"):
                # NaN propagates
                if not math.isnan(g):
                    bad.append(f"NaN: got {g}")
                continue
            v = s[kind]
            if integer:
                info = np.iinfo(np.int64)
                v = {100: info.max, -100: info.min + 1}.get(v, v)
                if src == "i32":
                    if s["hasinf"]:
                        continue
                if int(g) != v:
                    bad.append(f"got {g}, want {v}")
            else:
                v = {100: math.inf, -100: -math.inf}.get(v, v * sc)
                if float(g) != float(np.float32(v)) and float(g) != v:
                    bad.append(f"got {g}, want {v}")
        elif kind == "size":
            if int(g) != s["cnt"]:
                bad.append(f"got {g}, want {s['cnt']}")
        elif kind == "sum":
            if s["hasinf"] or s["hasnan"]:
                if integer and not s["hasinf"]:
                    pass
                else:
                    continue
            if not close(g, s["sum"] * sc):
                bad.append(f"got {g}, want {s['sum'] * sc}")
        elif kind in ("mean", "var"):
            if integer and s["hasinf"]:
                continue
            n = s["n"]
            if n == 0:
                if el and math.isnan(g):
                    continue
                if not close(g, 0):
                    bad.append(f"no finite value: got {g}")
                continue
            m = s["sum"] / n
            want = m * sc if kind == "mean" else (s["sumsq"] / n - m * m) * sc * sc
            if not close(g, want, 1e-4 if kind == "var" else 1e-5):
                bad.append(f"got {g}, want {want}")
    return bad


BIG = dict(int32=70000, int64=3 * 10 ** 9)


def judge_cov(name, got, e, scale):
    import numpy as np

    scale = BIG.get(name.split(".")[-1], scale)
    data = np.array(e["data"], float).reshape(-1, 2) * scale
    got = np.asarray(got)
    if ".covariance" in name:
        if not len(data):
            want = np.zeros((2, 2))
        else:
            c = data - data.mean(0)
            want = c.T @ c / len(data)
        if got.shape != (2, 2) or not np.allclose(got, want, rtol=1e-6, atol=1e-6 * scale * scale):
            return [f"got {got.tolist()}, want {want.tolist()}"]
        return []
    if not len(data):
        return []
    c = data - data.mean(0)
    cov = c.T @ c / len(data)
    tol = 1e-6 * max(1.0, float(np.abs(cov).max()))
    if got.shape != (2, 2):
        return [f"shape {got.shape}"]
    bad = []
    lam = np.sort(np.linalg.eigvalsh(cov))[::-1]
    if not np.allclose(got.T @ got, np.eye(2), atol=1e-6):
        bad.append(f"components not orthonormal: {got.tolist()}")
    for k in range(2):
        if np.abs(cov @ got[:, k] - lam[k] * got[:, k]).max() > tol:
            bad.append(f"component {k} of {got.tolist()} is not an eigenvector "
                       f"for eigenvalue {lam[k]} of {cov.tolist()}")
    return bad


def rank_bad(bounds, values, weights, nb, eps):
    """Boundary k must sit at rank k/nb of the weighted values, within eps."""
    if not len(values):
        return []
    total = float(sum(weights))
    bad = []
    if any(bounds[k] > bounds[k + 1] for k in range(len(bounds) - 1)):
        bad.append(f"boundaries not sorted: {bounds}")
    wmax = max(weights)
    for k, b in enumerate(bounds):
        lo = sum(w for v, w in zip(values, weights) if v < b)
        hi = sum(w for v, w in zip(values, weights) if v <= b)
        q = (k + 1) / nb * total
        slack = eps * total + wmax + 1e-6
        if b not in values:
            bad.append(f"boundary {b} is not one of the values {values}")
        if q < lo - slack or q > hi + slack:
            bad.append(f"boundary {b} has rank [{lo},{hi}], want {q} within {slack}")
    return bad


def judge_quantiles(name, got, e, scale):
    import numpy as np

    parts = name.split(".")
    nb = int(parts[2])
    eps = 0.2 if "0.2" in name else 0.01
    got = np.asarray(got)
    if parts[-1] == "el":
        cols = [0, 1]
        if got.shape != (2, nb - 1):
            return [] if not e["data"] else [f"shape {got.shape}"]
    else:
        cols = [0]
        if got.shape != (1, nb - 1):
            return [] if not e["data"] else [f"shape {got.shape}"]
    bad = []
    for k, c in enumerate(cols):
        codes = [r[c] for r in e["data"]]
        wts = [0.25 + 0.25 * abs(v) if parts[1] == "wquantiles" else 1.0 for v in codes]
        vals = [v * (1 if parts[0] == "i" else scale) for v in codes]
        bad += rank_bad([float(b) for b in got[k]], vals, wts, nb, eps)
    return bad


def supported(name, special):
    """Which analyzers a behaviour with these special codes applies to."""
    if special and (".covariance" in name or ".pca" in name or "quantiles" in name):
        return False
    return True


def run_behaviour(item, shared):
    g = graph()
    log, scale = item["log"], item["scale"]
    special = item["special"]
    problems, steps = [], 0
    names = [n for n in g.an if supported(n, special)]
    if item.get("names"):
        names = [n for n in names if n.split(".")[0] in item["names"]]
    for name in names:
        c = g.an[name]["combiner"]
        quant = "quantiles" in name
        coder = c.accumulator_coder
        accs = {}
        if hasattr(c, "setup"):
            c.setup()
        for k, st in enumerate(log):
            a, i = st["a"], st["i"]
            if a == "new":
                accs[i] = c.create_accumulator()
            elif a == "add":
                accs[i] = c.add_input(accs[i], g.batch(name, st["b"], scale))
            elif a == "merge":
                accs[i] = c.merge_accumulators([accs[j] for j in st["from"]])
                for j in st["from"]:
                    if j != i:
                        del accs[j]
            elif a == "compact":
                accs[i] = c.compact(accs[i])
            elif a == "codec":
                # a decoded partial result always enters a merge
                accs[i] = c.merge_accumulators(
                    [c.create_accumulator(),
                     coder.decode_cache(coder.encode_cache(accs[i]))])
            last = k == len(log) - 1
            if quant and not last:
                continue
            if not last and a in ("new", "compact") and k % 3:
                continue
            got = g.value(name, c.extract_output(accs[i]))
            if quant:
                bad = judge_quantiles(name, got, st["e"], scale)
            elif ".covariance" in name or ".pca" in name:
                bad = judge_cov(name, got, st["e"], scale)
            else:
                bad = judge(name, got, st["e"], scale)
            steps += 1
            if bad:
                key, text = bad[0] if isinstance(bad[0], tuple) else (None, bad[0])
                msg = f"{name} after step {k} ({a}): {text}; rows {st['e']['data']}"
                problems.append(dict(key=key or "combiner-" + name, what=msg))
                if not key:
                    break
    return dict(problems=problems, steps=steps)



def run_weighted(item, shared):
    """The combiner of weighted means (count, mean, variance, weight)."""
    import numpy as np
    from tensorflow_transform import analyzers

    c = analyzers.WeightedMeanAndVarCombiner(
        np.float64, output_shape=(), compute_variance=False, compute_weighted=True)
    coder = c.accumulator_coder
    acc_cls = c.accumulator_class
    accs, steps = {}, 0

    def stats(rows):
        x = np.array([r[0] * item["scale"] for r in rows], float)
        w = np.array([abs(r[1]) + 1 for r in rows], float)
        n = len(rows)
        return n, (x * w).sum() / w.sum() if n else 0.0, w.mean() if n else 0.0

    for k, st in enumerate(item["log"]):
        a, i = st["a"], st["i"]
        if a == "new":
            accs[i] = c.create_accumulator()
        elif a == "add":
            n, m, w = stats(st["b"])
            accs[i] = c.add_input(accs[i], acc_cls(
                count=np.array(n), mean=np.array(m), variance=np.array(0.0),
                weight=np.array(w)))
        elif a == "merge":
            accs[i] = c.merge_accumulators([accs[j] for j in st["from"]])
        elif a == "compact":
            accs[i] = c.compact(accs[i])
        elif a == "codec":
            accs[i] = c.merge_accumulators(
                [c.create_accumulator(), coder.decode_cache(coder.encode_cache(accs[i]))])
        out = c.extract_output(accs[i])
        n, m, w = stats(st["e"]["data"])
        steps += 1
        if int(out.count) != n or not close(out.mean, m) or (n and not close(out.weight, w)):
            return dict(steps=steps, problems=[dict(
                key="combiner-weighted",
                what=f"after step {k} ({a}): got {out}, want {(n, m, w)}; rows {st['e']['data']}")])
    return dict(steps=steps, problems=[])


def run_probe(item, shared):
    """The lowest value of an integer type has no negation (listed finding)."""
    import numpy as np

    g = graph()
    bad = []
    low = np.iinfo(np.int64).min
    for name in ("i.min", "iv.min.el"):
        src = g.i if name[1] == "." else g.iv
        c = g.an[name]["combiner"]
        a = c.create_accumulator()
        for b in (low, 1):
            v = np.full([1] if name[1] == "." else [1, 2], b, np.int64)
            a = c.add_input(a, g.sess.run(g.an[name]["tensors"], {src: v}))
        got = np.asarray(g.value(name, c.extract_output(a))).reshape(-1)
        if any(int(x) != low for x in got):
            bad.append(dict(key="min-int64-lowest",
                            what=f"{name} of {{{low}, 1}} is {got.tolist()}"))
    return bad


# --------------------------------------------------------- pipeline replay
def run_pipeline(item, shared):
    """The batches of a behaviour through a whole Beam pipeline.

    Row (a, b): a is the value, b selects the key.  Expected values come from
    the specification's record `e` for the whole dataset and `g` per key.
    """
    import numpy as np
    import tensorflow as tf
    import tensorflow_transform as tft
    from tensorflow_transform import analyzers

    from harness import pipe

    scale = item["scale"]
    MISS = 201
    spec = {
        "id": tf.io.FixedLenFeature([], tf.int64),
        "f": tf.io.VarLenFeature(tf.float32),
        "i": tf.io.VarLenFeature(tf.int64),
        "v": tf.io.FixedLenFeature([2], tf.float32),
        "k": tf.io.VarLenFeature(tf.string),
        "kd": tf.io.FixedLenFeature([], tf.string),
    }
    k = 0
    batches = []
    for b in item["batches"]:
        rows = []
        for r in b:
            miss = r[0] == MISS
            rows.append(dict(
                id=k, f=None if miss else [r[0] * scale],
                i=None if miss else [r[0]],
                v=[0.0 if miss else r[0] * scale, r[1] * scale],
                k=None if miss else [f"k{r[1]}"], kd=f"k{r[1]}"))
            k += 1
        batches.append(rows)

    def fn(x):
        kc, cnt = tft.count_per_key(x["kd"])
        ks, cs = tft.count_per_key(x["k"])
        hc, hb = tft.histogram(x["f"], boundaries=[-3, 0, 2, 4, 6])
        cc, ce = tft.histogram(x["i"], categorical=True)
        h0, b0 = tft.histogram(x["f"])
        h5, b5 = tft.histogram(x["v"], boundaries=5)
        ik, ic = tft.count_per_key(x["i"])
        # two keys in each row
        mk, mc = tft.count_per_key(tf.concat([x["kd"], tf.strings.join([x["kd"], "x"])], axis=0))
        return dict(
            min=tft.min(x["f"]), max=tft.max(x["f"]), sum=tft.sum(x["f"]),
            isum=tft.sum(x["i"]), imin=tft.min(x["i"]), imax=tft.max(x["i"]),
            size=tft.size(x["f"]), mean=tft.mean(x["f"]), var=tft.var(x["f"]),
            vmean=tft.mean(x["v"], reduce_instance_dims=False),
            vsum=tft.sum(x["v"], reduce_instance_dims=False),
            ck=kc, cv=cnt, sk=ks, sv=cs, hc=hc, cc=cc, ce=ce,
            h0=h0, b0=b0, h5=h5, b5=b5, ik=ik, ic=ic, mk=mk, mc=mc,
            q=tft.quantiles(x["f"].values, 4, 0.01),
        )

    got = pipe.analyze_values(fn, spec, batches,
                              force_tf_compat_v1=item["v1"])
    rows = item["e"]["data"]
    e = item["e"]["c1"]
    bad = []

    def eq(name, want, tol=1e-5):
        g = pipe.nums(got[name])
        want = want if isinstance(want, list) else [want]
        if len(g) != len(want) or not all(close(a, b, tol) for a, b in zip(g, want)):
            bad.append(f"{name}: got {got[name]}, want {want}")

    n = e["n"]
    if n:
        eq("min", e["min"] * scale)
        eq("max", e["max"] * scale)
        eq("imin", e["min"])
        eq("imax", e["max"])
    eq("sum", e["sum"] * scale)
    eq("isum", e["sum"])
    eq("size", n)
    eq("mean", e["mean"][0] / e["mean"][1] * scale)
    eq("var", e["var"][0] / e["var"][1] * scale * scale, 1e-4)
    vs = [sum((0 if r[0] == MISS else r[0]) * scale for r in rows),
          sum(r[1] * scale for r in rows)]
    eq("vsum", vs)
    eq("vmean", [x / len(rows) for x in vs])
    for kk, vv, sel in (("ck", "cv", lambda r: True), ("sk", "sv", lambda r: r[0] != MISS)):
        want = {}
        for r in rows:
            if sel(r):
                want[f"k{r[1]}"] = want.get(f"k{r[1]}", 0) + 1
        keys = got[kk].split(",") if got[kk] else []
        have = dict(zip(keys, [int(c) for c in pipe.nums(got[vv])]))
        if have != want or len(keys) != len(want):
            bad.append(f"{kk}: got {have}, want {want}")
    vals = [r[0] for r in rows if r[0] != MISS]
    edges = [-3, 0, 2, 4, 6]
    f = [v * scale for v in vals]
    # a value below the first (above the last) boundary counts in the end bins
    want = [0] * 4
    for v in f:
        j = sum(1 for b in edges[1:-1] if v >= b - 0.0001)
        want[j] += 1
    if vals:
        eq("hc", want)
    # bins between the reported boundaries; values outside in the end bins
    both = [float(np.float32(c * scale)) for r in rows
            for c in (0 if r[0] == MISS else r[0], r[1])]
    for hname, bname, hvals, nbins in (("h0", "b0", f, 11), ("h5", "b5", both, 5)):
        bnd = pipe.nums(got[bname])
        if not hvals:
            continue
        lo, hi = (0.0, 1.0) if hname == "h0" else (min(hvals), max(hvals))
        grid = [lo + (hi - lo) * j / (nbins - 1) - 0.0001 for j in range(nbins)]
        if len(bnd) != nbins or not all(close(x, y, 1e-4) for x, y in zip(bnd, grid)):
            bad.append(f"{bname}: got {bnd}, want {grid}")
            continue
        want = [0] * (nbins - 1)
        near = 0
        for v in hvals:
            want[sum(1 for x in bnd[1:-1] if v >= x)] += 1
            near += any(abs(v - x) < 2e-5 * max(1.0, abs(v)) for x in bnd)
        if not near:
            eq(hname, want)
    want = {}
    for v in vals:
        want[v] = want.get(v, 0) + 1
    have = dict(zip([int(c) for c in pipe.nums(got["ce"])],
                    [int(c) for c in pipe.nums(got["cc"])]))
    if have != want:
        bad.append(f"categorical histogram: got {have}, want {want}")
    have = dict(zip([int(c) for c in pipe.nums(got["ik"])],
                    [int(c) for c in pipe.nums(got["ic"])]))
    if have != want:
        bad.append(f"integer keys: got {have}, want {want}")
    want = {}
    for r in rows:
        for t in ("", "x"):
            want[f"k{r[1]}{t}"] = want.get(f"k{r[1]}{t}", 0) + 1
    have = dict(zip(got["mk"].split(",") if got["mk"] else [],
                    [int(c) for c in pipe.nums(got["mc"])]))
    if have != want:
        bad.append(f"several keys per row: got {have}, want {want}")
    bad += rank_bad(pipe.nums(got["q"]), f, [1.0] * len(f), 4, 0.01) if f else []
    return dict(steps=len(got), problems=[
        dict(key="pipeline-" + b.split(":")[0], what=f"{b}; batches {item['batches']}")
        for b in bad])

# ------------------------------------------------------------------ driver
ROWS = dict(
    plain="{<<-2, 1>>, <<3, 0>>, <<1, 1>>, <<5, -4>>}",
    balanced="{<<-2, 1>>, <<2, -1>>, <<0, 0>>, <<3, -1>>}",
    special="{<<2, 1>>, <<PInf, NInf>>, <<NInf, 3>>, <<NaN, PInf>>}",
    edge="{<<PInf, PInf>>, <<NInf, NInf>>, <<NaN, NaN>>}",
    sparse="{<<Miss, 2>>, <<-1, Miss>>, <<Miss, Miss>>, <<4, 0>>}",
    narrow="{<<-1, Miss>>, <<3, Miss>>, <<2, Miss>>, <<Miss, 5>>}",
    sparsespecial="{<<Miss, PInf>>, <<NaN, Miss>>, <<-1, 3>>}",
)


def check(ctx):
    q = ctx.quick
    # exhaustive: the incremental summaries agree with the definition
    jobs = [
        dict(module="Combiner", name="exhaustive",
             constants=dict(Rows="{<<-2, 1>>, <<3, 0>>}", MaxBatch="2" if not q else "1",
                            MaxAccs="3", MaxSteps="6", EmptyBatch="FALSE"),
             invariants=["StatsAgree", "Conserved"], view="View", workers=2),
        dict(module="Combiner", name="exhaustive_special",
             constants=dict(Rows=ROWS["special"], MaxBatch="1", MaxAccs="2",
                            MaxSteps="5", EmptyBatch="TRUE"),
             invariants=["StatsAgree", "Conserved"], view="View", workers=2)]
    kinds = ["", ""]
    for kind, rows in ROWS.items():
        for mb, ma, ms, eb in ((2, 4, 9, "FALSE"), (1, 3, 6, "FALSE"), (3, 5, 12, "TRUE")):
            kinds.append(kind)
            jobs.append(dict(
                module="Combiner", name=f"sim_{kind}_{ms}",
                constants=dict(Rows=rows, MaxBatch=str(mb), MaxAccs=str(ma),
                               MaxSteps=str(ms), EmptyBatch=eb),
                invariants=["StatsAgree", "Conserved", "Emit"],
                simulate=(12 if q else 400), depth=ms + 2))
    items = []
    for kind, vals in zip(kinds, ctx.tlc_many(jobs)):
        if kind:
            ctx.rng.shuffle(vals)
            for v in vals[:(14 if q else 400)]:
                items.append(dict(log=v, scale=ctx.rng.choice([1.0, 0.5, 0.125, 1000.0]),
                                  special=kind not in ("plain", "balanced"), kind=kind))
    ctx.sample(*[dict(scale=i["scale"], steps=[
        {k: s[k] for k in s if k != "e"} for s in i["log"]]) for i in items[:2]])
    ctx.rng.shuffle(items)
    ctx.replay("c01.run_behaviour", items, timeout=600 if q else 3000)
    ctx.replay("c01.run_weighted", [i for i in items if i["kind"] == "plain"],
               workers=4)
    ctx.replay("c01.run_probe", [0])
    pipes = []
    for it in items:
        batches = [st["b"] for st in it["log"] if st["a"] == "add" and st["b"]]
        e = it["log"][-1]["e"]
        if it["kind"] not in ("plain", "balanced", "sparse") or not batches:
            continue
        if any(r[1] == 201 for r in e["data"]):
            batches = [[[r[0], 7 if r[1] == 201 else r[1]] for r in b] for b in batches]
            e = dict(e, data=[[r[0], 7 if r[1] == 201 else r[1]] for r in e["data"]])
        # the final merge absorbs every batch, in some order
        pipes.append(dict(batches=batches, e=e, scale=it["scale"],
                          v1=len(pipes) % 4 == 3))
    ctx.replay("c01.run_pipeline", pipes[:16 if q else 200], label="pipeline",
               timeout=600 if q else 3000)
