"""C02: nested analyzers (spec/Phases.tla), run as whole pipelines."""

import contextlib
import os
import uuid


def _psum():
    import apache_beam as beam
    import numpy as np

    class SumOf(beam.PTransform):
        def expand(self, pcoll):
            return (pcoll | beam.Map(lambda b: int(np.sum(b[0] * b[1] if len(b) > 1 else b[0])))
                    | beam.CombineGlobally(sum) | beam.Map(np.int64))
    return SumOf()


def row_expr(e, inputs, vals, v1, loops):
    import tensorflow as tf
    import tensorflow_transform as tft
    x, y = inputs["ab"[e["c"] - 1]], inputs["ab"[2 - e["c"]]]
    v = vals[e["j"] - 1] if e["j"] else None
    ten = tf.constant(10, tf.int64)
    mod = lambda t: tf.math.floormod(t, ten)
    o = e["o"]
    if o == "col":
        return x
    if o == "add":
        return mod(x + v)
    if o == "sub":
        return mod(x - v)
    if o == "mul":
        return mod(x * mod(v))
    if o == "only":
        return tf.zeros_like(x) + mod(v)
    if o == "two":
        return mod(x + 3 * v + vals[e["l"] - 1])
    if o == "fn":
        return tf.function(lambda a, b: mod(a + b))(x, v)
    if o == "cond":
        return tf.cond(v > 7, lambda: tf.identity(x), lambda: tf.identity(y))
    if o == "loop":  # the same loop for all that is made from this value
        if ("loop", e["j"]) not in loops:
            loops["loop", e["j"]] = tf.while_loop(lambda n, p, q: n < 2, lambda n, p, q: (n + 1, mod(p + q), p),
                                                  (tf.constant(0), mod(inputs["a"] + v), inputs["b"]))
        return loops["loop", e["j"]][e["c"]]
    if o == "part":  # an operation whose outputs are what is made of either column
        if ("part", e["j"]) not in loops:
            loops["part", e["j"]] = tf.unstack(tf.stack([mod(inputs["a"] + v), mod(inputs["b"] + v)], 1), axis=1)
        return loops["part", e["j"]][e["c"] - 1]
    if o == "const":
        return tf.constant([4] if e["c"] == 1 else [6, 6], tf.int64)
    if o == "table":
        digits = tf.range(10, dtype=tf.int64)
        if not v1:  # an initializer may not use the value of an analyzer in TF2
            table = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(
                list(range(10)), list(range(0, 30, 3)), tf.int64, tf.int64), -1)
            return mod(tf.math.floordiv(table.lookup(mod(x + v)), tf.constant(3, tf.int64)))
        table = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(
            digits, mod(digits + v)), -1)
        return table.lookup(x)
    if o == "index":
        return mod(tft.apply_vocabulary(tf.strings.as_string(x), v, default_value=-1))
    if o == "count":
        keys, counts = v
        if not v1:
            hit = tf.equal(tf.strings.as_string(x)[:, None], keys[None, :])
            return mod(tf.reduce_sum(tf.where(hit, counts[None, :], tf.zeros_like(counts)[None, :]), axis=1))
        table = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(keys, counts), 0)
        return mod(table.lookup(tf.strings.as_string(x)))
    raise ValueError(o)


def fold(k, t, u, n, name, n_rows):
    import tensorflow as tf
    import tensorflow_transform as tft
    if k in ("sum", "min", "max", "size"):
        return getattr(tft, k)(t, name=name)
    if k in ("mom", "cov"):  # n is the number of rows analysed; both are whole numbers but for rounding
        f, sc = tf.cast(t, tf.float64), float(n_rows)
        if k == "cov":
            one = tft.covariance(tf.stack([f, -f], 1), tf.float64, name=name)
            return tf.cast(tf.round(-one[0, 1] * sc * sc), tf.int64)
        mean, var = tft.mean(f, name=name), tft.var(f, name=name and name + "v")
        return tf.cast(tf.round(mean * sc) + 10 * tf.round(var * sc * sc), tf.int64)
    if k == "psum":
        return tft.experimental.ptransform_analyzer([t], _psum(), [tf.int64], [[]], name=name)[0]
    if k == "dot":
        return tft.experimental.ptransform_analyzer([t, u], _psum(), [tf.int64], [[]], name=name)[0]
    if k in ("vocab", "wvoc"):
        weights = None if k == "vocab" else tf.cast(u, tf.float32) + 1
        return tft.vocabulary(tf.strings.as_string(t), weights=weights, vocab_filename=f"vocab_{n}", name=name)
    if k == "cpk":
        return tft.count_per_key(tf.strings.as_string(t), name=name)
    raise ValueError(k)


def program(prog, naming, v1, n_rows):
    import tensorflow as tf
    from harness import pipe

    def fn(inputs):
        vals, out, loops = [], {}, {}
        for n, a in enumerate(prog):
            with tf.compat.v1.name_scope("scope") if naming == 2 else contextlib.nullcontext():
                t = row_expr(a["e"], inputs, vals, v1, loops)
                u = None if a["f"]["o"] == "none" else row_expr(a["f"], inputs, vals, v1, loops)
                v = fold(a["k"], t, u, n, f"z{9 - n}" if naming == 1 else None, n_rows)
            vals.append(v)
            if a["e"]["o"] != "const":
                out[f"row{n}"] = t
            if a["k"] in ("vocab", "wvoc"):
                s = tf.io.read_file(v)
            elif a["k"] == "cpk":
                s = pipe.to_str(tf.strings.join([v[0], tf.strings.as_string(v[1])], "="))
            else:
                s = tf.strings.as_string(v)
            out[f"val{n}"] = pipe.per_row(s, inputs["a"])
        return out
    return fn


def _show(k, v):
    if k in ("vocab", "wvoc"):
        return "".join(f"{t}\n" for t in v)
    if k == "cpk":
        return ",".join(sorted(f"{a}={b}" for a, b in v))
    return str(v)


def run_program(item, shared):
    import tensorflow as tf
    if not item["flow1"]:
        return run_one(item)
    # loops and conditionals as they were before TF2: cycles in the graph
    tf.compat.v1.disable_control_flow_v2()
    try:
        return run_one(item)
    finally:
        tf.compat.v1.enable_control_flow_v2()


def run_one(item):
    import tensorflow as tf
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.beam import analyzer_cache as ac
    from harness import pipe

    # the installed FnApiRunner stops with pending bundles on pipelines with a
    # chain of three or more side inputs; this one does not
    pipe.RUNNER = "BundleBasedDirectRunner"
    ca, cb, ci = item["cols"]
    rows = [{ci: n, ca: a, cb: b} for n, (a, b) in enumerate(item["rows"])]
    spec = {c: tf.io.FixedLenFeature([], tf.int64) for c in item["cols"]}
    cfg = pipe.adapter_config(spec)
    prog, mode = item["prog"], item["mode"]
    run = program(prog, item["naming"], mode == "v1", len(rows))

    def fn(inputs):
        return dict(run(dict(a=inputs[ca], b=inputs[cb])), id=inputs[ci])

    batches = pipe.split(rows, item["sizes"])
    tag = uuid.uuid4().hex
    with pipe.scratch() as tmp, pipe.pipeline() as p:
        with tft_beam.Context(temp_dir=tmp, force_tf_compat_v1=(mode == "v1"),
                              use_deep_copy_optimization=(mode == "deep")):
            data = pipe.pcoll(p, spec, batches, "data")
            if mode == "cache":
                cut = item["cut"]
                ins = {ac.DatasetKey("one"): pipe.pcoll(p, spec, batches[:cut], "one"),
                       ac.DatasetKey("two"): pipe.pcoll(p, spec, batches[cut:], "two")}
                tfn, _ = (ins, {}, cfg) | tft_beam.AnalyzeDatasetWithCache(fn, pipeline=p)
            elif mode == "both":
                (res, _), tfn = (data, cfg) | tft_beam.AnalyzeAndTransformDataset(fn)
                pipe.sink(res, tag, "sink")
            else:
                tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
            if mode != "both":
                res, _ = ((data, cfg), tfn) | tft_beam.TransformDataset()
                pipe.sink(res, tag, "sink")
    got = sorted(pipe.OUT.pop(tag), key=lambda r: int(r["id"]))
    problems, steps = [], 0
    if [int(r["id"]) for r in got] != list(range(len(rows))):
        problems.append(dict(key="rows", what=f"rows {[int(r['id']) for r in got]} instead of {len(rows)}"))
    vals = item["val"]
    for n, a in enumerate(prog):
        steps += 1
        want = _show(a["k"], vals[n])
        seen = {r[f"val{n}"].decode() for r in got}
        if a["k"] == "cpk":
            seen = {",".join(sorted(s.split(","))) for s in seen}
        if seen != {want}:
            problems.append(dict(key="value", what=f"{mode}: analyzer {n} ({a}) is {sorted(seen)}, want {want!r} "
                                 f"in {prog} over {item['rows']}"))
        if a["e"]["o"] != "const":
            steps += 1
            col = [int(r[f"row{n}"]) for r in got]
            if col != item["out"][n]:
                problems.append(dict(key="column", what=f"{mode}: input of analyzer {n} ({a}) is {col}, want "
                                     f"{item['out'][n]} in {prog} over {item['rows']}"))
    return dict(problems=problems, steps=steps, cover={"mode " + mode: 1})


ALL_OPS = ["col", "add", "sub", "mul", "only", "two", "fn", "cond", "const", "table", "index", "count", "loop", "part"]
ALL_KINDS = ["sum", "min", "max", "size", "psum", "vocab", "cpk", "mom", "cov", "dot", "wvoc"]


def check(ctx):
    q = ctx.quick
    inv = ["Confluent", "Progress"]

    def st(xs):
        return "{" + ", ".join(f'"{x}"' for x in xs) + "}"

    small = "{<<<<3, 9>>, <<8, 3>>>>}"
    rnd = ("{[i \\in 1..n |-> <<RandomElement(0..9), RandomElement(0..9)>>] : n \\in 1..6}"
           " \\cup {[i \\in 1..5 |-> <<RandomElement(1..3), RandomElement(2..3)>>]}")
    jobs = [
        dict(module="Phases", name="exhaustive", invariants=inv, workers=4,
             constants=dict(Rows=small, MaxN="3", Sim="FALSE",
                            Kinds=st(["sum", "vocab"] if q else ["sum", "max", "vocab"]),
                            Ops=st(["col", "add", "index"] if q else ["col", "add", "index", "mul"]))),
        dict(module="Phases", name="exhaustive2", invariants=inv, workers=4,
             constants=dict(Rows=small, MaxN="2", Sim="FALSE", Kinds=st(ALL_KINDS), Ops=st(ALL_OPS))),
    ]
    for n, (k, o) in enumerate([(ALL_KINDS, ALL_OPS), (ALL_KINDS, ALL_OPS),
                                (["sum", "min", "max", "size", "vocab"], ["col", "add", "sub", "two", "index", "table"]),
                                (["sum", "max", "psum", "cpk"], ["add", "col", "count", "fn", "cond", "two", "loop"]),
                                (["sum", "max", "min", "size", "mom", "cov"], ["add", "two", "col", "mul", "const", "loop"]),
                                (["sum", "max"], ["loop", "col"]),
                                (["dot", "wvoc", "max", "psum"], ["part", "col", "index", "add", "fn"])]):
        jobs.append(dict(module="Phases", name=f"sim{n}", invariants=inv + ["Emit"],
                         simulate=60 if q else 600, depth=20,
                         constants=dict(Rows=rnd, MaxN=str([3, 5, 6, 5, 8, 5, 5][n]), Sim="TRUE",
                                        Kinds=st(k), Ops=st(o))))
    res = ctx.tlc_many(jobs)
    items = []
    modes = ["plain", "v1", "cache", "both", "plain", "cache", "deep"]

    def tables(v):  # whose initializers use values of analyzers, which only TF1 allows
        return any(e["o"] in ("table", "count") for a in v["prog"] for e in (a["e"], a["f"]))

    def depth(v):
        lv = []
        for a in v["prog"]:
            lv.append(1 + max([lv[k - 1] for e in (a["e"], a["f"]) for k in (e["j"], e["l"]) if k] + [0]))
        return max(lv)

    for kind, vals in enumerate(res[2:]):
        for v in vals:
            for f in ("val", "out", "prog", "rows"):
                if isinstance(v[f], dict):
                    v[f] = [v[f][str(k)] for k in range(1, len(v[f]) + 1)]
        seen, uniq = set(), []
        for v in vals:
            if repr(v["prog"]) not in seen:
                seen.add(repr(v["prog"]))
                uniq.append(v)
        ctx.rng.shuffle(uniq)
        # a spread over the depths of nesting
        uniq.sort(key=depth)
        want = 12 if q else 120
        step = max(1, len(uniq) // want)
        for v in uniq[::step][:want]:
            n = len(v["rows"])
            sizes = []
            while sum(sizes) < n:
                sizes.append(ctx.rng.randint(0 if ctx.rng.random() < .3 else 1, n - sum(sizes)))
            items.append(dict(v, sizes=sizes, mode="v1" if kind == 5 or (tables(v) and len(items) % 3) else modes[len(items) % len(modes)],
                              naming=ctx.rng.randint(0, 2), cut=ctx.rng.randint(0, len(sizes))))
    # a function without analyzers
    items += [dict(rows=[[1, 2], [3, 4]], prog=[], val=[], out=[], sizes=[1, 1], mode=m, naming=0, cut=1)
              for m in ("plain", "cache", "both")]
    for it in items:
        it["flow1"] = it["mode"] == "v1" and ctx.rng.random() < .8
        it["cols"] = ctx.rng.sample(["zz", "B", "m 1", "a"], 3)
    depths = [depth(v) if v["prog"] else 0 for v in items]
    ctx.extra["nesting_depths"] = {str(d): depths.count(d) for d in sorted(set(depths))}
    ctx.sample(*[dict(prog=i["prog"], val=i["val"]) for i in items[:3]])
    ctx.rng.shuffle(items)
    ctx.replay("c02.run_program", items, timeout=700 if q else 6000, label="programs")
