"""C06: cache entry keys (spec/CacheKeys.tla)."""

import functools
import os


def features():
    import tensorflow as tf
    from tfx_bsl.tfxio import tensor_adapter
    from harness import pipe
    spec = {f"m{k}": tf.io.FixedLenFeature([2], tf.float32) for k in (1, 2)}
    spec.update({f"s{k}": tf.io.FixedLenFeature([], tf.string) for k in (1, 2)})
    spec.update({f"w{k}": tf.io.FixedLenFeature([], tf.float32) for k in (1, 2)})
    spec.update({f"l{k}": tf.io.FixedLenFeature([], tf.int64) for k in (1, 2)})
    return tensor_adapter.TensorAdapter(pipe.adapter_config(spec)).OriginalTypeSpecs()


def _table(keys, values, default):
    import tensorflow as tf
    return tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(
        tf.constant(keys), tf.constant(values)), default)


CAPTURES = ("capconst", "capfn", "capcond", "capvar", "captab", "capstr", "capjoin")
HELD = {}


def hold(ops):
    """Creates what the ops capture, outside of the function that is traced."""
    import tensorflow as tf
    HELD.clear()
    for op in ops:
        o, c = op["o"], op["c"]
        if o == "capvar":
            HELD[(o, c)] = tf.Variable(tf.fill([200], float(c)))
        elif o == "captab":
            HELD[(o, c)] = _table(["a", "b"], [1.0, 1.0 + c], -1.0)
        elif o == "capstr":
            HELD[(o, c)] = _table(["a", "b"], ["x", "y" * c], "-")
        elif o == "capjoin":
            HELD[(o, c)] = tf.constant(["p", "q" * c] * 100)
        elif o in CAPTURES:
            HELD[(o, c)] = tf.range(200.0) * c


def apply_op(t, op, inputs):
    import tensorflow as tf
    o, c = op["o"], op["c"]
    f = float(c)
    two = {1: [1, 0], 2: [0, 0]}
    if o in ("lookup", "lookupdefault", "strlookup"):
        keys = ["a", "b"] if c == 1 or o != "lookup" else ["a", "c"]
        if o == "strlookup":
            return _table(["a", "b"], ["x", "y"] if c == 1 else ["x", "z"], "-").lookup(t)
        tab = _table(keys, [1.0, 2.0], -1.0 if o == "lookup" else -4.0 - c)
        return tab.lookup(tf.strings.as_string(t))
    if o == "file":
        path = os.path.abspath(f"table{c}.txt")
        if not os.path.exists(path):
            open(path, "w").write("a\nb\n")
        tab = tf.lookup.StaticHashTable(tf.lookup.TextFileInitializer(
            path, tf.string, tf.lookup.TextFileIndex.WHOLE_LINE,
            tf.int64, tf.lookup.TextFileIndex.LINE_NUMBER), -1)
        return tf.cast(tab.lookup(tf.strings.as_string(t)), tf.float32)
    if o in CAPTURES:
        held = HELD[(o, c)]
        take = lambda: tf.gather(held, 1)
        return {"capconst": lambda: t + take(), "capvar": lambda: t - take(),
                "capfn": lambda: tf.function(lambda v: v * take())(t),
                "capcond": lambda: tf.cond(tf.reduce_sum(inputs["w1"]) > 0.0, lambda: t + take(), lambda: t),
                "captab": lambda: held.lookup(tf.strings.as_string(t)),
                "capstr": lambda: held.lookup(t),
                "capjoin": lambda: tf.strings.join([t, take()])}[o]()
    return {
        "add": lambda: t + f, "sub": lambda: t - f, "rsub": lambda: f - t,
        "mul": lambda: t * f, "div": lambda: t / f, "max": lambda: tf.maximum(t, f),
        "pow": lambda: tf.pow(t, f), "clip": lambda: tf.clip_by_value(t, -f, f),
        "where": lambda: tf.where(t > f, t, tf.zeros_like(t)),
        "log": lambda: tf.math.log(t), "exp": lambda: tf.exp(t), "neg": lambda: -t,
        "abs": lambda: tf.abs(t), "sqrt": lambda: tf.sqrt(t), "square": lambda: tf.square(t),
        "double": lambda: tf.cast(tf.cast(t, tf.float64), tf.float32),
        "round": lambda: tf.cast(tf.cast(t, tf.int64), tf.float32),
        "addsrc": lambda: t + inputs[f"m{c}"], "subsrc": lambda: t - inputs[f"m{c}"],
        "mulsrc": lambda: t * inputs[f"m{c}"],
        "fnlog": lambda: tf.function(lambda v: tf.math.log(v))(t),
        "fnexp": lambda: tf.function(lambda v: tf.exp(v))(t),
        "fnadd": lambda: tf.function(lambda v: v + f)(t),
        "cond": lambda: tf.cond(tf.reduce_sum(inputs["w1"]) > f, lambda: t + 1.0, lambda: t - 1.0),
        "gather": lambda: tf.gather(t, two[c], axis=1),
        "lower": lambda: tf.strings.lower(t), "upper": lambda: tf.strings.upper(t),
        "strip": lambda: tf.strings.strip(t),
        "reverse": lambda: tf.strings.reduce_join(tf.reverse(tf.strings.unicode_split(t, "UTF-8").to_tensor(""), [1]), axis=1),
        "join": lambda: tf.strings.join([t, tf.constant(str(c))]),
        "joinleft": lambda: tf.strings.join([tf.constant(str(c)), t]),
        "regex": lambda: tf.strings.regex_replace(t, "ab"[c - 1], "-"),
        "replaceto": lambda: tf.strings.regex_replace(t, "a", "xy"[c - 1]),
        "substr": lambda: tf.strings.substr(t, 0, c),
    }[o]()


def analyzer(d, inputs):
    import tensorflow as tf
    import tensorflow_transform as tft
    kind, (a, b, w), name = d["kind"], d["par"], d["name"]
    t = inputs[("m" if kind in NUMERIC else "s") + str(d["src"])]
    for op in d["ops"]:
        t = apply_op(t, op, inputs)
    if kind in NUMERIC:
        t = tf.ensure_shape(t, [None, 2])
    kw = {}
    if w:
        kw["weights"] = inputs[f"w{w}"]
    if kind in ("mean", "var", "min", "max", "sum"):
        return getattr(tft, kind)(t, reduce_instance_dims=bool(a), name=name)
    if kind == "size":
        return tft.size(t, name=name)
    if kind == "quantiles":
        if w and a:
            kw["weights"] = tf.stack([kw["weights"]] * 2, 1)
        elif w:
            pass
        return tft.quantiles(t, 3, epsilon=(0.1, 0.01)[b - 1], reduce_instance_dims=bool(a),
                             name=name, **kw)
    if kind == "covariance":
        return tft.covariance(t, tf.float32, name=name)
    if kind == "histogram":
        return tft.histogram(t, boundaries=[0.0, 1.0, float(a)], name=name)[0]
    if kind == "vocab":
        return tft.vocabulary(t, vocab_filename="vf", name=name, **kw)
    if kind == "lvocab":
        return tft.vocabulary(t, labels=inputs[f"l{a}"], vocab_filename="vf", name=name, **kw)
    if kind == "count":
        return tft.count_per_key(t, name=name)[1]
    if kind == "approx":
        return tft.experimental.approximate_vocabulary(t, a, vocab_filename="vf", name=name, **kw)
    raise ValueError(kind)


def other(k, inputs):
    import tensorflow_transform as tft
    if k == 0:
        return tft.mean(inputs["w2"] * 7.0, name="other_mean")
    if k == 1:
        return tft.vocabulary(inputs["s2"], vocab_filename="of", name="other_vocab")
    return tft.max(inputs["l2"] + 1, name="other_max")


NUMERIC = {"mean", "var", "min", "max", "sum", "size", "quantiles", "covariance", "histogram"}


def keys_of(d, others, order):
    import tensorflow as tf
    from tensorflow_transform.beam import analysis_graph_builder as agb, analyzer_cache as ac

    def fn(inputs):
        out = []
        todo = list(range(others))
        for k in todo[:order]:
            out.append(other(k, inputs))
        if d is not None:
            out.append(analyzer(d, inputs))
        for k in todo[order:]:
            out.append(other(k, inputs))
        return {"o%d" % k: tf.fill([tf.shape(inputs["w1"])[0]], tf.strings.reduce_join(
            tf.reshape(tf.strings.as_string(t) if t.dtype != tf.string else t, [-1])))
                for k, t in enumerate(out)}

    def fn2(inputs):
        r = fn(inputs)
        return r or {"o": inputs["w1"]}

    hold(d["ops"] if d else [])
    return {k.hex() for k in agb.get_analysis_cache_entry_keys(
        fn2, features(), [ac.DatasetKey("d"), ac.DatasetKey("e")], False)}


@functools.lru_cache(None)
def other_keys(n):
    return frozenset(keys_of(None, n, 0))


def run_version(item, shared):
    d, n = item["d"], item["others"]
    k = keys_of(d, 0, 0)
    problems, steps = [], 1
    if not k:
        return dict(problems=[], steps=1, value=None)
    if keys_of(d, 0, 0) != k:
        problems.append(dict(key="unstable", what=f"tracing {d} twice gives different keys"))
    if n:
        steps += 1
        for order in (0, n):
            got = keys_of(d, n, order)
            if got != k | other_keys(n):
                problems.append(dict(key="unrelated", what=f"keys of {d} change when unrelated analyzers are "
                                     f"present ({n}, {'after' if order == 0 else 'before'} it)"))
    return dict(problems=problems, steps=steps, value=sorted(k))


def address(item, shared):
    """A cacheable PTransform analyzer, traced twice as two processes would."""
    import functools as ft
    from harness import acache
    make = acache._cacheable_ptransform.__wrapped__
    keep = []

    def trace():
        import tensorflow as tf
        import tensorflow_transform as tft
        from tensorflow_transform.beam import analysis_graph_builder as agb, analyzer_cache as ac
        keep.append(make())

        def fn(inputs):
            (v,) = tft.experimental.ptransform_analyzer(
                [inputs["w1"]], keep[-1], [tf.float32], [[]], name="cpt")
            return {"o": inputs["w1"] + v}
        return agb.get_analysis_cache_entry_keys(fn, features(), [ac.DatasetKey("d")], False)
    if trace() != trace():
        return [dict(key="ptransform-address", what="the cache key of a cacheable PTransform analyzer "
                     "changes from one trace to the next")]


def check(ctx):
    q = ctx.quick
    numeric = "{" + ", ".join(f'"{k}"' for k in sorted(NUMERIC)) + "}"
    stringy = '{"vocab", "lvocab", "count", "approx"}'
    inv = ["Functional", "TypeOk", "Emit"]
    one = dict(Names='{"n1"}', Sim="FALSE", Steps="9")
    sim = dict(Names='{"n1", "n2", "n1_1"}', Sim="TRUE", Steps="10", Chain="3")
    res = ctx.tlc_many([
        dict(module="CacheKeys", name="numeric1", invariants=inv, view="View",
             constants=dict(one, Chain="1", Kinds=numeric)),
        dict(module="CacheKeys", name="string1", invariants=inv, view="View",
             constants=dict(one, Chain="1", Kinds=stringy)),
        dict(module="CacheKeys", name="string2", invariants=inv, view="View",
             constants=dict(one, Chain="2", Kinds='{"vocab"}')),
        dict(module="CacheKeys", name="numeric2", invariants=inv, view="View",
             constants=dict(one, Chain="2", Kinds='{"mean"}')),
        dict(module="CacheKeys", name="edits_numeric", invariants=inv, simulate=30 if q else 300, depth=12,
             constants=dict(sim, Kinds=numeric)),
        dict(module="CacheKeys", name="edits_string", invariants=inv, simulate=15 if q else 150, depth=12,
             constants=dict(sim, Kinds=stringy)),
    ])
    pick = []
    for k, vals in enumerate(res):
        ctx.rng.shuffle(vals)
        pick.append(vals if not q else vals[:[420, 120, 60, 120, 200, 80][k]])
    if q:
        # always the whole chain-1 family of one analyzer
        pick.append([v for v in res[0] if v["d"]["kind"] == "mean" and v["d"]["par"][0] == 1])
        pick.append([v for v in res[1] if v["d"]["kind"] in ("vocab",) and v["d"]["par"][2] == 0])
        pick.append([v for v in res[0] + res[1] if not v["d"]["ops"]])
    items, seen = [], set()
    for vals in pick:
        for v in vals:
            key = (repr(v["d"]), v["others"])
            if key not in seen:
                seen.add(key)
                items.append(v)
    for n, v in enumerate(items):
        if not v["others"] and n % 6 == 0:
            v["others"] = 1 + n % 3
    ctx.sample(*items[:3])
    ctx.rng.shuffle(items)
    out = ctx.replay("c06.run_version", items, timeout=700 if q else 6000, label="versions")
    ctx.replay("c06.address", [0], label="ptransform")
    by_partial, by_key = {}, {}
    for it, r in zip(items, out):
        if not r.get("value"):
            continue
        ks = tuple(r["value"])
        p = by_partial.setdefault(it["partial"], (ks, it))
        if p[0] != ks:
            ctx.problem(dict(key="function", what=f"the same partial result has two keys: {it['d']} and "
                             f"{p[1]['d']}"), it)
        for k in ks:
            q0 = by_key.setdefault(k, it)
            if q0["partial"] != it["partial"]:
                a, b = q0["d"], it["d"]
                key = "shared"
                if a["kind"] == b["kind"] == "approx" and dict(a, par=0) == dict(b, par=0) and \
                        a["par"][1:] == b["par"][1:]:
                    key = "approx-top-k"
                ctx.problem(dict(key=key, what=f"two different partial results share a key: {a} and {b}"), [q0, it])
    ctx.extra["distinct_partials"] = len(by_partial)
    ctx.extra["distinct_keys"] = len(by_key)
    ctx.extra["pairs_compared"] = len(by_key) * (len(by_key) - 1) // 2
