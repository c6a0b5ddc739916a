"""C15: bucketizing (spec/Buckets.tla)."""

import math
import uuid

NI, PI, NA = -999, 999, 777
KEYS = ["", "a", "b", "c"]
UNSEEN = "zz"
STRUCTS = ["dense", "sparse", "ragged"]


# ------------------------------------------------------------ in the worker
def num(v, item):
    if v == NI:
        return -math.inf
    if v == PI:
        return math.inf
    if v == NA:
        return math.nan
    r = v * item["factor"] + item["offset"]
    return int(r) if item["dtype"].startswith("int") else float(r)


def instances(entries, item, ids):
    """Pairs of entries as instances; an entry is (value, key, weight)."""
    out = []
    ints = item["dtype"].startswith("int")
    for n in range(0, len(entries), 2):
        e = entries[n:n + 2]
        if item["struct"] != "dense" and ints:
            e = [x for x in e if x[0] != NA]
        out.append(dict(i=ids + n // 2, x=[num(v, item) for v, _, _ in e], k=[k for _, k, _ in e],
                        w=[math.nan if w == NA else w * item["wunit"] for _, _, w in e]))
    return out


def feature_spec(item):
    import tensorflow as tf
    ty = tf.int64 if item["dtype"].startswith("int") else tf.float32
    types = dict(x=ty, k=tf.string, w=tf.float32)
    make = dict(dense=lambda t: tf.io.FixedLenFeature([2], t), sparse=tf.io.VarLenFeature,
                ragged=lambda t: tf.io.RaggedFeature(t, row_splits_dtype=tf.int64))[item["struct"]]
    spec = {c: make(t) for c, t in types.items()}
    spec["i"] = tf.io.FixedLenFeature([], tf.int64)
    return spec


def values_of(t):
    import tensorflow as tf
    if isinstance(t, tf.SparseTensor):
        return t.values
    return t.flat_values if isinstance(t, tf.RaggedTensor) else t


def cast(t, dtype):
    import tensorflow as tf
    if isinstance(t, tf.RaggedTensor):
        return tf.ragged.map_flat_values(tf.cast, t, dtype)
    return tf.cast(t, dtype)


def flat(v):
    """One cell of an instance, as a list."""
    if v is None:
        return []
    return list(v.reshape(-1)) if hasattr(v, "reshape") else list(v)


def run(item, shared):
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    dtype, struct = getattr(tf, item["dtype"]), item["struct"]
    spec = feature_spec(item)
    cfg = pipe.adapter_config(spec)
    train = instances([(r["v"], KEYS[r["k"]], r["w"]) for r in item["rows"]], item, 0)
    grid, keys = item["grid"], KEYS[1:] + [UNSEEN]
    asked = [(g, k, 0) for k in keys for g in grid]
    asked = [e for pair in zip(asked, asked[::-1]) for e in pair]
    if struct == "dense" and item["dtype"].startswith("int"):
        asked = [e for e in asked if e[0] != NA]
    asked += asked[:len(asked) % 2]
    probe = instances(asked, item, 0)
    if struct != "dense":
        probe.append(dict(i=len(probe), x=[], k=[], w=[]))
    given = [num(b, item) for b in item["given"]]
    cases, names = item["cases"], {}

    def fn(inputs):
        x, k, w = cast(inputs["x"], dtype), inputs["k"], inputs["w"]
        out = dict(i=inputs["i"])
        b = [given]
        if item["boundaries"] == "tensor":
            b = tf.constant(b, dtype)
        elif item["boundaries"] == "float":
            b = tf.constant(b, tf.float32)
        out["given"] = tft.apply_buckets(x, b)
        if item["interpolate"]:
            out["inter"] = cast(tft.apply_buckets_with_interpolation(x, b), tf.float32)
        for n, c in enumerate(cases):
            nb = c["nb"]
            kw = dict(weights=values_of(w)) if c["w"] else {}
            out[f"all{n}"] = tft.bucketize(x, nb, **kw)
            q = tft.quantiles(values_of(x), nb, item["epsilon"], **kw)
            out[f"ref{n}"] = tft.apply_buckets(x, q)
            if struct == "dense":
                kw = dict(weights=w[:, 0]) if c["w"] else {}
                out[f"each{n}"] = tft.bucketize(x, nb, elementwise=True, **kw)
                kw = dict(weights=tf.reshape(w, [-1])) if c["w"] else {}
                out[f"key{n}"] = tf.reshape(tft.bucketize_per_key(
                    tf.reshape(x, [-1]), tf.reshape(k, [-1]), nb, **kw), [-1, 2])
            elif nb > 1:
                kw = dict(weights=w) if c["w"] else {}
                out[f"key{n}"] = tft.bucketize_per_key(x, k, nb, **kw)
            if nb == 1:
                out.pop(f"key{n}", None)
        return out

    tag = uuid.uuid4().hex
    problems, steps = [], 0
    with pipe.scratch() as d:
        with pipe.pipeline() as p:
            with tft_beam.Context(temp_dir=d, force_tf_compat_v1=item["v1"]):
                data = pipe.pcoll(p, spec, pipe.split(train, item["cut"]), "data")
                tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
                res, meta = ((pipe.pcoll(p, spec, pipe.split(probe, [len(probe)]), "probe"), cfg), tfn) \
                    | tft_beam.TransformDataset()
                pipe.sink(res, tag, "sink")
                _ = tfn | tft_beam.WriteTransformFn(d + "/out")
        tfo = tft.TFTransformOutput(d + "/out")
        domains = {f.name: (f.int_domain.min, f.int_domain.max) if f.HasField("int_domain") else None
                   for f in tfo.transformed_metadata.schema.feature}
    got = {r["i"]: {k.split("$")[0]: v for k, v in r.items()} for r in pipe.OUT.pop(tag)}
    desc = f"{item['rows']} ({item['dtype']} {struct}, x*{item['factor']}+{item['offset']}, weights*{item['wunit']}, batches {item['cut']})"

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; data {desc}"))

    index = dict(zip(item["gridall"], item["index"]))
    inter = dict(zip(item["gridall"], item["inter"]))
    present = {r["k"] for r in item["rows"]}
    if struct != "dense" and item["dtype"].startswith("int"):
        present = {r["k"] for r in item["rows"] if r["v"] != NA}
    for col, dom in domains.items():
        col = col.split("$")[0]                       # the values of a ragged output
        if col in ("i", "inter"):
            continue
        steps += 1
        want = (0, len(given)) if col == "given" else (0, cases[int(col[-1])]["nb"] - 1)
        if dom is not None and dom != want or dom is None and not col.startswith("each") and col[:3] != "key":
            bad("domain", f"{col}: declared domain {dom}, want {want}")
    names = [c for c in next(iter(got.values())) if c != "i"] if got else []
    for inst in probe:
        r = got.get(inst["i"])
        if r is None:
            bad("rows", f"instance {inst} has no output")
            continue
        ent = asked[2 * inst["i"]:2 * inst["i"] + 2]
        if struct != "dense" and item["dtype"].startswith("int"):
            ent = [e for e in ent if e[0] != NA]
        for col in names:
            out = flat(r[col])
            if len(out) != len(ent):
                bad("structure", f"{col} of {inst} is {out}")
                continue
            for pos, ((g, k, _), y) in enumerate(zip(ent, out)):
                steps += 1
                where = f"{col} of {num(g, item)} key {k!r} position {pos}"
                if col == "given":
                    if y != index[g]:
                        bad("apply", f"{where}: {y}, want {index[g]} for boundaries {given}")
                    continue
                if col == "inter":
                    n, dn = inter[g]
                    if not abs(y - n / dn) <= 1e-5:
                        bad("interpolation", f"{where}: {y}, want {n}/{dn} for boundaries {given}")
                    continue
                c = cases[int(col[-1])]
                nb = c["nb"]
                where += f" with {nb} buckets{' weighted' if c['w'] else ''}"
                if col.startswith("ref"):
                    continue
                if col.startswith("all"):
                    if y != flat(r["ref" + col[3:]])[pos]:
                        bad("agree", f"{where}: {y}, but apply_buckets with quantiles gives "
                            f"{flat(r['ref' + col[3:]])[pos]}")
                    acc = c["acc"][0]
                elif col.startswith("each"):
                    acc = c["acc"][4 + pos]
                else:
                    if k == UNSEEN or KEYS.index(k) not in present:
                        if y != -1:
                            bad("unseen", f"{where}: {y}, want -1")
                        continue
                    acc = c["acc"][KEYS.index(k)]
                if not 0 <= y < nb:
                    bad("range", f"{where}: {y}")
                    continue
                if not all(acc):
                    continue
                if g == NA:
                    lo = hi = nb - 1
                else:
                    lo = sum(max(a) <= g for a in acc)
                    hi = sum(min(a) <= g for a in acc)
                    if col.startswith("key"):
                        # boundaries of all keys are scaled onto one axis in
                        # single precision, so that ties may go either way
                        lo = sum(max(a) < g for a in acc)
                if not lo <= y <= hi:
                    bad(col.rstrip("0123456789"), f"{where}: {y}, want {lo}..{hi}: boundaries may be {acc}")
    return dict(problems=problems[:20], steps=steps, cover={item["dtype"]: 1, struct: 1})


# ------------------------------------------------------------- orchestration
GRID = [NI] + list(range(-4, 10)) + [PI, NA]


def consts(sim, ncases, q):
    if sim:
        data = ("LET N == 2 * RandomElement(1..%d) IN {[i \\in 1..N |-> [k |-> RandomElement(1..3), p |-> 2 - (i %% 2), "
                "v |-> IF RandomElement(1..9) = 1 THEN 777 ELSE RandomElement(-3..RandomElement(-2..8)), "
                "w |-> IF RandomElement(1..12) = 1 THEN 777 ELSE RandomElement(0..3)]]}" % (8 if q else 30))
        given = ("{SortSeq([i \\in 1..RandomElement(1..5) |-> IF RandomElement(1..8) = 1 THEN "
                 "RandomElement({-999, 999}) ELSE RandomElement(-3..8)], <)}")
        nb = "{2, 3, 4, 5, 7}"
    else:
        vals = "{0, 1, 3, 777}" if not q else "{0, 1, 777}"
        data = ("UNION {[1..n -> [k : {1}, p : {1}, v : %s, w : {0, 1, 2}]] : n \\in 0..%d}" % (vals, 3 if q else 5))
        given = "{<<1>>, <<0, 2>>, <<0, 0, 3>>, <<-999, 1, 2, 999>>}" if not q else "{<<0, 0, 3>>, <<-999, 1, 2>>}"
        nb = "{2, 3}" if q else "{1, 2, 3, 4}"
    return dict(Data=data, Given=given, Buckets=nb, Weighted="BOOLEAN",
                Groups="<<0, 1, 2, 3, -1, -2>>" if sim else "<<0>>",
                Grid="<<" + ", ".join(map(str, GRID)) + ">>", Err="100", NCases=str(ncases),
                Sim="TRUE" if sim else "FALSE")


INV = ["Monotone", "InDomain", "Agrees", "InterpolationMonotone", "InterpolationInRange", "Possible", "Balanced"]


def check(ctx):
    q = ctx.quick
    n = 48 if q else 1200
    _, sim = ctx.tlc_many([
        dict(module="Buckets", name="Buckets_all", constants=consts(False, 1, q), invariants=INV, workers=6,
             timeout=3000),
        dict(module="Buckets", name="Buckets_sim", constants=consts(True, 3, q), simulate=n, depth=12,
             invariants=INV[:5] + ["Emit"], timeout=3000)])
    rng, items = ctx.rng, []
    for it in sim:
        it["dtype"] = rng.choice(["float32", "float64", "int64", "int32", "float32"])
        it["struct"] = STRUCTS[len(items) % 3]
        ints = it["dtype"].startswith("int")
        if ints and it["struct"] == "dense" and any(NA in (r["v"], r["w"]) for r in it["rows"]):
            it["struct"] = "sparse"
        it["factor"], it["offset"] = rng.choice([(1, 0), (1, 0), (2, 0), (1000, 7), (1, 1000)] if ints
                                                else [(1, 0), (0.5, 0), (0.25, -3), (1000, 7), (1, 1000), (2 ** -6, 0)])
        # what matters is the share of the weights
        it["wunit"] = rng.choice([1.0, 0.25, 0.125, 3.0])
        it["gridall"] = GRID
        it["grid"] = [g for g in GRID if not (ints and g in (NI, PI))]
        finite = [b for b in it["given"] if b not in (NI, PI)]
        it["interpolate"] = bool(finite)
        it["boundaries"] = rng.choice(["list", "tensor", "float"])
        if ints and len(finite) < len(it["given"]):
            it["boundaries"] = "float"
        elif it["boundaries"] == "list" and it["dtype"] in ("float64", "int64"):
            it["boundaries"] = "tensor"
        m = (len(it["rows"]) + 1) // 2
        k = rng.randint(0, m)
        it["cut"] = [k, m - k]
        it["epsilon"] = 0.01
        it["v1"] = it["struct"] != "ragged" and rng.random() < .4
        items.append(it)
    ctx.sample(*[dict(rows=i["rows"], given=i["given"], case=i["cases"][0]) for i in items[:3]])
    ctx.replay("c15.run", items, timeout=800 if q else 6000, label="data sets")
