"""C16: scaling (spec/Scaling.tla)."""

import math
import uuid

NA = 777
KEYS = ["", "a", "b b", "c"]
UNSEEN = "zz"
POS = 3


# ------------------------------------------------------------ in the worker
def num(v, item, k=0):
    if v == NA:
        return [math.nan, math.inf, -math.inf][k % 3] if item["infs"] else math.nan
    r = v * item["factor"] + item["offset"]
    return int(r) if item["dtype"].startswith("int") else float(r)


def is_int(item):
    return item["dtype"].startswith("int")


def instance(i, row, cells, item):
    """cells: (value, key) pairs; missing ones are left out where possible."""
    at = [n for n, c in enumerate(cells) if item["keep"] or c[0] != NA]
    d = dict(i=i, r=row, x=[num(cells[n][0], item, i + n) for n in at], k=[cells[n][1] for n in at])
    d.update(xp=at, kp=at)
    return d


def feature_spec(item):
    import tensorflow as tf
    ty = tf.int64 if is_int(item) else tf.float32
    if item["struct"] == "dense":
        spec = dict(x=tf.io.FixedLenFeature(item["shape"], ty), k=tf.io.FixedLenFeature(item["shape"], tf.string))
    elif item["struct"] == "sparse":
        spec = dict(X=tf.io.SparseFeature("xp", "x", ty, POS), K=tf.io.SparseFeature("kp", "k", tf.string, POS))
    else:
        spec = dict(x=tf.io.RaggedFeature(ty, row_splits_dtype=tf.int64),
                    k=tf.io.RaggedFeature(tf.string, row_splits_dtype=tf.int64))
    spec["i"] = tf.io.FixedLenFeature([], tf.int64)
    spec["r"] = tf.io.FixedLenFeature([], tf.string)
    return spec


def cast(t, dtype):
    import tensorflow as tf
    if isinstance(t, tf.RaggedTensor):
        return tf.ragged.map_flat_values(tf.cast, t, dtype)
    return tf.cast(t, dtype)


def program(item):
    import tensorflow as tf
    import tensorflow_transform as tft

    dtype, struct, (lo, hi) = getattr(tf, item["dtype"]), item["struct"], item["range"]

    def fn(inputs):
        x = cast(inputs["X" if struct == "sparse" else "x"], dtype)
        k, r = inputs["K" if struct == "sparse" else "k"], inputs["r"]
        out = dict(i=inputs["i"])

        def emit(name, t):
            t = cast(t, tf.float32)
            if isinstance(t, tf.SparseTensor):
                out[name + "_v"] = t
            elif isinstance(t, tf.RaggedTensor):
                out[name + "_v"] = t
            else:
                out[name + "_v"] = tf.reshape(t, [-1, POS])

        def mm(name, *a, **kw):
            key = ["_per_key"] if len(a) > 1 else []
            if (lo, hi) == (0, 1) and item["alias"]:
                emit(name, getattr(tft, "scale_to_0_1" + "".join(key))(*a, **kw))
            else:
                emit(name, getattr(tft, "scale_by_min_max" + "".join(key))(*a, output_min=lo, output_max=hi, **kw))

        def z(name, *a, **kw):
            if item["out64"]:
                kw["output_dtype"] = tf.float64
            emit(name, (tft.scale_to_z_score_per_key if len(a) > 1 else tft.scale_to_z_score)(*a, **kw))

        for f, tag in ((mm, "mm"), (z, "z")):
            plain = tag == "z" or not (item["keep"] and item["hasna"])
            if plain:
                f(tag + "_all", x)
                f(tag + "_row", x, r)
                if struct == "dense":
                    f(tag + "_cell", tf.reshape(x, [-1]), tf.reshape(k, [-1]))
                else:
                    f(tag + "_cell", x, k)
                f(tag + "_rowfile", x, r, key_vocabulary_filename=tag + "_rowfile")
                if struct == "dense":
                    f(tag + "_cellfile", tf.reshape(x, [-1]), tf.reshape(k, [-1]), key_vocabulary_filename="")
                else:
                    f(tag + "_cellfile", x, k, key_vocabulary_filename="")
            if struct == "dense" and plain or struct == "sparse" and (plain or not item["infs"]):
                f(tag + "_pos", x, elementwise=True)
            if struct == "dense" and plain:
                f(tag + "_rowpos", x, r, elementwise=True)
        return out
    return fn


def want(op, how, item, row, pos, key, g):
    """Expected value of one cell, or None."""
    n = item["names"].index
    group = None
    if how == "all":
        group = n("all")
    elif how.startswith("rowpos"):
        group = None if row == UNSEEN else n(f"row{KEYS.index(row)}pos{pos + 1}")
    elif how.startswith("row"):
        group = None if row == UNSEEN else n(f"row{KEYS.index(row)}")
    elif how.startswith("cell"):
        group = None if key == UNSEEN else n(f"cell{KEYS.index(key)}")
    elif how == "pos":
        group = n(f"pos{pos + 1}")
    v = num(g, item)
    lo, hi = item["range"]
    s = item["groups"][group] if group is not None else None
    if how.endswith("pos") and op == "z" and s and not s["n"]:
        return None  # NaN or 0, depending on whether there is anything elsewhere
    at = item["gridall"].index(g)
    if op == "mm":
        if s is not None and s["n"] and s["mm"][at][1]:
            a, b = s["mm"][at]
            return a / b
        return lo + (hi - lo) / (1 + math.exp(-v)) if v > -500 else lo
    if s is None or not s["n"]:
        return v
    a, rad, c = s["z"][at]
    return a / math.sqrt(rad) if rad else a / c * item["factor"]


def cells_of(r, name, item):
    """position -> value of one output."""
    v = r[name + "_v"]
    if item["struct"] == "sparse":
        # a sparse output that is not left-aligned comes out as indices and values
        raise AssertionError
    return list(v.reshape(-1)) if hasattr(v, "reshape") else list(v)


def run(item, shared):
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    spec = feature_spec(item)
    cfg = pipe.adapter_config(spec)
    struct = item["struct"]
    train = [instance(i, KEYS[d["k"]], [(c["v"], KEYS[c["k"]]) for c in d["c"]], item)
             for i, d in enumerate(item["data"])]
    grid, keys = item["grid"], KEYS[1:] + [UNSEEN]
    asked, n = [], 0
    for a in range(len(grid)):
        for row in keys:
            cells = [(grid[(a * (p + 1) + p * 3) % len(grid)], keys[(n + p * (a + 1)) % 4]) for p in range(POS)]
            asked.append((row, cells))
            n += 1
    if struct != "dense":
        asked += [("a", []), (UNSEEN, [(NA, "a"), (grid[1], "c")])]
    if is_int(item) and struct == "dense":
        asked = [(r, c) for r, c in asked if all(g != NA for g, _ in c)]
    probe = [instance(i, r, c, dict(item, infs=False, keep=struct == "dense")) for i, (r, c) in enumerate(asked)]

    base = program(item)

    def fn(inputs):
        out = base(inputs)
        if struct != "sparse":
            return out
        # rows of "position:value", as sparse outputs are kept in place
        res = {}
        for name, t in out.items():
            if isinstance(t, tf.SparseTensor):
                d = tf.sparse.to_dense(tf.sparse.reorder(t), default_value=-12345.0)
                d = tf.concat([d, tf.fill([tf.shape(d)[0], POS], -12345.0)], axis=1)[:, :POS]
                res[name] = tf.ensure_shape(d, [None, POS])
            else:
                res[name] = t
        return res

    tag = uuid.uuid4().hex
    problems, steps = [], 0
    with pipe.scratch() as d, pipe.pipeline() as p:
        with tft_beam.Context(temp_dir=d, force_tf_compat_v1=item["v1"]):
            data = pipe.pcoll(p, spec, pipe.split(train, item["cut"]), "data")
            tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
            m = len(probe) // 2
            res, _ = ((pipe.pcoll(p, spec, [probe[:m], probe[m:m + 1], probe[m + 1:]], "probe"), cfg), tfn) \
                | tft_beam.TransformDataset()
            pipe.sink(res, tag, "sink")
    got = {int(r["i"]): r for r in pipe.OUT.pop(tag)}
    desc = (f"{item['data']} ({item['dtype']} {struct}{item['shape'] if struct == 'dense' else ''}, range "
            f"{item['range']}, x*{item['factor']}+{item['offset']}, batches {item['cut']})")

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; data {desc}"))

    for inst, (row, cells) in zip(probe, asked):
        r = got.get(inst["i"])
        if r is None:
            bad("rows", f"instance {inst} has no output")
            continue
        for name in [c[:-2] for c in r if c.endswith("_v")]:
            out = r[name + "_v"]
            out = list(out.reshape(-1)) if hasattr(out, "reshape") else list(out or [])
            if struct == "sparse":
                at = [n for n, y in enumerate(out) if y != -12345.0]
                out = [y for y in out if y != -12345.0]
                if at != inst["xp"]:
                    bad("structure", f"{name} of {inst} has positions {at}")
                    continue
            if len(out) != len(inst["x"]):
                bad("structure", f"{name} of {inst} is {out}")
                continue
            op, how = name.split("_")
            for pos, y in zip(inst["xp"], out):
                steps += 1
                g, key = cells[pos]
                if g == NA:
                    if not math.isnan(y):
                        bad("nan", f"{name} of NaN at {pos} (key {key!r}, row {row!r}): {y}")
                    continue
                e = want(op, how, item, row, pos, key, g)
                if e is not None and not abs(y - e) <= 2e-4 * max(1, abs(e)):
                    bad(name, f"{name} of {num(g, item)} at position {pos} (key {key!r}, row {row!r}): {y}, want {e}")
    return dict(problems=problems[:20], steps=steps, cover={item["dtype"]: 1, struct: 1})


# ------------------------------------------------------------- orchestration
GRID = list(range(-5, 10)) + [40, NA]
GROUPS = ([("all", 0, 0, 0)] + [(f"row{k}", k, 0, 0) for k in (1, 2, 3)] + [(f"cell{k}", 0, k, 0) for k in (1, 2, 3)]
          + [(f"pos{p}", 0, 0, p) for p in (1, 2, 3)]
          + [(f"row{k}pos{p}", k, 0, p) for k in (1, 2, 3) for p in (1, 2, 3)])


def consts(sim, q):
    groups = GROUPS if sim else [GROUPS[0], GROUPS[1], GROUPS[8]]
    if sim:
        data = ("{[i \\in 1..RandomElement(0..%d) |-> [k |-> RandomElement(1..RandomElement(1..3)), c |-> [j \\in 1..3 |-> "
                "[v |-> IF RandomElement(1..NAs) = 1 THEN 777 ELSE RandomElement(-3..Top), k |-> RandomElement(1..3)]]]]}"
                % (5 if q else 12)).replace("NAs", "RandomElement({6, 100})").replace("Top", "RandomElement({-3, 1, 7})")
    else:
        cell = "[v : {0, 1, 3, 777}, k : {1}]" if q else "[v : {-2, 0, 1, 3, 777}, k : {1}]"
        data = "UNION {[1..n -> [k : {1, 2}, c : [1..2 -> %s]]] : n \\in 0..%d}" % (cell, 2)
    return dict(Data=data, Groups="<<" + ", ".join(
        f"[row |-> {r}, cell |-> {c}, pos |-> {p}]" for _, r, c, p in groups) + ">>",
        Grid="<<" + ", ".join(map(str, GRID)) + ">>", Ranges="{<<0, 1>>, <<-1, 1>>, <<2, 7>>, <<-5, -3>>}" if sim else
        "{<<0, 1>>, <<-5, 3>>}", NW="2" if not sim else "3", Sim="TRUE" if sim else "FALSE")


INV = ["Correct", "InRange", "Ends", "Monotone", "Standard"]


def check(ctx):
    q = ctx.quick
    n = 40 if q else 1000
    _, sim = ctx.tlc_many([
        dict(module="Scaling", name="Scaling_all", constants=consts(False, q), invariants=INV, workers=6, timeout=3000),
        dict(module="Scaling", name="Scaling_sim", constants=consts(True, q), simulate=n, depth=30,
             invariants=INV + ["Emit"], timeout=3000)])
    rng, items = ctx.rng, []
    for it in sim:
        it["names"] = [g[0] for g in GROUPS]
        it["dtype"] = rng.choice(["float32", "float64", "int64", "int32", "float32"])
        it["struct"] = ["dense", "sparse", "dense", "ragged"][len(items) % 4]
        ints = it["dtype"].startswith("int")
        it["hasna"] = any(c["v"] == NA for d in it["data"] for c in d["c"])
        if ints and it["struct"] == "dense" and it["hasna"]:
            it["struct"] = "sparse"
        it["shape"] = rng.choice([[3], [3], [1, 3], [3, 1]])
        it["keep"] = it["struct"] == "dense" or (not ints and it["struct"] == "sparse" and rng.random() < .5)
        it["infs"] = it["keep"] and rng.random() < .5
        it["factor"], it["offset"] = rng.choice([(1, 0), (2, 0), (8, 3)] if ints else [(1, 0), (0.5, 0), (8, 3), (0.25, -1)])
        it["gridall"] = GRID
        it["grid"] = GRID
        m = len(it["data"])
        k = rng.randint(0, m)
        it["cut"] = [k, m - k]
        if it["struct"] == "dense":
            it["cut"] = [k for k in it["cut"] if k]
        it["alias"] = rng.random() < .7
        it["out64"] = rng.random() < .3
        it["v1"] = it["struct"] != "ragged" and rng.random() < .4
        items.append(it)
    ctx.sample(*[dict(data=i["data"], range=i["range"]) for i in items[:3]])
    ctx.replay("c16.run", items, timeout=800 if q else 6000, label="data sets")
