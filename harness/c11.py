"""C11: rows through a transformation (spec/Rows.tla)."""

import uuid

INV = ["OneToOne", "InOrder", "Bounded", "NothingEmpty", "OnlyAmbiguousFails"]
OUTS = ["num", "text", "var", "rag", "mat", "cube", "flag"]
UNIT = 40        # bytes of text per weight


def feature_spec():
    import tensorflow as tf
    return {"id": tf.io.FixedLenFeature([], tf.int64), "text": tf.io.FixedLenFeature([], tf.string),
            "var": tf.io.VarLenFeature(tf.int64)}


def cells(row):
    """A number of values that depends on the row."""
    return [row["id"] * 10 + k for k in range((row["id"] * 7) % 4)]


def expected(row, copy):
    i = row["id"]
    v = [x + 1000 * copy for x in cells(row)]
    # (the cube of a row holds its values along the diagonal)
    return {"num": [i * 10 + copy], "text": [f"{i}/{copy}/".encode() + b"x" * (row["w"] * UNIT)], "var": v, "rag": v,
            "mat": [i / 2, float(copy), i - .25], "cube": v, "flag": [float(i % 2)]}


def program(explode):
    import tensorflow as tf

    def fn(inputs):
        def spread(t):
            """Copies of every row, and which copy it is."""
            n = tf.shape(t)[0]
            return tf.repeat(t, explode), tf.tile(tf.range(1, explode + 1), [n])
        ident, copy = spread(inputs["id"])
        text, _ = spread(inputs["text"])
        copy64 = tf.cast(copy, tf.int64)
        lens = tf.RaggedTensor.from_sparse(inputs["var"])
        lens = tf.gather(lens, tf.repeat(tf.range(lens.nrows()), explode)) if explode > 1 else lens
        var = lens.with_values(lens.values + 1000 * tf.gather(copy64, lens.value_rowids()))
        sparse = var.to_sparse()
        ix, sz = sparse.indices, sparse.dense_shape
        return {
            "num": ident * 10 + copy64,
            "text": tf.strings.join([tf.strings.as_string(ident), "/", tf.strings.as_string(copy), "/", text]),
            "var": sparse, "rag": var,
            "mat": tf.stack([tf.cast(ident, tf.float32) / 2, tf.cast(copy, tf.float32), tf.cast(ident, tf.float32) - .25], 1),
            "cube": tf.SparseTensor(tf.concat([ix, ix[:, 1:]], 1), sparse.values, tf.concat([sz, sz[1:]], 0)),
            "flag": tf.reshape(tf.cast(tf.math.floormod(ident, 2), tf.float32), [-1, 1]),
        }
    return fn


def flat(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if not isinstance(v, (list, tuple)):
        return [] if v is None else [v]
    return [y for x in v for y in flat(x)]


def compare(bad, what, got, want, names, passed, many):
    """One row, as a dictionary of columns."""
    row, copy, values = want
    real = {k for k in got}
    need = set()
    for n in names:
        cols = {"rag": ["rag"] if "rag" in got else ["rag$ragged_values", "rag$row_lengths_1"][:1 + ("rag$row_lengths_1" in got)],
                "cube": ["cube$sparse_values", "cube$sparse_indices_0", "cube$sparse_indices_1"]}.get(n, [n])
        need |= set(cols)
        missing = [c for c in cols if c not in got]
        if missing:
            bad("columns", f"{what}: no {missing} in {sorted(real)}")
            continue
        w = expected(row, copy)[n]
        if n == "cube":
            diagonal = list(range(len(w)))
            if flat(got[cols[1]]) != diagonal or flat(got[cols[2]]) != diagonal:
                bad("value", f"{what}: {n} at {got[cols[1]]}, {got[cols[2]]}, want {diagonal}")
        if flat(got[cols[0]]) != w:
            bad("value", f"{what}: {n} is {str(got[cols[0]])[:60]}, want {str(w)[:60]}")
    for k in passed:
        need.add(k)
        v = token(k, values[k], many)
        if k not in got or flat(got[k]) != (v or []):
            bad("passthrough", f"{what}: {k} is {got.get(k)}, want {v}")
    if real - need:
        bad("columns", f"{what}: {sorted(real - need)} should not be there")


def token(key, v, many):
    """Cells of the columns passed through, by type; with rows as they are, of any length in one of them."""
    if v == -1:
        return None
    if key == "q" and many:
        return [f"q{v}{k}".encode() for k in range((v + 2) % 3)]
    return [{"p": int(v), "q": f"q{v}".encode(), "r": v / 2}[key]]


def run(item, shared):
    import pyarrow as pa
    import apache_beam as beam
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.beam import impl
    from tfx_bsl.tfxio import tensor_adapter
    from harness import pipe

    problems = []
    desc = (f"excluded {item['excluded']}, passed {item['passed']}, explode {item['explode']}, limit {item['limit']}, "
            f"{item['route']}, v1={item['v1']}, batches {[[dict(id=r['id'], w=r['w'], p=r['pass']) for r in b] for b in item['batches']]}")

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; {desc}"[:3000]))
    spec = feature_spec()
    many = item["explode"] == 1
    types = {"p": pa.large_list(pa.int64()), "q": pa.list_(pa.binary()), "r": pa.large_list(pa.float32())}
    base = pipe.adapter_config(spec)
    fields = list(base.arrow_schema)
    fields = fields[:1] + [pa.field(k, types[k]) for k in item["present"]] + fields[1:]
    cfg = tensor_adapter.TensorAdapterConfig(pa.schema(fields), base.tensor_representations)

    def source(b):
        rb = pipe.record_batch(spec, [dict(id=r["id"], text="x" * (r["w"] * UNIT), var=cells(r)) for r in b])
        cols = {n: c for n, c in zip(rb.schema.names, rb.columns)}
        for k in item["present"]:
            cols[k] = pa.array([token(k, r["pass"][k], many) for r in b], type=types[k])
        return pa.RecordBatch.from_arrays([cols[f.name] for f in fields], schema=pa.schema(fields))

    limit = item["limit"] * (UNIT + 150)
    old = getattr(impl, "_MAX_TRANSFORMED_BATCH_BYTES_SIZE", None)
    if old is not None and item["slice"]:
        impl._MAX_TRANSFORMED_BATCH_BYTES_SIZE = limit
    keep = [k for k in range(1, len(item["batches"]) + 1) if k not in item["failed"]]
    fails = item["failed"][:2]
    rows = item["route"] == "rows"
    byid = {r["id"]: (n, r) for n, b in enumerate(item["batches"], 1) for r in b}
    tag, tag2 = uuid.uuid4().hex, uuid.uuid4().hex
    steps = 0
    try:
        with pipe.scratch() as d:
            asked = set(item["asked"]) if item["asked"] else None
            kw = dict(temp_dir=d, force_tf_compat_v1=item["v1"])
            if item["route"] == "instances":
                kw["desired_batch_size"] = item["size"]
            elif asked is not None:
                kw["passthrough_keys"] = asked
            with pipe.pipeline() as p:
                with tft_beam.Context(**kw):
                    if item["route"] == "instances":
                        every = [dict(id=r["id"], text="x" * (r["w"] * UNIT), var=cells(r)) for b in item["batches"] for r in b]
                        data, meta = p | beam.Create(every, reshuffle=False), pipe.metadata(spec)
                    else:
                        data = p | beam.Create([source(item["batches"][k - 1]) for k in keep], reshuffle=False)
                        meta = cfg
                    fn = program(item["explode"])
                    if item["together"] and not item["excluded"]:
                        (res, _), tfn = (data, meta) | tft_beam.AnalyzeAndTransformDataset(fn, output_record_batches=not rows)
                    else:
                        tfn = (data, meta) | tft_beam.AnalyzeDataset(fn)
                        xs = item["excluded"]
                        res, _ = ((data, meta), tfn) | tft_beam.TransformDataset(
                            exclude_outputs=xs if xs else None, output_record_batches=not rows)
                    pipe.sink(res, tag, "sink")
            out = pipe.OUT.pop(tag, [])
            got = []
            if rows:
                got = [(r, None) for r in out]
            else:
                for rb, unary in out:
                    if old is not None and item["slice"] and rb.nbytes > limit and rb.num_rows > 1:
                        bad("slice", f"a batch of {rb.num_rows} rows and {rb.nbytes} bytes with a limit of {limit}")
                    cols = {n: c.to_pylist() for n, c in zip(rb.schema.names, rb.columns)}
                    if len(cols) != len(rb.schema.names):
                        bad("columns", f"columns {rb.schema.names}")
                    un = {}
                    for k, v in unary.items():
                        if len(v) != 1:
                            bad("passthrough", f"{k} holds {v}")
                        un[k] = v.to_pylist()[0]
                    for r in range(rb.num_rows):
                        got.append(({**{n: c[r] for n, c in cols.items()}, **un}, None))
            # rows by batch
            first = item["shown"][0]
            passed = [] if item["route"] == "instances" else item["passed"]
            groups = {n: [] for n in keep}
            for g, _ in got:
                i, copy = identify(first, g, byid)
                if i not in byid:
                    bad("rows", f"an unknown row {str(g)[:200]}")
                    continue
                groups[byid[i][0]].append((i, copy, g))
            for n in keep:
                want = item["want"][n - 1]
                steps += len(want)
                seen = [(i, c) for i, c, _ in groups[n]]
                if seen != [(w["id"], w["copy"]) for w in want]:
                    bad("rows", f"batch {n}: rows {seen}")
                    continue
                for (_, _, g), w in zip(groups[n], want):
                    compare(bad, f"row {w['id']}", g, (byid[w["id"]][1], w["copy"], w["pass"]), item["shown"], passed, many)
            # batches for which there is no right way to pass something through
            for n in fails:
                if item["route"] == "instances":
                    continue
                steps += 1
                try:
                    with pipe.pipeline() as p:
                        with tft_beam.Context(**kw):
                            data = p | beam.Create([source(item["batches"][n - 1])], reshuffle=False)
                            (res, _), tfn = (data, cfg) | tft_beam.AnalyzeAndTransformDataset(
                                program(item["explode"]), output_record_batches=not rows)
                            pipe.sink(res, tag2, "sink")
                    bad("ambiguous", f"batch {n}: {pipe.OUT.pop(tag2, [])}")
                except Exception as e:  # pylint: disable=broad-except
                    if "pass-through" not in str(e) and "pass" not in str(e).lower():
                        bad("exception", f"batch {n}: {type(e).__name__}: {str(e)[:400]}")
    except Exception as e:  # pylint: disable=broad-except
        bad("exception", f"{type(e).__name__}: {str(e)[:600]}")
    finally:
        if old is not None:
            impl._MAX_TRANSFORMED_BATCH_BYTES_SIZE = old
    return dict(problems=problems[:8], steps=steps)


def identify(first, g, byid):
    """Which row, and which copy of it; by an output that is always there."""
    t = flat(g["num"])[0]
    return t // 10, t % 10


def check(ctx):
    q = ctx.quick
    small = dict(Outs='{"num", "text"}', Keys='{"p"}', PassValues="{-1, 1}", Weights="{0, 1, 3}", Limits="{1, 3}",
                 Explodes="{1, 2}", MaxRows="3" if q else "4", MaxBatches="1", Sim="FALSE")
    two = dict(small, MaxRows="2", MaxBatches="2", Weights="{1, 3}")
    big = dict(Outs="{" + ", ".join(f'"{o}"' for o in OUTS) + "}", Keys='{"p", "q", "r"}', PassValues="{-1, 0, 1, 2}",
               Weights="{0, 1, 2, 5, 60}", Limits="{1, 2, 4, 9, 30, 100}", Explodes="{1, 1, 1, 2, 3}", MaxRows="12",
               MaxBatches="3", Sim="TRUE")
    n = 60 if q else 1600
    _, _, sim, wide = ctx.tlc_many([
        dict(module="Rows", name="Rows_all", constants=small, invariants=INV, workers=4, timeout=3000),
        dict(module="Rows", name="Rows_two", constants=two, invariants=INV, workers=4, timeout=3000),
        dict(module="Rows", name="Rows_sim", constants=big, simulate=n, depth=12, invariants=INV + ["Emit"], timeout=3000),
        dict(module="Rows", name="Rows_wide", constants=dict(big, MaxRows="120", Explodes="{1}", MaxBatches="2"),
             simulate=max(4, n // 12), depth=10, invariants=INV + ["Emit"], timeout=3000)])
    rng = ctx.rng
    items = sim + wide
    for it in items:
        # one output that is always there
        it["excluded"] = [o for o in it["excluded"] if o != "num"]
        it["shown"] = ["num"] + [o for o in OUTS if o != "num" and o not in it["excluded"]]
        it["route"] = rng.choice(["batches", "batches", "rows", "instances"])
        it["size"], it["v1"] = rng.randint(1, 7), rng.random() < .3
        it["together"], it["slice"] = rng.random() < .5, rng.random() < .7
        if it["route"] == "instances":
            # all of the rows, none of what is passed through
            it["failed"] = []
            it["passed"] = []
            it["want"] = [[dict(id=r["id"], copy=c, **{"pass": {}}) for r in b for c in range(1, it["explode"] + 1)]
                          for b in it["batches"]]
    ctx.sample(*[dict(batches=i["batches"][:1], passed=i["passed"], excluded=i["excluded"]) for i in items[:2]])
    ctx.replay("c11.run", items, timeout=700 if q else 8000, label="streams of rows")
