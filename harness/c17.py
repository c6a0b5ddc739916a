"""C17: schemas, feature specifications and serialised outputs (spec/Schemas.tla)."""

import os
import uuid

LOW, HIGH = 2, 4       # boundaries of bucketised outputs


# ------------------------------------------------------------ in the worker
def val(v, ty):
    return {"int": v, "float": v + .25, "text": f"t{v}\u00e9"}[ty] if isinstance(v, int) else [val(x, ty) for x in v]


def raw(v, ty):
    """As it comes out of TF."""
    if isinstance(v, list):
        return [raw(x, ty) for x in v]
    return v.encode() if isinstance(v, str) else v


def dtype(ty):
    import tensorflow as tf
    return dict(int=tf.int64, float=tf.float32, text=tf.string)[ty]


def spec_of(f, style=0):
    import tensorflow as tf
    R = tf.io.RaggedFeature
    ty = dtype(f["ty"])
    if f["kind"] == "fixed":
        return tf.io.FixedLenFeature(tf.TensorShape(f["dims"]) if style == 1 else f["dims"], ty)
    if f["kind"] == "var":
        return tf.io.VarLenFeature(ty)
    if f["kind"] == "sparse":
        if len(f["dims"]) == 1 and style == 1 and f["dims"][0] > 0:
            return tf.io.SparseFeature(f["cols"][0], f["cols"][1], ty, f["dims"][0], f["sorted"])
        size = f["dims"] if style != 2 else tf.TensorShape([None if d == -1 else d for d in f["dims"]])
        return tf.io.SparseFeature(f["cols"][:-1], f["cols"][-1], ty, size, f["sorted"])
    keys = iter(f["cols"])
    parts = [R.UniformRowLength(p) if p else R.RowLengths(next(keys)) for p in f["parts"]]
    return R(ty, next(keys), parts, row_splits_dtype=tf.int32 if f.get("int32") else tf.int64)


def domain(f, column=None):
    from tensorflow_metadata.proto.v0 import schema_pb2
    k, n = f["dom"]
    if k == 1:
        return schema_pb2.IntDomain(min=-n, max=n * 10 ** 10, is_categorical=bool(n % 2))
    if k == 2:
        return schema_pb2.StringDomain(name=f"dom_{f['name']}", value=[f"v\u00e9 {i}\n\"" for i in range(n)])
    if k == 3:
        return schema_pb2.FloatDomain(min=-n - .5, max=n / 4)
    return None


def canon(spec):
    """A feature specification as plain data, up to equivalent ways to write it."""
    import tensorflow as tf
    out = {}
    for name, f in spec.items():
        if isinstance(f, tf.io.SparseFeature):
            size = f.size if isinstance(f.size, (list, tuple, tf.TensorShape)) else [f.size]
            out[name] = ("sparse", [f.index_key] if isinstance(f.index_key, str) else list(f.index_key), f.value_key, f.dtype,
                         [-1 if d is None else int(d) for d in size], bool(f.already_sorted))
        elif isinstance(f, tf.io.RaggedFeature):
            out[name] = ("ragged", f.value_key or name, [(type(p).__name__, tuple(p)) for p in f.partitions], f.dtype,
                         f.row_splits_dtype)
        elif isinstance(f, tf.io.FixedLenFeature):
            out[name] = ("fixed", [None if d is None else int(d) for d in f.shape], f.dtype, f.default_value)
        else:
            out[name] = ("var", f.dtype)
    return out


def rows_of(parsed, spec, n):
    """Rows of parsed tensors, as the specification writes them."""
    import tensorflow as tf
    out = {}
    for name, t in parsed.items():
        if isinstance(t, tf.RaggedTensor):
            out[name] = t.to_list()
        elif isinstance(t, tf.SparseTensor):
            out[name] = [[] for _ in range(n)]
            for ix, v in zip(t.indices.numpy().tolist(), t.values.numpy().tolist()):
                out[name][ix[0]].append(ix[1:] + [v] if isinstance(spec[name], tf.io.SparseFeature) else v)
        else:
            out[name] = [tf.reshape(r, [-1]).numpy().tolist() for r in t]
    return out


def wanted(f, v):
    """One row of data in the form of rows_of."""
    if f["kind"] == "sparse":
        return [e[:-1] + [raw(val(e[-1], f["ty"]), 0)] for e in v]
    return raw(val(v, f["ty"]), 0)


def columns(f, cols):
    """Columns of one row, as they are in an instance."""
    out = {}
    for n, c in zip(f["cols"], cols):
        v = val(c, f["ty"]) if n == f["cols"][-1] else c
        if f["kind"] == "fixed":
            import numpy as np
            v = np.array(v, dtype=object).reshape(f["dims"]).tolist()
        out[n] = v
    return out


def schema_item(item, shared):
    import tensorflow as tf
    from google.protobuf import text_format
    from tensorflow_metadata.proto.v0 import schema_pb2
    from tensorflow_transform import coders
    from tensorflow_transform.tf_metadata import dataset_metadata, metadata_io, schema_utils
    from harness import pipe

    feats = item["spec"]
    problems, steps = [], 0

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; features {feats}"))

    def specs(fs, style=0):
        return {f["name"]: spec_of(f, style) for f in fs}, {f["name"]: domain(f) for f in fs if f["dom"][0]}

    def compare(schema, fs, label):
        try:
            got, dom = schema_utils.schema_as_feature_spec(schema)
        except Exception as e:  # pylint: disable=broad-except
            bad("round-trip", f"{label}: {type(e).__name__}: {e}")
            return
        want, wdom = specs(fs)
        if canon(got) != canon(want):
            narrow = [f["name"] for f in fs if f.get("int32")]
            a, b = canon(got), canon(want)
            only = [n for n in b if a.get(n) != b[n]]
            if set(a) == set(b) and set(only) <= set(narrow) and all(a[n][:4] == b[n][:4] for n in only):
                bad("row-splits-dtype", f"{label}: 32 bit row splits come back as 64 bit")
            else:
                bad("round-trip", f"{label}: {got}")
        if {k: v.SerializeToString() for k, v in dom.items()} != {k: v.SerializeToString() for k, v in wdom.items()}:
            bad("domains", f"{label}: {dom}, want {wdom}")

    def make(fs):
        return schema_utils.schema_from_feature_spec(*specs(fs, item["style"]))

    schema = make(feats)
    steps += 1
    compare(schema, feats, "converted back")
    compare(schema_pb2.Schema.FromString(schema.SerializeToString()), feats, "serialised")
    # columns of the schema
    by_name = {f.name: f for f in schema.feature}
    types = dict(int=schema_pb2.INT, float=schema_pb2.FLOAT, text=schema_pb2.BYTES)
    if len(by_name) != len(schema.feature) or set(by_name) != {c["name"] for c in item["schema"]["columns"]}:
        bad("columns", f"schema has columns {sorted(f.name for f in schema.feature)}")
    else:
        for c in item["schema"]["columns"]:
            f = by_name[c["name"]]
            shape = [-2] if not f.HasField("shape") else [d.size for d in f.shape.dim]
            if f.type != types[c["ty"]] or shape != c["shape"]:
                bad("columns", f"column {c} is {f}")
            owner = [x for x in feats if c["name"] in x["cols"]][0]
            if owner["kind"] == "sparse" and c["name"] != owner["cols"][-1]:
                d = c["dom"]
                if f.HasField("int_domain") != bool(d[0]) or d[0] and (f.int_domain.min, f.int_domain.max) != (0, d[1] - 1):
                    bad("columns", f"index column {c} is {f}")
    # domains that are kept at the level of the schema
    moved = schema_pb2.Schema()
    moved.CopyFrom(schema)
    for f in moved.feature:
        if f.HasField("string_domain"):
            moved.string_domain.add().CopyFrom(f.string_domain)
            f.domain = f.string_domain.name
    compare(moved, feats, "with shared string domains")
    # a store of schemas
    with pipe.scratch() as d:
        for e in item["log"]:
            p = os.path.join(d, "p" + str(e["path"]), "deep") if e["path"] > 1 else os.path.join(d, "p1")
            steps += 1
            if e["op"] == "write":
                metadata_io.write_metadata(
                    dataset_metadata.DatasetMetadata.from_feature_spec(*specs(feats[e["from"] - 1:], item["style"])), p)
                continue
            try:
                got = metadata_io.read_metadata(p)
            except OSError:
                if e["from"]:
                    bad("store", f"nothing read, want what was written: {item['log']}")
                continue
            if not e["from"]:
                bad("store", f"read {got} where nothing was written")
                continue
            kept = make(feats[e["from"] - 1:])
            if got.schema != kept or text_format.MessageToString(got.schema) != text_format.MessageToString(kept):
                bad("store", f"read {got.schema}, want {kept}; {item['log']}")
            compare(got.schema, feats[e["from"] - 1:], "read")
    # data
    coder = coders.ExampleProtoCoder(schema)
    try:
        enc = [coder.encode({k: v for f, c in zip(feats, cols) for k, v in columns(f, c).items()}) for cols in item["columns"]]
        back = schema_utils.schema_as_feature_spec(schema).feature_spec
        parsed = tf.io.parse_example(tf.constant(enc, tf.string), back)
        got = rows_of(parsed, back, len(enc))
    except Exception as e:  # pylint: disable=broad-except
        bad("data", f"{type(e).__name__}: {str(e)[:300]}; rows {item['rows']}")
        return dict(problems=problems[:10], steps=steps)
    for f, col in zip(feats, range(len(feats))):
        want = [wanted(f, r[col]) for r in item["rows"]]
        steps += 1
        if got[f["name"]] != want:
            bad("data", f"{f['name']}: parsed {got[f['name']]}, want {want}")
    return dict(problems=problems[:10], steps=steps, cover={f["kind"]: 1 for f in feats})


def aligned(entries):
    return [e[0] for e in entries] == list(range(len(entries)))


def bucket(v, ty):
    if isinstance(v, list):
        return [bucket(x, ty) for x in v]
    return sum(val(v, ty) >= b for b in (LOW, HIGH))


def program_item(item, shared):
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    feats = item["spec"]
    problems, steps = [], 0
    spec = {f["name"]: spec_of(f) for f in feats}
    spec["row"] = tf.io.FixedLenFeature([], tf.int64)
    plan = item["plan"]                                     # per feature: op and annotation
    rows = [dict(row=i, **{k: v for f, c in zip(feats, cols) for k, v in columns(f, c).items()})
            for i, cols in enumerate(item["columns"])]

    def fn(inputs):
        out = dict(row=inputs["row"])
        for f, (op, ann) in zip(feats, plan):
            x = inputs[f["name"]]
            if f["kind"] == "fixed" and not f["dims"]:
                x = tf.expand_dims(x, 1)
            if op == "bucket":
                # TODO: with RaggedTensors of higher ranks
                x = tft.apply_buckets(x, tf.constant([[LOW, HIGH]], tf.float32))
            elif isinstance(x, tf.SparseTensor):
                x = tf.sparse.map_values(tf.identity, x)
            else:
                x = tf.identity(x) if isinstance(x, tf.Tensor) else x.with_flat_values(tf.identity(x.flat_values))
            if f["kind"] == "sparse" and ann == 1:
                tft.experimental.annotate_true_sparse_output(x)
            elif f["kind"] == "sparse" and ann == 2:
                tft.experimental.annotate_sparse_output_shape(x, [5 if d == -1 else d + 1 for d in f["dims"]])
            out[f["name"]] = x
        return out

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; features {feats}, plan {plan}, rows {item['rows']}, "
                                           f"record batches {item['batches']}"))

    loose = [f["name"] for n, (f, (_, ann)) in enumerate(zip(feats, plan))
             if f["kind"] == "sparse" and len(f["dims"]) == 1 and ann == 0 and
             not all(aligned(r[n]) for r in item["rows"])]
    tag = uuid.uuid4().hex
    with pipe.scratch() as d:
        try:
            with pipe.pipeline() as p:
                with tft_beam.Context(temp_dir=d, force_tf_compat_v1=item["v1"]):
                    if item["instances"]:
                        import apache_beam as beam
                        data = p | "data" >> beam.Create(rows, reshuffle=False)
                        meta = pipe.metadata({k: v for k, v in spec.items()})
                    else:
                        data = pipe.pcoll(p, spec, pipe.split(rows, item["cut"]), "data")
                        meta = pipe.adapter_config(spec)
                    result, tfn = (data, meta) | tft_beam.AnalyzeAndTransformDataset(
                        fn, output_record_batches=item["batches"])
                    _ = tfn | tft_beam.WriteTransformFn(d + "/out")
                    pipe.sink(result | tft_beam.EncodeTransformedDataset(), tag, "sink")
            failed = None
        except Exception as e:  # pylint: disable=broad-except
            failed = f"{type(e).__name__}: {str(e)[:500]}"
        enc = pipe.OUT.pop(tag, [])
        if loose and not item["batches"]:
            if not failed or "value indices" not in failed:
                bad("unaligned", f"{loose} is not left-aligned: {failed or 'accepted'}")
            return dict(problems=problems, steps=1, cover=dict(refused=1))
        if failed:
            bad("exception", failed)
            return dict(problems=problems, steps=1)
        output = tft.TFTransformOutput(d + "/out")
        want = {}
        for f, o, (op, ann) in zip(feats, item["outputs"], plan):
            o = dict(o[ann])
            if op == "bucket":
                o["ty"] = "int"
            if o["kind"] == "fixed" and not o["dims"]:
                o["dims"] = [1]
            want[f["name"]] = spec_of(o)
        want["row"] = tf.io.FixedLenFeature([], tf.int64)
        got = output.transformed_feature_spec()
        steps += 2
        if canon(got) != canon(want):
            bad("inferred", f"{got}, want {want}")
            return dict(problems=problems, steps=steps)
        dom = output.transformed_domains()
        wdom = {f["name"]: (0, 2) for f, (op, _) in zip(feats, plan) if op == "bucket"}
        if {k: (v.min, v.max) for k, v in dom.items()} != wdom or not all(v.is_categorical for v in dom.values()):
            bad("inferred-domains", f"{dom}, want {wdom}")
        try:
            parsed = tf.io.parse_example(tf.constant(enc, tf.string), got)
            res = rows_of(parsed, got, len(enc))
        except Exception as e:  # pylint: disable=broad-except
            bad("parse", f"{type(e).__name__}: {str(e)[:300]}")
            return dict(problems=problems, steps=steps)
    order = [r[0] for r in res.pop("row")]
    if sorted(order) != list(range(len(rows))):
        bad("rows", f"rows {order}")
    for n, (f, (op, ann)) in enumerate(zip(feats, plan)):
        ty = f["ty"]
        seen = [item["seen"][i][n][ann] for i in order]
        as_kind = item["outputs"][n][ann]["kind"]
        if op == "bucket":
            exp = [[e[:-1] + [bucket(e[-1], ty)] for e in v] if as_kind == "sparse" else bucket(v, ty) for v in seen]
        else:
            exp = [wanted(dict(f, kind=as_kind), v) for v in seen]
        steps += 1
        if res[f["name"]] != exp:
            bad("values", f"{f['name']}: parsed {res[f['name']]}, want {exp}")
        elif f["name"] in loose:
            bad("unaligned-record-batch", f"{f['name']} is not left-aligned, written as if it was")
    return dict(problems=problems[:10], steps=steps, cover={f["kind"]: 1 for f in feats})


# ------------------------------------------------------------- orchestration
def feature(name, kind, dims="<<>>", cols=None, parts="<<>>", ty="int", dom="<<0, 0>>"):
    cols = cols or f'<<"{name}">>'
    return (f'[name |-> "{name}", kind |-> "{kind}", ty |-> "{ty}", dims |-> {dims}, cols |-> {cols}, '
            f'parts |-> {parts}, sorted |-> FALSE, dom |-> {dom}]')


def consts(sim, q):
    if sim:
        return dict(Specs="1..5", Paths="1..3", Steps="6", NRows="5", Sim="TRUE")
    one = [feature("a", "fixed", dims=d) for d in ("<<>>", "<<2, 2>>", "<<3>>")] + [
        feature("a", "var", ty="text", dom="<<2, 1>>"),
        feature("a", "sparse", dims="<<3>>", cols='<<"i", "v">>', ty="float", dom="<<3, 1>>"),
        feature("a", "sparse", dims="<<3, -1>>", cols='<<"i", "j", "v">>', ty="text"),
        feature("a", "ragged", cols='<<"v">>'),
        feature("a", "ragged", cols='<<"l", "v">>', parts="<<0>>"),
        feature("a", "ragged", cols='<<"v">>', parts="<<2>>"),
        feature("a", "ragged", cols='<<"l", "m", "v">>', parts="<<0, 0>>"),
        feature("a", "ragged", cols='<<"l", "v">>', parts="<<0, 2>>")]
    two = [feature("b", "fixed"), feature("b", "sparse", dims="<<4>>", cols='<<"bi", "bv">>'), feature("b", "var", dom="<<1, 3>>")]
    specs = ["<<%s>>" % f for f in one]
    # two features: data of the first only
    return dict(Specs="{%s}" % ", ".join(specs), Paths="{1, 2}", Steps="2" if q else "4", NRows="1", Sim="FALSE")


INV = ["RoundTrip", "Stored", "DataRoundTrip", "Distinct"]


def check(ctx):
    q = ctx.quick
    n, m = (300, 60) if q else (10000, 1200)
    _, sim = ctx.tlc_many([
        dict(module="Schemas", name="Schemas_all", constants=consts(False, q), invariants=INV, workers=4, timeout=3000),
        dict(module="Schemas", name="Schemas_sim", constants=consts(True, q), simulate=n, depth=10,
             invariants=INV + ["Emit"], timeout=3000)])
    rng, schemas, programs = ctx.rng, [], []
    for k, it in enumerate(sim):
        it["style"] = rng.randrange(3)
        schemas.append(dict(it))
        if k % 20 == 0:
            schemas[-1]["spec"] = [dict(f, int32=f["kind"] == "ragged" and rng.random() < .5) for f in it["spec"]]
        # (sizes are needed to feed a sparse input)
        if len(programs) < m and not any(f["kind"] == "sparse" and -1 in f["dims"] for f in it["spec"]):
            plan = []
            for x, f in enumerate(it["spec"]):
                op = "bucket" if f["ty"] != "text" and rng.random() < .4 else "identity"
                ann = rng.choice([0, 0, 1, 2]) if f["kind"] == "sparse" else 0
                if ann == 0 and f["kind"] == "sparse" and not all(len(f["dims"]) > 1 or aligned(r[x]) for r in it["rows"]) \
                        and rng.random() < .8:
                    ann = 1
                plan.append((op, ann))
            cut = rng.randint(0, len(it["rows"]))
            programs.append(dict(it, plan=plan, cut=[cut, len(it["rows"]) - cut], batches=rng.random() < .5,
                                 v1=all(f["kind"] != "ragged" for f in it["spec"]) and rng.random() < .4,
                                 instances=rng.random() < .4))
    # one that is not left-aligned, as record batches
    loose = next(it for it in sim if not any(-1 in f["dims"] for f in it["spec"]) and any(
        f["kind"] == "sparse" and len(f["dims"]) == 1 and not all(aligned(r[x]) for r in it["rows"])
        for x, f in enumerate(it["spec"])))
    programs.append(dict(loose, plan=[("identity", 0)] * len(loose["spec"]), cut=[1, len(loose["rows"]) - 1],
                         batches=True, v1=False, instances=False))
    ctx.sample(*[dict(spec=i["spec"], rows=i["rows"][:2]) for i in sim[:2]])
    ctx.replay("c17.schema_item", schemas, timeout=600 if q else 6000, label="schemas")
    ctx.replay("c17.program_item", programs, timeout=800 if q else 6000, label="programs")
