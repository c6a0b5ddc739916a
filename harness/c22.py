"""C22: what a preprocessing function declares about its outputs (spec/Declared.tla)."""

import os
import uuid

FORMS = ("dense", "sparse", "ragged")
VOCAB_NAMES = {"x": "x", "p/x": "p_x", "p x": "p-x", "y.z": "y_z", "a/y.z": "a_y_z"}


def columns(data):
    """Rows in which every column takes all of its values, as dense, sparse and ragged features."""
    n = 6
    rows = []
    for r in range(n):
        row = {}
        for j, size in enumerate(data["s"], 1):
            row[f"s{j}dense"] = f"t{r % size}"
            row[f"s{j}sparse"] = [] if r == 5 else [f"t{r % size}"] if r % 2 else [f"t{r % size}", "t0"]
            row[f"s{j}ragged"] = ["t0", f"t{r % size}"] if r % 2 else [f"t{r % size}"]
        for j, (lo, hi) in enumerate(data["n"], 1):
            row[f"n{j}"] = lo if r == 1 else hi if r == 3 else (lo + hi) // 2
        rows.append(row)
    return rows


def features():
    import tensorflow as tf
    spec = {}
    for j in (1, 2):
        spec[f"s{j}dense"] = tf.io.FixedLenFeature([], tf.string)
        spec[f"s{j}sparse"] = tf.io.VarLenFeature(tf.string)
        spec[f"s{j}ragged"] = tf.io.RaggedFeature(tf.string, f"s{j}ragged", row_splits_dtype=tf.int64)
        spec[f"n{j}"] = tf.io.FixedLenFeature([], tf.int64)
    return spec


def function(item):
    import tensorflow as tf
    import tensorflow_transform as tft
    from tensorflow_transform import schema_inference

    def mapped(x, fn):
        if isinstance(x, tf.SparseTensor):
            return tf.SparseTensor(x.indices, fn(x.values), x.dense_shape)
        if isinstance(x, tf.RaggedTensor):
            return x.with_flat_values(fn(x.flat_values))
        return fn(x)

    def source(inputs, j, form):
        if form == "matrix":
            return tf.stack([inputs[f"s{j}dense"]] * 2, axis=1)
        if form == "cube":
            return tf.sparse.expand_dims(inputs[f"s{j}sparse"], 1)
        if form == "ragged2":
            return tf.strings.split(inputs[f"s{j}ragged"])
        return inputs[f"s{j}{form}"]

    def values(x):
        return getattr(x, "values", None) if isinstance(x, tf.SparseTensor) else \
            x.flat_values if isinstance(x, tf.RaggedTensor) else x

    def fn(inputs):
        made, vocs, out, asked = [], [], {}, 0

        def bound(e):
            if e["b"] == "const":
                return tf.constant(e["v"], tf.int64)
            if e["b"] == "min":
                return tft.min(inputs[f"n{e['v']}"])
            if e["b"] == "max":
                return tft.max(inputs[f"n{e['v']}"])
            for t, x in zip(item["tens"], made):
                if t["kind"] == "vocab" and t["src"] == e["v"] and list(t["par"]) == [0, -1]:
                    return tft.max(x)
            raise ValueError(e)

        def filename(k):
            return item["vocs"][k - 1]["name"]

        def make(t):
            src = source(inputs, t["src"] or 1, t["form"])
            numbers = mapped(src, lambda v: tf.cast(tf.strings.length(v), tf.float32))
            if t["kind"] == "bucket":
                return tft.apply_buckets(numbers, tf.constant([[float(i) for i in range(t["par"][0])]]))
            if t["kind"] == "vocab":
                oov, default = t["par"]
                v = tft.vocabulary(src, vocab_filename=filename(t["of"]))
                vocs.append(v)
                return tft.apply_vocabulary(src, v, default_value=default, num_oov_buckets=oov)
            if t["kind"] == "apply":
                oov, default = t["par"]
                return tft.apply_vocabulary(src, vocs[t["of"] - 1], default_value=default, num_oov_buckets=oov)
            if t["kind"] == "plain":
                return mapped(numbers, lambda v: tf.cast(v, tf.int64))
            return mapped(made[t["of"] - 1], tf.identity)

        for step in item["log"]:
            do = step["do"]
            if do == "make":
                made.append(make(item["tens"][step["i"] - 1]))
            elif do == "declare":
                schema_inference.set_tensor_schema_override(
                    values(made[step["i"] - 1]), bound(step["lo"]), bound(step["hi"]))
            elif do == "mark":
                tft.experimental.annotate_true_sparse_output(made[step["i"] - 1])
            elif do == "output":
                out[step["c"]] = made[step["i"] - 1]
            elif do == "map":
                tft.annotate_asset(step["q"], VOCAB_NAMES[filename(step["k"])])
            else:
                if do == "buckets":
                    number = tft.get_num_buckets_for_transformed_feature(made[step["i"] - 1])
                else:
                    number = tft.experimental.get_vocabulary_size_by_name(filename(step["k"]))
                out[f"asked{asked}"] = tf.zeros_like(inputs["n1"]) + tf.cast(number, tf.int64)
                asked += 1
        return out
    return fn


def kinds(item):
    """The features that the outputs are: (class name, sources of their values)."""
    want = {}
    for c, i in item["cols"].items():
        t = item["tens"][i - 1]
        want[c] = {"dense": "FixedLenFeature", "ragged": "RaggedFeature", "matrix": "FixedLenFeature",
                   "ragged2": "RaggedFeature", "cube": "SparseFeature", "sparse": "SparseFeature" if t["mark"] else "VarLenFeature"}[t["form"]]
    for k in range(len(item["extra"])):
        want[f"asked{k}"] = "FixedLenFeature"
    return want


def domains_of(schema):
    from tensorflow_transform.tf_metadata import schema_utils
    return {k: [v.min, v.max] + ([] if v.is_categorical else ["not categorical"]) for k, v in schema_utils.schema_as_feature_spec(schema).domains.items()}


def program(item, shared):
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform import impl_helper
    from tensorflow_transform.beam.tft_beam_io import beam_metadata_io
    from tensorflow_transform.tf_metadata import metadata_io, schema_utils
    from tfx_bsl.tfxio import tensor_adapter
    from harness import pipe

    for name in ("tens", "coll", "vocs", "extra", "log"):
        item[name] = list(item[name] or [])
    for name in ("cols", "domains"):
        item[name] = dict(item[name] or {})
    problems, steps = [], 0
    spec, rows, fn = features(), columns(item["data"]), function(item)
    want = {c: list(d) for c, d in item["domains"].items()}
    shape = kinds(item)
    excluded = item["exclude"]

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; v1 {item['v1']}, log {item['log']}, tensors {item['tens']}, "
                                           f"vocabularies {item['vocs']}, data {item['data']}"))

    def judge(label, schema, left_out=()):
        """A published schema against the contract."""
        got = domains_of(schema)
        exp = {c: d for c, d in want.items() if c not in left_out}
        if got != exp:
            bad(label, f"{label}: domains {got}, declared {exp}")
        feats = {k: type(v).__name__ for k, v in schema_utils.schema_as_feature_spec(schema).feature_spec.items()}
        exp = {c: s for c, s in shape.items() if c not in left_out}
        if feats != exp:
            bad(label + "-features", f"{label}: features {feats}, want {exp}")

    tag = uuid.uuid4().hex
    with pipe.scratch() as d:
        try:
            with pipe.pipeline() as p:
                with tft_beam.Context(temp_dir=d + "/tmp", force_tf_compat_v1=item["v1"]):
                    data = pipe.pcoll(p, spec, pipe.split(rows, item["cut"]), "data")
                    config = pipe.adapter_config(spec)
                    tfn = (data, config) | tft_beam.AnalyzeDataset(fn)
                    _ = tfn | tft_beam.WriteTransformFn(d + "/out")
                    out, meta = ((data, config), tfn) | tft_beam.TransformDataset(
                        exclude_outputs=excluded or None)
                    pipe.sink(out, tag, "sink")
                    _ = meta | beam_metadata_io.WriteMetadata(d + "/meta", p)
        except Exception as e:  # pylint: disable=broad-except
            bad("exception", f"{type(e).__name__}: {str(e)[:500]}")
            return dict(problems=problems, steps=1)
        got_rows = pipe.OUT.pop(tag, [])
        output = tft.TFTransformOutput(d + "/out")
        judge("published", output.transformed_metadata.schema)
        judge("without-excluded", metadata_io.read_metadata(d + "/meta").schema, excluded)
        steps += 4
        for c in shape:
            dom = want.get(c)
            steps += 1
            try:
                number = output.num_buckets_for_transformed_feature(c)
            except ValueError:
                number = None
            if number != (dom[1] + 1 if dom and dom[0] == 0 else None):
                bad("buckets", f"num_buckets_for_transformed_feature({c!r}) gives {number}, declared {dom}")
        for q, k in item["files"].items():
            steps += 3
            path = output.vocabulary_file_by_name(q)
            name = path and os.path.basename(path)
            voc = item["vocs"][k - 1] if k else None
            if name != (voc and VOCAB_NAMES[voc["name"]]):
                bad("file", f"vocabulary_file_by_name({q!r}) gives {name}, want that of {voc}")
                continue
            if voc:
                tokens = {b"t%d" % n for n in range(item["data"]["s"][voc["src"] - 1])}
                listed = output.vocabulary_by_name(q)
                if set(listed) != tokens or len(listed) != len(tokens):
                    bad("tokens", f"vocabulary_by_name({q!r}) gives {listed}, want {sorted(tokens)}")
                if output.vocabulary_size_by_name(q) != len(tokens):
                    bad("size", f"vocabulary_size_by_name({q!r}) gives {output.vocabulary_size_by_name(q)}, want {len(tokens)}")
        shown = {c for c in shape if c not in excluded}
        if any(set(x.split("$")[0] for x in r) != shown for r in got_rows) or len(got_rows) != len(rows):
            bad("rows", f"{len(got_rows)} rows with columns {sorted(got_rows[0]) if got_rows else None}, want {sorted(shown)}")
        for k, e in enumerate(item["extra"]):
            if f"asked{k}" in shown and any(r[f"asked{k}"] != e["value"] for r in got_rows):
                bad("asked", f"{e}: got {got_rows[0][f'asked{k}']}")
        steps += 2
        if not item["vocs"] and all(b["b"] == "const" for x in item["coll"] for b in x[1:]):
            # nothing to analyze: the function can also be published without data
            types = tensor_adapter.TensorAdapter(pipe.adapter_config(spec)).OriginalTypeSpecs()
            try:
                impl_helper.analyze_in_place(fn, item["v1"], spec, types, d + "/place")
                judge("in-place", tft.TFTransformOutput(d + "/place").transformed_metadata.schema)
                steps += 2
            except Exception as e:  # pylint: disable=broad-except
                bad("in-place-exception", f"{type(e).__name__}: {str(e)[:500]}")
    return dict(problems=problems[:10], steps=steps, cover=dict(v1=int(item["v1"]), in_place=int(not item["vocs"])))


def check(ctx):
    q = ctx.quick
    inv = ["DomainOk", "OneTensor", "FileOk", "OwnFile", "InRange"]
    forms = '{"dense", "sparse", "ragged", "matrix", "cube", "ragged2"}'
    small = dict(Cols='{"c1", "c2"}', Forms='{"dense", "sparse"}', MaxTens="2", MaxVocs="1", Sim="FALSE", Lean="TRUE")
    sim = dict(Cols='{"c", "d 1", "E.x", "f"}', Forms=forms, MaxTens="5", MaxVocs="3", Sim="TRUE", Lean="FALSE")
    jobs = [
        dict(module="Declared", name="short", invariants=inv, view="View",
             constants=dict(small, Steps="5" if q else "7")),
        dict(module="Declared", name="two_vocabularies", invariants=inv, view="View",
             constants=dict(small, Cols='{"c1"}', Forms='{"dense"}', MaxVocs="2", Steps="5" if q else "7")),
        dict(module="Declared", name="programs", invariants=inv + ["Emit"], simulate=60 if q else 1500, depth=16,
             constants=dict(sim, Steps="14")),
        dict(module="Declared", name="no_vocabularies", invariants=inv + ["Emit"], simulate=16 if q else 300, depth=10,
             constants=dict(sim, MaxVocs="0", Steps="9")),
    ]
    if not q:
        jobs.append(dict(module="Declared", name="all_parameters", invariants=inv, view="View",
                         constants=dict(small, Lean="FALSE", Steps="3")))
    res = ctx.tlc_many(jobs)
    items = res[2][:70 if q else 1500] + res[3][:20 if q else 300]
    for n, it in enumerate(items):
        it["v1"] = n % 2 == 0
        cut = ctx.rng.randrange(1, 6)
        it["cut"] = [cut, 6 - cut]
        names = sorted((it["cols"] or {}))
        it["exclude"] = ctx.rng.sample(names, ctx.rng.randrange(0, len(names))) if len(names) > 1 else []
    ctx.sample(*items[:2])
    ctx.replay("c22.program", items, timeout=700 if q else 6000, label="programs")
