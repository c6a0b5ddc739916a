"""C10, C19: preprocessing functions, routes and dependencies (spec/Serving.tla)."""

import uuid

INV = ["InstanceWise", "PartialExact", "AnalysisSuffices", "TransformSuffices"]


# ------------------------------------------------------------ in the worker
def names(item):
    """Names of the columns, not in the order in which the function meets them."""
    return item["names"]


def dtypes(item):
    import tensorflow as tf
    return [getattr(tf, t) for t in item["dtypes"]]


def feature_spec(item):
    import tensorflow as tf
    out = {}
    for n, k, t, inner in zip(names(item), item["kinds"], dtypes(item), item["inner"]):
        if k == "d":
            out[n] = tf.io.FixedLenFeature(inner, t)
        elif item["ragged"]:
            out[n] = tf.io.RaggedFeature(t, row_splits_dtype=tf.int64)
        else:
            out[n] = tf.io.VarLenFeature(t)
    return out


def type_spec(item):
    import tensorflow as tf
    out = {}
    for n, k, t, inner in zip(names(item), item["kinds"], dtypes(item), item["inner"]):
        if k == "d":
            out[n] = tf.TensorSpec([None] + inner, t)
        elif item["ragged"]:
            out[n] = tf.RaggedTensorSpec([None, None], t, ragged_rank=1)
        else:
            out[n] = tf.SparseTensorSpec([None, None], t)
    return out


def to_raw(t, v):
    """The number as a value of the type that its column has."""
    return {"int64": v, "float32": v / 2, "string": b"n%d" % v}[t]


def column(inputs, item, k):
    """The column as whole numbers, one per row or any number of them."""
    import tensorflow as tf
    x, t = inputs[names(item)[k]], item["dtypes"][k]
    for _ in item["inner"][k] if item["kinds"][k] == "d" else []:
        x = x[:, -1]
    if t == "float32":
        return on_values(lambda v: tf.cast(v * 2, tf.int64), x)
    if t == "string":
        # in place of a missing column come empty strings
        number = lambda v: tf.strings.to_number(tf.strings.regex_replace(tf.strings.regex_replace(v, "^$", "n0"), "^n", ""), tf.int64)
        return on_values(number, x)
    return x


def on_values(f, x, *args):
    import tensorflow as tf
    if isinstance(x, tf.SparseTensor):
        return tf.SparseTensor(x.indices, f(x.values, *args), x.dense_shape)
    if isinstance(x, tf.RaggedTensor):
        return x.with_values(f(x.values, *args))
    return f(x, *args)


def styled(style, f):
    """The same function of tensors, expressed in another way."""
    import tensorflow as tf
    if style == "function":
        return lambda *a: tf.function(f)(*a)
    if style == "cond":
        return lambda *a: tf.cond(tf.less(tf.size(a[0]), 0), lambda: tf.zeros_like(a[0]), lambda: tf.identity(f(*a)))
    if style == "while":
        return lambda *a: tf.while_loop(lambda i, acc: i < 1, lambda i, acc: (i + 1, f(*a)),
                                        (tf.constant(0), tf.zeros_like(a[0])),
                                        shape_invariants=(tf.TensorShape([]), tf.TensorShape([None])))[1]
    if style == "map":
        return lambda *a: tf.map_fn(lambda t: f(*t), a, fn_output_signature=tf.int64) if all(
            x.shape.rank == 1 for x in a) else f(*a)
    return f


def program(item, rich=False):
    import tensorflow as tf
    import tensorflow_transform as tft

    def fn(inputs):
        vals = []
        for k, e in enumerate(item["prog"]):
            op, style = e["op"], item["styles"][k]
            get = lambda j: vals[j - 1]
            if op == "in":
                v = column(inputs, item, e["a"] - 1)
            elif op == "inc":
                v = on_values(styled(style, lambda t: t + 1), get(e["a"]))
            elif op == "zero":
                v = styled(style, tf.zeros_like)(get(e["a"]))
            elif op == "size":
                v = get(e["a"])
                if isinstance(v, tf.RaggedTensor):
                    v = v.row_lengths()
                else:
                    v = tf.math.unsorted_segment_sum(tf.ones_like(v.indices[:, 0]), v.indices[:, 0], v.dense_shape[0])
            elif op == "add":
                v = styled(style, lambda s, t: s + t)(get(e["a"]), get(e["b"]))
            elif op == "pick":
                v = styled(style, lambda c, s, t: tf.where(c > 0, s, t))(get(e["c"]), get(e["a"]), get(e["b"]))
            elif op == "fill":
                v, d = get(e["a"]), get(e["b"])
                if isinstance(v, tf.RaggedTensor):
                    v = v.with_values(tf.gather(d, v.value_rowids()))
                else:
                    v = tf.SparseTensor(v.indices, tf.gather(d, v.indices[:, 0]), v.dense_shape)
            elif op == "total":
                v = tft.sum(get(e["a"]))
            elif op == "top":
                v = tft.max(get(e["a"]))
            elif op == "vocab":
                v = tft.vocabulary(get(e["a"]), vocab_filename=f"vocab{k}")
            elif op == "shift":
                s = get(e["b"])
                v = on_values(styled(style if style in ("function", "plain") else "plain", lambda t: t + s), get(e["a"]))
            elif op == "seen":
                v = tft.apply_vocabulary(get(e["a"]), get(e["b"]), default_value=-7)
                v = on_values(lambda t: tf.cast(t >= 0, tf.int64), v)
            vals.append(v)
        out = {f"o{o}": vals[o - 1] for o in item["order"]}
        if rich:
            out.update(mappers(item, inputs))
        return out
    return fn


def mappers(item, inputs):
    """Mappers of all kinds over the columns; what they give a row is compared between routes."""
    import tensorflow as tf
    import tensorflow_transform as tft
    out = {}
    for k, kind in enumerate(item["kinds"]):
        n, x = f"c{k}", column(inputs, item, k)
        text = on_values(tf.strings.as_string, x)
        real = on_values(lambda t: tf.cast(t, tf.float32) / 2, x)
        terms = lambda: tft.ngrams(text, (1, 2), "+")
        some = {
            "z": lambda: tft.scale_to_z_score(x), "01": lambda: tft.scale_to_0_1(real),
            "id": lambda: tft.compute_and_apply_vocabulary(text, top_k=4, num_oov_buckets=2, vocab_filename=n + "_v1"),
            "few": lambda: tft.compute_and_apply_vocabulary(x, frequency_threshold=2, vocab_filename=n + "_v2"),
            "hash": lambda: tft.hash_strings(text, 11), "hash2": lambda: tft.hash_strings(text, 11, key=[1, 2])}
        if kind == "d":
            some.update({
                "bucket": lambda: tft.bucketize(real, 3),
                "inter": lambda: tft.apply_buckets_with_interpolation(real, tft.quantiles(real, 4, .01)),
                "gauss": lambda: tft.scale_to_gaussian(x),
                "zk": lambda: tft.scale_to_z_score_per_key(real, text),
                "01k": lambda: tft.scale_to_0_1_per_key(real, text),
                "keyed": lambda: tft.bucketize_per_key(real, tf.strings.as_string(tf.math.floormod(x, 2)), 2)})
        else:
            some["count"] = lambda: tft.word_count(text)
        if kind == "v" and not item["ragged"]:
            some.update({
                "grams": terms, "bag": lambda: tft.bag_of_words(text, (1, 2), ""),
                "tfidf": lambda: tft.tfidf(
                    tft.compute_and_apply_vocabulary(text, num_oov_buckets=1, vocab_filename=n + "_v3"), 5),
                "gid": lambda: tft.compute_and_apply_vocabulary(terms(), num_oov_buckets=3, vocab_filename=n + "_v4"),
                "uniq": lambda: tft.deduplicate_tensor_per_row(x), "left": lambda: tft.sparse_tensor_left_align(x),
                "dense": lambda: tft.sparse_tensor_to_dense_with_shape(
                    tf.sparse.slice(x, [0, 0], [2 ** 40, 4]), [None, 4], -1)})
        for m in some:
            if f"{n}_{m}" in item["mappers"]:
                v = some[m]()
                out.update({f"{n}_{m}{k}": t for k, t in enumerate(v)} if isinstance(v, tuple) else {f"{n}_{m}": v})
    return out


MAPPERS = ("z 01 id few hash hash2 bucket inter gauss zk 01k keyed", "z 01 id few hash hash2 count grams bag tfidf gid uniq left dense",
           "z 01 id few hash hash2 count")


def instance(item, row):
    out = {}
    for n, k, t, inner, c in zip(names(item), item["kinds"], item["dtypes"], item["inner"], row):
        cell = [to_raw(t, v) for v in c]
        out[n] = nested(t, inner, cell[0]) if k == "d" else cell
    return out


def nested(t, inner, v):
    """The number last in a cell of this shape, behind others that do not matter."""
    import numpy as np
    if not inner:
        return v
    flat = [to_raw(t, 7)] * (int(np.prod(inner)) - 1) + [v]
    return np.array(flat, object).reshape(inner).tolist()


def tensors(item, rows, have=None, extra=0):
    """The batch as tensors."""
    import numpy as np
    import tensorflow as tf
    out = {}
    for k, (n, kind) in enumerate(zip(names(item), item["kinds"])):
        if have is not None and k + 1 not in have:
            continue
        cells, t, inner = [r[k] for r in rows], item["dtypes"][k], item["inner"][k]
        flat = np.array([to_raw(t, v) for c in cells for v in c], object if t == "string" else t)
        if kind == "d":
            out[n] = tf.constant(np.array([nested(t, inner, v) for v in flat.tolist()], flat.dtype).reshape([len(rows)] + inner), t)
        elif item["ragged"]:
            out[n] = tf.RaggedTensor.from_row_lengths(tf.constant(flat, t), tf.constant([len(c) for c in cells], tf.int64))
        else:
            ix = np.array([[r, c] for r, cell in enumerate(cells) for c in range(len(cell))], np.int64).reshape(-1, 2)
            width = max([len(c) for c in cells] + [0]) + extra
            out[n] = tf.SparseTensor(ix, tf.constant(flat, t), [len(rows), width])
    return out


def split_rows(value, n):
    """A (numpy) batch as one list per row."""
    import numpy as np
    if hasattr(value, "row_splits") or type(value).__name__.startswith("Ragged"):
        return value.to_list()
    if hasattr(value, "indices"):
        rows = [[] for _ in range(n)]
        for ix, v in zip(np.asarray(value.indices).tolist(), np.asarray(value.values).tolist()):
            rows[ix[0]].append(v)
        return rows
    return [np.asarray(r).reshape(-1).tolist() for r in np.asarray(value)]


def flat_row(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if not isinstance(v, (list, tuple)):
        return [v]
    return [y for x in v for y in flat_row(x)]


def from_instances(rows):
    """Rows of instance dictionaries, columns of a ragged output joined."""
    return [{k.split("$")[0]: flat_row(v) for k, v in r.items() if "row_lengths" not in k} for r in rows]


def from_batches(batches):
    out = []
    for b, _ in batches:
        cols = {n: c.to_pylist() for n, c in zip(b.schema.names, b.columns)}
        out += [{k: v[r] for k, v in cols.items()} for r in range(b.num_rows)]
    return from_instances(out)


def close(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, float) or isinstance(y, float):
            if isinstance(x, bytes) or isinstance(y, bytes):
                return False
            if x != y and not (x != x and y != y) and abs(x - y) > 1e-5 * max(1, abs(x), abs(y)):
                return False
        elif x != y:
            return False
    return True


class Seen:
    """What each row has been given, by output; routes have to agree."""

    def __init__(self, problems, desc):
        self.table, self.problems, self.desc, self.steps = {}, problems, desc, 0

    def bad(self, key, what):
        self.problems.append(dict(key=key, what=f"{what}; {self.desc}"))

    def rows(self, route, rows, got, want=None, outs=(), only=None):
        """`got`: a dictionary per row; `want`: per output and row."""
        if len(got) != len(rows):
            self.bad("rows", f"{route}: {len(got)} rows for {len(rows)}")
            return
        for r, (row, g) in enumerate(zip(rows, got)):
            for k, o in enumerate(outs):
                n = f"o{o}"
                if only is not None and n not in only:
                    continue
                self.steps += 1
                if n not in g or not close(g[n], want[k][r]):
                    self.bad("value", f"{route}: {n} of row {row} is {g.get(n)}, want {want[k][r]}")
            for n, v in g.items():
                if n.startswith("o") or n == "row":
                    continue
                self.steps += 1
                first = self.table.setdefault((str(row), n), (route, v))
                if not close(first[1], v):
                    self.bad("route", f"{n} of row {row} is {v} by {route}, {first[1]} by {first[0]}")


def desc_of(item):
    return (f"columns {list(zip(item['names'], item['kinds'], item['dtypes'], item['inner']))}, program {item['prog']} in styles {item['styles']}, outputs {item['outs']}, "
            f"data {item['train']}")


# ---------------------------------------------------------------------- C10
def routes(item, shared):
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.beam import tft_beam_io
    import apache_beam as beam
    from harness import pipe

    problems = []
    s = Seen(problems, desc_of(item) + f", v1={item['v1']}, ragged={item['ragged']}")
    spec = feature_spec(item)
    cfg, meta = pipe.adapter_config(spec), pipe.metadata(spec)
    fn = program(item, rich=True)
    train = [instance(item, r) for r in item["train"]]
    fresh = [r for b in item["served"] for r in b["rows"]]
    want = [[c for b in item["served"] for c in b["all"][o]] for o in range(len(item["outs"]))]
    later = [instance(item, r) for r in fresh]
    tags = [uuid.uuid4().hex for _ in range(4)]
    got = {}
    with pipe.scratch() as d:
        try:
            with pipe.pipeline() as p:
                with tft_beam.Context(temp_dir=d + "/a", force_tf_compat_v1=item["v1"]):
                    data = pipe.pcoll(p, spec, pipe.split(train, item["cut"]), "data")
                    (res, m), tfn = (data, cfg) | tft_beam.AnalyzeAndTransformDataset(fn, output_record_batches=item["batches"])
                    pipe.sink(res, tags[0], "s0")
                    _ = tfn | tft_beam.WriteTransformFn(d + "/out")
                    # after analysis, other rows in other batches
                    again = pipe.pcoll(p, spec, pipe.split(later, item["cut2"]), "again")
                    res, _ = ((again, cfg), tfn) | tft_beam.TransformDataset(output_record_batches=not item["batches"])
                    pipe.sink(res, tags[1], "s1")
            # instances, with the function read back
            with pipe.pipeline() as p:
                with tft_beam.Context(temp_dir=d + "/b", force_tf_compat_v1=item["v1"], desired_batch_size=item["size"]):
                    tfn = p | tft_beam.ReadTransformFn(d + "/out")
                    res, _ = ((p | beam.Create(later, reshuffle=False), meta), tfn) | tft_beam.TransformDataset()
                    pipe.sink(res, tags[2], "s2")
                    one = pipe.pcoll(p, spec, [[i] for i in later], "one by one")
                    res, _ = ((one, cfg), tfn) | "one" >> tft_beam.TransformDataset()
                    pipe.sink(res, tags[3], "s3")
        except Exception as e:  # pylint: disable=broad-except
            s.bad("exception", f"{type(e).__name__}: {str(e)[:600]}")
            return dict(problems=problems, steps=1)
        first = from_batches if item["batches"] else from_instances
        second = from_instances if item["batches"] else from_batches
        s.rows("analyze and transform", item["train"], first(pipe.OUT.pop(tags[0], [])), item["trained"], item["outs"])
        s.rows("transform", fresh, second(pipe.OUT.pop(tags[1], [])), want, item["outs"])
        s.rows("read back, instances", fresh, from_instances(pipe.OUT.pop(tags[2], [])), want, item["outs"])
        s.rows("read back, one by one", fresh, from_instances(pipe.OUT.pop(tags[3], [])), want, item["outs"])

        out = tft.TFTransformOutput(d + "/out")
        to_rows = lambda v, n: split_rows(v, n)

        def as_rows(res, n):
            cols = {k: to_rows(v, n) for k, v in res.items()}
            return [{k: flat_row(v[r]) for k, v in cols.items()} for r in range(n)]

        try:
            layer = tft.TFTransformOutput(d + "/out").transform_features_layer()
            step = tf.function(lambda x: layer(x), reduce_retracing=True)
            for k, b in enumerate(item["served"]):
                rows, w = b["rows"], b["all"]
                n = len(rows)
                s.rows("layer", rows, as_rows(layer(tensors(item, rows)), n), w, item["outs"])
                if not item["v1"]:
                    s.rows("raw features", rows, as_rows(out.transform_raw_features(tensors(item, rows, extra=k)), n), w, item["outs"])
                if k == 0:
                    s.rows("layer in a function", rows, as_rows(step(tensors(item, rows)), n), w, item["outs"])
                    # served as examples
                    ds = tf.data.Dataset.from_tensors(tensors(item, rows)).map(lambda x: layer(x))
                    s.rows("data set", rows, as_rows(next(iter(ds)), n), w, item["outs"])
            rows, w = item["served"][-1]["rows"], item["served"][-1]["all"]
            with tf.Graph().as_default():
                res = tft.TFTransformOutput(d + "/out").transform_raw_features(tensors(item, rows))
                res = dict(res)
                with tf.compat.v1.Session() as sess:
                    sess.run(tf.compat.v1.global_variables_initializer())
                    sess.run(tf.compat.v1.tables_initializer())
                    vals = sess.run(res)
            s.rows("graph", rows, as_rows(vals, len(rows)), w, item["outs"])
        except Exception as e:  # pylint: disable=broad-except
            s.bad("exception", f"serving: {type(e).__name__}: {str(e)[:600]}")
    return dict(problems=problems[:10], steps=s.steps)


# ---------------------------------------------------------------------- C19
def inspect(item, shared):
    import tensorflow_transform as tft
    from harness import pipe  # noqa: F401  pylint: disable=unused-import
    problems, steps = [], 0
    cols = lambda ks: sorted(names(item)[k - 1] for k in ks)
    fn = program(item)
    for v1 in (False, True):
        if v1 and (item["ragged"] or any(st not in ("plain", "cond", "while", "map") for st in item["styles"])):
            continue
        spec = feature_spec(item) if v1 else type_spec(item)
        for name, f, want in (("analysis", tft.get_analyze_input_columns, item["analyze"]),
                              ("transform", tft.get_transform_input_columns, item["transform"])):
            steps += 1
            try:
                got = sorted(f(fn, spec, force_tf_compat_v1=v1))
            except Exception as e:  # pylint: disable=broad-except
                problems.append(dict(key="exception", what=f"{type(e).__name__}: {str(e)[:400]}; v1={v1}; {desc_of(item)}"))
                continue
            most = set(cols(want)) if v1 else set(cols(want)) | set(cols(item["effects"]))
            if not set(cols(want)) <= set(got) <= most or len(set(got)) != len(got):
                problems.append(dict(key=name, what=f"columns for {name}: {got}, want {cols(want)}; v1={v1}; {desc_of(item)}"))
    return dict(problems=problems, steps=steps)


def tensor_types(spec):
    from harness import pipe
    from tfx_bsl.tfxio import tensor_adapter
    return tensor_adapter.TensorAdapter(pipe.adapter_config(spec)).TypeSpecs()


def projected(p, item, spec, columns, rows, cut, label):
    """Some of the columns of a source, with the types that all of them have."""
    from harness import pipe
    from tfx_bsl.tfxio import tensor_adapter
    part = {n: spec[n] for n in columns or names(item)[:1]}
    whole, some = pipe.adapter_config(spec), pipe.adapter_config(part)
    cfg = tensor_adapter.TensorAdapterConfig(some.arrow_schema, some.tensor_representations,
                                             tensor_adapter.TensorAdapter(whole).TypeSpecs())
    data = [{n: r[n] for n in part} for r in rows]
    return pipe.pcoll(p, part, pipe.split(data, cut), label), cfg


def partial(item, shared):
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    problems = []
    s = Seen(problems, desc_of(item) + f", v1={item['v1']}, ragged={item['ragged']}")
    spec = feature_spec(item)
    need = {f"o{o}": set(dp) for o, dp in zip(item["outs"], item["deps"])}
    with pipe.scratch() as d:
        try:
            # the analysis with the columns that it asks for only, then the transformation likewise
            look = spec if item["v1"] else {n: t for n, t in tensor_types(spec).items()}
            cols_a = sorted(tft.get_analyze_input_columns(program(item), look, force_tf_compat_v1=item["v1"]))
            cols_t = sorted(tft.get_transform_input_columns(program(item), look, force_tf_compat_v1=item["v1"]))
            tag = uuid.uuid4().hex
            with pipe.pipeline() as p:
                with tft_beam.Context(temp_dir=d, force_tf_compat_v1=item["v1"]):
                    train = [instance(item, r) for r in item["train"]]
                    tfn = projected(p, item, spec, cols_a, train, item["cut"], "data") | tft_beam.AnalyzeDataset(program(item))
                    _ = tfn | tft_beam.WriteTransformFn(d + "/out")
                    if cols_t:
                        res, _ = (projected(p, item, spec, cols_t, train, item["cut"][::-1], "again"), tfn) \
                            | tft_beam.TransformDataset()
                        pipe.sink(res, tag, "s")
            if cols_t:
                s.rows(f"transform of {cols_t}", item["train"], from_instances(pipe.OUT.pop(tag, [])), item["trained"], item["outs"])
            out = tft.TFTransformOutput(d + "/out")
            layer = tft.TFTransformOutput(d + "/out").transform_features_layer()
            for b in item["served"]:
                rows, n = b["rows"], len(b["rows"])
                have = set(b["have"])
                want = {o for o, dp in need.items() if dp <= have}
                results = {"layer": layer(tensors(item, rows, have))}
                if not item["v1"]:
                    results["raw features"] = out.transform_raw_features(tensors(item, rows, have))
                    # a loader that is told in advance what it will be given
                    from tensorflow_transform.saved import saved_transform_io_v2
                    loader = saved_transform_io_v2.SavedModelLoader(out.transform_savedmodel_dir)
                    if want:
                        asked = {o for k, o in enumerate(sorted(want)) if k % 2 == len(rows) % 2} or want
                        loader.finalize(sorted(tensors(item, rows[:1], have)), sorted(asked))
                        results["finalized"] = loader.apply_transform_model(tensors(item, rows, have))
                with tf.Graph().as_default():
                    res = dict(tft.TFTransformOutput(d + "/out").transform_raw_features(tensors(item, rows, have)))
                    with tf.compat.v1.Session() as sess:
                        sess.run(tf.compat.v1.global_variables_initializer())
                        sess.run(tf.compat.v1.tables_initializer())
                        results["graph"] = sess.run(res)
                for route, res in results.items():
                    s.steps += 1
                    some = asked if route == "finalized" else want
                    if set(res.keys()) != some:
                        s.bad("partial", f"{route} given {sorted(have)}: outputs {sorted(res.keys())}, want {sorted(some)}")
                        continue
                    cols = {k: split_rows(v, n) for k, v in res.items()}
                    s.rows(f"{route} given {sorted(have)}", rows, [{k: flat_row(v[r]) for k, v in cols.items()} for r in range(n)],
                           b["all"], item["outs"], only=some)
        except Exception as e:  # pylint: disable=broad-except
            s.bad("exception", f"{type(e).__name__}: {str(e)[:600]}")
    return dict(problems=problems[:10], steps=s.steps)


# ------------------------------------------------------------- orchestration
# (two names that TensorFlow makes the same parameter name from cannot be given to a function)
NAMES = ["c", "C", "c 1", "d_1", "e/1", "f.1", "1c", "_c", "g-1", "zz", "a", "A b", "inputs", "h:0", "size"]


def generate(ctx, n, depth):
    q = ctx.quick
    small = dict(Inputs='<<"d", "v">>', MaxNodes="2" if q else "3", MaxTrain="1", MaxServe="1",
                 Values="{0, 2}" if q else "{1}", Sim="FALSE")
    big = dict(Inputs='{<<"d", "d", "v">>, <<"d", "v", "d", "d">>, <<"v", "d">>, <<"d", "d", "d">>, <<"v", "v", "d">>}',
               MaxNodes=str(depth), MaxTrain="6", MaxServe="3", Values="-3..6", Sim="TRUE")
    _, sim = ctx.tlc_many([
        dict(module="Serving", name="Serving_all", constants=small, invariants=INV, workers=6, timeout=3000),
        dict(module="Serving", name=f"Serving_sim_{ctx.prop}", constants=big, simulate=n, depth=40, invariants=INV + ["Emit"],
             timeout=3000)])
    rng = ctx.rng
    for it in sim:
        it["ragged"] = rng.random() < .3
        it["v1"] = not it["ragged"] and rng.random() < .4
        kinds = ["plain", "plain", "cond", "while", "map"] + ([] if it["v1"] else ["function"])
        it["styles"] = [rng.choice(kinds) for _ in it["prog"]]
        cut, left = [], len(it["train"])
        while left:
            cut.append(rng.randint(1, left))
            left -= cut[-1]
        it["cut"] = cut
        cut2, left = [], sum(len(b["rows"]) for b in it["served"])
        while left:
            cut2.append(rng.randint(0, left))
            left -= cut2[-1]
        every = [f"c{k}_{m}" for k, kind in enumerate(it["kinds"])
                 for m in MAPPERS[0 if kind == "d" else 2 if it["ragged"] else 1].split()]
        it["names"] = rng.sample(NAMES, len(it["kinds"]))
        it["dtypes"] = [rng.choice(["int64", "int64", "float32", "string"]) for _ in it["kinds"]]
        it["inner"] = [rng.choice([[], [], [1], [2], [2, 1]]) if k == "d" else [] for k in it["kinds"]]
        it["order"] = rng.sample(it["outs"], len(it["outs"]))
        it["mappers"] = sorted(rng.sample(every, 5))
        it["cut2"], it["size"], it["batches"] = cut2, rng.randint(1, 5), rng.random() < .5
    ctx.sample(*[dict(prog=i["prog"], outs=i["outs"], train=i["train"]) for i in sim[:2]])
    return sim


def check_routes(ctx):
    q = ctx.quick
    items = generate(ctx, 48 if q else 600, 6)
    ctx.replay("serving.routes", items, timeout=800 if q else 12000, label="programs by every route")


def check_dependencies(ctx):
    q = ctx.quick
    items = generate(ctx, 160 if q else 4000, 8)
    ctx.replay("serving.inspect", items, timeout=600 if q else 6000, label="programs inspected")
    ctx.replay("serving.partial", items[:40 if q else 800], timeout=800 if q else 8000, label="programs served in part")
