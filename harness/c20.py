"""C20: text and set mappers (spec/TextOps.tla)."""

import uuid


# ------------------------------------------------------------ in the worker
def run(item, shared):
    import numpy as np
    import tensorflow as tf
    import tensorflow_transform as tft

    conf, rows = item["conf"], item["rows"]
    rng_ = (conf["lo"], conf["hi"])
    problems, steps = [], 0
    desc = ""

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; {desc}"))

    def text(x):
        return [t.encode() for t in x]

    def sparse(b, width, kind=tf.string):
        ix = [[r, c] for r, row in enumerate(b) for c, _ in row["row"]]
        v = [t for row in b for _, t in row["row"]]
        return tf.SparseTensor(tf.constant(np.array(ix, np.int64).reshape(-1, 2)), tf.constant(text(v), tf.string),
                               tf.constant([len(b), width], tf.int64))

    def by_row(t, k, key, ordered=True):
        """Rows of a sparse result; checks that it is well formed."""
        nonlocal steps
        ix, v = t.indices.numpy().tolist(), t.values.numpy().tolist()
        shape = t.dense_shape.numpy().tolist()
        out = [[] for _ in range(k)]
        if len(ix) != len(v) or len(shape) != 2 or shape[0] != k:
            bad(key, f"result has shape {shape}, {len(ix)} indices and {len(v)} values for {k} rows")
            return None
        for (r, c), x in zip(ix, v):
            if not 0 <= r < k or c != len(out[r]) or c >= shape[1]:
                bad(key, f"index {[r, c]} out of order in {ix}, shape {shape}")
                return None
            out[r].append(x)
        if ix != sorted(ix):
            bad(key, f"indices are not in order: {ix}")
        steps += k
        return out

    def compare(key, got, want, as_set=False):
        if got is None:
            return
        for g, w in zip(got, want):
            if (sorted(g) != sorted(w)) if as_set else g != w:
                bad(key, f"{g}, want {w}")
                return

    sig = tf.SparseTensorSpec([None, None], tf.string)
    fns = dict(
        ngrams=lambda x: tft.ngrams(x, rng_, conf["sep"]),
        bag=lambda x: tft.bag_of_words(x, rng_, conf["sep"]),
        count=tft.word_count,
        dedup=tft.deduplicate_tensor_per_row,
        align=tft.sparse_tensor_left_align,
        hash=lambda x: tft.hash_strings(x, 7),
        dense=lambda x: tft.sparse_tensor_to_dense_with_shape(x, [None, item["width"]], default_value="-"))
    if item["mode"] == "function":
        fns = {k: tf.function(f, input_signature=[sig]) for k, f in fns.items()}
    done = 0
    for n in item["sizes"]:
        b = rows[done:done + n]
        done += n
        width = item["width"]
        desc = f"rows {[r['row'] for r in b]}, n-grams {rng_} joined by {conf['sep']!r}, {item['mode']}"
        x = sparse(b, width)
        toks = [text(t for _, t in r["row"]) for r in b]
        flat = [t for r in toks for t in r]
        lens = [len(t) for t in toks]
        ragged = tf.RaggedTensor.from_row_lengths(tf.constant(flat, tf.string), tf.constant(lens, tf.int64))
        dense = [text(r["dense"][:width]) for r in b]
        try:
            compare("ngrams", by_row(fns["ngrams"](x), n, "ngrams"), [text(r["grams"]) for r in b])
            try:
                compare("bag-of-words", by_row(fns["bag"](x), n, "bag-of-words"), [text(r["bag"]) for r in b], True)
            except tf.errors.InvalidArgumentError as e:
                bad("eager-empty-batch" if n == 0 and item["mode"] == "eager" else "exception", str(e)[:400])
            try:
                compare("deduplicate", by_row(fns["dedup"](x), n, "deduplicate"), [text(r["unique"]) for r in b], True)
            except tf.errors.InvalidArgumentError as e:
                bad("eager-empty-batch" if n == 0 and item["mode"] == "eager" else "exception", str(e)[:400])
            compare("left-align", by_row(fns["align"](x), n, "left-align"), toks)
            if fns["align"](x).dense_shape.numpy().tolist() != [n, width]:
                bad("left-align", "the shape changed")
            for c in (fns["count"](x), tft.word_count(ragged)):
                steps += n
                if c.numpy().tolist() != lens or c.dtype != tf.int64:
                    bad("word-count", f"{c}, want {lens}")
            got = fns["dense"](x).numpy()
            if got.shape != (n, width) or got.tolist() != dense:
                bad("densify", f"{got.tolist()}, want {dense}")
            dedup = tf.function(tft.deduplicate_tensor_per_row, reduce_retracing=True) if n == 0 else tft.deduplicate_tensor_per_row
            full = tf.constant(np.array(dense, dtype=object).reshape(n, width), tf.string)
            want = [list(dict.fromkeys(r)) for r in dense]
            compare("deduplicate", by_row(dedup(full), n, "deduplicate"), want, True)
            one = tf.constant([r[0] for r in dense], tf.string)
            compare("deduplicate", by_row(dedup(one), n, "deduplicate"), [[r[0]] for r in dense])
            # three dimensions: rows of rows
            deep = tf.SparseTensor(tf.concat([x.indices[:, :1], x.indices[:, 1:] // 2, x.indices[:, 1:] % 2], 1), x.values,
                                   tf.constant([n, (width + 1) // 2, 2], tf.int64))
            if tft.word_count(deep).numpy().tolist() != lens:
                bad("word-count", f"{tft.word_count(deep)} in three dimensions, want {lens}")
            # hashes go with the token, in every structure
            table = dict(zip(flat, tf.strings.to_hash_bucket_fast(flat, 7).numpy().tolist())) if flat else {}
            strong = dict(zip(flat, tf.strings.to_hash_bucket_strong(flat, 7, [3, 5]).numpy().tolist())) if flat else {}
            h = fns["hash"](x)
            compare("hash", [h.indices.numpy().tolist(), h.dense_shape.numpy().tolist(), h.values.numpy().tolist()],
                    [x.indices.numpy().tolist(), [n, width], [table[t] for t in flat]])
            compare("hash", [tft.hash_strings(ragged, 7).to_list(), tft.hash_strings(ragged, 7, key=[3, 5]).to_list()],
                    [[[table[t] for t in r] for r in toks], [[strong[t] for t in r] for r in toks]])
            compare("hash", [tft.hash_strings(tf.constant(flat, tf.string), 7).numpy().tolist()], [[table[t] for t in flat]])
        except Exception as e:  # pylint: disable=broad-except
            bad("exception", f"{type(e).__name__}: {str(e)[:400]}")
            break
    # positions within segments, also those with gaps between the numbers
    for ty in (tf.int32, tf.int64):
        for ids in (item["seg"]["ids"], [3 * i for i in item["seg"]["ids"]]):
            desc = f"{ids} {ty}"
            got = tft.segment_indices(tf.constant(ids, ty))
            steps += 1
            if got.numpy().tolist() != item["seg"]["pos"] or got.dtype != ty:
                bad("segment-indices", f"{got}, want {item['seg']['pos']}")
    return dict(problems=problems[:10], steps=steps)


def corpus(item, shared):
    import math
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    conf, rows = item["conf"], item["rows"]
    v, lo, hi, sep = conf["vocab"], conf["lo"], conf["hi"], conf["sep"]
    spec = dict(i=tf.io.FixedLenFeature([], tf.int64), t=tf.io.VarLenFeature(tf.int64),
                x=tf.io.SparseFeature("x_i", "x_v", tf.string, item["width"]) if item["holes"] else tf.io.VarLenFeature(tf.string))
    data = []
    for i, (r, t) in enumerate(zip(rows, item["terms"])):
        row = dict(i=i, t=t)
        if item["holes"]:
            row.update(x_i=[c for c, _ in r["row"]], x_v=[y for _, y in r["row"]])
        else:
            row["x"] = [y for _, y in r["row"]]
        data.append(row)

    def fn(inputs):
        x, t = inputs["x"], inputs["t"]
        term, weight = tft.tfidf(t, v)
        term2, weight2 = tft.tfidf(t, v, smooth=False)
        return dict(i=inputs["i"], term=term, weight=weight, term2=term2, weight2=weight2,
                    grams=tft.ngrams(x, (lo, hi), sep), bag=tft.bag_of_words(x, (lo, hi), sep),
                    count=tft.word_count(x), unique=tft.deduplicate_tensor_per_row(x), align=tft.sparse_tensor_left_align(x))

    problems, steps = [], 0

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; rows {[r['row'] for r in rows]}, terms {item['terms']}, {conf}, "
                                           f"batches {item['sizes']}"))

    tag = uuid.uuid4().hex
    with pipe.scratch() as d:
        try:
            with pipe.pipeline() as p:
                with tft_beam.Context(temp_dir=d, force_tf_compat_v1=item["v1"]):
                    cfg = pipe.adapter_config(spec)
                    tfn = (pipe.pcoll(p, spec, pipe.split(data, item["sizes"]), "data"), cfg) | tft_beam.AnalyzeDataset(fn)
                    again = pipe.pcoll(p, spec, pipe.split(data, item["again"]), "again")
                    res, _ = ((again, cfg), tfn) | tft_beam.TransformDataset()
                    pipe.sink(res, tag, "sink")
        except Exception as e:  # pylint: disable=broad-except
            bad("exception", f"{type(e).__name__}: {str(e)[:400]}")
            return dict(problems=problems, steps=1)
    out = sorted(pipe.OUT.pop(tag, []), key=lambda r: r["i"])
    if [r["i"] for r in out] != list(range(len(rows))):
        bad("rows", f"{[r['i'] for r in out]}")
        return dict(problems=problems, steps=1)
    n = item["n"]
    for r, want in zip(out, rows):
        for smooth, (a, b) in ((True, ("term", "weight")), (False, ("term2", "weight2"))):
            got = dict(zip(list(r[a]), [float(w) for w in r[b]]))
            exp = {}
            for t, c, size in want["tf"]:
                df = item["df"][t]
                exp[t] = c / size * (1 + math.log((n + 1) / (df + 1) if smooth else n / df))
            steps += 1
            if len(r[a]) != len(exp) or len(r[b]) != len(exp) or set(got) != set(exp) or \
                    any(abs(got[t] - exp[t]) > 1e-5 * max(1, abs(exp[t])) for t in exp):
                bad("tfidf", f"{got}, want {exp} (smooth={smooth}, terms {item['terms'][r['i']]})")
        steps += 5
        for col, w in (("grams", want["grams"]), ("align", [t for _, t in want["row"]])):
            if list(r[col]) != [t.encode() for t in w]:
                bad(col, f"{r[col]}, want {w}")
        for col in ("bag", "unique"):
            if sorted(r[col]) != sorted(t.encode() for t in want[col]):
                bad(col, f"{r[col]}, want {want[col]}")
        if r["count"] != len(want["row"]):
            bad("word-count", f"{r['count']}, want {len(want['row'])}")
    return dict(problems=problems[:10], steps=steps)


# ------------------------------------------------------------- orchestration
INV = ["RowWise", "Counted", "Unigrams", "Frequencies", "Densified"]


def check(ctx):
    q = ctx.quick
    n, m = (400, 48) if q else (8000, 800)
    small = dict(Tokens='{"a", "b"}' if q else '{"a", "b", ""}', Seps='{"_"}', Ranges="{<<1, 1>>, <<1, 2>>, <<2, 3>>}", Terms="{0}", Sizes="{1, 2}",
                 MaxRows="2" if q else "3", MaxLen="2", MaxBatch="2", Sim="FALSE")
    big = dict(Tokens='{"a", "b", "", "ab", "a b", "x_y"}', Seps='{"", " ", "_", "ab"}',
               Ranges="{<<1, 1>>, <<1, 2>>, <<2, 2>>, <<1, 3>>, <<2, 4>>, <<3, 3>>, <<5, 6>>}", Terms="{-3, -1, 0, 1, 2, 3, 5}", Sizes="{1, 2, 3, 5}",
               MaxRows="7", MaxLen="5", MaxBatch="4", Sim="TRUE")
    _, sim = ctx.tlc_many([
        dict(module="TextOps", name="TextOps_all", constants=small, invariants=INV, workers=6, timeout=3000),
        dict(module="TextOps", name="TextOps_sim", constants=big, simulate=n, depth=30, invariants=INV + ["Emit"], timeout=3000)])
    rng, ops, programs = ctx.rng, [], []
    for k, it in enumerate(sim):
        it["width"] = 7
        ops.append(dict(it, mode=["eager", "function", "eager"][k % 3]))
        if it["n"] and len(programs) < m:
            holes = rng.random() < .4
            cut, left = [], it["n"]
            while left or rng.random() < .2:
                cut.append(rng.randint(0, left))
                left -= cut[-1]
            programs.append(dict(it, holes=holes, again=cut, v1=rng.random() < .4))
    ctx.sample(*[dict(conf=i["conf"], sizes=i["sizes"], rows=i["rows"][:2]) for i in sim[:2]])
    ctx.replay("c20.run", ops, timeout=600 if q else 6000, label="batches")
    ctx.replay("c20.corpus", programs, timeout=800 if q else 6000, label="corpora")
