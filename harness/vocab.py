"""Replays of spec/Vocab.tla: vocabularies (C08) and lookups in them (C09)."""

import gzip
import hashlib
import math
import os
import struct
import uuid

STRINGS = [b"", b"a\nb", b"a\rb", b"a b", b"aa ", b"ab", b"b\t", b"ba", "\u00e9".encode(), b"zz", b"A"]
INTS = [None, None, None, -7, 100, 20, 3, 5, 9, 12345, -2]
NT = 9            # tokens 0..8 may occur; 9 and 10 are only asked for
RES = [b"<pad>", b"<unk>"]
DUMMY = {"string": b"49d0cd50-04bb-48c0-bc6f-5b575dce351a", "int": b"-1"}


def last(term):
    """The coverage key; spaces at the end (or what replaces them) don't count."""
    space = b"__SPACE__" if isinstance(term, bytes) else "__SPACE__"
    return term.replace(space, space[:0]).strip()[-1:]


def hashes(kind):
    """Fingerprint order and coverage key of every token."""
    names = [token(t, kind) for t in range(NT)]
    order = sorted(range(NT), key=lambda t: hashlib.sha1(names[t]).digest())
    keys = sorted({last(n) for n in names})
    return [order.index(t) for t in range(NT)], [keys.index(last(n)) for n in names]


def token(t, kind):
    if t >= 50:
        return RES[t - 50]
    if kind == "int":
        return str(INTS[t]).encode() if INTS[t] is not None else b"x%d" % t
    return STRINGS[t]


def value(t, kind):
    return INTS[t] if kind == "int" else STRINGS[t]


def read_vocab(path, store, fmt):
    if fmt == "text":
        data = open(path, "rb").read()
        lines = data.split(b"\n")
        assert lines[-1] == b"", "file does not end with a newline"
        recs = lines[:-1]
    else:
        data = gzip.open(path, "rb").read()
        recs, k = [], 0
        while k < len(data):
            (n,) = struct.unpack("<Q", data[k:k + 8])
            recs.append(data[k + 12:k + 12 + n])
            k += 16 + n
    if store:
        return [(float(r.split(b" ", 1)[0]), r.split(b" ", 1)[1]) for r in recs]
    return [(None, r) for r in recs]


def feature_spec(shape, dtype, n):
    import tensorflow as tf
    ty = tf.int64 if dtype == "int" else tf.string
    if shape == "dense":
        return dict(x=tf.io.FixedLenFeature([n], ty), w=tf.io.FixedLenFeature([n], tf.float32),
                    i=tf.io.FixedLenFeature([], tf.int64))
    if shape == "sparse":
        return dict(x=tf.io.VarLenFeature(ty), w=tf.io.VarLenFeature(tf.float32),
                    i=tf.io.FixedLenFeature([], tf.int64))
    return dict(x=tf.io.RaggedFeature(ty, row_splits_dtype=tf.int64),
                w=tf.io.RaggedFeature(tf.float32, row_splits_dtype=tf.int64),
                i=tf.io.FixedLenFeature([], tf.int64))


def weights_of(inputs, shape):
    w = inputs["w"]
    return w if shape == "dense" else w.values


def rows_of(item):
    return [dict(i=n, x=[value(t, item["dtype"]) for t in r["t"]], w=[v * item.get("unit", 1.0) for v in r["w"]])
            for n, r in enumerate(item["rows"])]


def vocab_kwargs(o, inputs, shape, name):
    import tensorflow as tf
    kw = dict(vocab_filename=name, store_frequency=o["store"], file_format=o["fmt"])
    unit = o.get("unit", 1) if o["w"] else 1
    if o["thr"] != -1:
        kw["frequency_threshold"] = o["thr"] * unit
    if o["topk"] != -1:
        kw["top_k"] = o["topk"]
    if o["covk"] != -1:
        kw["coverage_top_k"] = o["covk"]
    if o["covt"] != -1:
        kw["coverage_frequency_threshold"] = o["covt"] * unit
    if "coverage_top_k" in kw or "coverage_frequency_threshold" in kw:
        kw["key_fn"] = last
    if o["res"]:
        kw["reserved_tokens"] = [token(t, o["dtype"]) for t in o["res"]]
        if o["topk"] == 2:
            kw["reserved_tokens"] = tf.constant(kw["reserved_tokens"])
    if o["w"]:
        kw["weights"] = weights_of(inputs, shape)
    if o["shuf"]:
        kw["fingerprint_shuffle"] = True
    return kw


APPROX = ("vocab_filename", "store_frequency", "file_format", "reserved_tokens", "weights")


def can_approx(o):
    return (o["thr"] == -1 and o["covk"] == -1 and o["covt"] == -1 and not o["shuf"] and o["topk"] == -1)


def vname(k):
    return f"v{k}" if k % 3 else f"a dir/v {k}"


def expected_file(c, dtype):
    f = c["file"]
    if f["dummy"]:
        return [(1.0, DUMMY[dtype])]
    return ([(-1.0, token(t, dtype)) for t in f["res"]]
            + [(float(n), token(t, dtype)) for t, n in zip(f["toks"], c["counts"])])


def size_problem(what, c, size, entries):
    if size == entries:
        return []
    if c["o"]["res"] and size == c["recorded"]:
        # predicted by the specification: tokens that are also reserved, or an
        # empty selection, are counted again
        return [dict(key="reserved-size", what=f"{what}: recorded size {size}, file has {entries} entries")]
    return [dict(key="size", what=f"{what}: recorded size {size}, file has {entries} entries")]


def compute(item, shared):
    """C08: files and sizes."""
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    shape, dtype = item["shape"], item["dtype"]
    rows = rows_of(item)
    n = len(item["rows"][0]["t"]) if rows else 1
    spec = feature_spec(shape, dtype, n)
    cfg = pipe.adapter_config(spec)
    cases = item["cases"]
    for c in cases:
        c["o"]["dtype"] = dtype
        if c["o"]["w"]:
            # the same weights and thresholds in another unit
            u = c["o"]["unit"] = item["unit"]
            c["counts"] = [x * u for x in c["counts"]]
            c["all"] = [x * u for x in c["all"]]

    def fn(inputs):
        out = dict(i=inputs["i"])
        for k, c in enumerate(cases):
            kw = vocab_kwargs(c["o"], inputs, shape, vname(k))
            if c["approx"]:
                tft.experimental.approximate_vocabulary(
                    inputs["x"], top_k=c["approx"], **{a: v for a, v in kw.items() if a in APPROX})
            else:
                tft.vocabulary(inputs["x"], **kw)
                if k == 0:
                    out["size"] = pipe.per_row(tft.experimental.get_vocabulary_size_by_name(vname(k)),
                                               inputs["i"])
        return out

    tag = uuid.uuid4().hex
    problems, steps = [], 0
    with pipe.scratch() as d:
        outdir = os.path.join(d, "out")
        with pipe.pipeline() as p:
            with tft_beam.Context(temp_dir=os.path.join(d, "tmp"), force_tf_compat_v1=item["v1"]):
                data = pipe.pcoll(p, spec, pipe.split(rows, item["cut"]), "data")
                tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
                _ = tfn | tft_beam.WriteTransformFn(outdir)
                if item["sizes"]:
                    one = pipe.pcoll(p, spec, [rows[:1]], "one")
                    res, _ = ((one, cfg), tfn) | tft_beam.TransformDataset()
                    pipe.sink(res, tag, "sink")
        tfo = tft.TFTransformOutput(outdir)
        got = pipe.OUT.pop(tag, [])
        for k, c in enumerate(cases):
            steps += 1
            o = c["o"]
            what = (f"{'approximate ' + str(c['approx']) if c['approx'] else 'vocabulary'} {o} of {item['rows']} "
                    f"({dtype} {shape}, batches {item['cut']})")
            path = tfo.vocabulary_file_by_name(vname(k))
            if path is None or not os.path.exists(path):
                problems.append(dict(key="file", what=f"{what}: no file"))
                continue
            file = read_vocab(path, o["store"], o["fmt"])
            toks = [t for _, t in file]
            if c["approx"] and c["approx"] < 20:
                problems += approx_bounds(what, c, file, dtype)
            else:
                want = expected_file(c, dtype)
                wt = [t for _, t in want]
                alt = wt + [DUMMY[dtype]] if c["hidden"] and o["res"] and not c["file"]["toks"] else wt
                if c["approx"] and o["w"]:
                    # a sketch may drop tokens whose weights are all zero
                    zero = {token(t, dtype) for t, n in zip(c["file"]["toks"], c["counts"]) if n == 0}
                    drop = [j for j, t in enumerate(wt) if t in zero and t not in toks]
                    if drop and len(drop) == len(wt):
                        drop, wt, want = [], [DUMMY[dtype]], [(1.0, DUMMY[dtype])]
                    alt = wt = [t for j, t in enumerate(wt) if j not in drop]
                    want = [e for j, e in enumerate(want) if j not in drop]
                if toks not in (wt, alt):
                    key = "tokens" if sorted(toks) != sorted(wt) else "order"
                    problems.append(dict(key=key, what=f"{what}: file has {toks}, want {wt}"))
                elif o["store"] and toks == wt and [x for x, _ in file] != [x for x, _ in want]:
                    problems.append(dict(key="counts", what=f"{what}: counts {[x for x, _ in file]}, want "
                                         f"{[x for x, _ in want]}"))
            problems += size_problem(what, c, tfo.vocabulary_size_by_name(vname(k)), len(file))
            if k == 0 and got and not c["approx"]:
                problems += size_problem(what + " (tensor)", c, int(got[0]["size"]), len(file))
            listed = tfo.vocabulary_by_name(vname(k))
            raw = [t for _, t in read_vocab(path, False, o["fmt"])]
            if listed != raw:
                problems.append(dict(key="listed", what=f"{what}: vocabulary_by_name gives {listed}, file {raw}"))
    return dict(problems=problems, steps=steps)


def approx_bounds(what, c, file, dtype):
    k = c["approx"]
    toks = [t for _, t in file]
    res = [token(t, dtype) for t in c["o"]["res"]]
    body = file[len(res):]
    true = {token(t, dtype): n for t, n in enumerate(c["all"])}
    out = []
    if toks[:len(res)] != res or len(set(toks)) != len(toks):
        out.append("reserved or repeated tokens wrong")
    real = {t: n for t, n in true.items() if n > 0}
    if [t for _, t in body] == [DUMMY[dtype]] and not set(real) - set(res):
        return []
    if any(t not in real for _, t in body):
        out.append("tokens that are not in the data")
    if c["o"]["store"]:
        m, low = sum(real.values()), sum(n for n, _ in body)
        if not res:
            delta = (m - low) / (k + 1)
            for n, t in body:
                if not (n <= real.get(t, 0) + 1e-6 and real.get(t, 0) <= n + delta + 1e-6):
                    out.append(f"count {n} of {t} outside its bounds (true {real.get(t)}, delta {delta})")
        if body != sorted(body, reverse=True):
            out.append("order")
    return [dict(key="approx", what=f"{what}: {x}: {file}, true {real}") for x in out]


# --------------------------------------------------------------------- MI
def mutual_information(n, x, y, nxy, min_diff, adjusted):
    """Definition over counts: x rows with the token, y rows per label, nxy both."""
    if x == n or x == 0:
        return 0.0
    if min_diff is None:
        min_diff = 2
    total = 0.0
    for yj, nij in zip(y, nxy):
        if yj == 0:
            continue
        if min_diff and abs(abs(x * yj / n - nij) - min_diff) < 1e-4:
            return None   # decided by rounding
        if abs(x * yj / n - nij) < min_diff:
            continue
        if nij:
            total += nij * math.log2(nij * n / (x * yj))
        if adjusted:
            for k in range(max(0, x + yj - n), min(x, yj) + 1):
                if k:
                    p = math.comb(yj, k) * math.comb(n - yj, x - k) / math.comb(n, x)
                    total -= p * k * math.log2(k * n / (x * yj))
    return total


def labelled(item, shared):
    """C08 with labels: tokens ranked by mutual information."""
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    dtype = item["dtype"]
    ty = tf.int64 if dtype == "int" else tf.string
    spec = dict(x=tf.io.VarLenFeature(ty) if item["shape"] == "sparse" else tf.io.FixedLenFeature([], ty),
                y=tf.io.FixedLenFeature([], tf.int64), w=tf.io.FixedLenFeature([], tf.float32))
    cfg = pipe.adapter_config(spec)
    rows = [dict(x=[value(t, dtype) for t in r["t"]], y=r["y"], w=float(r["w"])) for r in item["rows"]]
    problems, steps = [], 0
    cases = item["cases"]

    def fn(inputs):
        for k, c in enumerate(cases):
            kw = dict(top_k=c["topk"], frequency_threshold=c["thr"], use_adjusted_mutual_info=c["adj"],
                      min_diff_from_avg=c["diff"])
            kw = {a: b for a, b in kw.items() if b is not None}
            if item["weighted"]:
                kw["weights"] = inputs["w"]
            tft.vocabulary(inputs["x"], labels=inputs["y"], vocab_filename=f"v{k}", store_frequency=True, **kw)
        return dict(y=inputs["y"])

    with pipe.scratch() as d:
        outdir = os.path.join(d, "out")
        with pipe.pipeline() as p:
            with tft_beam.Context(temp_dir=os.path.join(d, "tmp"), force_tf_compat_v1=item["v1"]):
                data = pipe.pcoll(p, spec, pipe.split(rows, item["cut"]), "data")
                tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
                _ = tfn | tft_beam.WriteTransformFn(outdir)
        tfo = tft.TFTransformOutput(outdir)
        for k, c in enumerate(cases):
            steps += 1
            what = f"labelled {c} of {item['rows']} (batches {item['cut']}, weighted {item['weighted']})"
            file = read_vocab(tfo.vocabulary_file_by_name(f"v{k}"), True, "text")
            score = {token(t, dtype): mutual_information(item["n"], item["x"][t], item["y"], item["xy"][t],
                                                         c["diff"], c["adj"])
                     for t in range(NT) if item["present"][t]}
            if None in score.values():
                steps -= 1
                continue
            eps = 2e-4 * max(1, item["n"])
            bad = judge_scores(file, score, c, eps, dtype)
            problems += [dict(key="labels", what=f"{what}: {b}: file {file}, want {score}") for b in bad]
            if tfo.vocabulary_size_by_name(f"v{k}") != len(file):
                problems.append(dict(key="size", what=f"{what}: size {tfo.vocabulary_size_by_name(f'v{k}')}"))
    return dict(problems=problems, steps=steps)


def judge_scores(file, score, c, eps, dtype):
    toks = [t for _, t in file]
    out = []
    thr = c["thr"]
    surely = {t for t, s in score.items() if thr is None or s >= thr + eps}
    maybe = {t for t, s in score.items() if thr is None or s >= thr - eps}
    if not surely and toks == [DUMMY[dtype]]:
        return []
    if len(set(toks)) != len(toks):
        out.append("repeated tokens")
    if not set(toks) <= maybe:
        out.append(f"tokens {set(toks) - maybe} should not be there")
    k = c["topk"]
    if k is None:
        if not surely <= set(toks):
            out.append(f"tokens {surely - set(toks)} are missing")
    else:
        if len(toks) > k or len(toks) < min(k, len(surely)):
            out.append(f"{len(toks)} tokens")
        worst = min([score.get(t, -9) for t in toks] or [0])
        if any(score[t] > worst + 2 * eps for t in surely - set(toks)):
            out.append("a more informative token is missing")
    for s, t in file:
        if t in score and abs(s - score[t]) > eps:
            out.append(f"score of {t} is {s}, want {score[t]}")
    if file != sorted(file, reverse=True):
        out.append("order")
    return out


# ------------------------------------------------------------------- C09
def lookups(item, shared):
    import tensorflow as tf
    import tensorflow_transform as tft
    import tensorflow_transform.beam as tft_beam
    from harness import pipe

    shape, dtype = item["shape"], item["dtype"]
    rows = rows_of(item)
    n = len(item["rows"][0]["t"]) if rows else 1
    spec = feature_spec(shape, dtype, n)
    cfg = pipe.adapter_config(spec)
    # the queries, as rows of another shape
    qshape = item["qshape"]
    qn = len(item["q"][0]) if item["q"] else 1
    queries = [dict(i=k, x=[value(t, dtype) for t in r], w=[0.0] * len(r)) for k, r in enumerate(item["q"])]
    cases = item["cases"]
    for c in cases:
        c["o"]["dtype"] = dtype

    def fn(inputs):
        out = dict(i=inputs["i"])
        for k, c in enumerate(cases):
            o = c["o"]
            kw = vocab_kwargs(o, inputs, shape, vname(k))
            app = dict(default_value=o["dflt"], num_oov_buckets=o["oov"])
            if c["how"] == "both":
                r = tft.compute_and_apply_vocabulary(inputs["x"], **kw, **app)
            elif c["how"] == "approx":
                r = tft.experimental.compute_and_apply_approximate_vocabulary(
                    inputs["x"], top_k=30, **{a: v for a, v in kw.items() if a in APPROX}, **app)
            elif c["how"] == "fn":
                v = tft.vocabulary(inputs["x"], **kw)

                def look(x, path):
                    table = tf.lookup.StaticHashTable(tf.lookup.TextFileInitializer(
                        path, x.dtype, tf.lookup.TextFileIndex.WHOLE_LINE, tf.int64,
                        tf.lookup.TextFileIndex.LINE_NUMBER), o["dflt"])
                    if isinstance(x, tf.SparseTensor):
                        return tf.SparseTensor(x.indices, table.lookup(x.values), x.dense_shape), table.size()
                    if isinstance(x, tf.RaggedTensor):
                        return tf.ragged.map_flat_values(table.lookup, x), table.size()
                    return table.lookup(x), table.size()
                r = tft.apply_vocabulary(inputs["x"], v, lookup_fn=look, **app)
            else:
                v = tft.vocabulary(inputs["x"], **kw)
                r = tft.apply_vocabulary(inputs["x"], v, file_format=o["fmt"], **app)
            out[f"r{k}"] = r
            if shape == "dense":
                out[f"n{k}"] = pipe.per_row(tft.get_num_buckets_for_transformed_feature(r), inputs["i"])
        return out

    tag = uuid.uuid4().hex
    problems, steps = [], 0
    with pipe.scratch() as d:
        outdir = os.path.join(d, "out")
        with pipe.pipeline() as p:
            with tft_beam.Context(temp_dir=os.path.join(d, "tmp"), force_tf_compat_v1=item["v1"]):
                data = pipe.pcoll(p, spec, pipe.split(rows, item["cut"]), "data")
                tfn = (data, cfg) | tft_beam.AnalyzeDataset(fn)
                _ = tfn | tft_beam.WriteTransformFn(outdir)
                q = pipe.pcoll(p, spec, pipe.split(queries, item["qcut"]), "queries")
                res, _ = ((q, cfg), tfn) | tft_beam.TransformDataset()
                pipe.sink(res, tag, "sink")
        got = sorted(pipe.OUT.pop(tag, []), key=lambda r: int(r["i"]))
        tfo = tft.TFTransformOutput(outdir)
        domains = tfo.transformed_domains()
        if [int(r["i"]) for r in got] != list(range(len(queries))):
            return dict(problems=[dict(key="rows", what=f"rows {got} for {queries}")], steps=0)
        hashed = {}
        for k, c in enumerate(cases):
            o = c["o"]
            what = f"{c['how']} {o} of {item['rows']} ({dtype} {shape})"
            file = read_vocab(tfo.vocabulary_file_by_name(vname(k)), o["store"], o["fmt"])
            toks = [t for _, t in file]
            size = len(toks)
            listed = tfo.vocabulary_by_name(vname(k))
            raw = [t for _, t in read_vocab(tfo.vocabulary_file_by_name(vname(k)), False, o["fmt"])]
            if listed != raw:
                problems.append(dict(key="listed", what=f"{what}: vocabulary_by_name gives {listed}, file {raw}"))
            if not o["res"] and tfo.vocabulary_size_by_name(vname(k)) != size:  # (with reserved tokens: C08)
                problems.append(dict(key="size", what=f"{what}: size {tfo.vocabulary_size_by_name(vname(k))}, {size} lines"))
            index = {t: j for j, t in enumerate(toks)}
            tweak = (lambda t: t.replace(b" ", b"__SPACE__")) if o["store"] and o["fmt"] == "text" and dtype == "string" \
                else (lambda t: t)
            if toks[:len(o["res"])] != [tweak(token(t, dtype)) for t in o["res"]] and c["how"] in ("both", "approx"):
                problems.append(dict(key="reserved", what=f"{what}: file {toks} can't give the reserved tokens' places"))
            dom = domains.get(f"r{k}")
            want_dom = (0, size + o["oov"] - 1) if o["oov"] > 0 else (min(0, o["dflt"]), max(size - 1, o["dflt"]))
            if dom is None or (dom.min, dom.max) != want_dom:
                problems.append(dict(key="domain", what=f"{what}: domain {dom}, want {want_dom}"))
            if not o["res"] and c["how"] != "approx" and want_dom != tuple(c["domain"]):
                problems.append(dict(key="domain", what=f"{what}: domain {dom}, specification {c['domain']}"))
            if want_dom[0] == 0 and tfo.num_buckets_for_transformed_feature(f"r{k}") != want_dom[1] + 1:
                problems.append(dict(key="buckets", what=f"{what}: number of buckets "
                                     f"{tfo.num_buckets_for_transformed_feature(f'r{k}')}"))
            for r, q in zip(got, item["q"]):
                vals = r[f"r{k}"] if f"r{k}" in r else r[f"r{k}$ragged_values"]
                vals = [int(v) for v in (vals.tolist() if hasattr(vals, "tolist") else vals or [])] \
                    if vals is not None else []
                steps += 1
                if len(vals) != len(q):
                    problems.append(dict(key="structure", what=f"{what}: row {q} gives {vals}"))
                    continue
                if f"n{k}" in r and int(r[f"n{k}"]) != want_dom[1] + 1:
                    problems.append(dict(key="buckets", what=f"{what}: tensor says {r[f'n{k}']} buckets"))
                for t, v in zip(q, vals):
                    name = tweak(token(t, dtype))
                    if name in index:
                        # the file decides, and the specification agrees with it
                        if v != index[name]:
                            problems.append(dict(key="index", what=f"{what}: {name} maps to {v}, line {index[name]}"))
                        # (a replaced space changes the fingerprint)
                        if not (o["res"] or c["how"] == "approx" or o["shuf"] and o["store"]) \
                                and c["lookup"][t] != index[name]:
                            problems.append(dict(key="index", what=f"{what}: {name} is on line {index[name]}, "
                                                 f"specification {c['lookup'][t]}"))
                    elif o["oov"] > 0:
                        if not size <= v < size + o["oov"]:
                            problems.append(dict(key="oov", what=f"{what}: {name} maps to {v}, size {size}"))
                        h = hashed.setdefault((name, o["oov"]), v - size)
                        if h != v - size:
                            problems.append(dict(key="oov", what=f"{what}: {name} hashes to {v - size} and {h}"))
                    elif v != o["dflt"]:
                        problems.append(dict(key="default", what=f"{what}: {name} maps to {v}"))
                    elif c["lookup"][t] >= 0 and c["lookup"][t] != o["dflt"]:
                        problems.append(dict(key="index", what=f"{what}: {name} is missing from {toks}"))
    return dict(problems=problems[:6], steps=steps)


# ------------------------------------------------------------------ checks
def tla_fun(xs):
    return "[i \\in 0..%d |-> <<%s>>[i + 1]]" % (len(xs) - 1, ", ".join(map(str, xs)))


def data_sets(lo, maxrows, maxlen, fixed):
    """Random data for simulation: skewed towards repeated tokens."""
    row = (f"LET m == RandomElement({maxlen}..{maxlen}) IN " if fixed else
           f"LET m == RandomElement(0..{maxlen}) IN ")
    return ("{[i \\in 1..n |-> " + row
            + f"[t |-> [j \\in 1..m |-> RandomElement({{RandomElement({lo}..8), RandomElement(4..7), 4, 6}})], "
            + "w |-> [j \\in 1..m |-> RandomElement(0..3)]]] : n \\in {RandomElement(1..%d)}}" % maxrows)


def option_set(c08, dtype):
    fm = '"text", "tfrecord_gzip"'
    return ('{[thr |-> RandomElement({-1, -1, 0, 2, 3, 5}), topk |-> RandomElement({-1, -1, 1, 2, 3, 20}), '
            'covk |-> IF RandomElement(1..3) = 1 THEN RandomElement({-1, 1, 2}) ELSE -1, '
            'covt |-> IF RandomElement(1..3) = 1 THEN RandomElement({-1, 1, 2, 3}) ELSE -1, '
            + ('res |-> RandomElement({<<>>, <<>>, <<50>>, <<51, 6>>, <<4, 50, 7>>, <<8>>}), ' if dtype == "string"
               else 'res |-> RandomElement({<<>>, <<>>, <<6>>, <<7, 4>>}), ')
            + 'store |-> RandomElement({TRUE, FALSE}), shuf |-> RandomElement(1..4) = 1, '
            f'fmt |-> RandomElement({{{fm}}}), w |-> RandomElement(1..5) < 3, '
            'oov |-> RandomElement({0, 0, 1, 3}), dflt |-> RandomElement({-1, -1, -5, 0, 2, 40})] : x \\in {1}}')


def tlc_jobs(ctx, emit_per):
    inv = ["BatchingIrrelevant", "EachOnce", "TopIsTop", "Extends", "InDomain"]
    q = ctx.quick
    jobs = []
    h, k = hashes("string")
    base = dict(Tokens="0..8", Bad="{0, 1, 2}", Key=tla_fun(k), Hash=tla_fun(h), Queries="0..10")
    row = "[t |-> <<{}>>, w |-> <<{}>>]"
    small = ("{<<" + ", ".join([row.format("4, 5", "1, 2"), row.format("5, 2", "1, 1"), row.format("6", "3")]) + ">>, <<"
             + ", ".join([row.format("7, 4, 4", "1, 1, 0"), row.format("", ""), row.format("5, 7", "2, 2")]) + ">>}")
    opts = ('[thr: {-1, 2}, topk: {-1, 1, 2}, covk: {-1, 1}, covt: {-1, 2}, res: {<<>>, <<5>>}, store: {TRUE}, '
            'shuf: BOOLEAN, fmt: {"text"%s}, w: BOOLEAN, oov: {0, 1}, dflt: {%s}]'
            % (("", "3") if q else (', "tfrecord_gzip"', "-1, 3")))
    jobs.append(dict(module="Vocab", name="exhaustive", invariants=inv, workers=4,
                     constants=dict(base, Data=small, Options=opts, NOpts="1", Sim="FALSE")))
    for dtype in ("string", "int"):
        h, k = hashes(dtype)
        for fixed in (False, True):
            jobs.append(dict(
                module="Vocab", name=f"sim_{dtype}_{'dense' if fixed else 'ragged'}", invariants=inv + ["Emit"],
                simulate=emit_per, depth=60,
                constants=dict(base, Key=tla_fun(k), Hash=tla_fun(h), Data=data_sets(0 if dtype == "string" else 3,
                                                                                  9, 3, fixed),
                               Options=option_set(True, dtype), NOpts="5", Sim="TRUE")))
    return jobs


def behaviours(ctx, emit_per, extra=()):
    jobs = tlc_jobs(ctx, emit_per)
    res = ctx.tlc_many(jobs + list(extra))[1:]
    behaviours.extra = res[len(jobs) - 1:]
    out = []
    for vals, (dtype, fixed) in zip(res, [("string", 0), ("string", 1), ("int", 0), ("int", 1)]):
        for v in vals:
            shape = ctx.rng.choice(["dense", "dense", "sparse", "ragged"] if fixed else ["sparse", "ragged"])
            out.append(dict(v, dtype=dtype, shape=shape, v1=ctx.rng.random() < .35))
    ctx.rng.shuffle(out)
    return out


def check_c08(ctx):
    q = ctx.quick
    items = behaviours(ctx, 14 if q else 300, labelled_jobs(13 if q else 200))
    for it in items:
        it["sizes"] = ctx.rng.random() < .3
        it["unit"] = ctx.rng.choice([1.0, 0.5, 0.25])
        if it["shape"] == "ragged":
            it["v1"] = False
        for c in it["cases"]:
            c["approx"] = 0
            if can_approx(c["o"]) and ctx.rng.random() < .7:
                c["approx"] = ctx.rng.choice([50, 50, 2, 3])
    ctx.extra["vocabularies"] = sum(len(i["cases"]) for i in items)
    ctx.sample(*[dict(rows=i["rows"], case=i["cases"][0]) for i in items[:3]])
    lab = labelled_items(ctx, behaviours.extra[1:])
    ctx.replay("vocab.labelled", lab, timeout=400 if q else 3000, label="labelled vocabularies")
    ctx.replay("vocab.compute", items, timeout=700 if q else 6000, label="data sets")


def labelled_jobs(n):
    inv = ["BatchingIrrelevant", "Bounds"]
    data = ("{[i \\in 1..n |-> [t |-> {RandomElement(0..8)} \\cup (IF RandomElement(1..2) = 1 THEN {RandomElement(3..6)}"
            " ELSE {}) \\cup (IF RandomElement(1..6) > 1 THEN {8} ELSE {}), y |-> RandomElement({0, 1, RandomElement(0..3)}), w |-> RandomElement(0..3)]] : "
            "n \\in {RandomElement(2..14)}}")
    small = ("{<<" + ", ".join("[t |-> {%s}, y |-> %d, w |-> %d]" % r for r in
                             [("4, 5", 1, 2), ("5", 0, 1), ("6, 2", 2, 0), ("4", 1, 1)]) + ">>}")
    jobs = [dict(module="CoOccur", name="exhaustive_labels", invariants=inv, workers=2,
                 constants=dict(Tokens="0..8", Bad="{0, 1, 2}", Data=small, Weighted="BOOLEAN", Sim="FALSE"))]
    for one in ("TRUE", "FALSE"):
        jobs.append(dict(module="CoOccur", name="labels_" + one, invariants=inv + ["Emit"], simulate=n, depth=60,
                         constants=dict(Tokens="0..8", Bad="{0, 1, 2}", Sim="TRUE", Weighted=f"{{{one}}}",
                                        Data=data if one == "FALSE" else
                                        data.replace("{RandomElement(0..8)}", "{RandomElement({RandomElement(0..8), 5, 5})}").replace(
                                            "(IF RandomElement(1..2) = 1 THEN {RandomElement(3..6)} ELSE {})", "{}").replace(
                                                "(IF RandomElement(1..6) > 1 THEN {8} ELSE {})", "{}"))))
    return jobs


def labelled_items(ctx, res):
    items = []
    for v in res[0] + res[1]:
        if v["n"] == 0:
            continue
        weighted = v["weighted"]
        one = all(len(r["t"]) == 1 for r in v["rows"])
        if weighted and not one:
            continue
        items.append(dict(
            v, dtype="string", shape="dense" if one and (weighted or ctx.rng.random() < .5) else "sparse",
            v1=ctx.rng.random() < .3,
            cases=[dict(topk=ctx.rng.choice([None, None, None, 1, 2, 3]), thr=ctx.rng.choice([None, None, None, 0.5, 2.0]),
                        adj=ctx.rng.random() < .4, diff=ctx.rng.choice([None, 0, 0, 1])) for _ in range(3)]))
    return items


def check_c09(ctx):
    q = ctx.quick
    items = behaviours(ctx, 12 if q else 300)
    out = []
    for it in items:
        if it["shape"] == "ragged":
            it["v1"] = False
        m = len(it["rows"][0]["t"]) if it["rows"] else 1
        lo = 0 if it["dtype"] == "string" else 3
        pool = [t for t in range(lo, 11)]
        if it["shape"] == "dense":
            it["q"] = [[ctx.rng.choice(pool) for _ in range(m)] for _ in range(5)]
        else:
            it["q"] = [[ctx.rng.choice(pool) for _ in range(ctx.rng.randint(0, 4))] for _ in range(4)] + [pool]
        it["qshape"] = it["shape"]
        k = ctx.rng.randint(0, 5)
        it["qcut"] = [k, 5 - k]
        for c in it["cases"]:
            o = c["o"]
            ways = ["both"]
            if not o["store"]:
                ways.append("apply")
                if o["fmt"] == "text" and o["oov"] == 0:
                    ways.append("fn")
            if can_approx(o):
                ways.append("approx")
            c["how"] = ctx.rng.choice(ways)
        out.append(it)
    for it in [i for i in out if i["dtype"] == "string" and i["shape"] != "dense"][:2]:
        # a reserved token with spaces in a file with frequencies (the file decides)
        it["cases"][0].update(how="both", o=dict(it["cases"][0]["o"], res=[4, 50, 7], store=True, fmt="text"))
    ctx.sample(*[dict(rows=i["rows"], q=i["q"], case=i["cases"][0]) for i in out[:3]])
    ctx.replay("vocab.lookups", out, timeout=800 if q else 6000, label="data sets")
