"""Analysis with a cache (spec/AnalysisCache.tla): shared by C03 and C04.

The units of the specification are concrete analyses below.  Which units may be
cached is not assumed: it is asked of the code (a unit with cache entry keys is
cacheable), and handed to TLC as the constant Cacheable.
"""

import functools
import json
import math
import os
import uuid

N_DATASETS = 4
# dataset -> rows.  One is empty, one holds a single extreme row.
DATA = {
    1: [dict(x=1.0, y=3, s="a", w=2.0, l=1, v=[1.0, 5.0]),
        dict(x=2.0, y=1, s="b", w=1.0, l=0, v=[]),
        dict(x=4.0, y=1, s="a", w=0.5, l=1, v=[7.0]),
        dict(x=-3.0, y=0, s="A", w=4.0, l=0, v=[2.0, 2.0, 2.0])],
    2: [dict(x=10.0, y=7, s="c", w=3.0, l=1, v=[0.0]),
        dict(x=2.0, y=1, s="b", w=2.0, l=1, v=[])],
    3: [],
    4: [dict(x=-1000.0, y=-50, s="zz", w=16.0, l=0, v=[512.0])],
}
KEYS = {1: "span-1", 2: "span-2", 3: "span/3", 4: "span-11"}


def spec():
    import tensorflow as tf
    return dict(x=tf.io.FixedLenFeature([], tf.float32),
                y=tf.io.FixedLenFeature([], tf.int64),
                s=tf.io.FixedLenFeature([], tf.string),
                w=tf.io.FixedLenFeature([], tf.float32),
                l=tf.io.FixedLenFeature([], tf.int64),
                v=tf.io.VarLenFeature(tf.float32))


def _file(path):
    import tensorflow as tf
    return tf.io.read_file(path)


def _plain_ptransform():
    import apache_beam as beam
    import numpy as np

    class SumOf(beam.PTransform):
        def expand(self, pcoll):
            return (pcoll | beam.Map(lambda b: np.float32(np.sum(b[0])))
                    | beam.CombineGlobally(sum)
                    | beam.Map(np.float32))
    return SumOf()


@functools.lru_cache(None)
def _cacheable_ptransform():
    # one object for all traces, as in a module that defines its analyzer once
    import apache_beam as beam
    import numpy as np
    import tensorflow_transform as tft

    class Make(beam.PTransform):
        def expand(self, pcoll):
            return pcoll | beam.Map(lambda b: np.float32(np.sum(b[0]) * 2))

    class Merge(beam.PTransform):
        def expand(self, pcoll):
            return (pcoll | beam.CombineGlobally(lambda xs: np.float32(sum(xs))))

    class Extract(beam.PTransform):
        def expand(self, pcoll):
            return pcoll | beam.Map(np.float32)
    return tft.experimental.CacheablePTransformAnalyzer(
        Make(), Merge(), Extract(),
        tft.experimental.SimpleJsonPTransformAnalyzerCacheCoder())


def unit(name, i):
    """The tensors (of any shape) a unit computes from the inputs `i`."""
    import tensorflow as tf
    import tensorflow_transform as tft
    x, y, s, w, l, v = (i[k] for k in "xyswlv")
    if name == "mean":
        return [tft.mean(x, name="mean_x")]
    if name == "minmax":
        return [tft.min(y, name="min_y"), tft.max(x, name="max_x")]
    if name == "vocab":
        return [_file(tft.vocabulary(s, vocab_filename="vocab", store_frequency=True, name="vocab"))]
    if name == "wvocab":
        return [_file(tft.vocabulary(s, weights=w, vocab_filename="wvocab",
                                     store_frequency=True, name="wvocab"))]
    if name == "lvocab":
        return [_file(tft.vocabulary(s, labels=l, vocab_filename="lvocab",
                                     store_frequency=True, name="lvocab", use_adjusted_mutual_info=False,
                                     min_diff_from_avg=0.0))]
    if name == "topk":
        return [_file(tft.vocabulary(s, top_k=2, vocab_filename="topk", name="topk"))]
    if name == "lower":
        return [_file(tft.vocabulary(tf.strings.lower(s), vocab_filename="lower",
                                     store_frequency=True, name="lower"))]
    if name == "count":
        k, c = tft.count_per_key(s, name="count")
        kv = tf.strings.join([k, tf.strings.as_string(c)], "=")
        return [tf.gather(kv, tf.argsort(tf.strings.to_hash_bucket_fast(k, 1 << 40)))]
    if name == "quantiles":
        return [tft.quantiles(x, 3, epsilon=0.001, name="quantiles")]
    if name == "var":
        return [tft.var(v, name="var_v", reduce_instance_dims=True)]
    if name == "cov":
        return [tft.covariance(tf.stack([x, w], axis=1), tf.float32, name="cov")]
    if name == "sum":
        return [tft.sum(y, name="sum_y"), tft.size(v, name="size_v")]
    if name == "perkey":
        # the transformed value of the one probe row
        return [tft.scale_to_z_score_per_key(x, s, name="zpk"),
                tft.scale_to_0_1_per_key(x, s, name="mmpk")]
    if name == "hist":
        return list(tft.histogram(s, categorical=True, name="hist"))[1:]
    if name == "approx":
        return [_file(tft.experimental.approximate_vocabulary(
            s, top_k=10, vocab_filename="approx", store_frequency=True, name="approx"))]
    if name == "cptransform":
        return tft.experimental.ptransform_analyzer(
            [x], _cacheable_ptransform(), [tf.float32], [[]], name="cpt")
    if name == "ptransform":
        return tft.experimental.ptransform_analyzer(
            [x], _plain_ptransform(), [tf.float32], [[]], name="pt")
    if name == "nested":
        c = x - tft.mean(x, name="nested_mean")
        return [tft.max(c, name="nested_max")]
    if name == "nested_vocab":
        idx = tft.apply_vocabulary(s, tft.vocabulary(s, vocab_filename="nv", name="nv"))
        return [tft.sum(idx * y, name="nv_sum")]
    if name == "nodata":
        return [tf.constant(3.0)]
    raise ValueError(name)


UNITS = ["mean", "minmax", "vocab", "wvocab", "lvocab", "topk", "lower", "count", "quantiles",
         "var", "cov", "sum", "hist", "approx", "perkey", "cptransform", "ptransform",
         "nested", "nested_vocab", "nodata"]
NESTED = ["nested", "nested_vocab"]
NODATA = ["nodata"]
EXACT = {"vocab", "wvocab", "topk", "lower", "count", "sum", "minmax", "approx", "nested_vocab", "hist"}


def program(names):
    import tensorflow as tf
    from harness import pipe

    def fn(inputs):
        out = {}
        for n in names:
            for k, t in enumerate(unit(n, inputs)):
                out[f"{n}_{k}"] = pipe.per_row(pipe.to_str(t, "\x01"), inputs["x"])
        if not out:
            out["none"] = pipe.per_row(tf.constant("-"), inputs["x"])
        return out
    return fn


def _type_specs():
    from tfx_bsl.tfxio import tensor_adapter
    from harness import pipe
    return tensor_adapter.TensorAdapter(pipe.adapter_config(spec())).OriginalTypeSpecs()


def probe_keys(item, shared):
    return dict(problems=[], value=unit_keys(item))


@functools.lru_cache(None)
def unit_keys(item):
    """The cache entry keys of one unit alone."""
    from tensorflow_transform.beam import analysis_graph_builder as b, analyzer_cache as ac
    keys = b.get_analysis_cache_entry_keys(
        program([item]), _type_specs(), [ac.DatasetKey("d")], False)
    return sorted(k.hex() for k in keys)


def _read(p, tfn, cfg, tag):
    import tensorflow_transform.beam as tft_beam
    from harness import pipe
    one = pipe.pcoll(p, spec(), [[DATA[1][0]]], "probe")
    res, _ = ((one, cfg), tfn) | tft_beam.TransformDataset()
    pipe.sink(res, tag, "sink")


def _values(tag):
    from harness import pipe
    rows = pipe.OUT.pop(tag)
    assert len(rows) == 1, rows
    return {k: (v.decode("latin1") if isinstance(v, bytes) else v) for k, v in rows[0].items()}


def batches(d, k):
    rows = DATA[d]
    if not rows:
        return []
    cut = k % len(rows)
    return [b for b in (rows[:cut], rows[cut:]) if b]


_BASE = {}


def baseline(names, ds):
    """Analysis of the union of the datasets, without a cache."""
    k = (tuple(names), tuple(ds))
    if k not in _BASE:
        _BASE[k] = _baseline(names, ds)
    return _BASE[k]


def _baseline(names, ds):
    import tensorflow_transform.beam as tft_beam
    from harness import pipe
    cfg = pipe.adapter_config(spec())
    tag = uuid.uuid4().hex
    with pipe.scratch() as tmp, pipe.pipeline() as p:
        with tft_beam.Context(temp_dir=tmp):
            data = pipe.pcoll(p, spec(), [b for d in ds for b in batches(d, 0)], "data")
            tfn = (data, cfg) | tft_beam.AnalyzeDataset(program(names))
            _read(p, tfn, cfg, tag)
    return _values(tag)


def same(name, a, b):
    if a == b:
        return True
    if name in EXACT:
        return False
    try:
        xa = [float(t) for t in a.replace("\n", " ").replace("\x01", " ").split(" ")]
        xb = [float(t) for t in b.replace("\n", " ").replace("\x01", " ").split(" ")]
    except ValueError:
        # vocabulary lines "number token": numbers up to rounding
        la, lb = a.split("\n"), b.split("\n")
        if len(la) != len(lb):
            return False
        if name.startswith("lvocab"):
            # tokens whose scores are equal up to rounding come in either order
            pa, pb = ([(float(t.split(" ", 1)[0]), t.split(" ", 1)[1]) for t in x if t] for x in (la, lb))
            da, db = ({t: n for n, t in x} for x in (pa, pb))
            return (da.keys() == db.keys() and len(da) == len(pa)
                    and all(math.isclose(da[t], db[t], abs_tol=1e-4) for t in da)
                    and all(x[0] >= y[0] - 1e-9 for x, y in zip(pa, pa[1:])))
        for p, q in zip(la, lb):
            p, q = p.split(" "), q.split(" ")
            if p[1:] != q[1:] or (p[0] != q[0] and not same("", p[0], q[0])):
                return False
        return True
    return len(xa) == len(xb) and all(
        math.isclose(p, q, rel_tol=1e-5, abs_tol=1e-4) or (math.isnan(p) and math.isnan(q))
        for p, q in zip(xa, xb))


def run_history(item, shared):
    """One history of runs; `shared` has the unit names, keys and baselines."""
    import apache_beam as beam
    import tensorflow_transform.beam as tft_beam
    from harness import pipe
    from tensorflow_transform.beam import analysis_graph_builder as agb
    from tensorflow_transform.beam import analyzer_cache as ac

    names = shared["units"]           # unit number (1..) -> name
    keys = {n: [bytes.fromhex(h) for h in unit_keys(n)] for n in names}
    withhold, fs = item["withhold"], item["fs"]
    store = {}                        # (d, entry key) -> encoded values
    problems, steps, cover = [], 0, {}
    root = os.path.join(os.getcwd(), uuid.uuid4().hex)
    cfg = pipe.adapter_config(spec())

    def key(d, unc):
        k = ac.DatasetKey(KEYS[d])
        return k.non_cacheable() if d in unc else k

    for k, st in enumerate(item["log"]):
        prog = [names[u - 1] for u in st["prog"]]
        unc, ds = st["unc"], st["ds"]
        fn = program(prog)
        for d, u in st["lost"]:
            for ek in keys[names[u - 1]]:
                store.pop((d, ek), None)
        sup = {}
        for d, u in st["supplied"]:
            for ek in keys[names[u - 1]]:
                sup.setdefault(d, []).append(ek)
        ins = {key(d, unc): d for d in ds}
        load = {d: list(eks) for d, eks in sup.items()}
        left_out = set()
        if withhold:
            wanted = agb.get_analysis_cache_entry_keys(fn, _type_specs(), list(ins), False)
            have = {ac.DatasetKey(KEYS[d]): ac.DatasetCache({ek: object() for ek in eks}, None)
                    for d, eks in load.items()}
            req = agb.get_analysis_dataset_keys(fn, _type_specs(), set(ins), have, False)
            got = {ins[r] for r in req}
            steps += 1
            if not set(st["needed"]) <= got:
                problems.append(dict(key="needed", what=f"run {k} ({prog}, datasets {ds}, not cacheable {unc}): "
                                     f"datasets {sorted(got)} reported as needed; without a usable entry for "
                                     f"some analysis: {st['needed']}"))
                break
            left_out = set(ds) - got
            load = {d: [e for e in eks if e in wanted] for d, eks in load.items()}
            c = f"left out {len(left_out)}"
            cover[c] = cover.get(c, 0) + 1
        tag, etags = uuid.uuid4().hex, {}
        with pipe.scratch() as tmp, pipe.pipeline() as p:
            with tft_beam.Context(temp_dir=tmp):
                data = {}
                for dk, d in ins.items():
                    data[dk] = None if d in left_out else pipe.pcoll(
                        p, spec(), batches(d, k + d), f"data{d}")
                cache = {}
                if fs:
                    allc = p | ac.ReadAnalysisCacheFromFS(
                        root, [ac.DatasetKey(KEYS[d]) for d in KEYS])
                    for d, eks in load.items():
                        dk = ac.DatasetKey(KEYS[d])
                        if dk in allc:
                            cache[dk] = ac.DatasetCache(
                                {e: c for e, c in allc[dk].cache_dict.items() if e in eks},
                                allc[dk].metadata)
                else:
                    for d, eks in load.items():
                        cache[ac.DatasetKey(KEYS[d])] = ac.DatasetCache(
                            {e: p | f"e{d}_{n}" >> beam.Create(store[d, e], reshuffle=False)
                             for n, e in enumerate(eks) if (d, e) in store},
                            p | f"m{d}" >> beam.Create([ac.DatasetCacheMetadata(d)], reshuffle=False))
                tfn, out = (data, cache, cfg) | tft_beam.AnalyzeDatasetWithCache(fn, pipeline=p)
                for dk, c in (out or {}).items():
                    for ek, pc in c.cache_dict.items():
                        etags[dk, ek] = uuid.uuid4().hex
                        pipe.sink(pc, etags[dk, ek], f"o{etags[dk, ek]}")
                if fs and out:
                    _ = out | ac.WriteAnalysisCacheToFS(p, root, dataset_keys=list(ins))
                _read(p, tfn, cfg, tag)
        vals = _values(tag)
        # emitted entries
        got = {}
        for (dk, ek), t in etags.items():
            got[dk.key, ek] = pipe.OUT.pop(t, [])
        want = {(ac.DatasetKey(KEYS[d]).key, ek) for d, u in st["emitted"] for ek in keys[names[u - 1]]}
        steps += 1
        if set(got) != want:
            def show(x):
                return sorted((d, next((n for n in keys if e in keys[n]), "?")) for d, e in x)[:4]
            problems.append(dict(key="emitted", what=f"run {k} ({prog}, datasets {ds}, not cacheable {unc}, "
                                 f"supplied {st['supplied']}): entries not emitted {show(want - set(got))}, "
                                 f"emitted but not expected {show(set(got) - want)}"))
        for d, u in st["emitted"]:
            for ek in keys[names[u - 1]]:
                store[d, ek] = got.get((ac.DatasetKey(KEYS[d]).key, ek), [])
        # results
        ref = baseline(names, sorted(ds))
        for n in prog:
            for o in [o for o in vals if o.rsplit("_", 1)[0] == n]:
                steps += 1
                if not same(n, vals[o], ref[o]):
                    problems.append(dict(key="result", what=f"run {k} ({prog}, datasets {ds}, not cacheable "
                                         f"{unc}, supplied {sorted(load)}, left out {sorted(left_out)}): {o} = "
                                         f"{vals[o]!r}, without a cache {ref[o]!r}"))
        c = f"{len(prog)} units, {len(st['supplied'])} supplied, {len(st['emitted'])} emitted"
        if problems:
            break
    return dict(problems=problems, steps=steps, cover=cover)


def explore(ctx, withhold):
    q = ctx.quick
    res = ctx.replay("acache.probe_keys", UNITS, label="units")
    keys = {n: r.get("value") for n, r in zip(UNITS, res)}
    if any(v is None for v in keys.values()):
        return
    cacheable = [n for n in UNITS if keys[n]]
    ctx.extra["cacheable_units"] = cacheable

    def st(xs):
        return "{" + ", ".join(map(str, xs)) + "}"

    def consts(names, nd, runs, sim, wh):
        ix = {n: i + 1 for i, n in enumerate(names)}
        return dict(Datasets=st(nd), Units=f"1..{len(names)}",
                    Cacheable=st(ix[n] for n in names if n in cacheable),
                    Nested=st(ix[n] for n in names if n in NESTED),
                    NoData=st(ix[n] for n in names if n in NODATA),
                    MaxRuns=str(runs), Sim="TRUE" if sim else "FALSE",
                    Withhold="TRUE" if wh else "FALSE")

    inv = ["StoreOk", "OneEach", "ResultOk", "NeededOk", "NoWaste"]
    fast = [n for n in cacheable if n not in NESTED]
    # abstract kinds: cacheable, cacheable, not cacheable / nested
    jobs = [dict(module="AnalysisCache", name="exhaustive", view="View", invariants=inv, workers=4,
                 constants=dict(Datasets="1..2", Units="1..3", Cacheable="{1, 2}", Nested="{2}",
                                NoData="{}", MaxRuns="2" if q else "3", Sim="FALSE", Withhold="FALSE")),
            dict(module="AnalysisCache", name="exhaustive3", view="View", invariants=inv, workers=4,
                 constants=dict(Datasets="1..3", Units="1..2", Cacheable="{1}", Nested="{}",
                                NoData="{}", MaxRuns="2", Sim="FALSE", Withhold="FALSE"))]
    groups = []
    ngroups = 8 if q else 40
    for g in range(ngroups):
        pool = fast if (g % 2 or withhold and g % 4) else UNITS
        names = ctx.rng.sample(pool, 4)
        if g < len(UNITS) // 4 + 1 and not withhold:
            names = UNITS[4 * g:4 * g + 4]
        nd = [1, 2, 3, 4] if g % 4 == 1 else [2, 3, 4] if g % 4 == 2 else [1, 2, 4]
        groups.append(names)
        jobs.append(dict(module="AnalysisCache", name=f"sim{g}", invariants=["Emit"],
                         simulate=30, depth=8,
                         constants=consts(names, sorted(nd), 3 if q else 4, True, withhold)))
    out = ctx.tlc_many(jobs)
    items = []
    for names, vals in zip(groups, out[2:]):
        def score(log):
            hit = sum(1 for s in log for e in s["supplied"] if e[0] in s["ds"] and e[0] not in s["unc"]
                      and e[1] in s["prog"])
            part = sum(1 for s in log if s["supplied"] and s["emitted"])
            out_ = sum(len(s["ds"]) - len(s["needed"]) for s in log)
            return (2 * out_ if withhold else 0) + min(hit, 8) + 2 * part + sum(1 for s in log if s["prog"])
        ctx.rng.shuffle(vals)
        vals.sort(key=score, reverse=True)
        items.append(dict(names=names, logs=vals[:2 if q else 15], withhold=withhold))
    ctx.sample(*[dict(names=i["names"], log=i["logs"][0]) for i in items[:2]])
    ctx.replay("acache.run_group", items, label="groups of histories", timeout=700 if q else 6000)


def run_group(item, shared):
    res = dict(problems=[], steps=0, cover={}, count=len(item["logs"]))
    for n, log in enumerate(item["logs"]):
        r = run_history(dict(log=log, withhold=item["withhold"], fs=n % 3 == 2),
                        dict(units=item["names"]))
        res["problems"] += r["problems"]
        res["steps"] += r["steps"]
        for k, v in r["cover"].items():
            res["cover"][k] = res["cover"].get(k, 0) + v
    return res
