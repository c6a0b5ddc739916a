"""C05: the on-disk analysis cache (spec/CacheFS.tla)."""

import os

DATASETS = ["span-1", "data/set:2", "x*[y]"]
ENTRIES = 3  # implementation keys per specification key


def entry_keys(k):
    # keys that are prefixes of one another, contain separators, differ in case
    return [b"k%d" % k, b"k%d/a" % k, b"k%d-\x00\xff" % k, b"K%d*" % k][:ENTRIES]


def values(d, k, j, v):
    """The encoded partial results written for one entry: none, one or several."""
    return [b"%d|%d|%d|%d|%d" % (d, k, j, v, n) for n in range((v + j) % 4)]


def run_behaviour(item, shared):
    import uuid

    import apache_beam as beam
    from tensorflow_transform.beam import analyzer_cache as ac

    from harness import pipe

    base = os.path.join(os.getcwd(), uuid.uuid4().hex)
    dk = {d: ac.DatasetKey(DATASETS[d - 1]) for d in (1, 2, 3)}
    steps, problems = 0, []

    def as_map(x):
        # TLC prints a function over 1..n as a list
        return {int(k): v for k, v in
                (x.items() if isinstance(x, dict) else enumerate(x, 1))}

    def read(ds, filt, want, k):
        nonlocal steps
        tags = {}
        with pipe.pipeline() as p:
            keys = None if filt is None else [e for x in filt for e in entry_keys(x)]
            res = p | ac.ReadAnalysisCacheFromFS(
                base, [dk[d] for d in ds], **({} if keys is None else dict(cache_entry_keys=keys)))
            sizes = {}
            for key, cache in res.items():
                for ek, pc in cache.cache_dict.items():
                    tag = uuid.uuid4().hex
                    tags[(key, ek)] = tag
                    pipe.sink(pc, tag, f"s{tag}")
                if cache.metadata is not None:
                    tag = uuid.uuid4().hex
                    sizes[key] = tag
                    if isinstance(cache.metadata, beam.PCollection):
                        pipe.sink(cache.metadata, tag, f"m{tag}")
                    else:
                        pipe.OUT[tag].append(cache.metadata)
        got = {key: {} for key in res}
        for (key, ek), tag in tags.items():
            got[key][ek] = sorted(pipe.OUT.pop(tag, []))
        exp = {}
        for d, r in want.items():
            exp[dk[d]] = {ek: sorted(values(d, kk, j, v))
                          for kk, v in as_map(r["entries"]).items()
                          for j, ek in enumerate(entry_keys(kk))}
        steps += 1 + sum(len(x) for x in exp.values())
        if got != exp:
            extra = {(a.key, b) for a in got for b in got[a]} - {(a.key, b) for a in exp for b in exp[a]}
            miss = {(a.key, b) for a in exp for b in exp[a]} - {(a.key, b) for a in got for b in got[a]}
            diff = [(a.key, b, got[a][b][:3], exp[a][b][:3]) for a in exp for b in exp[a]
                    if a in got and b in got[a] and got[a][b] != exp[a][b]]
            problems.append(dict(key="read", what=f"step {k}: read of {ds} filter {filt}: "
                                 f"extra {sorted(extra)[:3]}, missing {sorted(miss)[:3]}, "
                                 f"different {diff[:2]}, datasets {sorted(a.key for a in got)} "
                                 f"want {sorted(a.key for a in exp)}"))
        for d, r in want.items():
            g = [x.dataset_size for x in pipe.OUT.pop(sizes.get(dk[d]), [])]
            w = [r["size"]] if r["size"] else []
            if g != w:
                problems.append(dict(key="size", what=f"step {k}: dataset {d}: sizes {g}, want {w}"))

    for k, st in enumerate(item):
        if st["a"] == "write":
            w, m = as_map(st["w"]), as_map(st["m"])
            with pipe.pipeline() as p:
                cache = {}
                for d in w:
                    entries = {}
                    for kk in w[d]:
                        for j, ek in enumerate(entry_keys(kk)):
                            entries[ek] = p | f"c{d}_{kk}_{j}" >> beam.Create(
                                values(d, kk, j, st["v"]), reshuffle=False)
                    meta = None
                    if m[d]:
                        meta = p | f"m{d}" >> beam.Create(
                            [ac.DatasetCacheMetadata(st["v"])], reshuffle=False)
                    cache[dk[d]] = ac.DatasetCache(entries, meta)
                kw = {}
                if k % 2:
                    kw["dataset_keys"] = list(dk.values())
                _ = cache | ac.WriteAnalysisCacheToFS(p, base, **kw)
        elif st["a"] == "read":
            read(st["ds"], None if st["all"] else st["filter"], as_map(st["e"]), k)
        else:
            # the index of the dataset: any file that is not a data or size shard
            root = os.path.join(base, dk[st["d"]].key)
            index = [f for f in os.listdir(root) if "-of-" not in f]
            for f in index:
                path = os.path.join(root, f)
                if st["kind"] == "remove":
                    os.remove(path)
                elif st["kind"] == "truncate":
                    data = open(path, "rb").read()
                    open(path, "wb").write(data[:len(data) // 2])
                else:
                    open(path, "wb").write(b"\x00garbage\xff")
        if problems:
            break
    return dict(problems=problems, steps=steps)


def check(ctx):
    q = ctx.quick
    inv = ["Refines", "NoSharing"]
    res = ctx.tlc_many([
        dict(module="CacheFS", name="exhaustive", view="View", invariants=inv, workers=4,
             constants=dict(Datasets="1..2", Keys="1..2", MaxSteps="4" if not q else "3", Sim="FALSE")),
        dict(module="CacheFS", name="exhaustive1", view="View", invariants=inv, workers=4,
             constants=dict(Datasets="{1}", Keys="1..3", MaxSteps="6" if not q else "4", Sim="FALSE")),
        dict(module="CacheFS", name="sim2", invariants=inv + ["Emit"], simulate=300 if q else 1500,
             depth=10, constants=dict(Datasets="1..2", Keys="1..2", MaxSteps="7", Sim="TRUE")),
        dict(module="CacheFS", name="sim3", invariants=inv + ["Emit"], simulate=300 if q else 1500,
             depth=10, constants=dict(Datasets="1..3", Keys="1..2", MaxSteps="6", Sim="TRUE")),
        dict(module="CacheFS", name="sim1", invariants=inv + ["Emit"], simulate=300 if q else 1500,
             depth=12, constants=dict(Datasets="{1}", Keys="1..3", MaxSteps="9", Sim="TRUE")),
    ])
    items = []
    for vals in res[2:]:
        # behaviours that end with a read and write between damage and read
        def score(v):
            names = "".join(s["a"][0] for s in v)
            return (names[-1] == "r") * 4 + min(names.count("w"), 4) + \
                min(names.count("r"), 2) + min(names.count("d"), 1) * 2 + \
                4 * min(sum(s.get("gap", 0) for s in v), 2) + \
                sum(len(s["e"]) for s in v if s["a"] == "r")
        ctx.rng.shuffle(vals)
        vals.sort(key=score, reverse=True)
        items += vals[:16 if q else 200]
    ctx.rng.shuffle(items)
    ctx.sample(*items[:2])
    ctx.replay("c05.run_behaviour", items, timeout=600 if q else 3000)
