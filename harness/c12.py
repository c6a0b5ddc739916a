"""C12: writing a transform function under faults (spec/Publish.tla)."""

import ctypes
import json
import os
import shutil
import subprocess
import tempfile

from harness import lib

BEFORE, HALF, FAIL, LATE = range(4)
HERE = os.path.dirname(os.path.abspath(__file__))


def build_shim(d):
    so = os.path.join(d, "fsfault.so")
    subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", so,
                    os.path.join(HERE, "fsfault.c"), "-ldl", "-lpthread"], check=True)
    return so


# ------------------------------------------------------------ in the worker
def source_files(v):
    files = {"saved_model.pb": b"model %d" % v * 50,
             "keras_metadata.pb": b"",
             "variables/variables.index": b"index %d" % v,
             "variables/variables.data-00000-of-00001": bytes(range(256)) * (v + 1),
             f"assets/vocab_{v}": b"a\nb\n%d\n" % v,
             f"assets.extra/nested/dir/file{v % 2}": b"x" * v,
             ".tft_metadata/schema.pbtxt": b"not to be copied"}
    return files


def expected_files(v):
    return {f: c for f, c in source_files(v).items() if not f.startswith(".tft_metadata/")}


def write_source(d, v):
    for f, c in source_files(v).items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(c)


def meta_for(v):
    import tensorflow as tf
    from tensorflow_transform.tf_metadata import dataset_metadata
    spec = {f"f{v}_{i}": tf.io.FixedLenFeature([], tf.int64) for i in range(3 + v % 3)}
    spec["s"] = tf.io.VarLenFeature(tf.string)
    return dataset_metadata.DatasetMetadata.from_feature_spec(spec)


def assets_for(v):
    return {f"vocab_{v}": f"vocab_{v}"} if v % 2 else {}


def run_write(kind, target, v, src, retrying):
    import apache_beam as beam
    import tensorflow_transform.beam as tft_beam
    from tensorflow_transform.beam.tft_beam_io import beam_metadata_io
    from tensorflow_transform.tf_metadata import metadata_io
    runner = "BundleBasedDirectRunner" if retrying else "FnApiRunner"
    m = meta_for(v)
    if kind == "plain":
        metadata_io.write_metadata(m, target)
        return
    with beam.Pipeline(runner=runner) as p:
        deferred = p | "meta" >> beam.Create([m], reshuffle=False)
        bm = beam_metadata_io.BeamDatasetMetadata(m, deferred, assets_for(v))
        if kind == "meta":
            _ = bm | beam_metadata_io.WriteMetadata(target, p)
        else:
            d = p | "dir" >> beam.Create([src], reshuffle=False)
            # plain metadata is accepted as well
            _ = ((d, bm if v < 90 else m)) | tft_beam.WriteTransformFn(target)


def forked(shim, kind, target, v, src, k, fl, retrying, log=None):
    """Runs one write in a child; returns (status, operations seen)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC) if log else -1
            shim.verif_fs_arm(target.encode(), ctypes.c_long(k), fl, fd)
            try:
                run_write(kind, target, v, src, retrying)
                code = 0
            finally:
                shim.verif_fs_disarm()
        except BaseException as ex:  # reported to the parent
            os.write(w, repr(ex)[:600].encode())
        finally:
            try:
                os.write(w, b"|%d" % shim.verif_fs_count())
            finally:
                os._exit(code)
    os.close(w)
    text = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        text += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    err, _, n = text.decode(errors="replace").rpartition("|")
    return code, err, int(n) if n.strip().isdigit() else None


def tree(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def schema_state(mdir, versions):
    """None if there is no schema, the version if whole, 'bad' otherwise."""
    from google.protobuf import text_format
    from tensorflow_metadata.proto.v0 import schema_pb2
    p = os.path.join(mdir, "schema.pbtxt")
    if not os.path.exists(p):
        return None
    text = open(p).read()
    try:
        s = text_format.Parse(text, schema_pb2.Schema())
    except Exception:
        return "bad"
    for v in versions:
        if s == meta_for(v).schema:
            return v
    return "bad"


def check_final(kind, target, v, what):
    problems = []

    def bad(key, msg):
        problems.append(dict(key=key, what=f"{what}: {msg}"))

    mdir = os.path.join(target, "transformed_metadata") if kind == "fn" else target
    got = schema_state(mdir, [v])
    if got != v:
        bad("schema", f"schema in {mdir} is {got}, want version {v}")
    if kind == "fn":
        from tensorflow_transform import TFTransformOutput
        top = sorted(os.listdir(target))
        if top != ["transform_fn", "transformed_metadata"]:
            bad("leftover", f"directory holds {top}")
        files = tree(os.path.join(target, "transform_fn"))
        want = expected_files(v)
        if files != want:
            diff = sorted(f for f in set(files) | set(want) if files.get(f) != want.get(f))
            bad("function", f"published function differs in {diff}")
        names = sorted(os.listdir(mdir))
        wantn = ["asset_map", "schema.pbtxt"] if assets_for(v) else ["schema.pbtxt"]
        if names != wantn:
            bad("metadata", f"published metadata holds {names}, want {wantn}")
        out = TFTransformOutput(target)
        if out.transformed_metadata != meta_for(v):
            bad("schema", "reader sees another schema")
        if assets_for(v):
            am = json.load(open(os.path.join(mdir, "asset_map")))
            if am != assets_for(v):
                bad("assets", f"asset map is {am}")
    return problems


def history(item, shared):
    import tensorflow_transform.beam  # noqa: F401 (imported before forking)
    from harness import fastbeam
    fastbeam.install()
    shim = ctypes.CDLL(shared["so"])
    kind = item["kind"]
    d = os.path.abspath(tempfile.mkdtemp(dir="."))
    problems, steps = [], 0
    value = None
    try:
        target = os.path.join(d, "some", "nested", "out") if item.get("nested") else os.path.join(d, "out")
        written, whole = [], []
        started = []
        if item["prior"]:
            # an earlier version is there, written by the code itself
            src = os.path.join(d, "src_prior")
            write_source(src, item["prior"])
            st, err, _ = forked(shim, kind, target, item["prior"], src, -1, 0, False)
            started.append(item["prior"])
            if st:
                return dict(problems=[dict(key="write", what=f"a write failed: {err}")])
        for n, r in enumerate(item["runs"]):
            v = r["v"]
            src = os.path.join(d, f"src{n}")
            write_source(src, v)
            started.append(v)
            log = os.path.join(d, "log") if item.get("count") else None
            st, err, count = forked(shim, kind, target, v, src, r.get("k", -1), r.get("fl", 0),
                                    r.get("fl", 0) in (FAIL, LATE) and kind != "plain", log)
            steps += 1
            what = f"{kind} run {n} of {item['runs']} (before: version {item['prior']})"
            if item.get("count"):
                value = dict(n=count, log=open(log).read())
            mdir = os.path.join(target, "transformed_metadata") if kind == "fn" else target
            s = schema_state(mdir, started)
            if s == "bad":
                problems.append(dict(key="torn", what=f"{what}: a reader sees an incomplete schema"))
            if kind != "fn" and s is None and item["prior"]:
                problems.append(dict(key="torn", what=f"{what}: the schema is gone"))
            if st == 77:
                continue
            if st == 0:
                problems += check_final(kind, target, v, what)
            elif st == 3:
                if kind != "plain":
                    problems.append(dict(key="retry", what=f"{what}: the runner repeated the failed step but the "
                                         f"write did not recover: {err}"))
            else:
                problems.append(dict(key="died", what=f"{what}: status {st} {err}"))
            if open(os.path.join(src, "saved_model.pb"), "rb").read() != source_files(v)["saved_model.pb"]:
                problems.append(dict(key="source", what=f"{what}: the source was changed"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(problems=problems[:4], steps=steps, value=value, cover={kind: 1})


# ------------------------------------------------------------------- check
def check(ctx):
    q = ctx.quick
    inv = ["Complete", "NeverStuck", "SchemaWhole", "CanFinish"]
    base = dict(Versions="{1, 2}", Prior="{0, 3}", SkipMoved="TRUE", Sim="FALSE")
    jobs = [dict(module="Publish", name="exhaustive", invariants=inv, workers=4,
                 constants=dict(base, MaxRuns="2" if q else "3")),
            dict(module="Publish", name="sim", invariants=inv + ["Emit"], simulate=300 if q else 3000, depth=200,
                 constants=dict(base, Versions="1..4", MaxRuns="3" if q else "4", Sim="TRUE"))]
    _, sims = ctx.tlc_many(jobs)
    # the rule that moved pieces are skipped is needed
    _, text, ok = ctx.tlc("Publish", name="without_skip", invariants=["NeverStuck"], workers=2,
                          constants=dict(base, MaxRuns="1", SkipMoved="FALSE"), want_error=True)
    if ok or "NeverStuck" not in text:
        raise lib.TlcFailure("the specification without SkipMoved should get stuck")
    so = build_shim(ctx.tmp)
    pre = dict(LD_PRELOAD=so)
    shared = dict(so=so)
    kinds = ["fn", "meta", "plain"]
    probe = [dict(kind=k, prior=p, runs=[dict(v=2)], count=True) for k in kinds for p in (0, 3)]
    res = ctx.replay("c12.history", probe, shared=shared, extra_env=pre, label="runs without a fault")
    total = {}
    for it, r in zip(probe, res):
        if not r.get("value") or not r["value"].get("n"):
            if not r["problems"]:
                ctx.problem(dict(key="count", what=f"no filesystem operations seen: {r}"), it)
            return
        total[it["kind"], it["prior"]] = r["value"]["n"]
    ctx.extra["operations"] = {f"{k[0]} over version {k[1]}": n for k, n in total.items()}
    items = []
    for (kind, prior), n in total.items():
        ks = list(range(1, n + 1))
        for k in ks:
            for fl in (BEFORE, HALF, FAIL, LATE):
                if q and kind == "fn" and fl == HALF and k % 3:
                    continue  # mostly the same as before the next operation
                if q and kind == "fn" and prior == 0 and k % 2:
                    continue
                v = 2 if k % 2 else 1
                runs = [dict(v=v, k=k, fl=fl)]
                if fl in (BEFORE, HALF) or kind == "plain":
                    runs.append(dict(v=v))
                items.append(dict(kind=kind, prior=prior, runs=runs, nested=k % 5 == 0))
    hist = []
    seen = set()
    for s in sims:
        h = s["hist"]
        if repr(h) in seen or all(r["how"] == "none" for r in h):
            continue
        seen.add(repr(h))
        hist.append(h)
    hist = hist[:40 if q else 800]
    for h in hist:
        n = total["fn", 3]
        runs = []
        for r in h:
            if r["how"] == "none":
                runs.append(dict(v=r["v"]))
            else:
                k = max(1, min(n, round((r["at"] + ctx.rng.random()) / 16 * n)))
                fl = dict(crash=ctx.rng.choice([BEFORE, HALF]), fail=FAIL, late=LATE)[r["how"]]
                runs.append(dict(v=r["v"], k=k, fl=fl))
        items.append(dict(kind="fn", prior=ctx.rng.choice([0, 5]), runs=runs))
    items.append(dict(kind="fn", prior=0, runs=[dict(v=96), dict(v=98)]))
    ctx.sample(*items[:2], *hist[:2])
    ctx.rng.shuffle(items)
    ctx.replay("c12.history", items, shared=shared, extra_env=pre, timeout=700 if q else 6000,
               label="fault histories")
