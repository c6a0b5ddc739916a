"""C18: instance coders (spec/Coders.tla)."""

import csv
import io
import math
import pickle

INTS = [0, 1, -1, 7, 2 ** 63 - 1, -2 ** 63, 10 ** 12, 65536, -2 ** 31, 42, 127, 2 ** 53 + 1]
FLOATS = [0.0, 1.0, -1.5, 0.1, 3e38, -1e-38, 1e20, 16777217.0, float("inf"), float("-inf"), -0.0, 123456.789]
CHARS = {3: '"', 4: "\n", 5: "a", 6: "\u00e9\U0001f600", 7: " ", 8: "\r"}


# ------------------------------------------------------------ in the worker
def text(v, item):
    return "".join(CHARS.get(c) or item["delims"][c - 1] for c in v)


def value(v, col, item):
    if col["ty"] == "int":
        return INTS[v - 1]
    if col["ty"] == "float":
        return FLOATS[v - 1]
    return text(v, item)


def shape(col):
    return {1: ([], [1], [1, 1]), 2: ([2], [1, 2]), 4: ([4], [2, 2], [1, 4])}[col["size"]]


def spec_of(item):
    import tensorflow as tf
    spec = {}
    for n, col in enumerate(item["schema"]):
        dtype = dict(text=tf.string, int=tf.int64, float=tf.float32)[col["ty"]]
        spec[item["names"][n]] = (tf.io.FixedLenFeature(col["shape"], dtype) if col["kind"] == "fixed"
                                  else tf.io.VarLenFeature(dtype))
    if item["group"]:
        # some of the columns are the parts of one feature
        kind, cols = item["group"]
        keys = [item["names"][n] for n in cols]
        dtype = spec[keys[-1]].dtype
        for k in keys:
            del spec[k]
        if kind == "sparse":
            spec["group"] = tf.io.SparseFeature(keys[:-1], keys[-1], dtype, [10] * (len(keys) - 1))
        else:
            spec["group"] = tf.io.RaggedFeature(
                dtype, keys[-1], [tf.io.RaggedFeature.RowLengths(k) for k in keys[:-1]] +
                [tf.io.RaggedFeature.UniformRowLength(2)] * (item["seed"] % 2), row_splits_dtype=tf.int64)
    return spec


def cell_values(v, col, item):
    if v[0] == "bytes":
        return [b"\xff\xfe"]
    if v[0] == "lone":
        return ["a\ud800"]
    return [value(x, col, item) for x in v[1:]]


def in_python(v, col, item, rng):
    """One of the ways to pass the value of a column."""
    import numpy as np
    if v[0] == "none":
        return None
    if v[0] == "bad":
        return {"int": "x", "float": "x", "text": 5}[col["ty"]] if col["shape"] == [] else \
            [{"int": "x", "float": "x", "text": 5}[col["ty"]]] * max(1, col["size"])
    vals = cell_values(v, col, item)
    if col["ty"] == "text" and v[0] != "lone" and rng.random() < .5:
        vals = [x if isinstance(x, bytes) else x.encode() for x in vals]
    if col["kind"] == "fixed" and col["shape"] == [] and len(vals) == 1:
        return vals[0]
    if col["kind"] == "fixed" and col["shape"] == []:
        return vals
    dtype = dict(text=object, int=np.int64, float=np.float32)[col["ty"]]
    arr = np.array(vals, dtype=dtype)
    if col["kind"] == "fixed" and len(vals) == col["size"]:
        arr = arr.reshape(col["shape"])
        nested = arr if col["ty"] != "float" else np.array(vals, dtype=object).reshape(col["shape"])
        return arr if rng.random() < .5 else nested.tolist()
    return arr if rng.random() < .5 else vals


def equal(a, b, ty):
    import numpy as np
    if ty == "float":
        a, b = np.float32(a), np.float32(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def same(a, b, ty):
    return len(a) == len(b) and all(equal(x, y, ty) for x, y in zip(a, b))


def run(item, shared):
    import random
    import numpy as np
    import tensorflow as tf
    from tensorflow_transform import coders
    from tensorflow_transform.tf_metadata import schema_utils

    rng = random.Random(item["seed"])
    cols, names = item["schema"], item["names"]
    spec = spec_of(item)
    schema = schema_utils.schema_from_feature_spec(spec)
    order = item["order"]
    delim, second = item["delims"]
    example = coders.ExampleProtoCoder(schema, serialized=item["serialized"])
    parts = item["group"][1] if item["group"] else []
    multi = [names[n] for n, c in enumerate(cols) if c["multi"] and n not in parts]
    if parts and cols[parts[0]]["multi"]:
        multi.append("group")
    line = None
    if not item["group"] or item["group"][0] == "sparse":
        line = coders.CsvCoder([names[n] for n in order], schema, delimiter=delim, secondary_delimiter=second,
                               multivalent_columns=multi)
    problems, steps = [], 0

    def bad(key, what, inst):
        problems.append(dict(key=key, what=f"{what}; instance {inst}, columns {cols} named {names}, "
                                           f"delimiters {item['delims']}, {steps} encoded before"))

    def to_num(x, ty):
        return dict(text=str, int=int, float=float)[ty](x)

    earlier = []
    for entry in item["log"]:
        if not entry["inst"]:
            example, line = pickle.loads(pickle.dumps(example)), pickle.loads(pickle.dumps(line))
            continue
        inst = {n: in_python(v, c, item, rng) for n, v, c in zip(names, entry["inst"], cols)}
        if rng.random() < .3:
            inst["unrelated"] = [1, 2]
        # ---- examples
        try:
            got = example.encode(inst)
        except Exception as e:  # pylint: disable=broad-except
            got = None
            if entry["example"]:
                bad("example-refused", f"{type(e).__name__}: {e}", inst)
        steps += 1
        if got is not None and not entry["example"]:
            bad("example-accepted", f"encoded as {got}", inst)
        elif got is not None:
            proto = tf.train.Example.FromString(got) if item["serialized"] else got
            earlier.append((got, proto.SerializeToString(deterministic=True), inst))
            if set(proto.features.feature) - set(names):
                bad("example", f"features {sorted(proto.features.feature)}", inst)
            for n, v, c in zip(names, entry["example"], cols):
                f = proto.features.feature[n]
                field = dict(text="bytes_list", int="int64_list", float="float_list")[c["ty"]]
                if v[0] == "none":
                    if f.WhichOneof("kind") is not None:
                        bad("example", f"{n} is missing, encoded as {f}", inst)
                    continue
                want = [x.encode() if isinstance(x, str) else x for x in cell_values(v, c, item)]
                if f.WhichOneof("kind") != field or not same(list(getattr(f, field).value), want, c["ty"]):
                    bad("example", f"{n}: want {want}, got {f}", inst)
            try:
                parsed = tf.io.parse_single_example(
                    proto.SerializeToString(), {n: f for n, f in spec.items() if n != "group"}) if len(parts) < len(cols) else {}
            except Exception as e:  # pylint: disable=broad-except
                bad("example-parse", f"{type(e).__name__}: {str(e)[:300]}", inst)
                parsed = {}
            for n, v, c in zip(names, entry["example"], cols):
                if n in parsed:
                    t = parsed[n]
                    out = t.values.numpy() if c["kind"] == "var" else t.numpy()
                    want = [] if v[0] == "none" else [x.encode() if isinstance(x, str) else x
                                                     for x in cell_values(v, c, item)]
                    if c["kind"] == "fixed" and list(np.shape(out)) != c["shape"] or \
                            not same(list(np.reshape(out, [-1])), want, c["ty"]):
                        bad("example-parse", f"{n}: want {want}, parsed {out}", inst)
        # ---- lines
        # values of another type, and lists for scalars
        if line is None:
            continue
        unclear = any(v[0] == "bad" or v[0] == "vals" and c["shape"] == [] and len(v) != 2
                      for c, v in zip(cols, entry["inst"]))
        try:
            got = line.encode(inst)
        except Exception as e:  # pylint: disable=broad-except
            got = None
            if entry["line"] and not unclear:
                bad("line-refused", f"{type(e).__name__}: {e}", inst)
        steps += 1
        if unclear:
            continue
        if got is not None and not entry["line"]:
            bad("line-accepted", f"encoded as {got}", inst)
        elif got is not None:
            rows = list(csv.reader(io.StringIO(got.decode(), newline=""), delimiter=delim))
            if len(rows) != 1 or len(rows[0]) != len(cols):
                bad("line", f"{got} has rows {rows}", inst)
                continue
            for place, n in enumerate(order):
                c, v, cell = cols[n], entry["line"][n], rows[0][place]
                want = [] if v[0] == "none" else cell_values(v, c, item)
                if c["multi"]:
                    sub = list(csv.reader(io.StringIO(cell, newline=""), delimiter=second))
                    if len(sub) > 1:
                        bad("line", f"{names[n]}: cell {cell!r} has several rows", inst)
                        continue
                    out = sub[0] if sub else []
                elif not want:
                    out = [cell] if cell else []
                else:
                    out = [cell]
                try:
                    ok = same([to_num(x, c["ty"]) for x in out], want, c["ty"])
                except ValueError:
                    ok = False
                if not ok:
                    bad("line", f"{names[n]}: want {want}, cell {cell!r} of {got}", inst)
    for got, was, inst in earlier:
        proto = tf.train.Example.FromString(got) if item["serialized"] else got
        if proto.SerializeToString(deterministic=True) != was:
            bad("aliasing", "an encoded example changed later", inst)
    return dict(problems=problems[:20], steps=steps, cover={c["kind"] + "-" + c["ty"]: 1 for c in cols})


# ------------------------------------------------------------- orchestration
def consts(kind, q):
    col = '[kind |-> "%s", ty |-> "%s", size |-> %d, multi |-> %s]'
    small = [("fixed", "int", 1, "FALSE"), ("fixed", "text", 2, "TRUE"), ("var", "int", 0, "FALSE"),
             ("var", "text", 0, "TRUE"), ("fixed", "int", 2, "FALSE")]
    ints = [s for s in small if s[1] == "int"]
    one = ["<<" + col % s + ">>" for s in small]
    two = ["<<" + col % a + ", " + col % b + ">>" for a in ints for b in ints]
    texts = "UNION {[1..n -> UNION {[1..m -> 1..5] : m \\in 0..%d}] : n \\in 0..%d}"
    if kind == "sim":
        return dict(Schemas="1..5", MaxLen="4", Steps="8", Texts="{}", Sim="TRUE")
    if kind == "csv":
        return dict(Schemas="{}", MaxLen="0", Steps="0", Sim="FALSE",
                    Texts=texts % ((2, 2) if q else (2, 3)))
    return dict(Schemas="{%s}" % ", ".join(one + two), MaxLen="1" if q else "2", Steps="2" if q else "3",
                Texts="{}", Sim="FALSE")


def check(ctx):
    q = ctx.quick
    n = 3000 if q else 20000
    inv = ["Independent", "Lossless"]
    *_, sim = ctx.tlc_many([
        dict(module="Coders", name="Coders_csv", constants=consts("csv", q), invariants=["CsvLaw"], timeout=3000),
        dict(module="Coders", name="Coders_all", constants=consts("all", q), invariants=inv, workers=4, timeout=3000),
        dict(module="Coders", name="Coders_sim", constants=consts("sim", q), simulate=n, depth=12,
             invariants=inv + ["Emit"], timeout=3000)])
    rng, items = ctx.rng, []
    for it in sim:
        for c in it["schema"]:
            c["shape"] = rng.choice(shape(c)) if c["kind"] == "fixed" else None
        ints = [n for n, c in enumerate(it["schema"]) if c["kind"] == "var" and c["ty"] == "int"]
        other = [n for n, c in enumerate(it["schema"]) if c["kind"] == "var"]
        it["group"] = None
        if ints and len(other) > 1 and rng.random() < .7:
            last = rng.choice(other)
            keys = [n for n in ints if n != last and it["schema"][n]["multi"] == it["schema"][last]["multi"]]
            if keys:
                it["group"] = [rng.choice(["sparse", "ragged"]), rng.sample(keys, min(len(keys), rng.choice([1, 2]))) + [last]]
        it["seed"] = rng.randrange(10 ** 9)
        it["names"] = rng.sample(["x", "y", "a b", "caf\u00e9", "z$1", "Z", "q,r", "_"], len(it["schema"]))
        it["order"] = rng.sample(range(len(it["schema"])), len(it["schema"]))
        it["delims"] = rng.choice([",|", "\t,", ";:", "|,"])
        it["serialized"] = rng.random() < .6
        items.append(it)
    ctx.sample(*[dict(schema=i["schema"], log=i["log"][:2]) for i in items[:3]])
    ctx.replay("c18.run", items, timeout=600 if q else 6000, label="coder histories")
