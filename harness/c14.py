"""C14: copies of a computation (spec/DeepCopy.tla), made of real Beam pipelines."""

import re
import uuid

INV = ["SameData", "Repeats", "Shares", "Intact", "DistinctNames"]


# ------------------------------------------------------------ in the worker
class Run:
    """Functions of the steps; classes, so that the pipeline can be pickled."""

    def __init__(self, kind, k):
        self.kind, self.k = kind, k

    def __call__(self, x, side=None):
        k = self.k
        if self.kind == "map":
            return (7 * x + k) % 97
        if self.kind == "side":
            return (x + 2 * sum(side) + k) % 101
        if self.kind == "key":
            return x % 3, x
        if self.kind == "post":
            return (sum(x[1]) + x[0]) % 103
        if self.kind == "postsum":
            return (x[1] + x[0]) % 103
        if self.kind == "same":
            return x
        raise ValueError(self.kind)


class Two:
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        from apache_beam import pvalue
        yield (x + self.k) % 89
        if x % 2 == 0:
            yield pvalue.TaggedOutput("even", 3 * x + self.k)


def steps(p, item):
    """The pipeline; the collection of each output."""
    import apache_beam as beam
    from apache_beam import pvalue

    class Composite(beam.PTransform):
        def __init__(self, *parts):
            super().__init__()
            self.parts_ = parts

        def expand(self, pcoll):
            for name, t in self.parts_:
                pcoll = pcoll | name >> t
            return pcoll

    out = []
    for i, e in enumerate(item["nodes"], 1):
        ins = [out[n - 1][o] for n, o in e["ins"]]
        kind, style, label = e["kind"], item["styles"][i - 1], f"n{i}"
        if kind == "create":
            vals = [10 * i + j for j in range(1, 3 + i % 3)]
            r = [p | label >> beam.Create(vals, reshuffle=style == 1)]
        elif kind == "map":
            if style == 0:
                t = beam.Map(Run("map", i))
            else:
                t = Composite(("a", beam.Map(Run("same", i))), ("b", beam.Map(Run("map", i))))
            r = [ins[0] | label >> t]
        elif kind == "multi":
            if style == 0:
                o = ins[0] | label >> beam.FlatMap(Two(i)).with_outputs("even", main="main")
                r = [o.main, o.even]
            else:
                o = ins[0] | label >> beam.FlatMap(Two(i)).with_outputs("even")
                r = [o[None], o.even]
        elif kind == "flatten":
            r = [tuple(ins) | label >> beam.Flatten()]
        elif kind == "side":
            sides = [out[n - 1][o] for n, o in e["sides"]]
            view = pvalue.AsList
            r = [ins[0] | label >> beam.Map(Run("side", i), view(sides[0]))]
        elif kind == "gbk":
            r = [ins[0] | label >> Composite(("pre", beam.Map(Run("key", i))), ("group", beam.GroupByKey()),
                                             ("post", beam.Map(Run("post", i))))]
        else:
            r = [ins[0] | label >> Composite(("pre", beam.Map(Run("key", i))), ("group", beam.CombinePerKey(sum)),
                                             ("post", beam.Map(Run("postsum", i))))]
        out.append(r)
    return out


def applied(p):
    todo, seen = [p._root_transform()], []   # pylint: disable=protected-access
    while todo:
        t = todo.pop()
        seen.append(t)
        todo += t.parts
    return seen


def snapshot(ts):
    return {id(t): (t.full_label, id(t.transform), {k: id(v) for k, v in t.main_inputs.items()},
                    {k: (id(v), id(v.producer)) for k, v in t.outputs.items()}, [id(s) for s in t.side_inputs],
                    id(t.parent)) for t in ts}


def node_of(label):
    return int(re.match(r"n(\d+)(/|\.|$)", label).group(1))


def grouped(t):
    """Whether a step makes what a grouping gives."""
    return re.search(r"/(group|GroupByKey|CombinePerKey)(/|$)", t.full_label) is not None


def run(item, shared):
    from tensorflow_transform.beam import deep_copy
    from harness import pipe
    pipe.RUNNER = item["runner"]
    problems, tags, count = [], [], 0
    p = pipe.pipeline()
    out = steps(p, item)
    ports = {(i, o): pc for i, r in enumerate(out, 1) for o, pc in enumerate(r)}
    root = {i: i for i in range(1, len(out) + 1)}
    desc = f"steps {[(e['kind'], e['ins'], e['sides']) for e in item['nodes']]} in styles {item['styles']}, " \
        f"copies of {[c['target'] for c in item['copies']]}"

    def bad(key, what):
        problems.append(dict(key=key, what=f"{what}; {desc}"))

    def watch(pc, step, label):
        tag = uuid.uuid4().hex
        pipe.sink(pc, tag, label)
        tags.append((tag, step, label))
    try:
        for n, c in enumerate(item["copies"]):
            target = ports.get(tuple(c["target"]))
            if target is None:
                continue
            before_t = applied(p)
            before = snapshot(before_t)
            copy = deep_copy.deep_copy(target)
            after_t = applied(p)
            # the original is as it was
            now = snapshot([t for t in after_t if id(t) in before])
            if now != before:
                diff = [(before[k], now.get(k)) for k in before if now.get(k) != before[k]]
                bad("intact", f"copy {n + 1} changed {diff[:3]}")
            names = [t.full_label for t in after_t if t.full_label]
            if len(set(names)) != len(names):
                bad("names", f"copy {n + 1}: {sorted(x for x in names if names.count(x) > 1)}")
            # what leads to the copy, next to what leads to the original
            old = {id(t) for t in before_t}
            pairs, todo, colls = {}, [(target, copy)], {}
            while todo:
                a, b = todo.pop()
                count += 1
                if id(a) in colls:
                    if colls[id(a)][1] is not b:
                        bad("shares", f"copy {n + 1}: two copies of {a}")
                    continue
                colls[id(a)] = (a, b)
                ta, tb = a.producer, b.producer
                if id(tb) in old:
                    bad("repeats", f"copy {n + 1}: {ta.full_label} is not repeated")
                    continue
                tags_b = [k for k, v in tb.outputs.items() if v is b]
                tags_a = [k for k, v in ta.outputs.items() if v is a]
                if tags_a != tags_b:
                    bad("shares", f"copy {n + 1}: output {tags_b} for output {tags_a} of {ta.full_label}")
                if id(ta) in pairs:
                    if pairs[id(ta)][1] is not tb:
                        bad("shares", f"copy {n + 1}: {ta.full_label} is repeated twice")
                    continue
                pairs[id(ta)] = (ta, tb)
                if tb.transform is not ta.transform or set(ta.main_inputs) != set(tb.main_inputs) \
                        or [s.pvalue for s in ta.side_inputs] != [s.pvalue for s in tb.side_inputs]:
                    bad("shares", f"copy {n + 1}: {tb.full_label} is not like {ta.full_label}")
                    continue
                if tb.parent is None or tb not in tb.parent.parts:
                    bad("shares", f"copy {n + 1}: {tb.full_label} is not in the pipeline")
                for k, x in ta.main_inputs.items():
                    y = tb.main_inputs[k]
                    if x.producer is None:
                        continue      # the root of the pipeline
                    if grouped(x.producer):
                        if y is not x:
                            bad("repeats", f"copy {n + 1}: {tb.full_label} reads a copy of a grouping")
                        continue
                    if y is x:
                        bad("repeats", f"copy {n + 1}: {tb.full_label} reads the original {x}")
                        continue
                    todo.append((x, y))
            made = {root[i] for i, _ in c["steps"]}
            walked = {node_of(t.full_label) for t, _ in pairs.values()}
            if walked != made:
                bad("repeats", f"copy {n + 1}: repeats the steps {sorted(walked)}, want {sorted(made)}")
            fresh = [t for t in after_t if id(t) not in old]
            extra = {t.full_label for t in fresh} - {t.full_label for _, t in pairs.values()}
            if extra:
                bad("repeats", f"copy {n + 1}: repeats {sorted(extra)} as well")
            # names for the copies of the steps
            for i, j in c["steps"]:
                root[j] = root[i]
                for o in (0, 1):
                    a = ports.get((i, o))
                    if a is not None and id(a) in colls:
                        ports[(j, o)] = colls[id(a)][1]
            watch(target, root[c["target"][0]], f"t{n}")
            watch(copy, root[c["target"][0]], f"c{n}")
            tags[-1] = tags[-1] + (c["target"][1],)
            tags[-2] = tags[-2] + (c["target"][1],)
        if problems:
            return dict(problems=problems[:6], steps=count)
        for (i, o), pc in list(ports.items()):
            if i <= len(out):
                watch(pc, i, f"all{i}_{o}")
                tags[-1] = tags[-1] + (o,)
        p.run().wait_until_finish()
        for tag, step, label, o in tags:
            want = item["nodes"][step - 1]["data"][o]
            got = sorted(pipe.OUT.pop(tag, []))
            count += 1
            if got != want:
                bad("data", f"{label}: {got}, want {want}")
    except Exception as e:  # pylint: disable=broad-except
        bad("exception", f"{type(e).__name__}: {str(e)[:500]}")
    return dict(problems=problems[:6], steps=count)


# ------------------------------------------------------------- orchestration
def check(ctx):
    q = ctx.quick
    every = '{"create", "map", "multi", "flatten", "side", "gbk", "combine"}'
    small = dict(MaxNodes="4", MaxCopies="1", Kinds='{"create", "map", "multi", "flatten", "gbk"}', Sim="FALSE")
    twice = dict(MaxNodes="3", MaxCopies="2", Kinds='{"create", "multi", "flatten", "side"}' if q else every, Sim="FALSE")
    big = dict(MaxNodes="8", MaxCopies="3", Kinds=every, Sim="TRUE")
    n = 150 if q else 4000
    _, _, sim, wide = ctx.tlc_many([
        dict(module="DeepCopy", name="DeepCopy_one", constants=small, invariants=INV, workers=4, timeout=3000),
        dict(module="DeepCopy", name="DeepCopy_two", constants=twice, invariants=INV, workers=4, timeout=3000),
        dict(module="DeepCopy", name="DeepCopy_sim", constants=big, simulate=n, depth=60, invariants=INV + ["Emit"], timeout=3000),
        dict(module="DeepCopy", name="DeepCopy_dense", constants=dict(big, Kinds='{"create", "multi", "flatten", "map"}'),
             simulate=n // 2, depth=60, invariants=INV + ["Emit"], timeout=3000)])
    rng = ctx.rng
    items = sim + wide
    for it in items:
        it["styles"] = [rng.randint(0, 1) for _ in it["nodes"]]
        # (one of the runners reads side inputs of several outputs wrongly, copies or not)
        it["runner"] = "FnApiRunner" if any(e["kind"] == "side" for e in it["nodes"]) else rng.choice(["BundleBasedDirectRunner", "FnApiRunner", "FnApiRunner"])
    ctx.sample(*[dict(steps=[(e["kind"], e["ins"]) for e in i["nodes"]], copies=[c["target"] for c in i["copies"]]) for i in items[:2]])
    ctx.replay("c14.run", items, timeout=700 if q else 8000, label="pipelines copied")
