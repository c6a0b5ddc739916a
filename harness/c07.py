"""C07: operation graph walks (spec/Traverser.tla)."""


def run_graph(item, shared):
    import collections

    from tensorflow_transform import nodes

    class Def(collections.namedtuple("Def", ["label", "n"]), nodes.OperationDef):
        __slots__ = ()

        @property
        def num_outputs(self):
            return self.n

    class Node(nodes.OperationNode):
        """An operation whose inputs can be set afterwards, to allow cycles."""

        def __init__(self, od):
            super().__init__(od, ())
            self.mine = ()

        @property
        def inputs(self):
            return self.mine

    n = len(item["ins"])
    ops = [Node(Def(f"op{o + 1}", item["nout"][o])) for o in range(n)]
    for o in range(n):
        ops[o].mine = tuple(ops[r[0] - 1].outputs[r[1] - 1] for r in item["ins"][o])
    needed = set(item["needed"])
    problems, steps = [], 0

    def term(o, idx):
        return ("v", o, idx)

    class Walk(nodes.Visitor):
        def __init__(self, faulty, kind):
            self.seen, self.args, self.valid = [], {}, []
            self.faulty, self.kind = faulty, kind

        def visit(self, operation_def, input_values):
            o = int(operation_def.label[2:])
            self.seen.append(o)
            self.args[o] = tuple(input_values)
            out = tuple(term(o, i + 1) for i in range(operation_def.n))
            if o == self.faulty:
                return dict(more=out + (term(o, 99),), less=out[:-1], none=None,
                            text="x" * operation_def.n)[self.kind]
            return out

        def validate_value(self, value):
            self.valid.append(value)

    def walk(faulty=0, kind=None):
        w = Walk(faulty, kind)
        t = nodes.Traverser(w)
        try:
            got = [t.visit_value_node(ops[r[0] - 1].outputs[r[1] - 1])
                   for r in item["roots"]]
            return w, got, None
        except RecursionError as ex:
            return w, None, ("recursion", ex)
        except Exception as ex:
            return w, None, ("error", ex)

    w, got, err = walk()
    steps += 1
    if item["cyclic"]:
        if err is None or err[0] != "error":
            problems.append(dict(key="cycle", what=f"cycle accepted ({err})"))
    else:
        if err:
            problems.append(dict(key="walk", what=f"walk failed: {err[1]!r}"))
        else:
            if len(w.seen) != len(set(w.seen)):
                problems.append(dict(key="once", what=f"visited {w.seen}"))
            if set(w.seen) != needed:
                problems.append(dict(key="needed", what=f"visited {w.seen}, needed {sorted(needed)}"))
            pos = {o: k for k, o in enumerate(w.seen)}
            for o in w.seen:
                for r in item["ins"][o - 1]:
                    if pos.get(r[0], 10**6) >= pos[o]:
                        problems.append(dict(key="order", what=f"{o} visited before its input {r[0]}"))
                want = tuple(term(*r) for r in item["ins"][o - 1])
                if w.args[o] != want:
                    problems.append(dict(key="args", what=f"op {o} got {w.args[o]}, want {want}"))
            if got != [term(*r) for r in item["roots"]]:
                problems.append(dict(key="value", what=f"got {got}"))
            want = sorted(term(o, i + 1) for o in needed for i in range(item["nout"][o - 1]))
            if sorted(w.valid) != want:
                problems.append(dict(key="validate", what=f"validated {w.valid}"))
            steps += len(w.seen)
            # every visitor result of the wrong size must be rejected
            for o in needed:
                for kind in ("more", "less", "none", "text"):
                    w2, got2, err2 = walk(o, kind)
                    steps += 1
                    if err2 is None or err2[0] != "error":
                        problems.append(dict(key="arity", what=f"op {o} returning {kind} accepted"))
            if nodes.count_graph_nodes([ops[r[0] - 1].outputs[r[1] - 1]
                                        for r in item["roots"]]) != len(needed):
                problems.append(dict(key="count", what="count_graph_nodes"))
    return dict(problems=problems, steps=steps)


def run_many(item, shared):
    out = dict(problems=[], steps=0, count=len(item))
    for g in item:
        r = run_graph(g, shared)
        for p in r["problems"]:
            p["graph"] = g
        out["problems"] += r["problems"][:2]
        out["steps"] += r["steps"]
    out["problems"] = out["problems"][:10]
    return out


def check(ctx):
    q = ctx.quick
    inv = ["OnceEach", "OnlyNeeded", "InputsFirst", "CompleteIffAcyclic", "Emit"]
    jobs = [
        dict(module="Traverser", name="all2", view="View", invariants=inv, workers=2,
             constants=dict(N="2", MaxIn="2", MaxOut="2", MaxRoots="2", Graphs="0")),
        dict(module="Traverser", name="all3", view="View", invariants=inv, workers=2,
             constants=dict(N="3", MaxIn="2" if not q else "1", MaxOut="1",
                            MaxRoots="1", Graphs="0")),
        dict(module="Traverser", name="rand5", view="View", invariants=inv, workers=2,
             constants=dict(N="5", MaxIn="3", MaxOut="2", MaxRoots="3",
                            Graphs="1200" if q else "6000")),
        dict(module="Traverser", name="rand7", view="View", invariants=inv, workers=2,
             constants=dict(N="7", MaxIn="2", MaxOut="3", MaxRoots="2",
                            Graphs="300" if q else "3000")),
    ]
    graphs = [g for v in ctx.tlc_many(jobs) for g in v]
    ctx.sample(*graphs[-2:])
    ctx.extra["graphs_cyclic"] = sum(g["cyclic"] for g in graphs)
    ctx.extra["graphs"] = len(graphs)
    ctx.rng.shuffle(graphs)
    ctx.replay("c07.run_many", [graphs[k::32] for k in range(32)])
