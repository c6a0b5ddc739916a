"""C23: Python functions in saved models (spec/PyFuncs.tla), in real processes."""

import json
import os
import subprocess
import sys

ZYGOTE = None


def zygote():
    global ZYGOTE
    if ZYGOTE is None or ZYGOTE.poll() is not None:
        ZYGOTE = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(__file__), "zygote.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return ZYGOTE


def value(ops, i):
    """What the i-th operation gives for the rows 1 and 2."""
    x = value(ops, ops[i]["at"] - 1) if ops[i]["at"] else [1.0, 2.0]
    return [v * 10 + ops[i]["fn"] for v in x]


def program(item, shared):
    from harness import pipe
    problems, steps, owner = [], [], []
    graphs, n_models = [], 0
    wants = []
    with pipe.scratch() as d:
        def where(m):
            # a model that an analysis published lies one level deeper
            return d + f"/m{m}"

        for s in item["log"]:
            c, want = dict(s), None
            if s["do"] == "graph":
                graphs.append(s["p"])
                c["g"] = len(graphs)
            elif s["do"] in ("apply", "load", "save"):
                c["p"] = graphs[s["g"] - 1]
                if s["do"] == "save":
                    n_models += 1
                    c["dir"] = where(n_models)
                elif s["do"] == "load":
                    c["dir"] = where(s["m"])
            elif s["do"] == "peek":
                c["dir"] = where(s["m"])
                want = [value(item["models"][s["m"] - 1], i) for i in range(len(item["models"][s["m"] - 1]))]
            steps.append(c)
            wants.append(want)
        for p in sorted(set(graphs)):
            steps.append(dict(do="all", p=p))
            wants.append({str(g): [value(item["graphs"][g - 1]["ops"], i) for i in range(len(item["graphs"][g - 1]["ops"]))]
                          for g in range(1, len(graphs) + 1) if graphs[g - 1] == p})
        for m in range(1, n_models + 1):
            ops = item["models"][m - 1]
            for p, do in ((f"new{m}", "fresh"), (f"new{m}", "peek"), ("last", "peek"), ("last", "fresh")):
                steps.append(dict(do=do, p=p, dir=where(m)))
                wants.append([value(ops, i) for i in range(len(ops))])
        if item["beam"]:
            ops = item["models"][-1]
            p = sorted(set(graphs))[0]
            steps.append(dict(do="beam", p=p, ops=ops, dir=d + "/beam"))
            vals = [value(ops, i) for i in range(len(ops))]
            wants.append(dict(ops=vals, last=[vals[-1][1] - vals[-1][0]] * 2))
            vals = vals + [[vals[-1][1] - vals[-1][0]] * 2]
        z = zygote()
        z.stdin.write(json.dumps(dict(steps=steps)) + "\n")
        z.stdin.flush()
        line = z.stdout.readline()
        replies = json.loads(line) if line else []
    if len(replies) != len(steps):
        problems.append(dict(key="lost", what=f"{len(replies)} replies for {len(steps)} steps {item['log']}"))
    for c, want, r in zip(steps, wants, replies):
        c = {k: v for k, v in c.items() if k != "dir"}
        if "error" in r:
            problems.append(dict(key=c["do"] + "-error", what=f"{c}: {r['error']} in {item['log']}"))
            break
        if want is not None and r["value"] != want:
            problems.append(dict(key=c["do"], what=f"{c}: got {r['value']}, want {want} in {item['log']}"))
    return dict(problems=problems, steps=len(steps), cover=dict(models=n_models))


def check(ctx):
    q = ctx.quick
    inv = ["Own", "Plain"]
    base = dict(Procs="{1, 2}", Fns="{1, 2}", MaxGraphs="2", MaxModels="2", MaxOps="3", Sim="FALSE", KeepOld="FALSE")
    sim = dict(Procs="1..3", Fns="1..4", MaxGraphs="4", MaxModels="4", MaxOps="6", Sim="TRUE", KeepOld="FALSE")
    jobs = [
        dict(module="PyFuncs", name="short", invariants=inv, view="View", constants=dict(base, Steps="6" if q else "8")),
        dict(module="PyFuncs", name="programs", invariants=inv + ["Emit"], simulate=200 if q else 4000, depth=24,
             constants=dict(sim, Steps="18")),
    ]
    res = ctx.tlc_many(jobs)
    # with old tokens kept the specification itself shows operations that call each other's functions
    ctx.tlc("PyFuncs", name="old_tokens_kept", invariants=inv, simulate=300, depth=24, want_error=True,
            constants=dict(sim, KeepOld="TRUE", Steps="18"))
    items = [v for v in res[1] if any(s["do"] == "load" for s in v["log"])]
    # those first in which models were made from loaded ones
    items.sort(key=lambda v: -sum(s["do"] in ("load", "save") for s in v["log"]))
    items = items[:40 if q else 900]
    for n, it in enumerate(items):
        it["beam"] = n % 4 == 0
    ctx.sample(*items[:2])
    ctx.replay("c23.program", items, timeout=700 if q else 6000, label="histories")
