"""C13: context settings (spec/Context.tla), replayed on real threads."""

import os
import queue
import threading

SETTINGS = ["temp_dir", "desired_batch_size", "passthrough_keys",
            "use_deep_copy_optimization", "force_tf_compat_v1", "save_options"]


class Boom(Exception):
    pass


class Driver:
    """A thread that enters and leaves contexts with real `with` statements."""

    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.th = threading.Thread(target=self.main, daemon=True)
        self.th.start()

    def main(self):
        while True:
            try:
                self.block()
                return
            except Exception as ex:
                self.r.put(("error", repr(ex)))

    def block(self):
        """Serves commands at one nesting level; returns to leave it."""
        while True:
            cmd, arg = self.q.get()
            if cmd == "call":
                try:
                    self.r.put(("ok", arg()))
                except Exception as ex:
                    self.r.put(("error", repr(ex)))
            elif cmd == "enter":
                try:
                    with arg:
                        self.r.put(("ok", None))
                        self.block()
                except Boom:
                    pass
                except Exception as ex:
                    self.r.put(("error", repr(ex)))
                    continue
                self.r.put(("ok", None))
            elif cmd == "exit":
                return
            elif cmd == "raise":
                raise Boom()
            elif cmd == "stop":
                return

    def do(self, cmd, arg=None):
        self.q.put((cmd, arg))
        return self.r.get(timeout=60)


def run_behaviour(item, shared):
    import tensorflow as tf
    import tensorflow_transform.beam as tft_beam

    Context = tft_beam.Context
    here = os.getcwd()
    opts = [tf.saved_model.SaveOptions() for _ in range(4)]
    # value v of a setting; 0 is "not given".  Falsy values are values too.
    table = dict(
        temp_dir=lambda v: os.path.join(here, f"tmp{v}"),
        desired_batch_size=lambda v: [None, 7, 1, 0][v],
        passthrough_keys=lambda v: [None, {"a"}, set(), {"b", "c"}][v],
        use_deep_copy_optimization=lambda v: [None, True, False, True][v],
        force_tf_compat_v1=lambda v: [None, True, False, True][v],
        save_options=lambda v: opts[v])
    names = item["settings"]

    def kwargs(rec):
        return {n: table[n](rec[n]) for n in names if rec[n]}

    def observe():
        seen = {}
        try:
            seen["temp_dir"] = Context.create_base_temp_dir()
        except ValueError:
            seen["temp_dir"] = None
        seen["desired_batch_size"] = Context.get_desired_batch_size()
        seen["passthrough_keys"] = Context.get_passthrough_keys()
        seen["use_deep_copy_optimization"] = Context.get_use_deep_copy_optimization()
        seen["force_tf_compat_v1"] = Context.get_use_tf_compat_v1()
        seen["save_options"] = Context.get_save_options()
        return seen

    default = dict(temp_dir=None, desired_batch_size=None, passthrough_keys=set(),
                   use_deep_copy_optimization=False, force_tf_compat_v1=False,
                   save_options=None)
    threads, objs, steps = {}, {}, 0

    def th(t):
        if t not in threads:
            threads[t] = Driver()
        return threads[t]

    log = item["log"]
    for k, st in enumerate(log):
        if st["a"] == "make":
            def mk(st=st):
                objs[st["o"]] = Context(**kwargs(st["set"]))
            res = th(st["t"]).do("call", mk)
        elif st["a"] == "enter":
            res = th(st["t"]).do("enter", objs[st["o"]])
        else:
            res = th(st["t"]).do(st["a"])
        if res[0] != "ok":
            return [dict(key="step", what=f"step {k} {st['a']} failed: {res[1]}")]
        for u, want in enumerate(st["e"], 1):
            res = th(u).do("call", observe)
            if res[0] != "ok":
                return [dict(key="observe", what=f"step {k}: {res[1]}")]
            steps += 1
            for n in SETTINGS:
                v = want.get(n, 0)
                if v == 0:
                    exp = default[n]
                elif n == "temp_dir":
                    exp = os.path.join(table[n](v), "tftransform_tmp")
                else:
                    exp = table[n](v)
                got = res[1][n]
                same = got is exp if n == "save_options" else got == exp
                if n == "temp_dir" and v and got:
                    same = os.path.dirname(got) == table[n](v) and os.path.isdir(got)
                if not same:
                    return dict(steps=steps, problems=[dict(
                        key="setting-" + n,
                        what=f"after step {k} ({st['a']} on thread {st['t']}) thread {u} "
                             f"sees {n}={got!r}, want {exp!r}")])
    return dict(steps=steps, problems=[])


def check(ctx):
    q = ctx.quick
    inv = ["Isolated", "Restored", "Default"]

    def s(names):
        return "{" + ", ".join(f'"{n}"' for n in names) + "}"

    base = dict(Threads="1..2", Values="1", MaxObjs="2", MaxDepth="2")
    jobs = [dict(module="Context", name="exhaustive", invariants=inv, workers=4,
                 constants=dict(base, Settings=s(SETTINGS[:1]), MaxSteps="6" if q else "7"))]
    groups = [SETTINGS, SETTINGS[:2], SETTINGS[2:4], SETTINGS[4:], ["passthrough_keys", "temp_dir"]]
    for k, g in enumerate(groups):
        jobs.append(dict(
            module="Context", name=f"sim{k}", invariants=inv + ["Emit"],
            simulate=(15 if q else 150), depth=20,
            constants=dict(Threads="1..3", Settings=s(g), Values="1" if len(g) > 2 else "3",
                           MaxObjs="4", MaxDepth="4", MaxSteps="14")))
    res = ctx.tlc_many(jobs)
    items = []
    for g, vals in zip(groups, res[1:]):
        ctx.rng.shuffle(vals)
        for v in vals[:120 if q else 2000]:
            items.append(dict(settings=g, log=v))
    ctx.sample(*[[(st["a"], st["t"], st["o"]) for st in i["log"]] for i in items[:2]])
    ctx.rng.shuffle(items)
    ctx.replay("c13.run_behaviour", items)
