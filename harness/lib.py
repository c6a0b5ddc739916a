"""Shared machinery: run TLC, collect behaviours, replay them, report.

Every check is a module harness.cNN with a function `check(ctx)`; replay of
behaviours into the real code happens in worker processes (`ctx.replay`).
"""

import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import zlib
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
TAG = '"@@'


class TlcFailure(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        PATH="/usr/bin:/bin:/usr/sbin:/sbin:/usr/local/bin",
        HOME=e.get("HOME", "/root"),
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        CUDA_VISIBLE_DEVICES="-1",
        LANG="C.UTF-8",
        TF_NUM_INTRAOP_THREADS="1",
        TF_NUM_INTEROP_THREADS="1",
        OMP_NUM_THREADS="1",
        PYTHONPATH=os.pathsep.join([VERIF, REPO]),
    )
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.runs = []
        self.extra = {}
        self.violations = []
        self.known_seen = []
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")

    def say(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, name=None, constants=None, invariants=(),
            init="Init", next_="Next", simulate=None, depth=None, view=None,
            constraint=None, action_constraint=None, workers=1, heap="4g",
            timeout=400, coverage=False, postcondition=None, properties=(),
            deadlock=False, symmetry=None, spec=None, seed=None, defs=None,
            emit=True, want_error=False):
        """Runs TLC on spec/<module>.tla; returns the emitted JSON values.

        `constants`: name -> TLA+ expression (definition override in a generated
        module that extends `module`, so that any expression can be used).
        """
        name = name or module
        run = tempfile.mkdtemp(prefix=f"tlc_{name}_", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), run)
        mc = "MC_" + re.sub(r"\W", "_", name)
        lines = [f"---- MODULE {mc} ----", f"EXTENDS {module}"]
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next_}"]
        for k, v in (constants or {}).items():
            lines.append(f"c_{k} == {v}")
            cfg.append(f"CONSTANT {k} <- c_{k}")
        for k, v in (defs or {}).items():
            lines.append(f"{k} == {v}")
        lines.append("====")
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {i}" for i in properties]
        if view:
            cfg.append(f"VIEW {view}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if symmetry:
            cfg.append(f"SYMMETRY {symmetry}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        open(os.path.join(run, mc + ".tla"), "w").write("\n".join(lines) + "\n")
        open(os.path.join(run, mc + ".cfg"), "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               f"-Djava.io.tmpdir={run}", "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(run, "states"),
               "-config", mc + ".cfg"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed",
                    str(self.seed * 7919 + zlib.crc32(name.encode()) % 7919 if seed is None else seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(mc + ".tla")
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=run, env=env(), timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise TlcFailure(f"TLC timeout on {name}") from ex
        out = p.stdout
        vals, rest = [], []
        for line in out.split("\n"):
            if line.startswith(TAG):
                vals.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        text = "\n".join(rest)
        states = trans = 0
        m = re.search(r"(\d+) states generated, (\d+) distinct states", text)
        if m:
            trans, states = int(m.group(1)), int(m.group(2))
        else:
            m = re.findall(r"(\d+) states checked|states generated: (\d+)|"
                           r"The number of states generated: (\d+)", text)
            if m:
                trans = max(int(x) for t in m for x in t if x)
                states = trans
        ok = p.returncode == 0 and "Error:" not in text
        self.runs.append(dict(name=name, states=states, transitions=trans,
                              emitted=len(vals), wall_s=round(time.time() - t0, 2),
                              mode="simulate" if simulate else "bfs"))
        self.states += states
        self.transitions += trans
        self.say(f"TLC {name}: {states} states, {trans} transitions, "
                 f"{len(vals)} emitted, {time.time()-t0:.1f}s")
        if want_error:
            return vals, text, ok
        if not ok:
            # keep the tail for diagnosis
            raise TlcFailure(f"TLC failed on {name}:\n" + text[-4000:])
        shutil.rmtree(run, ignore_errors=True)
        return vals

    def tlc_many(self, jobs, parallel=8):
        """Runs several TLC jobs (dicts of `tlc` arguments) in parallel."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(parallel) as ex:
            return list(ex.map(lambda j: self.tlc(**j), jobs))

    # ------------------------------------------------------------- replay
    def replay(self, func, items, workers=8, timeout=600, shared=None, label=None, extra_env=None):
        """Runs `harness.<module>.<func>(item, shared)` on every item.

        Each call returns a list of problems, each a dict with at least `key`
        and `what`; an exception in the implementation is a problem as well.
        Returns nothing; problems are recorded.
        """
        if not items:
            return []
        t0 = time.time()
        workers = max(1, min(workers, len(items)))
        procs = []
        for w in range(workers):
            d = os.path.join(self.tmp, f"w_{func.replace('.', '_')}_{len(self.runs)}_{w}_{int(time.time()*1e6)}")
            os.makedirs(d)
            mine = list(range(w, len(items), workers))
            with open(os.path.join(d, "in.json"), "w") as f:
                json.dump(dict(func=func, seed=self.seed, tier=self.tier,
                               shared=shared, items=[[i, items[i]] for i in mine]), f)
            log = open(os.path.join(d, "log"), "w")
            procs.append((d, mine, subprocess.Popen(
                [PY, "-m", "harness.worker", d], cwd=d,
                env=dict(env(), **(extra_env or {})),
                stdout=log, stderr=subprocess.STDOUT, start_new_session=True), log))
        results = {}
        deadline = time.time() + timeout
        for d, mine, p, log in procs:
            hung = False
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hung = True
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            log.close()
            cur = None
            outp = os.path.join(d, "out.jsonl")
            if os.path.exists(outp):
                for line in open(outp):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in r:
                        cur = r["start"]
                    else:
                        results[r["i"]] = r
                        cur = None
            missing = [i for i in mine if i not in results]
            if missing:
                tail = open(os.path.join(d, "log"), errors="replace").read()[-3000:]
                bad = cur if cur is not None else missing[0]
                what = ("the implementation did not finish (hang or time limit)"
                        if hung else f"worker ended with status {p.returncode}")
                results[bad] = dict(i=bad, steps=0, problems=[
                    dict(key="hang" if hung else "crash", what=what, log=tail)])
                for i in missing:
                    results.setdefault(i, dict(i=i, steps=0, problems=[], skipped=True))
            shutil.rmtree(d, ignore_errors=True)
        n = nbad = 0
        for i in sorted(results):
            r = results[i]
            if r.get("skipped"):
                continue
            n += r.get("count", 1)
            self.steps += r.get("steps", 0)
            for k, v in r.get("cover", {}).items():
                c = self.extra.setdefault("covered", {})
                c[k] = c.get(k, 0) + v
            for pb in r["problems"]:
                nbad += 1
                self.problem(pb, items[i])
        self.traces += n
        self.say(f"replayed {n} {label or func} behaviours, {nbad} problems, "
                 f"{time.time()-t0:.1f}s")
        return [results[i] for i in sorted(results)]

    def problem(self, pb, item=None):
        key = pb.get("key", "")
        for k in known(self.prop):
            if k["key"] == key:
                if key not in self.known_seen:
                    self.known_seen.append(key)
                return
        self.violations.append(dict(pb, item=item))

    def sample(self, *items):
        for it in items:
            if len(self.samples) < 6:
                self.samples.append(it)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


_KNOWN = None


def known(prop):
    """Entries of known_findings.txt: `known: property=C01 key=K <text>`."""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    _KNOWN.append(dict(prop=m.group(1), key=m.group(2), text=m.group(3)))
    return [k for k in _KNOWN if k["prop"] == prop]
