"""Processes for c23: forks children that have imported TensorFlow but not used it."""

import ctypes
import json
import os
import signal
import sys


def child(conn):
    """Carries out what one process of the specification does."""
    import numpy as np
    import tensorflow as tf
    import tensorflow_transform as tft
    from tensorflow_transform.saved import saved_transform_io, saved_transform_io_v2

    v1 = tf.compat.v1
    graphs = {}
    arg = [1.0, 2.0]

    def function(f):
        if f == 3:  # gives two results
            return lambda x, c: (x * c + np.float32(f), np.zeros(1, np.float32)), [tf.float32, tf.float32]
        return lambda x, c: x * c + np.float32(f), tf.float32

    def apply(f, x):
        func, tout = function(f)
        y = tft.apply_pyfunc(func, tout, f % 2 == 0, f"fn{f}", x, tf.constant(10.0))
        y = y[0] if f == 3 else y
        y.set_shape([None])
        return y

    def judge(G):
        with G["graph"].as_default():
            return G["session"].run(G["ops"], {G["x"]: arg})

    def do(c):
        what = c["do"]
        if what == "noise":
            with v1.Graph().as_default():
                v1.py_func(lambda: np.float32(0), [], tf.float32)
        elif what == "graph":
            graph = v1.Graph()
            with graph.as_default():
                graphs[c["g"]] = dict(graph=graph, session=v1.Session(graph=graph), ops=[],
                                      x=v1.placeholder(tf.float32, [None], "x"))
        elif what in ("apply", "load", "save"):
            G = graphs[c["g"]]
            with G["graph"].as_default(), G["session"].as_default():
                x = G["ops"][c["at"] - 1] if c.get("at") else G["x"]
                if what == "apply":
                    G["ops"].append(apply(c["f"], x))
                elif what == "load":
                    _, out = saved_transform_io.partially_apply_saved_transform_internal(c["dir"], {"x": x})
                    G["ops"] += [out[f"o{i}"] for i in range(len(out))]
                else:
                    saved_transform_io.write_saved_transform_from_session(
                        G["session"], {"x": G["x"]}, {f"o{i}": t for i, t in enumerate(G["ops"])}, c["dir"])
        elif what == "peek":
            out = saved_transform_io_v2.SavedModelLoader(c["dir"]).apply_transform_model({"x": tf.constant(arg)})
            return [out[f"o{i}"].numpy().tolist() for i in range(len(out))]
        elif what == "all":
            return {g: [y.tolist() for y in judge(G)] for g, G in graphs.items()}
        elif what == "fresh":  # a graph that only has this model
            with v1.Graph().as_default(), v1.Session() as s:
                _, out = saved_transform_io.partially_apply_saved_transform_internal(c["dir"], {"x": tf.constant(arg)})
                return [y.tolist() for y in s.run([out[f"o{i}"] for i in range(len(out))])]
        elif what == "beam":
            return beam_run(c)
        return None

    def beam_run(c):
        """A whole analysis in this process, after what it did before."""
        import tensorflow_transform.beam as tft_beam
        from tensorflow_transform.tf_metadata import dataset_metadata
        spec = {"x": tf.io.FixedLenFeature([], tf.float32)}

        def fn(inputs):
            ops = []
            for op in c["ops"]:
                x = ops[op["at"] - 1] if op["at"] else inputs["x"]
                ops.append(apply(op["fn"], x))
            low = tft.min(ops[-1])
            return dict({f"o{i}": t for i, t in enumerate(ops)}, last=tft.max(ops[-1] - low) + tf.zeros_like(inputs["x"]))

        import tempfile
        rows = [{"x": v} for v in arg]
        with tempfile.TemporaryDirectory() as tmp:
            with tft_beam.Context(temp_dir=tmp, force_tf_compat_v1=True):
                meta = dataset_metadata.DatasetMetadata.from_feature_spec(spec)
                (out, _), tfn = (rows, meta) | tft_beam.AnalyzeAndTransformDataset(fn)
                _ = tfn | tft_beam.WriteTransformFn(c["dir"])
        out = sorted(out, key=lambda r: float(r["o0"]))
        n = len(c["ops"])
        return dict(ops=[[float(r[f"o{i}"]) for r in out] for i in range(n)], last=[float(r["last"]) for r in out])

    for line in conn:
        try:
            res = dict(value=do(json.loads(line)))
        except Exception as e:  # pylint: disable=broad-except
            res = dict(error=f"{type(e).__name__}: {str(e)[:400]}")
        print(json.dumps(res), file=out, flush=True)


def tie():
    """Ends this process when the one that started it ends."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def conduct(item):
    """Runs a log: a reply for each of its steps, and values of all graphs and models at the end."""
    kids = {}

    def ask(p, c):
        if p not in kids:
            down, up = os.pipe(), os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(down[1])
                os.close(up[0])
                global out
                out = os.fdopen(up[1], "w")
                try:
                    tie()
                    child(os.fdopen(down[0]))
                finally:
                    os._exit(0)
            os.close(down[0])
            os.close(up[1])
            kids[p] = (pid, os.fdopen(down[1], "w"), os.fdopen(up[0]))
        _, to, back = kids[p]
        print(json.dumps(c), file=to, flush=True)
        line = back.readline()
        return json.loads(line) if line else dict(error="the process ended")

    replies = [ask(s["p"], s) for s in item["steps"]]
    for pid, to, back in kids.values():
        os.kill(pid, signal.SIGKILL)  # the others hold its pipe open as well
        to.close()
        back.close()
        os.waitpid(pid, 0)
    return replies


if __name__ == "__main__":
    tie()
    real = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.WARNING)
    import apache_beam  # noqa: F401
    import tensorflow  # noqa: F401
    import tensorflow_transform  # noqa: F401
    import tensorflow_transform.beam  # noqa: F401
    for item_line in sys.stdin:
        print(json.dumps(conduct(json.loads(item_line))), file=real, flush=True)
