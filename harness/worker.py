"""Worker process: runs one replay function over a list of behaviours."""

import importlib
import json
import os
import sys
import traceback


def main():
    d = sys.argv[1]
    spec = json.load(open(os.path.join(d, "in.json")))
    out = open(os.path.join(d, "out.jsonl"), "w")
    modname, fn = spec["func"].rsplit(".", 1)
    items = spec["items"]
    try:
        import logging

        logging.disable(logging.WARNING)
        try:
            from absl import logging as absl_logging

            absl_logging.set_verbosity(absl_logging.ERROR)
        except Exception:
            pass
        mod = importlib.import_module("harness." + modname)
        func = getattr(mod, fn)
    except Exception:
        # The code under test cannot even be imported.
        out.write(json.dumps(dict(start=items[0][0])) + "\n")
        out.write(json.dumps(dict(i=items[0][0], problems=[dict(
            key="import", what="import failed", log=traceback.format_exc()[-3000:])])) + "\n")
        out.flush()
        return 0
    os.makedirs(os.path.join(d, "scratch"))
    os.chdir(os.path.join(d, "scratch"))
    for i, item in items:
        out.write(json.dumps(dict(start=i)) + "\n")
        out.flush()
        try:
            r = func(item, spec.get("shared"))
            if r is None:
                r = []
            if isinstance(r, list):
                r = dict(problems=r)
            r.setdefault("problems", [])
        except Exception as ex:  # a behaviour the specification allows must not raise
            r = dict(problems=[dict(key="exception", what=repr(ex)[:500],
                                    log=traceback.format_exc()[-3000:])])
        r["i"] = i
        out.write(json.dumps(r, default=repr) + "\n")
        out.flush()
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
