"""Runs harness bodies concretely against the unpatched project (real networkx, pgmpy, numpy, pygambit).

stdin: {"prop": id, "jobs": [[cfg, assignment], ...], "stop": bool};  stdout (last line): JSON results."""
import importlib
import json
import os
import random
import sys
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")


def main():
    spec = json.load(sys.stdin)
    out_fd = os.dup(1)
    os.dup2(2, 1)
    from . import hook
    hook.install_plain()
    import pycid  # noqa
    mod = importlib.import_module("props." + spec["prop"].lower())
    from . import ctx as C
    res = []
    for cfg, a in spec["jobs"]:
        random.seed(0)
        c = mod.concrete_ctx(a) if hasattr(mod, "concrete_ctx") else C.ConcreteCtx(a)
        r = {"skip": False, "err": None}
        try:
            mod.body(c, cfg)
        except C.Skip:
            r["skip"] = True
        except Exception as e:  # harness error: not a verdict
            import traceback
            from .run import from_project
            if from_project(e):
                c.fails.append(("no unexpected error", f"{type(e).__name__}: {e}"))
            else:
                r["err"] = f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exc()[-1500:])
        r["outs"], r["fails"] = c.outs, c.fails
        res.append(r)
        if spec.get("stop") and r["fails"]:
            break
    os.write(out_fd, (json.dumps(res, default=repr) + "\n").encode())


if __name__ == "__main__":
    main()
