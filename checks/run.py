"""Entry point of every check:  python checks/run.py Cxx"""
import importlib
import os
import sys

ENV = {"HOME": "/root", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
       "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONPATH": os.environ.get("VP_REPO", "/repo"), "LC_ALL": "C.UTF-8"}
PY = "/opt/venv/bin/python"

if os.environ.get("VP_CHILD") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["VP_CHILD"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), "harness")]

import traceback  # noqa: E402

import vp  # noqa: E402


def main():
    prop = sys.argv[1]
    ctx = vp.Ctx(prop)
    try:
        try:
            mod = importlib.import_module(prop)
        except Exception as exc:  # tensap itself may fail to import
            tb = traceback.format_exc()
            if "/tensap/" in tb:
                ctx.rec("import", err_text=str(exc)[:200])
                ctx.bad.append(({"sig": "import", "repro": None},
                                {"op": "import", "err": tb[-600:]}, ["import"]))
                return ctx.finish()
            raise
        try:
            mod.run(ctx)
        except vp.CheckError:
            raise
        except Exception:
            # the code under test broke the driver: on the unchanged tree
            # this never happens
            tb = traceback.format_exc()
            print(tb[-1500:])
            ctx.bad.append(({"sig": "driver", "repro": None},
                            {"op": "driver", "err": tb[-600:]}, ["crash"]))
        if ctx.records:
            ctx.validate()
        return ctx.finish()
    finally:
        ctx.close()


if __name__ == "__main__":
    try:
        rc = main()
    except vp.CheckError as e:
        print("CHECK-ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
