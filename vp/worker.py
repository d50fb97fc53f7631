"""PyPy-side case executor.  stdin: one JSON object per line {"facet":..., "case":...};
stdout (private descriptor): one JSON result per line."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def run_case(facets, facet, case):
    from vp.common import Out, Skip, Violation
    out = Out()
    try:
        facets[facet](case, out)
    except Violation as v:
        return {"status": "viol", "msg": str(v)[:1500], "labels": out.labels}
    except Skip as s:
        return {"status": "skip", "msg": str(s)}
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        return {"status": "err", "tb": traceback.format_exc()[-3000:]}
    except BaseException as e:
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        tb = traceback.format_exc()[-3000:]
        if any("/src/pylogit/" in f for f in frames):
            # the library itself raised while serving a valid request (e.g. a property access)
            return {"status": "viol", "msg": "valid use raised %s: %s | %s" % (type(e).__name__, str(e)[:300], tb[-900:]),
                    "labels": out.labels}
        if isinstance(e, ArithmeticError) and frames[-1].endswith("vp/ref.py"):
            return {"status": "skip", "msg": "reference value not representable in floating point"}
        return {"status": "err", "tb": tb}
    return {"status": "ok", "nt": bool(out.nt), "labels": out.labels}


def main():
    chan = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VP_WORKER_DEBUG"):
        os.dup2(devnull, 2)
    try:
        import pylogit  # noqa: F401
        ok = True
    except BaseException:
        ok = False
        tb = traceback.format_exc()
    if not ok:
        chan.write(json.dumps({"status": "import-error", "tb": tb[-3000:]}) + "\n")
        chan.flush()
        return
    import pylogit
    src = os.path.realpath(os.path.dirname(pylogit.__file__))
    from vp.facets import FACETS
    chan.write(json.dumps({"status": "ready", "src": src}) + "\n")
    chan.flush()
    for line in sys.stdin:
        req = json.loads(line)
        res = run_case(FACETS, req["facet"], req["case"])
        chan.write(json.dumps(res) + "\n")
        chan.flush()


if __name__ == "__main__":
    main()
