"""Driver: Hypothesis generation/shrinking (CPython) against pylogit workers (PyPy)."""
import hashlib
import json
import multiprocessing
import os
import queue
import select
import subprocess
import sys
import time
import traceback

SUT_PY = "/opt/pypy-venv/bin/python"
SHARDS = 8
CASE_TIMEOUT = 90.0


class HarnessError(Exception):
    pass


class StopSearch(KeyboardInterrupt):
    """leaves Hypothesis at once (it lets KeyboardInterrupt through)"""


class CaseFailure(Exception):
    pass


def worker_env():
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
              "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": "/repo/src",
              "TQDM_DISABLE": "1", "MPLBACKEND": "Agg"})
    return e


class Worker(object):
    def __init__(self, here):
        self.here = here
        self.p = None
        self.import_error = None
        self.start()

    def start(self):
        self.p = subprocess.Popen([SUT_PY, os.path.join(self.here, "vp", "worker.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("VP_WORKER_DEBUG") else subprocess.DEVNULL,
                                  env=worker_env(), cwd=self.here)
        self.buf = b""
        r = self.read(300.0)
        if r is None:
            raise HarnessError("worker did not start")
        if r["status"] == "import-error":
            self.import_error = r["tb"]
        elif r["status"] != "ready":
            raise HarnessError("unexpected worker greeting %r" % (r,))
        elif not r["src"].startswith("/repo/"):
            raise HarnessError("pylogit imported from %s, not from /repo" % r["src"])

    def read(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            rd, _, _ = select.select([fd], [], [], left)
            if not rd:
                return None
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                return {"status": "died", "rc": self.p.wait()}
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, facet, case):
        self.p.stdin.write((json.dumps({"facet": facet, "case": case}) + "\n").encode())
        self.p.stdin.flush()
        r = self.read(CASE_TIMEOUT)
        if r is None:
            self.close()
            self.start()
            return {"status": "timeout"}
        if r["status"] == "died":
            self.start()
        return r

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def verdict(r):
    """results of the library that the oracle cannot even read, and calls that never return, are violations
    (cases take well under ten seconds; a failure is reported only if it reproduces in a fresh process)"""
    if r["status"] == "err":
        return {"status": "viol", "msg": "the result could not be compared with the expected one: " + r["tb"][-1200:]}
    if r["status"] == "timeout":
        return {"status": "viol", "msg": "no answer within %d s" % CASE_TIMEOUT, "timeout": True}
    return r


def seed_for(*parts):
    h = hashlib.sha256("|".join(str(x) for x in parts).encode()).hexdigest()
    return int(h[:12], 16)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def shard_main(here, pid, tier, seed, shard, nshards, hard_end, outq, stop):
    """Runs this shard's part of every facet of the property; puts dict results on outq."""
    try:
        res = _shard(here, pid, tier, seed, shard, nshards, hard_end, stop)
    except BaseException:
        res = {"error": traceback.format_exc()[-4000:]}
    res["shard"] = shard
    outq.put(res)


def _shard(here, pid, tier, seed, shard, nshards, hard_end, stop):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st
    from vp import gen, props
    w = Worker(here)
    if w.import_error:
        return {"import_error": w.import_error}
    stats = {"facets": {}, "violation": None, "error": None}
    prop = props.PROPS[pid]
    history = []  # everything this worker process was asked to do, in order

    def run_facet(f):
        total = f["thorough"] if tier == "thorough" else f["quick"]
        n = total // nshards + (1 if shard < total % nshards else 0)
        fs = {"evaluations": 0, "nontrivial": set(), "labels": {}, "skips": 0, "skip_msgs": {}, "timeouts": 0,
              "samples": [], "truncated": 0, "wall": time.time(), "planned": n}
        stats["facets"][f["name"]] = fs
        if n == 0 or stop.is_set():
            fs["wall"] = 0.0
            return
        state = {"best": None, "fails": 0, "t_fail": None, "execs_after": 0}

        def evaluate(case):
            key = canon(case)
            history.append([f["facet"], case])
            r = w.run(f["facet"], case)
            s = r["status"]
            if s == "died":
                raise HarnessError("worker died (rc %s) in facet %s" % (r.get("rc"), f["facet"]))
            r = verdict(r)
            s = r["status"]
            if r.get("timeout"):
                fs["timeouts"] += 1
            if state["t_fail"] is None:
                fs["evaluations"] += 1
                for lab in r.get("labels", []):
                    fs["labels"][lab] = fs["labels"].get(lab, 0) + 1
                if s == "skip":
                    fs["skips"] += 1
                    m = r.get("msg", "")[:60]
                    fs["skip_msgs"][m] = fs["skip_msgs"].get(m, 0) + 1
                elif r.get("nt"):
                    fs["nontrivial"].add(hashlib.sha256(key.encode()).digest()[:8])
                    if len(fs["samples"]) < 3:
                        fs["samples"].append(case)
            return r, key

        def test(case):
            now = time.time()
            if state["t_fail"] is None:
                if stop.is_set():
                    raise StopSearch()
                if now > hard_end:
                    fs["truncated"] += 1
                    raise StopSearch()
            else:
                state["execs_after"] += 1
                if state["execs_after"] > 600 or now - state["t_fail"] > f.get("shrink_s", 45.0):
                    raise StopSearch()
            r, key = evaluate(case)
            if r["status"] == "viol":
                if state["t_fail"] is None:
                    state["t_fail"] = time.time()
                    state["seq"] = list(history)
                if state["best"] is None or len(key) <= state["best"][0]:
                    state["best"] = (len(key), case, r["msg"])
                raise CaseFailure(r["msg"])

        strat = st.composite(lambda draw, g=f["gen"]: g(gen.D(draw)))()
        runner = given(strat)(test)
        runner = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                          phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), print_blob=False,
                          verbosity=hypothesis.Verbosity.quiet)(runner)
        runner = hypothesis.seed(seed_for(seed, pid, f["name"], shard, tier))(runner)
        try:
            runner()
        except StopSearch:
            pass
        except HarnessError:
            raise
        except BaseException as e:
            if state["best"] is None:
                if isinstance(e, hypothesis.errors.Unsatisfiable):
                    pass
                else:
                    raise
        fs["wall"] = time.time() - fs["wall"]
        if state["best"] is not None:
            stats["violation"] = {"facet": f["facet"], "case": state["best"][1], "msg": state["best"][2],
                                  "seq": state["seq"]}
            stop.set()

    for f in prop["facets"]:
        run_facet(f)
        if stats["violation"] is not None:
            break
    w.close()
    for fs in stats["facets"].values():
        fs["nontrivial"] = [x.hex() for x in fs["nontrivial"]]
    return stats


def write_replay(here, pid, tier, seed, v):
    d = os.path.join(here, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon(v["cases"]).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "facet": v["facet"], "message": v["msg"],
                   "cases": v["cases"],
                   "how": "python3-vt %s --replay %s" % (os.path.join(here, "check.py"), path)}, fh, indent=1)
    return path


def run_seq(here, cases):
    """run the [facet, case] pairs, in order, in one fresh worker; result of the last one (or first violation)"""
    w = Worker(here)
    try:
        if w.import_error:
            return {"status": "viol", "msg": "pylogit cannot be imported: " + w.import_error[-500:]}
        r = None
        for facet, c in cases:
            r = verdict(w.run(facet, c))
            if r["status"] == "viol":
                return r
        return r
    finally:
        w.close()


def confirm(here, v, budget=150.0):
    """reproduce a failure in a fresh process: the case alone, else the history of the worker that led to it
    (results that depend on earlier calls in the process), reduced as far as the time allows"""
    t0 = time.time()
    one = [[v["facet"], v["case"]]]
    seq = v["seq"]
    for cases in (one, seq[-1:], seq[-40:], seq):
        r = run_seq(here, cases)
        if r["status"] == "viol":
            break
    else:
        return None
    cases, msg = list(cases), r["msg"]
    chunk = len(cases) // 2
    while len(cases) > 1 and chunk >= 1:
        i, progress = 0, False
        while i < len(cases) - 1 and time.time() - t0 < budget:
            less = cases[:i] + cases[min(i + chunk, len(cases) - 1):]
            r = run_seq(here, less)
            if r["status"] == "viol":
                cases, msg, progress = less, r["msg"], True
            else:
                i += chunk
        if time.time() - t0 >= budget:
            break
        if not progress or chunk > 1:
            if chunk == 1:
                break
            chunk //= 2
    return {"facet": v["facet"], "cases": cases, "msg": msg}


def load_findings(here):
    with open(os.path.join(here, "known_findings.json")) as fh:
        return json.load(fh)


def replay(here, path):
    with open(path) as fh:
        d = json.load(fh)
    r = run_seq(here, d["cases"])
    print(json.dumps(r, indent=1))
    if r["status"] == "viol":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0 if r["status"] in ("ok", "skip") else 2


def main(argv, here):
    try:
        if len(argv) == 2 and argv[0] == "--replay":
            return replay(here, argv[1])
        return run_property(here, argv)
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 2
    except Exception:
        print("HARNESS-ERROR: %s" % traceback.format_exc())
        return 2


def run_property(here, argv):
    from vp import props
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = props.PROPS[pid]
    t0 = time.time()
    cap = float(os.environ.get("VP_CAP", 0)) or (600.0 if tier == "quick" else 6 * 3600.0)
    hard_end = t0 + cap
    violations, known = [], []

    # ---- regression cases: earlier defects (fixed) and open findings
    n_reg = 0
    reg_samples = []
    findings = [x for x in load_findings(here) if x["property"] == pid and x.get("case") is not None]
    if findings:
        w = Worker(here)
        if not w.import_error:
            for x in findings:
                r = verdict(w.run(x["facet"], x["case"]))
                n_reg += 1
                if x["status"] == "open":
                    if r["status"] == "viol":
                        known.append(x)
                        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
                    else:
                        print("note: open finding %s no longer reproduces" % x["id"])
                elif r["status"] == "viol":
                    violations.append({"facet": x["facet"], "cases": [[x["facet"], x["case"]]], "msg": r["msg"]})
        w.close()

    # ---- generated search
    agg, err, imp = {}, None, None
    truncated = False
    if not violations:
        nshards = SHARDS
        ctx = multiprocessing.get_context("fork")
        outq, stop = ctx.Queue(), ctx.Event()
        ps = [ctx.Process(target=shard_main,
                          args=(here, pid, tier, seed, s, nshards, hard_end, outq, stop))
              for s in range(nshards)]
        for p in ps:
            p.start()
        results = []
        while len(results) < nshards:
            try:
                results.append(outq.get(timeout=5.0))
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and outq.empty():
                    break
        for p in ps:
            p.join()
        if len(results) < nshards:
            err = "only %d of %d shards reported" % (len(results), nshards)
        results.sort(key=lambda r: r["shard"])
        viols = []
        for r in results:
            if r.get("error"):
                err = err or r["error"]
            if r.get("import_error"):
                imp = r["import_error"]
            if r.get("violation"):
                viols.append(r["violation"])
            for name, fs in r.get("facets", {}).items():
                a = agg.setdefault(name, {"evaluations": 0, "nontrivial": set(), "labels": {}, "skips": 0,
                                          "skip_msgs": {},
                                          "timeouts": 0, "samples": [], "truncated": 0, "wall": 0.0, "planned": 0})
                for k in ("evaluations", "skips", "timeouts", "truncated", "planned"):
                    a[k] += fs[k]
                a["wall"] = max(a["wall"], fs["wall"])
                a["nontrivial"].update(fs["nontrivial"])
                a["samples"].extend(fs["samples"][:1])
                for src, dst in (("labels", "labels"), ("skip_msgs", "skip_msgs")):
                    for k, v in fs[src].items():
                        a[dst][k] = a[dst].get(k, 0) + v
        truncated = any(a["truncated"] for a in agg.values())
        # confirm the shrunk case in a fresh process before reporting it
        viols.sort(key=lambda v: len(canon(v["case"])))
        for v in viols[:3]:
            found = confirm(here, v)
            if found:
                violations.append(found)
                break
        if viols and not violations:
            err = err or ("a failing case did not reproduce in a fresh process: %s" % viols[0]["msg"])

    if imp and not violations:
        print("HARNESS-ERROR: pylogit cannot be imported:\n" + imp)
        return 2

    n_eval = sum(a["evaluations"] for a in agg.values()) + n_reg
    nontriv = set()
    for name, a in agg.items():
        nontriv.update((name, x) for x in a["nontrivial"])
    samples = []
    for name, a in agg.items():
        for s in a["samples"][:2]:
            txt = canon(s)
            samples.append({"facet": name, "case": s if len(txt) < 1500 else txt[:1500] + "..."})
    replay_paths = []
    for v in violations:
        path = write_replay(here, pid, tier, seed, v)
        replay_paths.append(path)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n_eval, "distinct_nontrivial": len(nontriv),
            "rule": prop["rule"], "samples": samples[:10],
            "facets": {n: {"evaluations": a["evaluations"], "planned": a["planned"],
                           "distinct_nontrivial": len(a["nontrivial"]),
                           "out_of_domain": a["skips"], "out_of_domain_reasons": a["skip_msgs"],
                           "timeouts": a["timeouts"],
                           "wall_s": round(a["wall"], 2), "labels": dict(sorted(a["labels"].items()))}
                       for n, a in agg.items()},
            "regression_cases": n_reg, "stopped_by_time_cap": truncated,
            "note": "bounded random exploration; absence of violations is not a proof",
        },
        "assumptions": prop["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "violation_details": [{"replay": p, "message": v["msg"][:600]} for p, v in zip(replay_paths, violations)],
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    tmp = os.path.join(here, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(tmp, os.path.join(here, "evidence", "%s.json" % pid))

    for n, a in sorted(agg.items()):
        print("facet %-26s planned=%-6d evaluated=%-6d nontrivial=%-6d skipped=%-5d %.1fs" % (
            n, a["planned"], a["evaluations"], len(a["nontrivial"]), a["skips"], a["wall"]))
    if violations:
        for path, v in zip(replay_paths, violations):
            print("failing case (%s): %s" % (v["facet"], v["msg"][:800]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if err:
        print("HARNESS-ERROR: " + err)
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, n_eval, len(nontriv), time.time() - t0))
    return 0
