"""Bounded exhaustive explorer: runs one property's check.

usage: python -m mc.run C01 [--replay FILE] [--jobs N] [--tier quick|thorough]

Exit 0: the property held on every explored case.  Exit 1: a violation was
found and a line ``VIOLATION property=<id> replay=<path>`` was printed.
"""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)

from mc import core  # noqa: E402

CASE_TIMEOUT_S = int(os.environ.get("MC_CASE_TIMEOUT", "150"))


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """Run one case; returns None or a violation dict."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        mod.check(case, ctx)
        return None
    except core.Violation as v:
        return {"sig": v.sig, "msg": str(v),
                "case": v.case if v.case is not None else case}
    except CaseTimeout:
        return {"sig": "timeout", "case": case,
                "msg": "the call did not return within %d s" % CASE_TIMEOUT_S}
    except Exception as e:  # the code under test failed on a legal input
        tb = traceback.format_exc()
        return {"sig": "exception:%s" % type(e).__name__, "case": case,
                "msg": "unexpected %s: %s" % (type(e).__name__, e), "tb": tb}
    finally:
        signal.alarm(0)


_MOD = None


def _work(args):
    base, chunk = args
    ctx = core.Ctx()
    viol = []
    for k, case in enumerate(chunk):
        v = run_case(_MOD, case, ctx)
        if v is not None:
            v["index"] = base + k
            viol.append(v)
        for v in ctx.found:
            v["index"] = base + k
            if v["case"] is None:
                v["case"] = case
            viol.append(v)
        ctx.found = []
    return ctx.dump(), viol


def load_known(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        data = json.load(f)
    return {e["signature"]: e for e in data.get("known", [])
            if e["property"] == prop}


def main(argv=None):
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay_path = os.path.join(evdir, "%s.replay.json" % a.prop)

    def violation_exit(v):
        with open(replay_path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("  case: %s" % json.dumps(v.get("case"), default=str)[:600])
        print("  %s" % v["msg"][:1500])
        if v.get("tb"):
            print(v["tb"][-1800:])
        print("VIOLATION property=%s replay=%s" % (a.prop, replay_path))
        sys.stdout.flush()

    try:
        from mc import env
        env.install()
        mod = importlib.import_module("mc.props.%s" % a.prop.lower())
        if hasattr(mod, "warm"):
            mod.warm()
    except Exception as e:
        tb = traceback.format_exc()
        violation_exit({"sig": "import", "case": None, "tb": tb,
                        "msg": "importing or warming up the code failed: %r" % e})
        return 1
    _MOD = mod

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        rctx = core.Ctx()
        v = run_case(mod, rec["case"], rctx)
        if v is None and rctx.found:
            v = rctx.found[0]
            v["case"] = v["case"] or rec["case"]
        if v is None:
            print("replay: property held on this case")
            return 0
        violation_exit(v)
        return 1

    known = load_known(a.prop)
    if os.path.exists(replay_path):
        os.remove(replay_path)
    cases = list(mod.cases(tier))
    n = len(cases)
    size = max(1, min(getattr(mod, "CHUNK", 64), -(-n // (a.jobs * 4))))
    # interleave so that neighbouring (similar-cost) cases spread over workers
    chunks = [(i, cases[i:i + size]) for i in range(0, n, size)]
    total = core.Ctx()
    viol, hits = [], {}
    done_chunks = 0
    ctxm = mp.get_context("fork")
    ex = cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctxm)
    futs = {ex.submit(_work, c): c for c in chunks}
    try:
        for fu in cf.as_completed(futs):
            dump, vs = fu.result()
            total.merge(dump)
            done_chunks += 1
            for v in vs:
                if v["sig"] in known:
                    hits[v["sig"]] = hits.get(v["sig"], 0) + 1
                else:
                    viol.append(v)
            if viol and not a.keep_going:
                for g in futs:
                    g.cancel()
                break
    except cf.process.BrokenProcessPool as e:
        viol.append({"sig": "crash", "case": None, "index": -1,
                     "msg": "a worker process died: %r" % e})
    procs = list((getattr(ex, "_processes", None) or {}).values())
    if viol and not a.keep_going:
        for p in procs:
            try:
                os.kill(p.pid, signal.SIGKILL)
            except (OSError, TypeError):
                pass
        ex.shutdown(wait=False, cancel_futures=True)
    else:
        ex.shutdown(wait=True, cancel_futures=True)
    if not viol and hasattr(mod, "final"):
        try:
            mod.final(total, tier)
        except core.Violation as v:
            viol.append({"sig": v.sig, "msg": str(v), "case": None, "index": n})

    for s, e in sorted(known.items()):
        if s in hits:
            print("KNOWN-FINDING: property=%s %s (%d cases)"
                  % (a.prop, e["what"], hits[s]))
    wall = time.time() - t0
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": len(total.states),
            "transitions": total.steps,
            "traces_validated_against_impl": total.traces,
            "cases_enumerated": n,
            "chunks_completed": done_chunks,
            "distinct_outcomes": len(total.outcomes),
            "dont_care": total.skips,
            "exhaustive": (not viol) and done_chunks == len(chunks),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
            "validation": getattr(mod, "VALIDATION", core.VALIDATION),
            "samples": total.samples[:6],
            "counters": total.counters,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + core.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, "%s.json" % a.prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s tier=%s cases=%d states=%d transitions=%d traces=%d outcomes=%d "
          "dont_care=%d %s wall=%.1fs" % (
              a.prop, tier, n, len(total.states), total.steps, total.traces,
              len(total.outcomes), total.skips,
              json.dumps(total.counters), wall))
    if viol:
        viol.sort(key=lambda v: v.get("index", 0))
        if a.keep_going:
            sigs = {}
            for v in viol:
                sigs.setdefault(v["sig"], []).append(v)
            for s, vs in sigs.items():
                print("--- %s: %d cases" % (s, len(vs)))
                print("   ", json.dumps(vs[0]["case"], default=str)[:500])
                print("   ", vs[0]["msg"][:800])
                if vs[0].get("tb"):
                    print(vs[0]["tb"][-1200:])
        violation_exit(viol[0])
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
