"""Entry point: run one check, write its evidence, print the verdict."""
import argparse
import collections
import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import warnings


def _quiet():
    import logging

    logging.disable(logging.CRITICAL)


def _worker(args):
    pid, kind, seed, timeout = args
    mod = importlib.import_module(f"vp.checks.{pid.lower()}")
    from vp import core

    d = os.path.join(os.environ["VP_SCRATCH"], "cwd", f"{kind}-{seed}")
    os.makedirs(d, exist_ok=True)
    old = os.getcwd()
    os.chdir(d)
    t0 = time.time()
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        r = core.run_case(mod, kind, seed, timeout)
    finally:
        sys.stdout, sys.stderr = out, err
        os.chdir(old)
        import shutil

        shutil.rmtree(d, ignore_errors=True)
    r["wall"] = time.time() - t0
    return r


def _kill_children():
    """end the worker processes and whatever they started; idle ones would keep the output pipe open"""
    import signal

    kids = collections.defaultdict(list)
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f:
                    kids[int(f.read().rsplit(")", 1)[1].split()[1])].append(int(p))
            except (OSError, IndexError, ValueError):
                pass
    stack = list(kids[os.getpid()])
    while stack:
        p = stack.pop()
        stack += kids[p]
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--kind")
    ap.add_argument("--mult", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--times", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    home = os.environ["VP_HOME"]
    t0 = time.time()

    try:
        warnings.simplefilter("ignore")
        import bayes_optim

        repo = os.environ["REPO"]
        if not os.path.abspath(bayes_optim.__file__).startswith(os.path.abspath(repo) + os.sep):
            print(f"ERROR: bayes_optim imported from {bayes_optim.__file__}, not from {repo}")
            return 2
        _quiet()
        mod = importlib.import_module(f"vp.checks.{a.prop.lower()}")
    except Exception as e:
        import traceback

        traceback.print_exc()
        print("ERROR: could not set the check up:", e)
        return 2

    from vp import core

    timeout = getattr(mod, "TIMEOUT", 150)
    if a.replay:
        a.replay = os.path.join(os.environ.get("VP_CWD", ""), a.replay)
        rp = json.load(open(a.replay))
        todo = [(a.prop, rp["kind"], rp["case_seed"], timeout)]
    else:
        kinds = mod.kinds(a.tier)
        todo = []
        for kind, n in kinds.items():
            if a.kind and kind not in a.kind.split(","):
                continue
            n = max(1, int(round(n * a.mult)))
            todo += [(a.prop, kind, core.case_seed(a.prop, kind, a.seed, i), timeout) for i in range(n)]
        # interleave the kinds so that long ones do not queue up at the end
        heavy = getattr(mod, "HEAVY", ())
        todo.sort(key=lambda t: (t[1] not in heavy, t[2]))

    # the time budget bounds the whole run: on a slow machine fewer cases are run, which the evidence
    # then says; it never turns into a verdict
    budget = float(os.environ.get("VP_BUDGET", "420" if a.tier == "quick" else "10000"))
    results, unfinished = [], 0
    if a.jobs == 1 or len(todo) == 1:
        for t in todo:
            results.append(_worker(t))
    else:
        # non-daemonic workers: the code under test may start its own worker processes
        from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

        ex = ProcessPoolExecutor(min(a.jobs, len(todo)), mp_context=mp.get_context("fork"))
        pending = {ex.submit(_worker, t) for t in todo}
        while pending:
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            done, pending = wait(pending, timeout=left, return_when=FIRST_COMPLETED)
            try:
                results += [f.result() for f in done]
            except Exception as e:
                print("ERROR: a worker process died:", repr(e))
                return 2
            if sum(1 for r in results if r["status"] == "violation") >= 40:
                break  # enough evidence of a violation
        unfinished = len(todo) - len(results)
        ex.shutdown(wait=False, cancel_futures=True)
        _kill_children()

    known = []
    kf = os.path.join(home, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == a.prop and k["status"] == "known"]

    viol, listed, errors = [], collections.Counter(), []
    events, skips = collections.Counter(), collections.Counter()
    states, samples, evals = set(), [], 0
    per_kind = collections.defaultdict(collections.Counter)
    for r in results:
        evals += r["evals"]
        events.update(r["events"])
        skips.update(r["skips"])
        states |= r["states"]
        per_kind[r["kind"]][r["status"]] += 1
        if r["sample"] is not None and len(samples) < 400:
            samples.append(dict(kind=r["kind"], case_seed=r["seed"], **r["sample"]))
        if r["status"] == "error":
            errors.append(r)
        if r["status"] == "violation":
            fresh = []
            for v in r["violations"]:
                m = next((k for k in known if v["key"] == k["key"]), None)
                if m is not None:
                    listed[m["key"]] += 1
                else:
                    fresh.append(v)
            if fresh:
                viol.append((r, fresh))
    # a workload kind which can (almost) never be driven to its observation point observes nothing:
    # on the unchanged tree that share is close to zero
    limit = getattr(mod, "SKIP_LIMIT", 0.6)
    for kind, c in per_kind.items():
        tot = sum(c.values())
        if tot >= 5 and c["skip"] > limit * tot:
            bad = next(r for r in results if r["kind"] == kind and r["status"] == "skip")
            viol.append((bad, [dict(key=f"no-progress:{kind}", msg=f"{c['skip']} of {tot} workloads of this kind "
                                    f"break down before anything can be observed: {dict(bad['skips'])}")]))

    # evidence -------------------------------------------------------------------------------------
    per_sample_kind = collections.Counter()
    keep = []
    for s in sorted(samples, key=lambda s: (s["kind"], s["case_seed"])):
        if per_sample_kind[s["kind"]] < 1 and len(keep) < 12:
            keep.append(s)
            per_sample_kind[s["kind"]] += 1
    ev = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(states), rule=mod.RULE, samples=keep,
            oracle_evaluations=evals, observed_events=dict(sorted(events.items())),
            cases_by_kind={k: dict(c) for k, c in sorted(per_kind.items())},
            skipped=dict(skips), not_run=unfinished, known_findings=dict(listed),
        ),
        wall_s=round(time.time() - t0, 2), violations=[
            dict(kind=r["kind"], case_seed=r["seed"], **v) for r, f in viol[:20] for v in f[:3]
        ],
    )
    if not a.replay:
        os.makedirs(os.path.join(home, "evidence"), exist_ok=True)
        tmp = os.path.join(home, "evidence", f".{a.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(home, "evidence", f"{a.prop}.json"))

    print(f"{a.prop} tier={a.tier} seed={a.seed}: {len(results)} workloads, {evals} oracle evaluations, "
          f"{len(states)} distinct situations, {sum(events.values())} events, "
          f"{sum(skips.values())} skipped, {unfinished} not run, {time.time()-t0:.1f} s")
    if a.verbose:
        print(json.dumps(ev["coverage"]["cases_by_kind"]), json.dumps(ev["coverage"]["observed_events"]), dict(skips))
    if a.times:
        tk = collections.defaultdict(list)
        for r in results:
            tk[r["kind"]].append(r["wall"])
        for k, v in tk.items():
            print(f"   {k}: n={len(v)} mean={sum(v)/len(v):.2f}s max={max(v):.2f}s")
    for key, n in listed.items():
        m = next(k for k in known if k["key"] == key)
        print(f"KNOWN-FINDING: property={a.prop} {m['what']} (seen {n}x)")
    for k in known:
        if k["key"] not in listed and not a.replay:
            print(f"note: listed finding {k['key']!r} was not observed in this run")
    if viol:
        rdir = os.path.join(home, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r, fresh in viol:
            for v in fresh:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                if len(seen) > 8:
                    break
                p = a.replay or os.path.join(rdir, f"{a.prop}-{r['kind']}-{r['seed']}.json")
                if not a.replay:
                    json.dump(dict(property=a.prop, kind=r["kind"], case_seed=r["seed"], violations=fresh,
                                   how=f"{home}/check.sh {a.prop} --replay {p}"), open(p, "w"), indent=1)
                print(f"  [{r['kind']} seed={r['seed']}] {v['key']}: {v['msg'][:(3000 if a.verbose else 600)]}")
                print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"HARNESS ERROR [{r['kind']} seed={r['seed']}]: {r['err']}")
        return 2
    if not results or evals == 0:
        print("ERROR: nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
