#!/usr/bin/env python3-vt
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]
          [--only PROP] [--scale X]

Drives one check: exit 0 held, exit 1 plus a VIOLATION line if broken,
anything else is an error of the check."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"


def parse():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--all", action="store_true",
                    help="do not stop at the first violation")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--repo", default=None,
                    help="development only: import pyslet from elsewhere")
    return ap.parse_args()


def reexec():
    """A fixed hash seed and environment make runs reproducible."""
    want = {"PYTHONHASHSEED": "0", "TZ": "UTC", "LC_ALL": "C.UTF-8",
            "PYTHONDONTWRITEBYTECODE": "1", "VERIF_INNER": "1"}
    if os.environ.get("VERIF_INNER") != "1":
        env = dict(os.environ)
        env.update(want)
        for k in ("PYTHONPATH", "PYTHONHOME", "http_proxy", "https_proxy",
                  "HTTP_PROXY", "HTTPS_PROXY"):
            env.pop(k, None)
        os.execve(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv,
                  env)


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class StopShrinking(BaseException):
    """Enough time has been spent making a failure smaller"""


class Stats(object):

    def __init__(self):
        self.evals = 0
        self.nt = set()
        self.labels = {}
        self.samples = []
        self.excluded = 0
        self.discarded = 0
        self.max_cpu = 0.0


def run_case(prop, case, stats, vlib):
    """Runs the check on one case, classifying the outcome"""
    if prop.known is not None and prop.known(case):
        stats.excluded += 1
        return
    c = vlib.Ctx()
    stats.evals += 1
    t0 = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, prop.cpu_limit)
    try:
        try:
            prop.check(case, c)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except vlib.Discard:
        stats.discarded += 1
        return
    except vlib.Violation:
        raise
    except vlib.HarnessError:
        raise
    except vlib.NonTermination:
        raise vlib.Violation(
            "no result after %s s of CPU time" % prop.cpu_limit)
    except RecursionError as e:
        if vlib.through_pyslet(e):
            raise vlib.Violation("unexpected " + vlib.describe_exc(e))
        raise
    except Exception as e:
        mod = type(e).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        if vlib.through_pyslet(e):
            raise vlib.Violation("unexpected " + vlib.describe_exc(e)) from e
        # the library returned something the check could not even examine
        raise vlib.Violation("result could not be examined: " +
                             vlib.describe_exc(e)) from e
    stats.max_cpu = max(stats.max_cpu, time.process_time() - t0)
    if c.nt:
        h = vlib.case_hash(case)
        if h not in stats.nt:
            stats.nt.add(h)
            n = len(stats.nt)
            # keep an early, a middling and a late sample
            if n in (1, 5, 40, 200):
                stats.samples.append(vlib.short(case, 500))
    for lab in set(c.labels):
        stats.labels[lab] = stats.labels.get(lab, 0) + 1


def worker(pid, prop, shard, nshards, args, conn, vlib):
    """Runs one shard of one Prop and reports through the pipe"""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, Verbosity
    stats = Stats()
    out = {"prop": prop.name, "shard": shard, "status": "ok"}
    last = {}
    t0 = time.time()

    def on_prof(signum, frame):
        raise vlib.NonTermination()

    signal.signal(signal.SIGPROF, on_prof)
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (6 * gb, 6 * gb))
    scratch = tempfile.mkdtemp(prefix="w-", dir=args.scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    warnings.simplefilter("ignore")

    def one(case):
        try:
            run_case(prop, case, stats, vlib)
        except vlib.Violation as e:
            last["case"] = case
            last["message"] = str(e)
            now = time.time()
            if now - last.setdefault("t0", now) > 60:
                raise StopShrinking()
            raise

    try:
        try:
            if isinstance(prop, vlib.Enum):
                cases = prop.thorough_cases if args.tier == "thorough" \
                    else prop.cases
                for i, case in enumerate(cases()):
                    if i % nshards == shard:
                        one(case)
            else:
                n = prop.thorough if args.tier == "thorough" else prop.quick
                n = max(1, int(math_ceil(n * args.scale / nshards)))
                seed = derive(args.seed, pid, prop.name, shard)
                strategy = prop.strategy() if callable(
                    prop.strategy) else prop.strategy

                @hypothesis.seed(seed)
                @settings(max_examples=n, deadline=None, database=None,
                          suppress_health_check=list(HealthCheck),
                          phases=(Phase.generate, Phase.shrink),
                          report_multiple_bugs=False, print_blob=False,
                          verbosity=Verbosity.quiet)
                @hypothesis.given(strategy)
                def test(case):
                    one(case)

                test()
        except (vlib.Violation, StopShrinking) as e:
            out["status"] = "violation"
            out["message"] = last.get("message", str(e))
            path = os.path.join(
                HERE, "replays", "%s-%s-%d.json" % (pid, prop.name, shard))
            vlib.dump_replay(path, pid, prop.name, last.get("case"),
                             out["message"], args.seed, args.tier)
            out["replay"] = path
            out["case"] = vlib.short(last.get("case"), 2000)
        except BaseException as e:
            if type(e).__name__ in ("Flaky", "FlakyFailure") and last:
                # a failure that does not recur when replayed at once: the
                # library keeps state from one case to the next
                out["status"] = "violation"
                out["message"] = "not always: %s" % last.get("message")
                path = os.path.join(
                    HERE, "replays", "%s-%s-%d.json" % (pid, prop.name, shard))
                vlib.dump_replay(path, pid, prop.name, last.get("case"),
                                 out["message"], args.seed, args.tier)
                out["replay"] = path
                out["case"] = vlib.short(last.get("case"), 2000)
            else:
                out["status"] = "error"
                out["message"] = traceback.format_exc()[-6000:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(evals=stats.evals, nt=stats.nt, labels=stats.labels,
               samples=stats.samples, excluded=stats.excluded,
               discarded=stats.discarded, max_cpu=stats.max_cpu,
               wall=time.time() - t0)
    conn.send(out)
    conn.close()


def math_ceil(x):
    return int(-(-x // 1))


def load(pid, repo):
    sys.path.insert(0, HERE)
    import hypothesis                       # noqa: before pycache_prefix
    import hypothesis.strategies            # noqa
    # always compile the code under test from source
    sys.pycache_prefix = "/nonexistent/verif"
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    venv = "/opt/venv/lib/python3.12/site-packages"
    if venv not in sys.path:
        sys.path.append(venv)
    # the editable install in the venv has no effect here: .pth files are
    # only read from site directories
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import vlib
    import pyslet
    if not pyslet.__file__.startswith(repo + "/"):
        raise RuntimeError("pyslet imported from %s" % pyslet.__file__)
    mod = importlib.import_module("checks." + pid.lower())
    return vlib, mod


def replay(args, vlib, mod):
    d, case = vlib.load_replay(args.replay)
    prop = [p for p in mod.PROPS if p.name == d["prop"]][0]
    signal.signal(signal.SIGPROF, lambda s, f: (_ for _ in ()).throw(
        vlib.NonTermination()))
    known, prop.known = prop.known, None
    scratch = make_scratch(args.pid)
    os.environ["VERIF_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    try:
        run_case(prop, case, Stats(), vlib)
    except vlib.Violation as e:
        print("case: %s" % vlib.short(case, 4000))
        print("message: %s" % e)
        print("VIOLATION property=%s replay=%s" % (args.pid, args.replay))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("replayed: the property holds for this case")
    return 0


def known_findings(pid, vlib, mod):
    """Replays each recorded finding; prints the ones that still fail"""
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return 0
    with open(path) as f:
        entries = json.load(f)["findings"]
    n = 0
    signal.signal(signal.SIGPROF, lambda s, f: (_ for _ in ()).throw(
        vlib.NonTermination()))
    for e in entries:
        if e["property"] != pid:
            continue
        prop = [p for p in mod.PROPS if p.name == e["prop"]][0]
        case = eval(e["case"], {"__builtins__": {}}, {
            "inf": float("inf"), "nan": float("nan")})
        saved, prop.known = prop.known, None
        try:
            run_case(prop, case, Stats(), vlib)
        except vlib.Violation:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
            n += 1
        finally:
            prop.known = saved
    return n


def main():
    args = parse()
    reexec()
    repo = args.repo or REPO
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        vlib, mod = load(args.pid, repo)
    except Exception as e:
        vlib = sys.modules.get("vlib")
        if vlib is None or not vlib.through_pyslet(e):
            raise
        # the set up of the check (metadata, stores) fails in the library
        path = os.path.join(HERE, "replays", "%s-setup.json" % args.pid)
        vlib.dump_replay(path, args.pid, "setup", None, str(e), args.seed,
                         args.tier)
        print("message: set up failed: %s" % vlib.describe_exc(e))
        print("VIOLATION property=%s replay=%s" % (args.pid, path))
        return 1
    if args.replay:
        return replay(args, vlib, mod)
    mp = multiprocessing.get_context("fork")
    scratch = make_scratch(args.pid)
    try:
        return run_all(args, vlib, mod, mp, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def make_scratch(pid):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)


def run_all(args, vlib, mod, mp, scratch, t0):
    args.scratch = scratch
    os.environ["VERIF_SCRATCH"] = scratch
    tempfile.tempdir = scratch
    n_known = known_findings(args.pid, vlib, mod)
    jobs = []
    for prop in mod.PROPS:
        if args.only and prop.name != args.only:
            continue
        nsh = prop.shards
        for s in range(nsh):
            jobs.append((prop, s, nsh))
    # interleave so that every Prop makes an early start
    jobs.sort(key=lambda j: j[1])
    width = args.jobs or min(8, os.cpu_count() or 1)
    limit = 3600 * 6 if args.tier == "thorough" else 840
    running, results, status = {}, [], None
    try:
        while (jobs or running) and (status is None or args.all):
            while jobs and len(running) < width:
                prop, s, nsh = jobs.pop(0)
                r, w = mp.Pipe(False)
                p = mp.Process(target=worker, args=(
                    args.pid, prop, s, nsh, args, w, vlib))
                p.start()
                w.close()
                running[r] = (p, prop, s)
            left = limit - (time.time() - t0)
            if left <= 0:
                status = "timeout"
                break
            for r in multiprocessing.connection.wait(
                    list(running), timeout=min(left, 10)):
                p, prop, s = running.pop(r)
                try:
                    out = r.recv()
                except EOFError:
                    p.join()
                    out = {"prop": prop.name, "shard": s, "status": "error",
                           "message": "worker died: %s" % p.exitcode}
                p.join()
                results.append(out)
                if out["status"] == "violation":
                    status = "violation"
                elif out["status"] == "error":
                    status = status or "error"
    finally:
        for p, prop, s in running.values():
            try:
                p.terminate()
            except Exception:
                pass
        for p, prop, s in running.values():
            p.join(5)
            if p.is_alive():
                p.kill()
    evidence(args, mod, results, t0, n_known)
    bad = [r for r in results if r["status"] == "violation"]
    if bad:
        if args.all:
            bad = list(dict((r["prop"], r) for r in bad).values())
        for r in (bad if args.all else bad[:1]):
            print("prop: %s" % r["prop"])
            print("case: %s" % r["case"])
            print("message: %s" % r["message"])
            print("VIOLATION property=%s replay=%s" % (args.pid, r["replay"]))
        return 1
    err = [r for r in results if r["status"] == "error"]
    if err:
        for r in err[:3]:
            print("ERROR in %s shard %s: %s" % (
                r["prop"], r["shard"], r["message"]))
        return 2
    if status == "timeout":
        print("ERROR: time limit reached, inconclusive")
        return 3
    ev = sum(r.get("evals", 0) for r in results)
    nt = sum(len(r.get("nt", ())) for r in results)
    print("OK %s: %d cases, %d distinct non-trivial (per shard), %.1f s" % (
        args.pid, ev, nt, time.time() - t0))
    return 0


def evidence(args, mod, results, t0, n_known):
    per, labels, samples, rules = {}, {}, [], []
    all_nt = set()
    for prop in mod.PROPS:
        rs = [r for r in results if r["prop"] == prop.name]
        nt = set()
        for r in rs:
            nt |= r.get("nt", set())
        all_nt |= set((prop.name, h) for h in nt)
        lab = {}
        for r in rs:
            for k, v in r.get("labels", {}).items():
                lab[k] = lab.get(k, 0) + v
        ss = [s for r in rs for s in r.get("samples", [])]
        per[prop.name] = {
            "evaluations": sum(r.get("evals", 0) for r in rs),
            "distinct_nontrivial": len(nt),
            "excluded_known": sum(r.get("excluded", 0) for r in rs),
            "discarded": sum(r.get("discarded", 0) for r in rs),
            "labels": dict(sorted(lab.items(), key=lambda i: -i[1])[:25]),
            "max_case_cpu_s": round(max(
                [r.get("max_cpu", 0) for r in rs] or [0]), 3),
            "shard_wall_s": round(sum(r.get("wall", 0) for r in rs), 1),
        }
        for s in ss[:2]:
            samples.append({"prop": prop.name, "case": s})
        rules.append("%s: %s" % (prop.name, prop.rule))
    ev = sum(p["evaluations"] for p in per.values())
    d = {
        "property": args.pid,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(all_nt),
            "rule": " || ".join(rules),
            "samples": samples,
            "per_prop": per,
            "known_findings_still_failing": n_known,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len([r for r in results if r["status"] == "violation"]),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", args.pid + ".json")
    text = json.dumps(d, indent=1)
    if len(text) > 60000:
        for s in d["coverage"]["samples"]:
            s["case"] = s["case"][:120]
        text = json.dumps(d, indent=1)
    with open(path, "w") as f:
        f.write(text)


if __name__ == "__main__":
    sys.exit(main())
