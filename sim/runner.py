"""Runs simulations for one property: seeded search, minimisation, replay files, evidence.

usage:  python -m sim.runner Cxx            (tier and seed from VERIF_TIER, VERIF_SEED)
        python -m sim.runner --replay FILE
"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True

import argparse
import copy
import importlib
import json
import pickle
import random
import select
import shutil
import signal
import struct
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
real_time = time.monotonic

# property -> (family module, quick runs, thorough runs, per-run timeout)
FAMILY = {
    "C01": ("f_loader", 20000, 1000000), "C02": ("f_loader", 20000, 1000000), "C03": ("f_loader", 20000, 1000000),
    "C04": ("f_loader", 20000, 1000000), "C05": ("f_loader", 20000, 1000000),
    "C06": ("f_cli", 20000, 1000000), "C07": ("f_cli", 20000, 1000000), "C08": ("f_cli", 20000, 1000000),
    "C09": ("f_cli", 20000, 1000000),
    "C10": ("f_lib", 20000, 1000000), "C11": ("f_lib", 20000, 1000000), "C12": ("f_lib", 20000, 1000000),
    "C13": ("f_lib", 20000, 1000000), "C14": ("f_lib", 20000, 1000000),
    "C15": ("f_dmc", 20000, 1000000), "C16": ("f_entropy", 20000, 1000000), "C17": ("f_state", 20000, 1000000), "C18": ("f_late", 20000, 1000000), "C19": ("f_copy", 20000, 1000000), "C20": ("f_leak", 20000, 1000000), "C21": ("f_fail", 20000, 1000000), "C22": ("f_par", 20000, 1000000),
}
QUICK_SECONDS = float(os.environ.get("SIM_QUICK_SECONDS", "60"))
THOROUGH_SECONDS = float(os.environ.get("SIM_THOROUGH_SECONDS", "720"))
RUN_TIMEOUT = 60.0


def bootstrap():
    """Import torch, put the seams in, then make the library importable from /repo's working tree."""
    import warnings
    warnings.filterwarnings("ignore")
    import numpy  # noqa
    import scipy.signal  # noqa
    import torch
    import torchaudio  # noqa
    import torchaudio.transforms  # noqa
    import yaml  # noqa
    import http.client, urllib.request, ssl, datetime, logging, uuid, secrets  # noqa
    import torch.utils.checkpoint  # noqa
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    from . import audio, net, seams, universe
    seams.install()
    net.install()
    audio.install()
    universe.install()
    return torch


def family(prop):
    return importlib.import_module("." + FAMILY[prop][0], __package__)


def plan_for(fam, prop, seed, tier, i):
    rng = random.Random(f"{prop}/{seed}/{tier}/{i}")
    return fam.gen(prop, rng, tier)


# ------------------------------------------------------------------------------------------ one run
def run_here(fam, prop, plan):
    """Execute a plan in this process.  Returns the result dict."""
    scratch = tempfile.mkdtemp(prefix="run", dir=os.environ["SIM_SCRATCH"])
    root = os.path.realpath(scratch)
    old = os.getcwd()
    random.seed(12345)
    import numpy
    import torch
    numpy.random.seed(12345)
    torch.manual_seed(0)
    try:
        try:
            r = fam.run(prop, plan, root)
            r["status"] = "ok"
        except Exception as e:
            r = {"status": "harness", "error": "".join(traceback.format_exception(e))[-4000:], "violations": []}
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    return r


def run_forked(fam, prop, plan, timeout=RUN_TIMEOUT):
    """Execute a plan in a forked child, so that every run starts from the same pristine state."""
    if hasattr(fam, "before_fork"):
        fam.before_fork()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 1)
            if not os.environ.get("SIM_DEBUG"):
                os.dup2(null, 2)
            from . import seams
            sys.stdout = seams.Out()
            if not os.environ.get("SIM_DEBUG"):
                sys.stderr = open("/dev/null", "w")
            r = run_here(fam, prop, plan)
            data = json.dumps(r, default=str).encode()
        except BaseException as e:
            data = json.dumps({"status": "harness", "error": repr(e), "violations": []}).encode()
        try:
            data = struct.pack("<Q", len(data)) + data
            view = memoryview(data)
            while view:
                n = os.write(wfd, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(wfd)
    buf = bytearray()
    end = real_time() + timeout
    timed_out = False
    while True:
        left = end - real_time()
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], min(left, 5))
        if r:
            c = os.read(rfd, 1 << 16)
            if not c:
                break
            buf += c
    os.close(rfd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if (timed_out or len(buf) < 8) and hasattr(fam, "after_failure"):
        fam.after_failure()
    if timed_out:
        return {"status": "timeout", "error": f"run did not finish within {timeout} s", "violations": []}
    if len(buf) < 8:
        return {"status": "died", "error": "run process died", "violations": []}
    return json.loads(bytes(buf[8:]).decode())


# ------------------------------------------------------------------------------------------ minimisation
def get_path(plan, path):
    for x in path:
        plan = plan[x]
    return plan


def set_path(plan, path, val):
    for x in path[:-1]:
        plan = plan[x]
    plan[path[-1]] = val


def signature(v):
    return (v["property"], v["cls"])


def minimise(fam, prop, plan, sig, budget_s=60.0, budget_runs=400):
    end = real_time() + budget_s
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            r = run_forked(fam, prop, p)
        except Exception:
            return False
        return any(signature(v) == sig for v in r["violations"])

    def left():
        return real_time() < end and tried < budget_runs

    changed = True
    while changed and left():
        changed = False
        for path in fam.shrink_lists(plan):
            try:
                items = list(get_path(plan, path))
            except (KeyError, IndexError):
                continue
            n = max(1, len(items) // 2)
            while n >= 1 and left():
                i = 0
                while i < len(items) and left():
                    cand = items[:i] + items[i + n:]
                    p = copy.deepcopy(plan)
                    set_path(p, path, cand)
                    if fails(p):
                        plan, items, changed = p, cand, True
                    else:
                        i += n
                n //= 2
        for p in list(getattr(fam, "simpler", lambda p: [])(plan)):
            if not left():
                break
            if fails(p):
                plan, changed = p, True
                break
    return plan, tried


# ------------------------------------------------------------------------------------------ workers
def worker(fam, prop, seed, tier, indices, out, deadline, stop_fd):
    """Runs the given run indices; streams one JSON line per run."""
    for i in indices:
        if real_time() > deadline:
            break
        if select.select([stop_fd], [], [], 0)[0]:
            break
        try:
            plan = plan_for(fam, prop, seed, tier, i)
        except Exception as e:
            r = {"status": "harness", "error": "gen: " + "".join(traceback.format_exception(e))[-3000:], "violations": []}
            plan = None
        else:
            r = run_forked(fam, prop, plan)
            if r["status"] in ("timeout", "died") and real_time() < deadline:
                r = run_forked(fam, prop, plan, timeout=4 * RUN_TIMEOUT)
            if r["status"] == "ok" and not r["violations"] and i % 40 == 7:
                r2 = run_forked(fam, prop, plan)
                r["rechecked"] = 1
                r["recheck_differs"] = int(r2.get("digest") != r.get("digest"))
        r["i"] = i
        if r["violations"] or i < 3 or r["status"] != "ok":
            r["plan"] = plan
        r.pop("log", None)
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
    if hasattr(fam, "after_failure"):
        fam.after_failure()


def search(fam, prop, seed, tier, n_runs, jobs, deadline, on_result, first=0):
    """Distribute run indices over worker processes; on_result(r) returns True to stop early."""
    procs = []
    stop_r, stop_w = os.pipe()
    for j in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                for p in procs:
                    os.close(p[1])
                os.close(stop_w)
                with os.fdopen(wfd, "w") as out:
                    worker(fam, prop, seed, tier, range(first + j, first + n_runs, jobs), out, deadline, stop_r)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        procs.append([pid, rfd, b""])
    os.close(stop_r)
    live = {p[1]: p for p in procs}
    stopped = False
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for fd in ready:
            c = os.read(fd, 1 << 16)
            p = live[fd]
            if not c:
                os.close(fd)
                del live[fd]
                os.waitpid(p[0], 0)
                continue
            p[2] += c
            *lines, p[2] = p[2].split(b"\n")
            for line in lines:
                if line and on_result(json.loads(line)) and not stopped:
                    stopped = True
                    os.write(stop_w, b"x")
    os.close(stop_w)


# ------------------------------------------------------------------------------------------ known findings
def known_findings():
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split()[1:4] if "=" in x)
                out.append((d.get("property"), d.get("class"), line))
    return out


# ------------------------------------------------------------------------------------------ commands
def replay(path):
    doc = json.loads(Path(path).read_text())
    prop = doc["property"]
    fam = family(prop)
    fam.prepare(prop)
    plan = dict(doc["plan"], keep_log=True)
    r = run_forked(fam, prop, plan)
    vs = [v for v in r["violations"] if v["property"] == prop]
    for line in r.get("log") or []:
        print("  " + line)
    if r["status"] != "ok":
        print(f"replay: {r['status']}: {r.get('error')}")
        return 2
    for v in vs:
        print(f"VIOLATION property={prop} class={v['cls']} replay={path}\n  {v['msg']}")
    return 1 if vs else 0


def check(prop, tier, seed, args):
    t0 = real_time()
    fam = family(prop)
    fam.prepare(prop)
    t_prep = real_time() - t0
    n_runs = args.runs or FAMILY[prop][1 if tier == "quick" else 2]
    seconds = args.seconds or (QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS)
    if hasattr(fam, "custom_check"):
        agg, bad, errors, n_done = fam.custom_check(prop, seed, tier, n_runs, args.jobs, real_time() + seconds)
    else:
        agg, bad, errors, n_done = default_check(fam, prop, seed, tier, n_runs, args.jobs, real_time() + seconds, args)
    t_search = real_time() - t0 - t_prep

    known = known_findings()
    code = 0
    reported = []
    bad.sort(key=lambda b: b[0])
    seen = set()
    for i, plan, v in bad:
        sig = signature(v)
        k = [line for (p, c, line) in known if p == sig[0] and c == sig[1]]
        if k:
            if sig not in seen:
                print(f"KNOWN-FINDING: property={prop} {v['msg']}")
            seen.add(sig)
            continue
        if code == 1:
            continue
        mplan, tried = minimise(fam, prop, plan, sig, budget_s=60 if tier == "quick" else 180)
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{prop}-seed{seed}-run{i}.json"
        doc = {"property": prop, "class": v["cls"], "message": v["msg"], "seed": seed, "tier": tier, "run": i,
               "hash_seed": os.environ.get("PYTHONHASHSEED"),
               "note": "python -m sim.runner --replay <this file> (from /verif, see bin/replay)", "plan": mplan,
               "minimised_with_runs": tried}
        path.write_text(json.dumps(doc, indent=1, default=str))
        ok = confirm(path, prop)
        if not ok:  # the minimised plan does not reproduce from scratch: fall back to the original
            doc["plan"] = plan
            path.write_text(json.dumps(doc, indent=1, default=str))
            ok = confirm(path, prop)
        if not ok:
            print(f"harness: run {i} violated {sig} but its replay does not reproduce it: {v['msg']}", file=sys.stderr)
            errors.append(f"unreproducible {sig}: {v['msg']}")
            continue
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['cls']}: {v['msg']}")
        print(f"  run {i} of seed {seed}, minimised with {tried} runs")
        reported.append(v["msg"])
        code = 1

    n_harness = agg["status"].get("harness", 0)
    if code == 0 and (n_done == 0 or errors_fatal(agg, n_done) or any("unreproducible" in e for e in errors)):
        for e in errors[:5]:
            print("harness error: " + str(e), file=sys.stderr)
        code = 2
    write_evidence(prop, tier, seed, agg, n_done, t_search, real_time() - t0, len(reported), fam)
    print(f"{prop} {tier}: {n_done} runs, {agg['n_distinct']} distinct non-trivial, {real_time() - t0:.0f} s, "
          f"faults {dict(sum_small(agg['fired']))}, exit {code}")
    if errors and code != 2:
        print(f"note: {len(errors)} runs gave no answer, e.g. {str(errors[0])[-300:]}", file=sys.stderr)
    return code


def errors_fatal(agg, n):
    bad = sum(v for k, v in agg["status"].items() if k != "ok")
    return bad > max(3, 0.05 * n)


def sum_small(c):
    return sorted(c.items())


def confirm(path, prop):
    import subprocess
    env = dict(os.environ)
    env.pop("SIM_SCRATCH", None)
    r = subprocess.run([sys.executable, "-m", "sim.runner", "--replay", str(path)], cwd=str(VERIF), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return r.returncode == 1


def new_agg():
    return {"status": Counter(), "fired": Counter(), "events": Counter(), "outcomes": Counter(), "sim_time": 0.0,
            "switches": 0, "digests": set(), "inter": set(), "rechecked": 0, "recheck_differs": 0, "samples": [],
            "n_distinct": 0, "extra": Counter()}


def absorb(agg, r):
    agg["status"][r["status"]] += 1
    if r["status"] != "ok":
        return
    agg["fired"].update(r.get("fired", {}))
    agg["events"].update(r.get("events", {}))
    agg["outcomes"].update(r.get("outcomes", {}))
    agg["extra"].update(r.get("extra", {}))
    agg["sim_time"] += r.get("sim_time", 0)
    agg["switches"] += r.get("switches", 0)
    agg["rechecked"] += r.get("rechecked", 0)
    agg["recheck_differs"] += r.get("recheck_differs", 0)
    if r.get("nontrivial"):
        agg["digests"].add(r.get("digest"))
    if r.get("switches"):
        agg["inter"].add(r.get("digest"))
    agg["n_distinct"] = len(agg["digests"])
    if len(agg["samples"]) < 3 and r.get("plan"):
        agg["samples"].append({"run": r["i"], "plan": r["plan"], "outcomes": r.get("outcomes"), "fired": r.get("fired")})


def default_check(fam, prop, seed, tier, n_runs, jobs, deadline, args):
    agg, bad, errors = new_agg(), [], []
    n = 0

    def on_result(r):
        nonlocal n
        n += 1
        absorb(agg, r)
        if r["status"] != "ok":
            errors.append(f"run {r['i']}: {r['status']}: {r.get('error')}")
            if len(errors) > 50:
                return True
        mine = [v for v in r["violations"] if v["property"] == prop]
        for v in mine[:1]:
            bad.append((r["i"], r["plan"], v))
        if args.digests:
            print(r["i"], r.get("digest"), [v["cls"] for v in r["violations"]], flush=True)
        return len(bad) >= 1 and not args.digests and not args.keep_going

    search(fam, prop, seed, tier, n_runs, jobs, deadline, on_result, first=args.first)
    return agg, bad, errors, n


def write_evidence(prop, tier, seed, agg, n, t_search, wall, n_viol, fam):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    info = fam.describe(prop)
    cov = {
        "evaluations": n,
        "distinct_nontrivial": agg["n_distinct"],
        "rule": info["rule"],
        "samples": agg["samples"],
        "runs_per_hour": int(n / max(t_search, 1e-3) * 3600),
        "seeds_per_hour": int(n / max(t_search, 1e-3) * 3600),
        "simulated_seconds": round(agg["sim_time"], 1),
        "faults_injected": dict(sorted(agg["fired"].items())),
        "seam_events": dict(sorted(agg["events"].items())),
        "operation_outcomes": dict(sorted(agg["outcomes"].items())),
        "preemptions": agg["switches"],
        "distinct_interleavings": len(agg["inter"]),
        "interleaving_measure": "distinct SHA-256 of the ordered event log (step, client, operation, event kind, detail, "
                                "faults, switches, outcomes) among runs with at least one preemption",
        "probes": dict(sorted(agg["extra"].items())),
        "run_status": dict(agg["status"]),
        "determinism_recheck": {"runs_repeated": agg["rechecked"], "different": agg["recheck_differs"]},
        "real_components": info["real"],
        "stub_components": info["stub"],
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": info["assumptions"], "wall_s": round(wall, 1), "violations": n_viol}
    (d / f"{prop}.json").write_text(json.dumps(doc, indent=1, default=str))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    top = tempfile.mkdtemp(prefix="torchiva-sim-")
    os.environ["SIM_SCRATCH"] = top
    me = os.getpid()
    code = 2
    try:
        bootstrap()
        code = replay(args.replay) if args.replay else check(args.prop, args.tier, args.seed, args)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if os.getpid() == me:
            shutil.rmtree(top, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
