"""Development helper: build seeded/<id>/ from a spec and try it.

plant.py make SPEC.py            write seeded/<id>/ for every BUG(...) in the spec
plant.py try ID [ID...]          in a scratch copy: stable tests, demo on both trees, the property's check
"""
import json, os, threading, shutil, subprocess, sys, tempfile, pathlib, concurrent.futures as cf

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
ONE_TEST, ONE_CHECK = threading.Lock(), threading.Lock()


def make(spec):
    bugs = []

    def BUG(id, prop, edits, needs, breaks, demo):
        bugs.append((id, prop, edits, needs, breaks, demo))
    exec(compile(open(spec).read(), spec, "exec"), {"BUG": BUG})
    for id, prop, edits, needs, breaks, demo in bugs:
        d = SEEDED / id
        d.mkdir(parents=True, exist_ok=True)
        t = tempfile.mkdtemp(prefix="plant")
        subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
        for f, old, new in edits:
            p = pathlib.Path(t) / f
            s = p.read_text()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True, check=True).stdout
        shutil.rmtree(t)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(demo.lstrip("\n"))
        (d / "demo.sh").write_text('#!/bin/bash\n# run from the repository root\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=4\n'
                                   'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        print("made", id)


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def tests(tree):
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("stable") or base.get("passed") or base.get("tests"))
    x = tempfile.mktemp(suffix=".xml")
    sh([PY, "-m", "pytest", "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "--timeout=300", "--tb=short",
        "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], tree, PYTHONPATH="/opt/vp/plugins",
       OMP_NUM_THREADS="4", MKL_NUM_THREADS="4", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    o = tempfile.mktemp(suffix=".json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], tree)
    r = json.load(open(o))
    os.unlink(x), os.unlink(o)
    got = set(r.get("passed") or [k for k, v in r.get("tests", {}).items() if v in ("passed", True)])
    return sorted(want - got)


def attempt(id, skip_tests=False, jobs=None):
    d = SEEDED / id
    meta = json.load(open(d / "meta.json"))
    t = tempfile.mkdtemp(prefix="m-" + id + "-")
    try:
        os.rmdir(t)
        shutil.copytree("/repo", t, symlinks=True)
        out = {}
        out["demo_clean"] = sh(["bash", str(d / "demo.sh")], t, 300)[0]
        c, o = sh(["git", "apply", str(d / "patch.diff")], t)
        if c:
            return id, {"apply": o}
        c, o = sh(["bash", str(d / "demo.sh")], t, 300)
        out["demo_bug"] = c
        out["demo_says"] = o.strip().splitlines()[-1:] if o.strip() else ""
        if not skip_tests:
            with ONE_TEST:
                out["tests_lost"] = tests(t)
        with ONE_CHECK:
            c, o = sh(["bash", str(VERIF / "bin/check"), meta["property"]] + (["--jobs", str(jobs)] if jobs else []), str(VERIF), SIM_REPO=t)
        out["check"] = c
        out["says"] = [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ") or "harness" in l or "quick:" in l][:4]
        return id, out
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        fast = "--fast" in sys.argv
        ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(p.name for p in SEEDED.iterdir())
        with cf.ThreadPoolExecutor(3) as ex:
            for f in cf.as_completed([ex.submit(attempt, i, fast, 4) for i in ids]):
                try:
                    id, out = f.result()
                    good = out.get("demo_clean") == 0 and out.get("demo_bug") not in (0, None) and not out.get("tests_lost") and out.get("check") == 1
                    print(("CAUGHT " if good else "PROBLEM ") + id, json.dumps(out), flush=True)
                except Exception as e:
                    print("ERROR", repr(e), flush=True)
