"""C01-C05: loading pre-trained models, from URLs and from local files."""
import os
import shutil
import sys
from pathlib import Path

from . import net, seams, universe, zoo
from . import world as W

PROFILE = []  # kinds of the events of one undisturbed first load

URLS = [
    "https://models.example.org/a/tiss",
    "https://models.example.org/b/tiss",
    "https://mirror.example.net/a/tiss",
    "http://models.example.org/a/tiss",
    "https://models.example.org:8443/a/tiss",
    "https://models.example.org/a/tiss/v2",
    "https://models.example.org/a/tiss2",
    "https://models.example.org/a",
    "https://models.example.org/b/v2",
    "https://models.example.org/a/TISS",
    "https://models.example.org/a-tiss",
    "https://models.example.org/a/b/tiss",
    "https://models.example.org/ab/tiss",
    "https://models.example.org/a/tiss.bak",
    "https://models.example.org/a_b/tiss",
]
HOSTS = ["https://models.example.org", "https://mirror.example.net", "http://models.example.org", "https://models.example.org:8443",
         "https://models.example.org:8080", "http://models.example.org:8080", "https://www.models.example.org", "https://models.example.com",
         "https://Models2.example.org", "http://10.0.0.7", "http://10.0.0.17", "https://example.org"]
SEGS = ["a", "b", "c", "A", "v1", "v1.0", "v2", "v10", "main", "raw", "~me", "tiss", "tiss2", "nn", "TISS", "a%20b", "a+b", "a%2Fb", "a-b", "a_b", "a.b", "ab", "a@b",
        "models", "trained_models", "model", "x" * 60, "0", "00", "tiss.yaml", "tiss.ckpt", "model_config", "a,b", "a=b", "a;b"]


def gen_urls(rng, n, alike):
    """Distinct URLs; alike: they all end with the same name."""
    last = rng.choice(SEGS)
    out = []
    while len(out) < n:
        segs = [rng.choice(SEGS) if rng.random() < 0.7 else "%x" % rng.randrange(1 << 16) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        u = rng.choice(HOSTS[:1] * 4 + HOSTS) + "/" + "/".join(segs + [last if alike else rng.choice(SEGS)])
        if out and rng.random() < 0.25:  # one letter or one segment away from another one
            v = rng.choice(out)
            p = v.split("/", 3)
            u = rng.choice([v + rng.choice(["0", "_", ".", "%20", "/v2"]), v.swapcase().replace(p[0].swapcase(), p[0], 1) if p[2].islower() and "%" not in v else v + "1",
                            "/".join(p[:3] + [p[3] + "/" + p[3].split("/")[-1]]), v[:-1] if p[3] and not v[:-1].endswith("/") else v + "x"])
        try:
            host = u.split("/")[2]
            assert host.lower() == host or host == "Models2.example.org"
            assert u not in out and u.rstrip("/") == u and len(u.split("/")) > 3
        except AssertionError:
            continue
        out.append(u)
    return out


OVERRIDES = [{}, {}, {}, {"n_iter": 1}, {"n_iter": 4}, {"proj_back_mic": 1}, {"eps": 1e-2}, {"n_iter": 3, "proj_back_mic": 0},
             {"hop_length": 4}, {"n_src": None}, {"hop_length": None}, {"window": None, "n_iter": 0}, {"eps": None, "n_taps": 0}]
JUMPS = [0.0, 5.0, 3600.0, 86400.0 * 8, 86400.0 * 400, 86400.0 * 3650, -3600.0, -86400.0 * 40]


def prepare(prop):
    u = universe.Universe()
    u.activate()
    zoo.build(u.torchiva)
    for m in zoo.MODELS.values():
        for kw in OVERRIDES:
            zoo.reference(u.torchiva, m, kw)
    # one undisturbed load, to learn where its I/O happens
    import tempfile
    root = tempfile.mkdtemp(prefix="prof", dir=os.environ["SIM_SCRATCH"])
    cwd, home, out = os.getcwd(), os.environ.get("HOME"), sys.stdout
    sys.stdout = seams.Out()
    try:
        if prop == "C05":
            plan = {"local": True, "models": ["glu_a0"], "tasks": [[{"id": 0, "do": "load", "m": 0, "how": "dir", "kw": {}}]],
                    "keep_log": True}
            r = run_local(plan, root, profile=True)
        else:
            plan = {"urls": [URLS[0]], "models": ["glu_a0"], "tasks": [[{"id": 0, "do": "load", "u": 0, "kw": {}}]],
                    "procs": [0], "tail": [], "keep_log": True}
            r = run_url(plan, root, profile=True)
        PROFILE[:] = [l.split("|")[4] for l in r.log if l.split("|")[0].isdigit()] or ["fs.write"]
    finally:
        sys.stdout = out
        os.chdir(cwd)
        if home is not None:
            os.environ["HOME"] = home
        shutil.rmtree(root, ignore_errors=True)


AFTER = None  # called after each operation (C20)


# ---------------------------------------------------------------------------------- generation
def _fs_faults(rng, op, n_ev, mutating_bias=True):
    what = rng.choice(["crash", "crash", "torn_crash", "short_enospc", "enospc", "eio", "eacces", "interrupt", "emfile"])
    idx = [i for i, k in enumerate(PROFILE) if k in seams.WRITE_KINDS]
    if what in ("torn_crash", "short_enospc"):
        idx = [i for i, k in enumerate(PROFILE) if k == "fs.write"] or idx
    if idx and mutating_bias and rng.random() < 0.65:
        # the n-th event of a kind that changes the disk
        kind = PROFILE[rng.choice(idx)]
        f = {"op": op, "kind": kind, "nth": rng.randrange(PROFILE.count(kind) + 1), "what": what}
        if kind == "fs.write":
            f["nth"] = rng.choice([0, 0, 1, 2, f["nth"]])
        if what not in ("crash", "torn_crash", "interrupt") and rng.random() < 0.4:
            f["times"] = rng.choice([2, 3, 50, 50])
    else:
        f = {"op": op, "ev": rng.randrange(0, max(1, n_ev + 4)), "what": what}
    if f["what"] in ("torn_crash", "short_enospc"):
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
    return f


def _net_fault(rng, op):
    what = rng.choice(["net_refused", "net_dns", "net_reset", "net_reset", "net_truncate", "net_truncate", "net_timeout",
                       "net_http"])
    f = {"op": op, "req": rng.choice([0, 0, 1, 1, 2]), "what": what}
    if what in ("net_reset", "net_truncate", "net_timeout"):
        f["arg"] = rng.choice([-0.5, 0.0, 0.05, 0.3, 0.5, 0.9, 0.999, 1.0])
    if what == "net_http":
        f["arg"] = rng.choice([404, 500, 503, 403, 429])
    if rng.random() < 0.3:
        f["times"] = rng.choice([2, 3, 20])
    return f


def gen(prop, rng, tier):
    if prop == "C05":
        return gen_local(rng, tier)
    names = zoo.names_for(rng)
    n_urls = {"C04": rng.choice([2, 2, 3, 4]), "C01": rng.choice([1, 1, 2]), "C02": rng.choice([1, 1, 1, 2]),
              "C03": rng.choice([1, 2, 2])}[prop]
    many = rng.random() < (0.1 if prop in ("C03", "C04") else 0.0)  # one process loads many models, one after the other
    if many:
        n_urls = rng.choice([5, 7, 10, 13])
    if many or rng.random() < 0.35:
        urls = gen_urls(rng, n_urls, rng.random() < 0.5)
    elif prop == "C04" or rng.random() < 0.3:
        base = rng.choice([URLS[:5], URLS, URLS, [URLS[0], URLS[1], URLS[11], URLS[12], URLS[14], URLS[10]]])
        urls = rng.sample(base, min(n_urls, len(base)))
    else:
        urls = rng.sample(URLS, n_urls)
    fam = rng.choice(["lap_a", "glu_a", "mask_a", "lap_b", "mask_a", "lap_a"])
    if many:
        names = [n for n in names if not n.startswith("big")]
        models = rng.sample(names, n_urls)
    elif rng.random() < 0.6:
        pool = [n for n in names if n.startswith(fam[:3])]
        models = [pool[(i + rng.randrange(len(pool))) % len(pool)] for i in range(len(urls))]
        if len(set(models)) < len(models):
            models = rng.sample(pool, min(len(pool), len(urls)))
            models += rng.sample(names, len(urls) - len(models))
    else:
        models = rng.sample(names, len(urls))
    n_tasks = rng.choice({"C01": [1, 2, 2, 3], "C02": [1, 1, 2, 3], "C03": [1, 1, 2], "C04": [1, 2, 2, 3]}[prop])
    oid = 0
    tasks, procs = [], []
    for i in range(n_tasks):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3] if prop != "C04" else [1, 2, 3])):
            ops.append({"id": oid, "do": "load", "u": rng.randrange(len(urls)), "kw": rng.choice(OVERRIDES),
                        "slash": rng.random() < 0.15, "train": rng.random() < 0.1})
            oid += 1
            if rng.random() < 0.1:
                ops.append({"id": oid, "do": "clock", "dt": rng.choice(JUMPS)})
                oid += 1
        tasks.append(ops)
        procs.append(rng.randrange(n_tasks))
    if many:
        n_tasks, procs = 1, [0]
        tasks = [[{"id": i, "do": "load", "u": u, "kw": rng.choice(OVERRIDES), "slash": rng.random() < 0.15}
                  for i, u in enumerate(rng.sample(range(n_urls), n_urls))]]
        oid = n_urls
    faults = []
    p_faulty = {"C01": 0.75, "C02": 0.9, "C03": 0.4, "C04": 0.3}[prop]
    if rng.random() < p_faulty:
        loads = [o["id"] for ops in tasks for o in ops if o["do"] == "load"]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            op = rng.choice(loads)
            if rng.random() < 0.5:
                faults.append(_net_fault(rng, op))
            else:
                faults.append(_fs_faults(rng, op, len(PROFILE)))
    if prop in ("C01", "C02") and rng.random() < 0.2:  # no attempt gets further than half-way before the model is published anew
        half = rng.choice([("net", 1), ("net", 1), ("net", 0), ("fs", None)])
        faults = []
        for op in [o["id"] for ops in tasks for o in ops if o["do"] == "load"]:
            if half[0] == "net":
                faults.append(dict(_net_fault(rng, op), req=half[1], times=20))
            else:
                faults.append(dict(_fs_faults(rng, op, len(PROFILE)), times=50))
        anew = True
    else:
        anew = False
    switches = []
    if n_tasks > 1:
        horizon = len(PROFILE) * max(2, sum(len(o) for o in tasks))
        k = rng.choice([1, 2, 3, 5, 9, 20])
        switches = sorted([rng.randrange(1, horizon), rng.randrange(4)] for _ in range(k))
    # what happens afterwards: time passes, the origin changes or goes away, more (faulty) loads, restarts
    tail = []
    if prop in ("C03",) or anew or rng.random() < (0.5 if prop in ("C01", "C02") else 0.35):
        if prop != "C03" and (anew or rng.random() < 0.4):
            u = rng.randrange(len(urls))
            like = [n for n in names if n[:3] == models[u][:3]]
            tail.append({"id": oid, "do": "republish", "u": u, "m": rng.choice(rng.choice([like, names]))})
            oid += 1
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            if r < 0.2:
                tail.append({"id": oid, "do": "clock", "dt": rng.choice(JUMPS)})
            elif r < 0.35:
                tail.append({"id": oid, "do": "restart"})
            elif r < 0.5:
                tail.append({"id": oid, "do": "republish", "u": rng.randrange(len(urls)), "m": rng.choice(names)})
            elif r < 0.6:
                tail.append({"id": oid, "do": "origin", "up": False})
            else:
                u = rng.randrange(len(urls))
                tail.append({"id": oid, "do": "load", "u": u, "kw": rng.choice(OVERRIDES), "slash": rng.random() < 0.15})
                if rng.random() < 0.4:
                    faults.append(_fs_faults(rng, oid, 40, mutating_bias=False) if rng.random() < 0.7
                                  else _net_fault(rng, oid))
            oid += 1
    if rng.random() < 0.7:
        tail.append({"id": oid, "do": "restart"})
        oid += 1
    # healthy end: one load of each URL must work
    order = list(range(len(urls)))
    rng.shuffle(order)
    for u in order:
        tail.append({"id": oid, "do": "load", "u": u, "kw": rng.choice(OVERRIDES), "healthy": True})
        oid += 1
    return {"urls": urls, "models": models, "tasks": tasks, "procs": procs, "faults": faults, "switches": switches,
            "tail": tail, "chunked": rng.random() < 0.3, "mounts": ["tmp"] if rng.random() < 0.5 else [],
            "redirect": rng.random() < 0.1, "legacy": legacy(rng, urls, names), "entropy_seed": rng.randrange(1 << 30), "dir_seed": rng.randrange(1 << 30)}


def legacy(rng, urls, names):
    """What other programs or earlier versions left in the cache folder: [path, kind, model] per file."""
    out = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            d = rng.choice([u.rstrip("/").rsplit("/", 1)[-1] for u in urls] + ["tiss", "old", "v1", "", ""])
            m = rng.choice(names)
            for k in rng.choice([["ckpt", "yaml"], ["ckpt", "yaml"], ["ckpt"], ["yaml"], ["junk"]]):
                n = {"ckpt": "model_weights.ckpt", "yaml": "model_config.yaml", "junk": rng.choice([".DS_Store", "index.json", "x.part", "lock"])}[k]
                if "://" not in d and len(d) < 60:
                    out.append([os.path.join(d, n), k, m])
    return out


OTHERS = [("model_weights_old.ckpt", "ckpt"), ("last.ckpt", "ckpt"), ("best.ckpt", "ckpt"), ("checkpoint.pt", "ckpt"),
          ("model_weights.pt", "ckpt"), ("model_weights.pth", "ckpt"), ("pytorch_model.bin", "ckpt"), ("model_weights.ckpt.bak", "ckpt"),
          ("model_weights.ckpt.part", "ckpt"), ("model_weights.ckpt~", "ckpt"), ("model_weights.bak", "ckpt"), ("model_weights_backup.ckpt", "ckpt"), ("model_weights.ckpt.old", "ckpt"),
          ("backup/model_weights.ckpt", "ckpt"), ("model_config.bak", "yaml"), ("model_config.yaml.old", "yaml"), ("model_config.yaml.part", "yaml"), ("model_weights", "ckpt"), ("weights.ckpt", "ckpt"),
          ("old/model_weights.ckpt", "ckpt"), ("Model_Weights.ckpt", "ckpt"), ("config.yaml", "yaml"), ("model_config.yml", "yaml"),
          ("model_config.yaml.bak", "yaml"), ("model_config_old.yaml", "yaml"), ("hparams.yaml", "yaml"), ("old/model_config.yaml", "yaml"),
          ("model_config.yaml~", "yaml"), ("model_weights.ckpt.sha256", "junk"), (".lock", "junk"), ("model_config.json", "junk")]


def gen_local(rng, tier):
    names = zoo.names_for(rng)
    n_m = rng.choice([1, 2, 2])
    if rng.random() < 0.5:
        fam = rng.choice(["lap", "glu", "mas"])
        models = rng.sample([n for n in names if n.startswith(fam)], n_m)
    else:
        models = rng.sample(names, n_m)
    oid = 0
    tasks = []
    n_tasks = rng.choice([1, 1, 1, 2, 2])
    faults, others = [], []
    for _ in range(n_tasks):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            r = rng.random()
            m = rng.randrange(n_m)
            if r < 0.75 or n_tasks > 1:
                op = {"id": oid, "do": "load", "m": m, "how": rng.choice(["dir", "dir", "pair", "pair_path", "rel", "dir_slash"]),
                      "kw": rng.choice(OVERRIDES)}
                if rng.random() < 0.2:
                    op["kw"] = dict(op["kw"])
                    op["kw"]["source_model"] = zoo.MODELS[models[m]].config.get("source_model")
                if rng.random() < 0.2:
                    op["train"] = True  # what was loaded is trained afterwards
                ops.append(op)
                if rng.random() < 0.35:
                    f = _fs_faults(rng, oid, len(PROFILE), mutating_bias=False)
                    faults.append(f)
            else:
                ops.append({"id": oid, "do": "damage", "m": m, "what": rng.choice(
                    ["del_ckpt", "del_yaml", "trunc_ckpt", "trunc_ckpt", "empty_ckpt", "empty_yaml", "swap_ckpt", "bad_yaml",
                     "drop_key", "extra_key", "dir_ckpt", "restore"]),
                    "frac": rng.choice([0.0, 0.1, 0.5, 0.9, 0.97, 0.995, 0.9999])})
                if rng.random() < 0.3:  # a file is missing and there is another like it
                    k = rng.choice(["ckpt", "ckpt", "yaml"])
                    ops[-1]["what"] = rng.choice(["del_", "del_", "trunc_", "empty_"]) + k
                    if ops[-1]["what"] == "trunc_yaml":
                        ops[-1]["what"] = "bad_yaml"
                    others += [[m, n, k, rng.choice([models[m], models[m][:-1] + "0", models[m][:-1] + "1"])]
                               for n in rng.sample([n for n, q in OTHERS if q == k], rng.choice([1, 4, sum(q == k for _, q in OTHERS)]))]
                    oid += 1
                    ops.append({"id": oid, "do": "load", "m": m, "how": "dir", "kw": {}})
                    oid += 1
                    continue
                if rng.random() < 0.4:  # another complete model takes the place of the stored one
                    same = [n for n in names if n[:3] == models[m][:3]]
                    ops[-1].update(what=rng.choice(["replaced", "replaced", "overwritten"]), to=rng.choice(same if rng.random() < 0.7 else names),
                                   parts=rng.choice(["both", "both", "ckpt"]), same_time=rng.random() < 0.3)
            oid += 1
        tasks.append(ops)
    switches = []
    if n_tasks > 1:
        horizon = max(20, len(PROFILE) * 4)
        switches = sorted([rng.randrange(1, horizon), rng.randrange(4)] for _ in range(rng.choice([1, 2, 4, 8])))
    folders = rng.sample(["model", "http", "my model", "modèle", "https.d", "m.ckpt", "a/b/c"], n_m)
    tail = [{"id": oid + i, "do": "load", "m": i, "how": rng.choice(["dir", "pair"]), "kw": {}, "healthy": True}
            for i in range(n_m)]
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2, 4])):
            n, k = rng.choice(OTHERS)
            others.append([rng.randrange(n_m), n, k, rng.choice(names)])
    elif rng.random() < 0.2:  # everything there can be, of a model of the same shape
        m = rng.randrange(n_m)
        others += [[m, n, k, rng.choice([models[m][:-1] + "0", models[m][:-1] + "1"])] for n, k in OTHERS]
    return {"local": True, "models": models, "folders": folders, "others": others, "tasks": tasks, "procs": [rng.randrange(n_tasks) for _ in tasks],
            "faults": faults, "switches": switches, "tail": tail, "entropy_seed": rng.randrange(1 << 30),
            "dir_seed": rng.randrange(1 << 30)}


# ---------------------------------------------------------------------------------- execution
class Ctx:
    def __init__(self, w):
        self.w = w
        self.violations = []
        self.procs = {}
        self.outcomes = []

    def bad(self, prop, cls, msg):
        self.violations.append({"property": prop, "cls": cls, "msg": msg})

    def proc(self, name):
        p = self.procs.get(name)
        if p is None or p.dead:
            t = W.current()
            W._local.task = None
            try:
                p = W.Proc(self.w, name, universe.Universe())
            finally:
                W._local.task = t
            self.procs[name] = p
        return p


class harness:
    """The enclosed code belongs to the harness: seams pass through."""

    def __enter__(self):
        self.t = W.current()
        W._local.task = None

    def __exit__(self, *a):
        W._local.task = self.t


def setup_home(root):
    home = os.path.join(root, "home")
    tmp = os.path.join(root, "tmp")
    for d in (home, tmp):
        seams.R["mkdir"](d)
    os.environ["HOME"] = home
    for k in ("XDG_CACHE_HOME", "TORCH_HOME"):
        os.environ.pop(k, None)
    import tempfile
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp


def call(ctx, t, op, procname, fn):
    """Run one library operation as the given process.  Returns (kind, value)."""
    t.proc = ctx.proc(procname)
    t.proc.universe.activate()
    t.op, t.ev = op["id"], 0
    try:
        v = fn(t.proc.universe)
        if t.proc.dead:
            return "crash", None
        return "ok", v
    except W.SimCrash:
        return "crash", None
    except (W.StepLimit, W.Deadlock) as e:
        return "stuck", str(e)
    except BaseException as e:
        if t.proc.dead:
            return "crash", None
        return "raise", e
    finally:
        t.op = None


def run(prop, plan, root):
    r = run_local(plan, root) if plan.get("local") else run_url(plan, root, prop=prop)
    return r.result


def run_url(plan, root, prop=None, profile=False):
    setup_home(root)
    w = W.World(plan, root)
    w.origin = net.Origin()
    w.origin.style = "chunked" if plan.get("chunked") else "length"
    ctx = Ctx(w)
    urls, models = plan["urls"], [zoo.MODELS[m] for m in plan["models"]]

    def publish(u, model):
        for name, body in (("model_weights.ckpt", model.ckpt), ("model_config.yaml", model.yaml)):
            full = u.rstrip("/") + "/" + name
            if plan.get("redirect"):
                w.origin.redirects[full] = "https://cdn.example.com/blob/%s/%s" % (abs(hash_str(u)), name)
                w.origin.files[w.origin.redirects[full]] = body
            else:
                w.origin.files[full] = body

    for u, m in zip(urls, models):
        publish(u, m)
    for rel, k, name in plan.get("legacy", []):
        f = os.path.join(root, "home", ".torchiva_models", rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with seams.R["open"](f, "wb") as g:
            g.write(content(k, name))
    held = []  # models handed out, with what they have to be
    first = {}  # url index -> model fixed by the first success
    versions = [[m] for m in models]  # what has been published under each URL
    faulty_ops = {f["op"] for f in plan.get("faults", [])}
    any_fault = bool(plan.get("faults"))
    stats = {"ok": 0, "raise": 0, "crash": 0, "stuck": 0}

    def load(t, op, procname, in_tail):
        u = op["u"]
        url = urls[u] + ("/" if op.get("slash") else "")
        was_loaded = u in first
        kind, v = call(ctx, t, op, procname, lambda uni: uni.torchiva.load_separator(url, **op["kw"]))
        stats[kind] += 1
        nreq = sum(1 for r in w.origin.requests if r[0] == op["id"])
        faulted = op["id"] in faulty_ops
        w.note("OUT", op["id"], kind, type(v).__name__, nreq)
        if kind == "stuck":
            ctx.bad("C02", "stuck", f"load of {url} never finished: {v}")
            return
        if kind == "ok":
            with harness():
                want = first.get(u, versions[u][-1])
                d = zoo.differs(t.proc.universe.torchiva, v, want, op["kw"])
                if d is not None and not was_loaded:
                    for m in versions[u][:-1]:  # fetched completely by an attempt that did not return
                        if zoo.differs(t.proc.universe.torchiva, v, m, op["kw"]) is None:
                            want, d = m, None
            if d is not None:
                other = None
                with harness():
                    for j, vs in enumerate(versions):
                        if j != u and any(zoo.differs(t.proc.universe.torchiva, v, m, op["kw"]) is None for m in vs):
                            other = urls[j]
                    mixed_w = any(j != u and any(same_sd(v, m) for m in vs) for j, vs in enumerate(versions)) and \
                        not any(same_sd(v, m) for m in versions[u])
                if was_loaded:
                    ctx.bad("C03", "changed", f"a later load of {url} gives another model: {d}")
                if other or mixed_w or (len(urls) > 1 and not any_fault):
                    ctx.bad("C04", "mixed", f"load of {url} gives (part of) the model of {other or 'another URL'}: {d}")
                ctx.bad("C01", "inexact", f"load of {url} returned without error but {d}")
                if op.get("healthy") and w.origin.up:
                    ctx.bad("C02", "inexact", f"healthy load of {url} returned without error but {d}")
                return
            if was_loaded and nreq and not faulted:
                ctx.bad("C03", "network", f"load of {url} after an earlier success made {nreq} request(s)")
            first.setdefault(u, want)
            with harness():
                hold(held, t, v, first[u], op, url)
            return
        # raised, or the process died
        if kind == "crash":
            return
        name = f"{type(v).__name__}: {v}"
        if was_loaded and not faulted:
            if nreq:
                ctx.bad("C03", "network", f"load of {url} after an earlier success made {nreq} request(s) and failed: {name}")
            else:
                ctx.bad("C03", "unloadable", f"load of {url} after an earlier success failed: {name}")
            if len(urls) > 1:
                ctx.bad("C04", "broken", f"load of {url}, which had succeeded, now fails: {name}")
        if op.get("healthy") and w.origin.up:
            ctx.bad("C02", "unloadable", f"healthy load of {url} failed: {name}")
        if not any_fault and w.origin.up and not in_tail:
            ctx.bad("C02", "unloadable_no_fault", f"load of {url} failed without any fault: {name}")
            if len(urls) > 1:
                ctx.bad("C04", "broken", f"load of {url} failed without any fault: {name}")

    def client(i):
        def fn(t):
            for op in plan["tasks"][i]:
                step(t, op, ("p", plan["procs"][i]), False)
        return fn

    def step(t, op, procname, in_tail):
        if op["do"] == "load":
            load(t, op, procname, in_tail)
            if AFTER:
                AFTER(op, t.proc)
        elif op["do"] == "clock":
            w.now += op["dt"]
            w.fired["clock_jump"] += 1
        elif op["do"] == "restart":
            ctx.procs.clear()
            w.fired["restart"] += 1
        elif op["do"] == "origin":
            w.origin.up = bool(op["up"])
            w.fired["origin_down"] += 1
        elif op["do"] == "republish":
            # no load is under way now
            publish(urls[op["u"]], zoo.MODELS[op["m"]])
            versions[op["u"]].append(zoo.MODELS[op["m"]])
            w.fired["republish" if op["u"] in first else "republish_before_success"] += 1

    def tail_client(t):
        for op in plan.get("tail", []):
            if op.get("healthy") and not w.origin.up and op["u"] not in first:
                w.origin.up = True
            step(t, op, "tail", True)
            if op.get("healthy"):
                n = sum(1 for r in w.origin.requests if r[0] == op["id"])
                if n > 8:
                    ctx.bad("C02", "requests", f"healthy load needed {n} connections")

    w.run([client(i) for i in range(len(plan["tasks"]))])
    if plan.get("tail"):
        w.run([tail_client])
    for what, d in still(held):
        for c in ("C01", "C03"):
            ctx.bad(c, "changed_later", f"the model returned by load of {what} changed afterwards: {d}")
        if len(urls) > 1:
            ctx.bad("C04", "changed_later", f"the model returned by load of {what} changed afterwards: {d}")
    w.result = result(w, ctx, stats, plan)
    return w


def content(k, name):
    return zoo.MODELS[name].ckpt if k == "ckpt" else zoo.MODELS[name].yaml if k == "yaml" else b"\x00\x01junk"


def hold(held, t, sep, model, op, what):
    """Keep a loaded separator, to look at it again at the end; or train it, which nothing else may notice."""
    if op.get("train"):
        import torch
        with torch.no_grad():
            for p in list(sep.parameters()) + [b for b in sep.buffers() if b.is_floating_point()]:
                p.mul_(1.5).add_(0.25)
    elif len(held) < 12:
        held.append((t.proc.universe.torchiva, sep, model, op["kw"], what))


def still(held):
    for ti, sep, model, kw, what in held:
        d = zoo.differs(ti, sep, model, kw)
        if d is not None:
            yield what, d
            return


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def same_sd(sep, model):
    import torch
    sd = sep.state_dict()
    return set(sd) == set(model.sd) and all(sd[k].shape == v.shape and torch.equal(sd[k], v) for k, v in model.sd.items())


def result(w, ctx, stats, plan):
    fired = dict(w.fired)
    return {"violations": ctx.violations, "digest": w.digest(), "fired": fired, "events": dict(w.events),
            "sim_time": abs(w.now - w.t_start), "switches": w.n_switches, "outcomes": stats, "log": w.log,
            "nontrivial": bool(fired or w.n_switches or len(plan.get("urls", [])) > 1 or stats.get("ok", 0) > 1)}


# ---------------------------------------------------------------------------------- local files
def run_local(plan, root, profile=False):
    setup_home(root)
    w = W.World(plan, root)
    w.origin = net.Origin()
    w.origin.up = False
    ctx = Ctx(w)
    models = [zoo.MODELS[m] for m in plan["models"]]
    held = []
    folders = [os.path.join(root, "models", f) for f in plan.get("folders", ["m%d" % i for i in range(len(models))])]
    state = []  # expected verdict per folder: None = intact, else reason
    faulty_ops = {f["op"] for f in plan.get("faults", [])}
    stats = {"ok": 0, "raise": 0, "crash": 0, "stuck": 0, "damage": 0}

    def write(path, data):
        with seams.R["open"](path, "wb") as f:
            f.write(data)

    def lay(i):
        d = folders[i]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        write(os.path.join(d, "model_weights.ckpt"), models[i].ckpt)
        write(os.path.join(d, "model_config.yaml"), models[i].yaml)
        write(os.path.join(d, "README.txt"), b"hello")
        for j, n, k, name in plan.get("others", []):
            if j == i:
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                write(os.path.join(d, n), content(k, name))

    def replace(i, op):
        """Another model is stored under the same names."""
        d = folders[i]
        old, new = models[i], zoo.MODELS[op["to"]]
        alone = op["parts"] == "ckpt" and state[i] is None and old.config == new.config
        for n, b in [("model_weights.ckpt", new.ckpt)] + ([] if alone else [("model_config.yaml", new.yaml)]):
            f = os.path.join(d, n)
            if os.path.isdir(f):
                os.rmdir(f)
            st = os.stat(f) if os.path.exists(f) else None
            if op["what"] == "overwritten" and st is not None and len(b) >= st.st_size:
                with seams.R["open"](f, "r+b") as g:
                    g.write(b)
            else:
                write(f + ".new", b)
                os.rename(f + ".new", f)
            if st is not None and op["same_time"]:
                os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        state[i] = None
        models[i] = new

    def snap():
        out = {}
        for base, dirs, files in os.walk(os.path.join(root, "models")):
            for n in dirs:
                out[os.path.join(base, n)] = "dir"
            for n in files:
                p = os.path.join(base, n)
                with seams.R["open"](p, "rb") as f:
                    out[p] = (f.read(), os.stat(p).st_mtime_ns)
        return out

    for i in range(len(models)):
        lay(i)
        state.append(None)
    os.chdir(os.path.join(root, "models"))

    def damage(op):
        i = op["m"]
        d = folders[i]
        ck, ya = os.path.join(d, "model_weights.ckpt"), os.path.join(d, "model_config.yaml")
        what = op["what"]
        stats["damage"] += 1
        w.fired["stored_" + what] += 1
        if what in ("replaced", "overwritten"):
            replace(i, op)
            return
        lay(i)
        state[i] = what
        if what == "restore":
            state[i] = None
        elif what == "del_ckpt":
            os.unlink(ck)
        elif what == "del_yaml":
            os.unlink(ya)
        elif what == "trunc_ckpt":
            b = models[i].ckpt
            write(ck, b[:min(len(b) - 1, int(len(b) * op["frac"]))])
        elif what == "empty_ckpt":
            write(ck, b"")
        elif what == "empty_yaml":
            write(ya, b"")
        elif what == "bad_yaml":
            write(ya, b"n_fft: [1, 2\nfoo")
        elif what == "dir_ckpt":
            os.unlink(ck)
            os.mkdir(ck)
        else:
            import io

            import torch
            sd = dict(models[i].sd)
            if what == "drop_key":
                # torch itself tolerates a missing num_batches_tracked (old checkpoints)
                keys = [k for k in sorted(sd) if not k.endswith("num_batches_tracked")]
                sd.pop(keys[int(len(keys) * op["frac"]) % len(keys)])
            elif what == "extra_key":
                sd["separator.extra"] = torch.zeros(1)
            elif what == "swap_ckpt":  # weights of a model with other shapes
                o = "mask_a0" if not models[i].name.startswith("mask") else "glu_a0"
                sd = dict(zoo.MODELS[o].sd)
            b = io.BytesIO()
            torch.save(sd, b)
            write(ck, b.getvalue())

    def load(t, op, procname):
        i = op["m"]
        d = folders[i]
        rel = os.path.relpath(d, os.path.join(root, "models"))
        how = op["how"]
        import copy
        if "source_model" in op["kw"]:  # that of the model stored now
            op = dict(op, kw=dict(op["kw"], source_model=models[i].config.get("source_model")))
        kw = copy.deepcopy(op["kw"])
        kw0 = copy.deepcopy(kw)
        with harness():
            before = snap()

        def fn(uni):
            tv = uni.torchiva
            ck, ya = os.path.join(d, "model_weights.ckpt"), os.path.join(d, "model_config.yaml")
            if how == "dir":
                return tv.load_separator(d, **kw)
            if how == "dir_slash":
                return tv.load_separator(d + "/", **kw)
            if how == "rel":
                return tv.load_separator("./" + rel, **kw)
            if how == "pair":
                return tv.load_separator_model(ck, ya, **kw)
            return tv.load_separator_model(Path(ck), Path(ya), **kw)

        kind, v = call(ctx, t, op, procname, fn)
        stats[kind] += 1
        w.note("OUT", op["id"], kind, type(v).__name__)
        with harness():
            after = snap()
            if after != before:
                ch = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
                ctx.bad("C05", "files", f"loading changed {[os.path.relpath(c, root) for c in ch][:3]}")
            if kind == "stuck":
                ctx.bad("C05", "stuck", f"local load never finished: {v}")
            elif kind == "ok":
                if state[i] is not None:
                    ctx.bad("C05", "damaged_accepted", f"load succeeded although the stored model is damaged ({state[i]})")
                else:
                    dd = zoo.differs(t.proc.universe.torchiva, v, models[i], op["kw"])
                    if dd is not None:
                        ctx.bad("C05", "inexact", f"local load ({how}, overrides {op['kw']}) returned but {dd}")
                    else:
                        hold(held, t, v, models[i], op, rel)
                if kw != kw0:
                    ctx.bad("C05", "arguments", "the caller's override arguments were modified")
            elif kind == "raise":
                if state[i] is None and op["id"] not in faulty_ops:
                    ctx.bad("C05", "unloadable", f"load ({how}, overrides {op['kw']}) of an intact model failed: "
                                                 f"{type(v).__name__}: {v}")
            n = len(w.origin.requests)
            if n:
                ctx.bad("C05", "network", "a local load used the network")
                w.origin.requests.clear()

    def step(t, op, procname):
        if op["do"] == "load":
            load(t, op, procname)
        else:
            with harness():
                damage(op)
        if AFTER:
            AFTER(op, t.proc)

    def client(i):
        def fn(t):
            for op in plan["tasks"][i]:
                step(t, op, ("p", plan.get("procs", [0] * 9)[i]))
        return fn

    def tail_client(t):
        for op in plan.get("tail", []):
            if op.get("healthy") and state[op["m"]] is not None:
                with harness():
                    lay(op["m"])
                    state[op["m"]] = None
            step(t, op, "tail")

    w.run([client(i) for i in range(len(plan["tasks"]))])
    if plan.get("tail"):
        w.run([tail_client])
    for what, dd in still(held):
        ctx.bad("C05", "changed_later", f"the model loaded from {what} changed afterwards: {dd}")
    w.result = result(w, ctx, stats, {"urls": [1, 2] if stats["damage"] else []})
    return w


def shrink_lists(plan):
    """The lists that minimisation may drop elements from."""
    out = [("faults",), ("switches",), ("tail",)]
    out += [("tasks", i) for i in range(len(plan["tasks"]))]
    return out


def simpler(plan):
    """Candidate simplifications of single fields."""
    import copy
    for k, v in (("chunked", False), ("redirect", False), ("mounts", [])):
        if plan.get(k):
            p = copy.deepcopy(plan)
            p[k] = v
            yield p
    for i, f in enumerate(plan["faults"]):
        if f.get("times"):
            p = copy.deepcopy(plan)
            del p["faults"][i]["times"]
            yield p
    for path in [("tasks", i) for i in range(len(plan["tasks"]))] + [("tail",)]:
        ops = plan
        for x in path:
            ops = ops[x]
        for j, op in enumerate(ops):
            if op.get("kw") or op.get("slash"):
                p = copy.deepcopy(plan)
                o = p
                for x in path:
                    o = o[x]
                if "kw" in o[j]:
                    o[j]["kw"] = {}
                o[j]["slash"] = False
                yield p


def describe(prop):
    common = ["torchiva.loader, torchiva.nn, torchiva.utils and everything they call in the library",
              "urllib.request, http.client, pathlib, tempfile, shutil, io buffering layers, yaml, torch.load / torch.save",
              "the kernel's file system (scratch folder)"]
    if prop == "C05":
        return dict(
            rule="a run is a seeded plan: 1-2 stored models, 1-2 client threads each making 1-4 loads (folder, relative folder, "
                 "explicit pair; random overrides) and stored-file damage (removal, truncation, foreign or incomplete weights), "
                 "read errors/crashes/interrupts at chosen I/O events and preemptions at chosen events, then one healthy load per "
                 "model; non-trivial if a fault or damage took effect, clients were preempted or several loads succeeded; "
                 "distinct by event-log hash",
            real=common, stub=["network (down: any connection attempt is a violation)", "clock, pids, entropy, directory order"],
            assumptions=["process-crash model: what was written survives (no power loss)", "bit flips inside files not injected"])
    return dict(
        rule="a run is a seeded plan: 1-4 published models, 1-3 client threads in 1-3 processes making 1-3 URL loads each with "
             "random overrides, transfer faults per request, file-system faults/crashes/interrupts at chosen I/O events, preemptions "
             "at chosen events, then clock jumps, outages, republishing, restarts and one healthy load per URL; non-trivial if a fault "
             "fired, clients were preempted, several URLs took part or several loads succeeded; distinct by event-log hash",
        real=common,
        stub=["sockets and TLS (scripted origin server below http.client)", "clock, pids, entropy, temporary names, directory order",
              "threads run one at a time under the simulator's scheduler", "crash = the process's later effects are discarded"],
        assumptions=["the server announces body lengths (Content-Length or chunked) and answers errors with an HTTP error status",
                     "process-crash model: data written before the crash survives (no power loss)",
                     "a model is not replaced on the server while it is being downloaded"])
