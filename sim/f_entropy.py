"""C16: the same seeded work done under different settings of every entropy source other than torch's generator."""
import copy
import multiprocessing
import os
import platform
import random
import shutil
import socket
import sys

import numpy as np
import torch

from . import f_cli as FC
from . import f_lib as FL
from . import libzoo as L
from . import net, peer, seams, universe, zoo
from . import ref as REF
from . import world as W
from .f_loader import Ctx, call, setup_home

HASH_SEEDS = (101, 202)  # of the peer interpreters; this one has its own
DEFAULT_SEED = 67280421310721  # torch's generator in a new process


def prepare(prop):
    FL.prepare("C10")
    FC.prepare("C07")
    peer.start(HASH_SEEDS)


def prepare_peer():
    FL.prepare("C10")
    FC.prepare("C07")


before_fork = REF.before_fork
after_failure = REF.after_failure


# ------------------------------------------------------------------------------------ generation
def gen_env(rng, first):
    e = {"host": None, "t0": rng.choice([1_700_000_000.0, 1_700_000_001.5, 86400.0, 4_000_000_000.25, rng.uniform(1e8, 3e9)]),
         "pid0": rng.randrange(1, 30000), "entropy_seed": rng.randrange(1 << 30), "dir_seed": rng.randrange(1 << 30),
         "py": rng.randrange(1 << 30), "np": rng.randrange(1 << 30), "garbage": rng.randrange(1 << 30),
         "machine": [rng.choice([1, 2, 3, 4, 6, 8, 16, 64]), rng.choice(["localhost", "node%d" % rng.randrange(99)])],
         "vars": {k: v for k, v in (("TZ", rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])),
                                    ("HOSTNAME", "host%d" % rng.randrange(99)), ("USER", rng.choice(["ann", "bob"])),
                                    ("COLUMNS", str(rng.choice([40, 80, 200])))) if rng.random() < 0.6}}
    if not first:
        e["host"] = rng.choice([None, 0, 1])
    return e


def gen(prop, rng, tier):
    plan = {"models": [], "objs": [], "garbage": 1, "ops": [], "cli": None, "seed": rng.randrange(1 << 30)}
    q = rng.random()
    if q < 0.1:  # stand-alone functions only, on usual and on singular, tiny or huge matrices
        for i in range(rng.choice([8, 16, 24])):
            op = FL.gen_fn(rng)
            if rng.random() < 0.6:
                op["fn"]["special"] = rng.choice(["zero", "zero", "rank1", "negload", "tiny", "huge", "eye"])
            op["reseed"] = i == 0 or rng.random() < 0.4
            plan["ops"].append(op)
    elif q < 0.75:
        nf = rng.choice([5, 5, 9])
        dt = rng.choice(["c64", "c64", "c128"])
        kinds = ["tiss", "tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "bss", "bss", "stft"]
        n_obj = rng.choice([1, 1, 2])
        for _ in range(n_obj):
            k = rng.choice(kinds)
            plan["objs"].append(FL.gen_obj(rng, plan, nf, k, "C13" if k not in ("stft",) + L.MASKED and rng.random() < 0.4 else "C10", dt))
        for i in range(rng.choice([1, 2, 3] if tier == "quick" else [2, 4, 6])):
            if rng.random() < 0.12:
                op = FL.gen_fn(rng)
            else:
                op = FL.gen_call(rng, plan, rng.randrange(n_obj), "C10", nf, {})
            op["reseed"] = i == 0 or rng.random() < 0.4
            plan["ops"].append(op)
        if rng.random() < 0.15:
            for op in plan["ops"]:
                x = op.get("x") if op["op"] == "call" else None
                if x and not op.get("inv"):
                    x["shape"] = rng.choice([[4], [8], [2, 6]]) + x["shape"][-2 if x.get("time") else -3:]
        if rng.random() < 0.3:
            FL.widen(rng, {"models": plan["models"], "objs": plan["objs"], "clients": [plan["ops"]]})
    if not plan["ops"] or rng.random() < 0.15:
        c = FC.gen("C07", rng, tier)
        for f in c["files"]:
            f.pop("bad", None)
        o = c["opts"][0]
        if rng.random() < 0.6 and o["model_type"] != "nn":
            o["model_type"] = "nmf"
            o["n_basis"] = rng.choice([1, 2, 3])
            if o.get("algo") is None:
                o["algo"] = rng.choice(["tiss", "five"])
        c = {k: c[k] for k in ("files", "opts", "extra", "pre", "name", "sub", "write_chunk")}
        c.update(layout=rng.choice(["sep", "sep_new", "abs", "in_symlink", "out_in_in", "f_file", "f_dir"]), codec="seam", opts=c["opts"][:1],
                 script=rng.random() < 0.4, runs=rng.choice([1, 1, 2]), quiet=rng.random() < 0.5)
        if c["layout"].startswith("f_"):
            c["files"] = c["files"][:1]
            c["files"][0]["p"] = os.path.basename(c["files"][0]["p"])
        if o["model_type"] == "nn":
            o["where"] = "dir"
        plan["cli"] = c
    plan["envs"] = [gen_env(rng, j == 0) for j in range(rng.choice([2, 2, 3]))]
    return plan


# ------------------------------------------------------------------------------------ one execution
def execute(plan, env, root, perturb=None):
    """Do the work of the plan in one environment: a list of (label, ("ok", tensors) | ("exc", type))."""
    wp = {k: env[k] for k in ("t0", "pid0", "entropy_seed", "dir_seed")}
    if plan["cli"]:
        wp["write_chunk"] = plan["cli"]["write_chunk"]
        wp["codec"] = "seam"
    setup_home(root)
    saved = dict(os.environ)
    os.environ.update(env["vars"])
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    random.seed(env["py"])
    np.random.seed(env["np"])
    L.set_garbage(env["garbage"])
    w = W.World(wp, root, max_events=FL.MAX_EVENTS)
    w.origin = net.Origin()
    ctx = Ctx(w)
    out = []
    machine = Machine(*env["machine"])
    try:
        def client(t):
            if plan["ops"]:
                library(plan, w, ctx, t, out, perturb)
            if plan["cli"]:
                command(plan, w, ctx, t, out, root, perturb)
        w.run([client])
    finally:
        machine.restore()
        os.environ.clear()
        os.environ.update(saved)
        L.set_garbage(None)
    return out, dict(w.events), w.now - w.t_start


class Machine:
    """What the work can see of the machine it runs on: the number of processors (and torch's threads, which follows from it), its name."""

    def __init__(self, n, name):
        self.saved = []
        for mod, attr, f in ((os, "cpu_count", lambda: n), (multiprocessing, "cpu_count", lambda: n), (os, "sched_getaffinity", lambda pid: set(range(n))),
                             (os, "getloadavg", lambda: (0.1 * n, 0.2, 0.3)), (torch, "get_num_threads", lambda: n),
                             (torch, "get_num_interop_threads", lambda: n), (socket, "gethostname", lambda: name), (platform, "node", lambda: name)):
            self.saved.append((mod, attr, getattr(mod, attr)))
            setattr(mod, attr, f)

    def restore(self):
        for mod, attr, f in reversed(self.saved):
            setattr(mod, attr, f)


def library(plan, w, ctx, t, out, perturb):
    t.proc = ctx.proc("lib")
    t.proc.universe.activate()
    t.op = "lib"
    u = t.proc.universe
    models, objs = REF.build(u, plan)
    sd = []
    for i, m in enumerate(models):
        if isinstance(m, torch.nn.Module):
            sd += [v for _, v in sorted(m.state_dict().items())]
    out.append(("the initial weights", ("ok", L.detach(sd))))
    for j, op in enumerate(plan["ops"]):
        obj = objs.get(op.get("obj"))
        if not op["reseed"]:  # go on in the random stream
            st = torch.default_generator.get_state()
            op = dict(op, seed=None)
        r = perform(u, obj, op, models, perturb)
        label = op["fn"]["name"] if op["op"] == "fn" else (
            f"{plan['objs'][op['obj']]['kind']}" + (f" with {plan['models'][plan['objs'][op['obj']]['model']]['kind']} model"
                                                     if plan["objs"][op["obj"]].get("model") is not None else ""))
        out.append((f"call {j} ({label})", r))
    out.append(("the position in torch's random stream", ("ok", [torch.rand(2)])))


def perform(u, obj, op, models, perturb):
    real = REF.seed
    if op.get("seed") is None:
        REF.seed = lambda n: None
    try:
        return REF.perform(u, obj, op, models, perturb=perturb)
    finally:
        REF.seed = real


def command(plan, w, ctx, t, out, root, perturb):
    c = plan["cli"]
    o = c["opts"][0]
    task = t
    W._local.task = None
    try:
        files = copy.deepcopy(c["files"])
        base = os.path.join(root, "w")
        shutil.rmtree(base, ignore_errors=True)
        if perturb is not None:
            for f in files:
                f["perturb"] = perturb
                f["fmt"] = "f32"
        tree = FC.Tree(w, c, base, files)
        mp = None
        if o["model_type"] == "nn":
            d = os.path.join(root, "models", o["model"])
            os.makedirs(d, exist_ok=True)
            m = zoo.MODELS[o["model"]]
            for n, b in (("model_weights.ckpt", m.ckpt), ("model_config.yaml", m.yaml)):
                with seams.R["open"](os.path.join(d, n), "wb") as f:
                    f.write(b)
            mp = d
        op = {"id": "cli", "out": 0}
        inp, outp, cwd = tree.args(op)
        os.chdir(cwd)
        av = FC.argv(o, inp, outp, mp, c["quiet"])
        inputs = tree.inputs(op)
    finally:
        W._local.task = task

    def fn(u):
        if c["script"]:
            torch.manual_seed(DEFAULT_SEED)
            path = os.path.join(universe.REPO, universe.PKG, "separate.py")
            old = sys.argv
            sys.argv = [path] + av
            try:
                exec(universe._code[path], {"__name__": "__main__", "__package__": universe.PKG, "__file__": path, "__builtins__": __builtins__})
            finally:
                sys.argv = old
        else:
            torch.manual_seed(plan["seed"])
            sep = u["separate"]
            sep.main(sep.get_parser().parse_args(av))

    for r in range(c["runs"]):
        kind, v = call(ctx, t, op, "cli%d" % r if c["script"] else "cli", fn)
        if kind == "raise" and isinstance(v, SystemExit) and not v.code:
            kind = "ok"
        with_task = W._local.task
        W._local.task = None
        try:
            if kind != "ok":
                out.append((f"command run {r}", ("exc", type(v).__name__ if kind == "raise" else kind)))
                continue
            for p, rel in inputs:
                y = FC.decode(tree.target(op, rel))
                out.append((f"command run {r}, output for {rel}", ("exc", "unreadable") if isinstance(y, Exception) else ("ok", [y[0]])))
        finally:
            W._local.task = with_task


# ------------------------------------------------------------------------------------ comparing the environments
def run_env(plan, env, root, i, perturb=None):
    d = os.path.join(root, "e%d" % i)
    while os.path.lexists(d):
        d += "_"
    if env["host"] is None:
        seams.R["mkdir"](d)
        old = os.getcwd()
        try:
            return execute(plan, env, d, perturb)
        finally:
            os.chdir(old)
    return peer.ask(env["host"], dict(plan=plan, env=env, root=d, perturb=perturb))


def serve(req):
    seams.R["mkdir"](req["root"])
    os.chdir(req["root"])
    return execute(req["plan"], req["env"], req["root"], req["perturb"])


FIELDS = (("clock", "t0"), ("process_ids", "pid0"), ("os_entropy", "entropy_seed"), ("directory_order", "dir_seed"),
          ("python_random", "py"), ("numpy_random", "np"), ("uninitialised_memory", "garbage"), ("environment_variables", "vars"),
          ("processors_and_host_name", "machine"),
          ("hash_seed_and_interpreter", "host"))


def run(prop, plan, root):
    envs = plan["envs"]
    w = W.World({}, root)
    w.keep_log = bool(plan.get("keep_log"))
    violations, fired, extra, events = [], {}, {}, {}
    outcomes = {}
    base = None
    sim = 0.0
    for i, env in enumerate(envs):
        got, ev, dt = run_env(plan, env, root, i)
        sim += dt
        for k, v in ev.items():
            events[k] = events.get(k, 0) + v
        w.note("env", i, env["host"], sorted(ev.items()), [(label, r[0], r[1] if r[0] == "exc" else len(r[1])) for label, r in got])
        for label, r in got:
            k = label.split(" ")[0] + " " + r[0]
            outcomes[k] = outcomes.get(k, 0) + 1
        if base is None:
            base = got
            continue
        for name, f in FIELDS:
            if env[f] != envs[0][f]:
                fired[name] = fired.get(name, 0) + 1
        v = compare(plan, base, got, envs[0], env, root, extra)
        if v is not None:
            w.note("VIOLATION", v)
            violations.append({"property": "C16", "cls": "differs", "msg": v})
            break
    return {"violations": violations, "digest": w.digest(), "fired": fired, "events": events, "outcomes": outcomes, "extra": extra,
            "sim_time": sim, "switches": 0, "log": w.log, "nontrivial": extra.get("compared", 0) > 0}


def compare(plan, a, b, ea, eb, root, extra):
    which = ", ".join(n.replace("_", " ") for n, f in FIELDS if ea[f] != eb[f])
    if len(a) != len(b) or [x[0] for x in a] != [x[0] for x in b]:
        return f"other steps were carried out with another {which}"
    shaken = None
    for j, ((label, ra), (_, rb)) in enumerate(zip(a, b)):
        extra["compared"] = extra.get("compared", 0) + 1
        if ra[0] != rb[0] or (ra[0] == "exc" and ra[1] != rb[1]):
            d = float("inf")
        elif ra[0] == "exc":
            continue
        else:
            d = L.diff(rb[1], ra[1])
            extra["bit_identical"] = extra.get("bit_identical", 0) + int(d == 0.0)
            if d <= L.tol(ra[1]):
                continue
        # does rounding alone move it as much?
        if shaken is None:
            again = run_env(plan, ea | {"host": None}, root, 100)[0]
            shaken = []
            for s in (1, 2, 3):
                shaken.append(run_env(plan, ea | {"host": None}, root, 100 + s, s)[0])
        m = 0.0
        for g in shaken:
            if len(g) != len(again) or g[j][1][0] != again[j][1][0]:
                m = float("inf")
            elif again[j][1][0] == "ok":
                m = max(m, L.diff(g[j][1][1], again[j][1][1]))
        if ra[0] == rb[0] == "ok" and FL.same_shapes(ra[1], rb[1]) and d <= 5 * m:
            extra["ill_conditioned"] = extra.get("ill_conditioned", 0) + 1
            if plan["objs"] or plan["cli"]:
                return None  # what follows builds on it
            continue
        if ra[0] != rb[0] and m == float("inf"):
            extra["ill_conditioned"] = extra.get("ill_conditioned", 0) + 1
            if plan["objs"] or plan["cli"]:
                return None
            continue
        return f"{label} differs with the same torch seed (relative difference {d:.2g}) when these change: {which}"
    return None


def shrink_lists(plan):
    return [["ops"]] + ([["cli", "files"]] if plan["cli"] and len(plan["cli"]["files"]) > 1 else [])


def simpler(plan):
    if len(plan["envs"]) > 2:
        for i in range(1, len(plan["envs"])):
            p = copy.deepcopy(plan)
            del p["envs"][i]
            yield p
    for i in range(1, len(plan["envs"])):
        for _, f in FIELDS:
            if plan["envs"][i][f] != plan["envs"][0][f]:
                p = copy.deepcopy(plan)
                p["envs"][i][f] = copy.deepcopy(p["envs"][0][f])
                yield p
    if plan["cli"] and plan["ops"]:
        yield dict(copy.deepcopy(plan), cli=None)
        yield dict(copy.deepcopy(plan), ops=[], objs=[], models=[])
    if plan["cli"] and plan["cli"]["runs"] > 1:
        p = copy.deepcopy(plan)
        p["cli"]["runs"] = 1
        yield p
    for i, op in enumerate(plan["ops"]):
        for key in list(op.get("kw") or {}):
            p = copy.deepcopy(plan)
            del p["ops"][i]["kw"][key]
            yield p


def describe(prop):
    return dict(
        rule="a run is a seeded plan of library calls (models built from a torch seed, all separators and beamformers with all source models, "
             "1-3 calls) and/or invocations of the separation command over a generated file tree (as function or as script), executed in 2-3 "
             "environments that differ in clock, pids, OS entropy, directory order, Python's and numpy's generators, uninitialised memory, "
             "environment variables, number of processors and threads, host name and interpreter hash seed; non-trivial if at least one result was compared; distinct by hash of the "
             "executed steps and seam events",
        real=["all of torchiva, torch on the CPU, torchaudio's decoder", "interpreter start-up with three different hash seeds (peer processes)"],
        stub=["clock, pids, os.urandom, directory order, tempfile names, torch.seed, Generator.seed, torch.empty contents", "torchaudio.save: float32 WAV writer through the file seam"],
        assumptions=["torch's own kernels are deterministic with one thread", "C-level entropy calls below torch are reached only through torch.seed and Generator.seed"])
