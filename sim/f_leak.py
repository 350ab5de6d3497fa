"""C20: nothing piles up.  The same little history (calls, loads or command runs, with the same failures) is repeated for
several rounds; what the process holds and what lies on the disk must not grow from round to round."""
import copy
import gc
import os
import warnings
import threading

import torch

from . import f_cli as FC
from . import f_lib as FL
from . import f_loader as FLD
from . import leak
from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W

ROUNDS = 7
# What grows in the first rounds is looked at again over many, so that a cache with a bound of up to 128 entries has long reached it:
# (rounds, measured every n-th round)
MANY = {"lib": (160, 8), "load": (160, 8), "local": (160, 8), "cmd": (40, 2)}
SHIFT = 1000


def prepare(prop):
    FL.prepare("C10")
    FLD.prepare("C01")
    FC.prepare("C07")
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------------------------ generation
def gen(prop, rng, tier):
    world = rng.choice(["lib"] * 6 + ["load", "load", "local", "cmd"])
    if world == "lib":
        plan = FL.gen_plan("C10", rng, tier)
        ops = [o for o in plan["clients"][0] if o["op"] in ("call", "fn")][:rng.choice([1, 2, 3, 4])]
        if not ops:
            return gen(prop, rng, tier)
        plan["clients"] = [ops]
        if any(m["kind"] in L.STATEFUL for m in plan["models"]):
            # a model that keeps graph tensors of its own inside torch's checkpoint: a cycle through torch's graph (DESIGN, C20)
            for d in [o["kw"] for o in plan["objs"]] + [o.get("kw") or {} for o in ops]:
                if "use_dmc" in d:
                    d["use_dmc"] = False
        plan["faults"] = FL.gen_faults(rng, [o["id"] for o in ops], 0.65, 150)
        plan["threads"] = rng.random() < 0.3  # every round in a thread of its own
        plan["fresh"] = rng.random() < 0.4  # new objects in every round
        # other signals in every round, of another length, number of frequencies or batch shape
        plan["vary"] = rng.choice(["length", "length", "freq", "batch"]) if rng.random() < 0.5 else False
    elif world == "load":
        plan = FLD.gen("C01", rng, tier)
        ops = [o for t in plan["tasks"] for o in t if o["do"] == "load"][:rng.choice([1, 2, 3])]
        for o in ops:
            o["train"] = True
        faults = []
        for o in ops:
            if rng.random() < 0.7:
                if rng.random() < 0.6:
                    f = FLD._net_fault(rng, o["id"])
                    f["req"] = rng.choice([0, 1])
                else:
                    f = {"op": o["id"], "kind": "fs.write", "nth": rng.choice([0, 0, 1, 2]), "what": rng.choice(["short_enospc", "enospc", "eio", "interrupt"]),
                         "frac": rng.choice([0.0, 0.5, 0.9])}
                    if f["what"] == "interrupt":
                        f.pop("frac")
                faults.append(f)
        plan.update(tasks=[ops], procs=[0], tail=[], switches=[], faults=faults, legacy=[])
    elif world == "local":
        plan = FLD.gen_local(rng, tier)
        ops = [o for t in plan["tasks"] for o in t if o["do"] == "load" or rng.random() < 0.5][:4]
        for o in ops:
            if o["do"] == "load":
                o["train"] = True
        keep = {o["id"] for o in ops}
        plan.update(tasks=[ops], procs=[0], tail=[], switches=[],
                    faults=[f for f in plan["faults"] if f["op"] in keep and "crash" not in f["what"]])
    else:
        plan = FC.gen("C07", rng, tier)
        ops = [o for o in plan["tasks"][0] if o["do"] == "run"][:1]
        same = rng.random() < 0.8
        plan.update(tasks=[ops], tail=[], switches=[], same=same,
                    faults=[f for f in plan["faults"] if f["op"] == ops[0]["id"] and "ev" not in f and "crash" not in f["what"]
                            and f["kind"] in ("fs.write", "fs.open_w", "fs.mkdir", "codec.read", "codec.write", "compute.stft", "compute.istft")])
    plan["world"] = world
    plan["rounds"] = ROUNDS
    return plan


def repeated(plan, key):
    """The plan with its operations and faults repeated for every round."""
    p = copy.deepcopy(plan)
    ops = p[key][0]
    out, faults = [], []
    for r in range(plan["rounds"]):
        for op in ops:
            q = copy.deepcopy(op)
            q["id"] = op["id"] + SHIFT * r
            if key == "tasks" and plan["world"] == "cmd":
                q["proc"] = "p" if plan.get("same") else f"p{r}"
            if key == "clients" and plan.get("vary"):  # another signal of another size first
                v = copy.deepcopy(q)
                v["id"] += SHIFT // 2
                if v["op"] == "fn":
                    v["fn"]["seed"] += 7 * r + 7
                    v["fn"]["batch"] = [1 + r % 8, 1 + r // 8]
                else:
                    x = v["x"]
                    x["seed"] += 7 * r + 7
                    if plan["vary"] == "batch":
                        x["shape"] = [1 + r % 8, 1 + r // 8] + x["shape"][-2 if x.get("time") else -3:]
                    elif plan["vary"] == "freq" and not x.get("time"):
                        x["shape"][-2] += r + 1
                    else:
                        x["shape"][-1] += (8 if x.get("time") else 1) * (r + 1)
                out.append(v)
            out.append(q)
        for f in p["faults"]:
            # the call that ends a round is then undisturbed: state of the size of the signal may stay
            half = SHIFT // 2 if key == "clients" and plan.get("vary") else 0
            faults.append(dict(copy.deepcopy(f), op=f["op"] + SHIFT * r + half))
    p[key] = [out]
    p["faults"] = faults
    return p


# ------------------------------------------------------------------------------------ library calls
class Run(FL.Run):
    def __init__(self, prop, plan, root):
        self.base = plan
        super().__init__(prop, repeated(plan, "clients"), root)

    def go(self):
        plan = self.plan
        L.set_garbage(plan["garbage"])
        self.u = universe.Universe()
        self.u.activate()
        self.build()
        self.before = None
        self.meter = leak.Meter()
        proc = W.Proc(self.w, "p", self.u)

        def client(t):
            t.proc = proc
            ops = plan["clients"][0]
            per = len(ops) // plan["rounds"]
            for r in range(plan["rounds"]):
                if plan["fresh"] and r:
                    self.build()
                self.round(t, ops[r * per:(r + 1) * per])
                if (r + 1) % plan.get("every", 1) == 0:
                    self.measure()
        self.w.run([client])
        for k, v in self.meter.grown():
            self.bad("grows", f"{k}: {v[-4:]} after rounds of {', '.join(sorted({self.describe(o) for o in self.base['clients'][0]}))}"
                              + (" (new objects in every round)" if plan["fresh"] else ""))
            break
        w = self.w
        self.count(self.extra, "rounds", len(self.meter.taken))
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": 0,
                "nontrivial": len(self.meter.taken) == plan["rounds"] // plan.get("every", 1), "log": w.log}

    def build(self):
        self.models, self.objs = REF.build(self.u, self.plan)

    def round(self, t, ops):
        def work():
            W._local.task = t
            for op in ops:
                op = dict(op)
                op.pop("buf", None)
                r, y, X = self.exec(t, op)
                torch.set_default_dtype(torch.float32)
                torch.set_grad_enabled(True)
            del r, y, X
        if self.plan["threads"]:
            h = threading.Thread(target=work)
            h.start()
            h.join()
        else:
            work()
        for m in self.models:
            if hasattr(m, "log"):
                m.log.clear()
            for p in m.parameters() if isinstance(m, torch.nn.Module) else ():
                p.grad = None

    def measure(self):
        mods = [m for m in list(self.models) + list(self.objs.values()) if isinstance(m, torch.nn.Module)]
        self.meter.take([self.u.modules, self.models, self.objs], mods)
        self.w.note("held", *[f"{k}={v}" for k, v in sorted(self.meter.taken[-1].items()) if k in ("live tensors", "hooks", "threads")])


# ------------------------------------------------------------------------------------ loads and commands
def run(prop, plan, root):
    r = run_rounds(prop, plan, root)
    if r["violations"] and r["violations"][0]["cls"] == "grows":
        n, every = MANY[plan["world"]]
        again = os.path.join(root, "again")
        os.mkdir(again)
        r = run_rounds(prop, dict(plan, rounds=n, every=every), again)
        r["fired"]["looked_at_again"] = 1
    return r


def run_rounds(prop, plan, root):
    warnings.resetwarnings()  # what Python remembers of the warnings given counts, too
    warnings.showwarning = lambda *a, **k: None
    if plan["world"] == "lib":
        return Run(prop, plan, root).go()
    every, rounds = plan.get("every", 1), [0]
    p = repeated(plan, "tasks")
    meter = leak.Meter([os.path.join(root, d) for d in ("home", "tmp", "w", "models", "mnt")])
    fam = FC if plan["world"] == "cmd" else FLD
    last = {o["id"] for o in p["tasks"][0][len(plan["tasks"][0]) - 1::max(1, len(plan["tasks"][0]))]}

    def after(op, proc):
        if op["id"] not in last:
            return
        rounds[0] += 1
        if rounds[0] % every == 0:
            meter.take([proc.universe.modules] if proc is not None else [], memory=plan["world"] != "cmd" or bool(plan.get("same")))
    fam.AFTER = after
    try:
        r = fam.run(prop if plan["world"] != "cmd" else "C06", p, root)
    finally:
        fam.AFTER = None
    r["violations"] = []
    for k, v in meter.grown():
        what = {"load": "the same loads from URLs", "local": "the same loads from local files", "cmd": "the same runs of the command"}[plan["world"]]
        r["violations"].append({"property": prop, "cls": "grows", "msg": f"{k}: {v[-4:]} after rounds of {what}"})
        break
    r.setdefault("extra", {})
    r["extra"]["rounds"] = len(meter.taken)
    r["nontrivial"] = len(meter.taken) == plan["rounds"] // every
    return r


# ------------------------------------------------------------------------------------ minimisation
def shrink_lists(plan):
    yield ["faults"]
    yield ["clients", 0] if plan["world"] == "lib" else ["tasks", 0]
    if plan["world"] == "cmd" and len(plan["files"]) > 1:
        yield ["files"]


def simpler(plan):
    for k in ("threads", "fresh", "vary", "chunked", "redirect"):
        if plan.get(k):
            yield dict(copy.deepcopy(plan), **{k: False})


def describe(prop):
    return dict(
        rule="a run repeats a seeded little history (1-4 library calls, loads from URLs or local files, or a run of the command over a tree, each with the same "
             f"failures and interrupts in every round) {ROUNDS} times and measures after each round what the process holds (live tensors and their bytes, objects "
             "reachable from the library and its objects, hooks, threads, children, open files) and how many files lie in home, temp and output folders; "
             "non-trivial when all rounds were measured; distinct by event-log hash",
        real=["all of torchiva", "torch, the garbage collector, urllib, torchaudio's decoder, the kernel's file system (scratch folder)"],
        stub=["network, clock, entropy, pids, directory order, torchaudio.save (mostly)", "operations fail or are interrupted at planned points"],
        assumptions=["processes that are killed may leave files behind: no crashes here", "caches with a bound are allowed: only growth in each of the last rounds counts"])
