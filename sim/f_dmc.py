"""C15: T-ISS with demixing-matrix checkpointing against T-ISS without it, over interleaved forward and backward passes,
random draws, interrupted and failed passes."""
import copy
import random

import torch

from . import f_lib as FL
from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W


def prepare(prop):
    FL.prepare("C10")


def gen(prop, rng, tier):
    plan = {"models": [], "objs": [], "clients": [], "faults": [], "switches": [], "garbage": rng.randrange(1 << 30)}
    nf = rng.choice([5, 5, 9])
    for _ in range(rng.choice([1, 1, 2])):
        dt = rng.choice(["c128", "c128", "c128", "c64"])
        bss = rng.random() < 0.2
        if bss:
            dt = "c64"
        kind = rng.choice(["glu", "glu", "blstm", "simple", "user_drop", "user_drop", "laplace", "gauss", "shared"])
        if kind == "shared" and plan["models"] and plan["models"][0].get("dtype", "c64") == dt:
            mi = 0
        else:
            m = {"kind": "user_drop" if kind == "shared" else kind, "seed": rng.randrange(1000), "n_freq": nf, "dtype": dt,
                 "p": rng.choice([0.0, 0.3, 0.3, 0.5]), "train": rng.random() < 0.8, "nb": rng.choice([3, 4, nf + 2]),
                 "mag": rng.random() < 0.7, "log": rng.random() < 0.7, "eps": None}
            if m["kind"] == "user_drop":
                m["always"] = rng.random() < 0.4
            if rng.random() < 0.2:
                m["frozen"] = True
            plan["models"].append(m)
            mi = len(plan["models"]) - 1
        kw = dict(n_iter=rng.choice([1, 2, 2, 3]), n_src=rng.choice([None, 2, 1, 2]), proj_back_mic=rng.choice([0, 0, 1, None]),
                  n_taps=rng.choice([0, 0, 1, 2]), use_dmc=True, eps=rng.choice([None, 1e-3, 1e-8, 1e-5, 1e-1]))
        kw["n_delay"] = rng.choice([0, 1, 2]) if kw["n_taps"] else 0
        o = {"kind": "tiss", "kw": kw, "model": mi, "seed": 0, "dt": dt, "nf": nf, "train": plan["models"][mi]["train"]}
        if bss:
            o["kind"] = "bss"
            kw.update(n_fft=2 * (nf - 1), algo="tiss", proj_back_mic=kw["proj_back_mic"] or 0, eps=1e-4)
        plan["objs"].append(o)
    ops, pending, uid = [], [], [0]

    def add(op):
        op["id"] = uid[0]
        uid[0] += 1
        ops.append(op)
        return op["id"]

    for _ in range(rng.choice([2, 3, 5, 7, 9] if tier == "quick" else [3, 6, 10, 14])):
        r = rng.random()
        if r < 0.45 or not pending:
            oi = rng.randrange(len(plan["objs"]))
            x = FL.gen_x(rng, plan["objs"][oi])
            op = {"op": "fwd", "obj": oi, "x": x, "seed": rng.randrange(10000), "grad": "yes", "back": True,
                  "xgrad": rng.random() < 0.5, "kw": {}}
            if plan["objs"][oi]["kind"] == "tiss" and rng.random() < 0.3:
                for key, vals in (("n_iter", [1, 2, 3]), ("n_src", [1, 2]), ("proj_back_mic", [0, 1]), ("eps", [1e-3, 1e-6, 1e-1])):
                    if rng.random() < 0.4:
                        op["kw"][key] = rng.choice(vals)
                if rng.random() < 0.3:
                    op["kw"]["use_dmc"] = True
            if plan["models"][plan["objs"][oi]["model"]].get("frozen"):
                op["xgrad"] = True
            if rng.random() < 0.12:
                op.update(grad=rng.choice(["no", "inf"]), back=False, xgrad=False)
                add(op)
                continue
            pending.append(add(op))
        elif r < 0.8:
            i = rng.choice(pending)
            again = rng.random() < 0.15
            add({"op": "back", "of": i, "retain": again})
            if not again:
                pending.remove(i)
        elif r < 0.92:
            add({"op": "draw", "n": rng.choice([1, 5, 200])})
        else:
            add({"op": "seed", "seed": rng.randrange(1000)})
    for i in list(pending):
        if rng.random() < 0.8:
            add({"op": "back", "of": i, "retain": False})
    plan["clients"] = [ops]
    plan["faults"] = FL.gen_faults(rng, [o["id"] for o in ops if o["op"] in ("fwd", "back")], 0.12, 400)
    return plan


class Run(FL.Run):
    def go(self):
        self.rplan = {k: self.plan[k] for k in ("models", "objs", "garbage")}
        self.ref = REF.SERVER
        L.set_garbage(self.plan["garbage"])
        self.u = universe.Universe()
        self.u.activate()
        self.models, self.objs = REF.build(self.u, self.plan)
        proc = W.Proc(self.w, "p", self.u)

        def client(t):
            t.proc = proc
            self.body(t, self.plan["clients"][0])
        self.w.run([client])
        w = self.w
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": 0,
                "nontrivial": self.extra.get("compared_backwards", 0) > 0, "log": w.log}

    def guarded(self, t, op, fn):
        t.op = op["id"]
        self.struck[op["id"]] = False
        has = any(f["op"] == op["id"] for f in self.plan["faults"])
        try:
            if has:
                with L.Points(self.tick), L.Tracer(None, self.enter, False, lambda frame: self.tick("hot")):
                    r = ("ok", fn())
            else:
                r = ("ok", fn())
        except W.StepLimit:
            raise
        except (Exception, KeyboardInterrupt) as e:
            r = ("exc", type(e).__name__)
        if self.struck[op["id"]]:
            r = ("fault", None)
        torch.set_grad_enabled(True)
        self.w.note(op["op"], op["id"], r[0], r[1] if r[0] == "exc" else "")
        self.count(self.outcomes, f"{op['op']} {r[0]}")
        return r

    def body(self, t, ops):
        self.pending = {}
        for op in ops:
            k = op["op"]
            if k == "draw":
                torch.rand(op["n"])
            elif k == "seed":
                REF.seed(op["seed"])
            elif k == "fwd":
                self.fwd(t, op)
            elif k == "back" and op["of"] in self.pending:
                self.back(t, op)
            if self.violations:
                return

    def fwd(self, t, op):
        obj = self.objs[op["obj"]]
        X = REF.inputs(self.u, op).detach().clone().requires_grad_(op["xgrad"])
        kw = self.now(op)
        rng0 = torch.get_rng_state()
        REF.seed(op["seed"])
        r = self.guarded(t, op, lambda: in_context(op, lambda: L.make_call(obj, op, X, self.models)))
        after = torch.get_rng_state()
        if r[0] == "fault":
            torch.set_rng_state(rng0)
            return
        merge = {k: v for k, v in op["kw"].items()}
        merge["use_dmc"] = False
        cop = dict(op, op="call")
        e = self.ask(cop, merge=merge, **kw)
        what = self.describe(cop)
        # the twin back-propagates at once; when that fails (nothing requires a gradient) only outputs are compared
        if not op["back"]:
            e2 = e
        elif e[0] == "exc":
            e2 = self.ask(dict(cop, back=False), merge=merge, **kw)
        else:
            e2 = ("ok", e[1][:1])
        self.count(self.extra, "compared_forwards")
        if r[0] != e2[0] or (r[0] == "exc" and r[1] != e2[1]):
            self.bad("output", f"{what}: with checkpointing it {FL.word(r)}, without it {FL.word(e2)}")
            return
        if r[0] == "exc":
            return
        if not self.near(cop, L.detach([r[1]]), e2[1], merge, kw, 0):
            self.bad("output", f"{what}: output with checkpointing differs from the one without "
                     f"(relative difference {L.diff(L.detach([r[1]]), e2[1]):.2g})")
            return
        if op["back"]:
            self.pending[op["id"]] = (cop, r[1], X, e, merge, kw)

    def near(self, op, got, want, merge, kw, part):
        single = L.tol(want) > 1e-6
        floor = 0.0 if part == 0 else 1e-2 if single else 1e-5
        d = L.diff(got, want, floor)
        lim = 1e-3 if single else 1e-8
        if d <= lim:
            return True
        s = 0.0
        for seed in (1, 2, 3):
            p = self.ask(op, merge=merge, perturb=seed, **kw)
            if p[0] != "ok":
                return True
            a, b = (p[1][:1], want) if part == 0 else zero_none(p[1][1:], want)
            s = max(s, L.diff(a, b, floor))
        if d <= 3000 * s:
            self.count(self.extra, "ill_conditioned_skipped")
            return True
        return False

    def back(self, t, op):
        cop, y, X, e, merge, kw = self.pending[op["of"]]
        if not op["retain"]:
            self.pending.pop(op["of"])
        obj = self.objs[cop["obj"]]
        params = L.params_of(obj, cop, self.models)
        rng0 = torch.get_rng_state()
        if e[0] == "exc":
            return
        r = self.guarded(t, op, lambda: L.grads_of(y, X, params, retain=op["retain"]))
        if r[0] == "fault":
            for p in params:
                p.grad = None
            self.pending.pop(op["of"], None)
            return
        what = self.describe(cop)
        self.count(self.extra, "compared_backwards")
        if r[0] == "exc":
            self.bad("gradient", f"{what}: back-propagation with checkpointing raises {r[1]}, without it succeeds")
            return
        if not torch.equal(torch.get_rng_state(), rng0):
            self.bad("random_stream", f"{what}: back-propagation moved torch's random stream")
            return
        want = [None if v is None else v for v in e[1][1:]]
        got = L.detach(r[1])
        got, want = zero_none(got, want)
        if not self.near(cop, got, want, merge, kw, 1):
            self.bad("gradient", f"{what}: gradients with checkpointing differ from those without "
                     f"(relative difference {L.diff(got, want):.2g})")


def in_context(op, fn):
    with L.context(op):
        return fn()


def zero_none(a, b):
    """A missing gradient is a zero gradient."""
    out_a, out_b = [], []
    for u, v in zip(a, b):
        if u is None and v is not None:
            u = torch.zeros_like(v)
        if v is None and u is not None:
            v = torch.zeros_like(u)
        out_a.append(u)
        out_b.append(v)
    return out_a, out_b


def run(prop, plan, root):
    return Run(prop, plan, root).go()


before_fork = REF.before_fork
after_failure = REF.after_failure


def shrink_lists(plan):
    yield ["faults"]
    yield ["clients", 0]


def simpler(plan):
    for i, op in enumerate(plan["clients"][0]):
        if op["op"] == "fwd":
            for key in list(op["kw"]):
                p = copy.deepcopy(plan)
                del p["clients"][0][i]["kw"][key]
                yield p
            if op["x"].get("layout"):
                p = copy.deepcopy(plan)
                p["clients"][0][i]["x"]["layout"] = None
                yield p
    for i, o in enumerate(plan["objs"]):
        for key, v in (("n_taps", 0), ("n_delay", 0), ("n_iter", 1)):
            if o["kw"].get(key) not in (None, v):
                p = copy.deepcopy(plan)
                p["objs"][i]["kw"][key] = v
                yield p


def describe(prop):
    return {
        "rule": "run is non-trivial when at least one back-propagation through a checkpointed separation was compared with the "
                "twin without checkpointing; distinct = distinct SHA-256 of the event log",
        "real": ["torchiva T_ISS, BSSSeparator and source models (executed from /repo's working tree)",
                 "torch autograd and torch.utils.checkpoint"],
        "stub": ["torch functions fail or are interrupted at planned points", "contents of uninitialised memory"],
        "assumptions": ["CPU only", "weights and train/eval mode do not change between a forward pass and its backward pass",
                        "results more sensitive to rounding than to the observed difference are not judged"],
    }
