"""C18: results are back-propagated at any later time: after other calls, failures, interrupts and backward passes, from
another thread, twice.  Gradients must be those of the call made and back-propagated alone in a pristine library."""
import copy

import torch

from . import f_dmc as FD
from . import f_lib as FL
from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W


def prepare(prop):
    FL.prepare("C10")


TRAINED = ("glu", "blstm", "simple", "mask", "user_drop", "user_mask", "user_wpe")
KINDS = ["tiss", "tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "bss", "bss", "stft"]


def gen(prop, rng, tier):
    plan = {"models": [], "objs": [], "clients": [], "faults": [], "switches": [], "garbage": rng.randrange(1 << 30)}
    two = rng.random() < 0.35
    how = "C12" if two else "C10"
    nf = rng.choice([5, 5, 5, 9])
    dt = rng.choice(["c64", "c128", "c128"])
    n_obj = rng.choice([1, 1, 2, 3])
    for _ in range(n_obj):
        plan["objs"].append(FL.gen_obj(rng, plan, nf, rng.choice(KINDS), how, dt))
        o = plan["objs"][-1]
        if o.get("model") is not None and o["kw"].get("use_dmc") and L.draws(plan["models"][o["model"]], True):
            o["kw"]["use_dmc"] = plan["models"][o["model"]]["kind"] not in L.STATEFUL
    uid = [0]

    def add(ops, op):
        op["id"] = uid[0]
        uid[0] += 1
        ops.append(op)
        return op["id"]

    shapes = []

    def call(kind):
        oi = rng.randrange(n_obj)
        o = plan["objs"][oi]
        op = FL.gen_call(rng, plan, oi, how, nf, {})
        op.pop("gx", None)
        op["kw"] = op.get("kw") or {}
        dmc = o["kw"].get("use_dmc") or op["kw"].get("use_dmc")
        mi = op["kw"].get("model", o.get("model"))
        if dmc and (mi is None or plan["models"][mi]["kind"] in L.STATEFUL or plan["models"][mi]["kind"] in ("user_fn", "nmf", "global:nmf", "simple")):
            op["kw"]["use_dmc"] = False if o["kind"] == "tiss" else None
            if op["kw"]["use_dmc"] is None:
                op["kw"].pop("use_dmc")
        if o["kind"] in ("stft", "bss"):
            op.pop("kw")
        if shapes and rng.random() < 0.6:  # the same shape again: buffers could be shared
            same = [s for s in shapes if s[0] == oi and bool(s[2]) == bool(op.get("inv"))]
            if same:
                op["x"]["shape"] = list(rng.choice(same)[1])
        shapes.append((oi, op["x"]["shape"], op.get("inv")))
        op["op"] = kind
        if kind == "fwd":
            op.update(grad="yes", back=True)
            okw = op.get("kw") or {}
            mi = okw.get("model", okw.get("mask_model", o.get("model")))
            m = plan["models"][mi] if mi is not None else None
            if m and m["kind"] in TRAINED and not m.get("frozen") and rng.random() < 0.4:
                op["xgrad"] = False  # only the model is trained
        else:
            op["grad"] = rng.choice(["no", "yes", "inf"])
            op["back"] = op["grad"] == "yes" and rng.random() < 0.5
        return op

    def history(first):
        ops, pending = [], []
        for _ in range(rng.choice([2, 3, 4, 6] if tier == "quick" else [4, 7, 10])):
            r = rng.random()
            if r < 0.4 or not pending:
                pending.append(add(ops, call("fwd")))
            elif r < 0.65:
                add(ops, call("call"))
            elif r < 0.7:
                add(ops, FL.gen_fn(rng))
            elif r < 0.95:
                i = rng.choice(pending)
                again = rng.random() < 0.2
                add(ops, {"op": "back", "of": i, "retain": again})
                if not again:
                    pending.remove(i)
            else:
                add(ops, {"op": "draw", "n": rng.choice([1, 7])})
        for i in pending:
            if rng.random() < 0.9:
                add(ops, {"op": "back", "of": i, "retain": False})
        return ops

    plan["clients"] = [history(True)]
    if two:
        plan["clients"].append(history(False))
        total = 230 * sum(len(c) for c in plan["clients"])
        plan["switches"] = [[s, rng.randrange(4)] for s in sorted({1 + FL.log_int(rng, total) if rng.random() < 0.5 else rng.randrange(1, total)
                                                                  for _ in range(rng.choice([1, 3, 8, 20]))})]
        # a result may be back-propagated by the other thread
        if rng.random() < 0.5:
            for c in (0, 1):
                moved = [o for o in plan["clients"][c] if o["op"] == "back" and rng.random() < 0.3]
                plan["clients"][c] = [o for o in plan["clients"][c] if o not in moved]
                plan["clients"][1 - c] += moved
    ids = [o["id"] for c in plan["clients"] for o in c if o["op"] in ("call", "fwd", "back", "fn")]
    plan["faults"] = FL.gen_faults(rng, ids, 0.12 if rng.random() < 0.7 else 0.4, 300)
    if rng.random() < 0.2:
        FL.widen(rng, {"models": plan["models"], "objs": plan["objs"],
                       "clients": [[dict(o, op="call") if o["op"] == "fwd" else o for o in c] for c in plan["clients"]]})
    return plan


class Run(FL.Run):
    def go(self):
        self.rplan = {k: self.plan[k] for k in ("models", "objs", "garbage")}
        self.ref = REF.SERVER
        self.before = None
        L.set_garbage(self.plan["garbage"])
        self.u = universe.Universe()
        self.u.activate()
        self.models, self.objs = REF.build(self.u, self.plan)
        self.pending = {}
        self.done = []
        proc = W.Proc(self.w, "p", self.u)

        def client(ops):
            def fn(t):
                t.proc = proc
                for op in ops:
                    self.step(t, op)
            return fn
        self.w.run([client(ops) for ops in self.plan["clients"]])
        self.verdict()
        w = self.w
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": w.n_switches,
                "nontrivial": self.extra.get("compared_backwards", 0) > 0, "log": w.log}

    def step(self, t, op):
        k = op["op"]
        two = len(self.plan["clients"]) > 1
        if k == "draw":
            if not two:
                torch.rand(op["n"])
            return
        if k == "back":
            self.back(t, op)
            return
        line = (lambda frame: self.tick("line")) if two else None
        cop = dict(op, op="call") if k == "fwd" else op
        if k == "fwd":
            kw = self.now(cop)
            keep = []
            run = dict(cop)
            run.pop("back")
            obj = self.objs[op["obj"]]
            self.keep = None
            r, y, X = self.exec_keep(t, run, line)
            if r[0] == "ok":
                self.pending[op["id"]] = (cop, y, X, kw)
        else:
            self.exec(t, cop, trace=line)
        torch.set_grad_enabled(True)

    def exec_keep(self, t, op, line):
        """Like exec, with an input that wants gradients."""
        real = self.live_input
        self.live_input = lambda o: real(o).detach().clone().requires_grad_(op.get("xgrad", True)) if o["id"] == op["id"] else real(o)
        try:
            return self.exec(t, op, trace=line)
        finally:
            self.live_input = real

    def back(self, t, op):
        got = self.pending.get(op["of"])
        if got is None:
            return
        cop, y, X, kw = got
        if not op["retain"]:
            self.pending.pop(op["of"])
        t.op = op["id"]
        self.struck[op["id"]] = False
        params = L.params_of(self.objs[cop["obj"]], cop, self.models)
        has = any(f["op"] == op["id"] for f in self.plan["faults"])
        two = len(self.plan["clients"]) > 1
        try:
            import contextlib
            with contextlib.ExitStack() as st:
                if has:
                    st.enter_context(L.Points(self.tick))
                if has or two:
                    st.enter_context(L.Tracer((lambda frame: self.tick("line")) if two else None, self.enter if has else None, False))
                # torch.autograd.grad leaves no trace on parameters other threads use
                if not self.dmc(cop) or two:
                    want = [p for p in [X] + params if p.requires_grad]
                    got = iter(torch.autograd.grad(L.loss_of(y), want, allow_unused=True, retain_graph=op["retain"]))
                    gs = [next(got) if p.requires_grad else None for p in [X] + params]
                else:
                    gs = L.grads_of(y, X, params, retain=op["retain"])
            r = ("ok", L.detach(gs))
        except W.StepLimit:
            raise
        except (Exception, KeyboardInterrupt) as e:
            r = ("exc", type(e).__name__)
        torch.set_grad_enabled(True)
        if self.struck[op["id"]]:
            r = ("fault", None)
            self.pending.pop(op["of"], None)
        self.w.note("back", t.idx, op["id"], r[0], r[1] if r[0] == "exc" else "")
        self.count(self.outcomes, "back " + r[0])
        if r[0] != "fault":
            self.done.append((op, cop, kw, len(L.flat(y)), r))

    def dmc(self, cop):
        return (cop.get("kw") or {}).get("use_dmc", self.plan["objs"][cop["obj"]]["kw"].get("use_dmc"))

    def verdict(self):
        for op, cop, kw, n, r in sorted(self.done, key=lambda q: q[0]["id"]):
            e = self.ask(cop, **kw)
            what = self.describe(cop)
            if e[0] == "exc":
                # does the call alone have gradients at all?
                if r[0] == "ok" and self.ask(dict(cop, back=False), **kw)[0] == "exc":
                    continue
                if r[0] == "ok" and not self.dmc(cop):
                    self.bad("gradient", f"{what}: back-propagated later it gives gradients, alone it raises {e[1]}")
                continue
            self.count(self.extra, "compared_backwards")
            if self.dmc(cop) and len(self.plan["clients"]) > 1 and r[0] == "exc":
                self.count(self.extra, "checkpointing_without_parameters")
                continue  # torch's reentrant checkpointing wants .backward()
            if r[0] == "exc":
                self.bad("gradient", f"{what}: back-propagated later it raises {r[1]}, alone it gives gradients")
                continue
            got, want = FD.zero_none(r[1], e[1][n:])
            d = L.diff(got, want)
            if d <= L.tol(want):
                continue
            s = 0.0
            for seed in (1, 2, 3):
                p = self.ask(cop, perturb=seed, **kw)
                s = max(s, L.diff(*FD.zero_none(p[1][n:], want)) if p[0] == "ok" else float("inf"))
            if d <= 100 * s:
                self.count(self.extra, "ill_conditioned_skipped")
                continue
            self.bad("gradient", f"{what}: gradients differ from those of the same call made and back-propagated alone "
                     f"(relative difference {d:.2g})")


def run(prop, plan, root):
    return Run(prop, plan, root).go()


before_fork = REF.before_fork
after_failure = REF.after_failure


def shrink_lists(plan):
    yield ["faults"]
    yield ["switches"]
    for i in range(len(plan["clients"])):
        yield ["clients", i]


def simpler(plan):
    for ci, ops in enumerate(plan["clients"]):
        for i, op in enumerate(ops):
            if op["op"] == "fwd":
                for key in list(op.get("kw") or {}):
                    p = copy.deepcopy(plan)
                    del p["clients"][ci][i]["kw"][key]
                    yield p
                if op["x"].get("layout"):
                    p = copy.deepcopy(plan)
                    p["clients"][ci][i]["x"]["layout"] = None
                    yield p


def describe(prop):
    return {
        "rule": "run is non-trivial when at least one back-propagation was compared with the same call made and back-propagated alone; "
                "distinct = distinct SHA-256 of the event log",
        "real": ["all of torchiva (executed from /repo's working tree)", "torch autograd", "Python threads (released one at a time)"],
        "stub": ["thread scheduler (seeded, at line boundaries of library code)", "torch functions fail or are interrupted at planned points",
                 "contents of uninitialised memory"],
        "assumptions": ["CPU only", "weights, train/eval mode and the input tensor are not changed between a forward and its backward pass",
                        "results more sensitive to rounding than to the observed difference are not judged"],
    }
