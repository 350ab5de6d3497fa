"""C21: a failure inside a call reaches the caller.  Operations fail, allocations fail, the user interrupts, the user's source model
raises - at any point of a call or of its back-propagation, once or from then on.  The call must raise, or return what the
undisturbed call returns; an interrupt and an error of the user's own model must arrive as what they are."""
import contextlib
import copy

import torch

from . import f_lib as FL
from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W


def prepare(prop):
    FL.prepare("C10")


class Trouble(Exception):
    """Raised by a user's source model."""


class Lost(LookupError):
    """Raised by a user's source model."""


ERRORS = {"Trouble": Trouble, "Lost": Lost, "ValueError": ValueError, "RuntimeError": RuntimeError, "StopIteration": StopIteration,
          "KeyboardInterrupt": KeyboardInterrupt, "LinAlgError": torch.linalg.LinAlgError, "NotImplementedError": NotImplementedError,
          "AttributeError": AttributeError, "TypeError": TypeError, "ZeroDivisionError": ZeroDivisionError, "FloatingPointError": FloatingPointError, "OSError": OSError, "KeyError": KeyError,
          "AssertionError": AssertionError, "StopAsyncIteration": StopAsyncIteration, "TimeoutError": TimeoutError, "IndexError": IndexError}


def gen(prop, rng, tier):
    plan = FL.gen(rng.choice(["C10", "C10", "C11"]), rng, tier)
    ops = [o for o in plan["clients"][0] if o["op"] in ("call", "fn", "perturb", "mode")]
    for o in ops:
        o.pop("buf", None)
    calls = [o for o in ops if o["op"] in ("call", "fn")]
    plan["clients"] = [ops]
    plan["faults"], plan["model"] = [], []
    for o in calls:
        r = rng.random()
        mi = None
        if o["op"] == "call":
            kw = o.get("kw") or {}
            mi = kw.get("model", kw.get("mask_model", plan["objs"][o["obj"]].get("model")))
        if r < 0.35 and mi is not None and plan["models"][mi]["kind"] != "user_fn":
            plan["model"].append({"op": o["id"], "m": mi, "nth": rng.choice([0, 0, 1, 1, 2, 3, 4]), "exc": rng.choice(sorted(ERRORS)),
                                  "when": rng.choice(["before", "after"])})
            if plan["models"][mi]["kind"] in L.STATEFUL and rng.random() < 0.5:
                plan["model"][-1].update(when="reset", nth=rng.choice([0, 0, 0, 1]))
        elif r < 0.92:
            fs = FL.gen_faults(rng, [o["id"]] * rng.choice([1, 1, 1, 2, 3]), 1.0, rng.choice([30, 120, 250, 400]))
            if rng.random() < 0.3 and fs[0]["kind"] == "torch":
                fs = [dict(fs[0], times=rng.choice([2, 3, 1000]))]  # goes on failing
            plan["faults"] += fs
    plan.pop("hot", None)
    if calls and rng.random() < 0.5:
        sweep(rng, plan, rng.choice(calls))
    return plan


def sweep(rng, plan, op):
    """One call over and over, failing at another point each time."""
    plan["faults"], plan["model"] = [], []
    mi = None
    if op["op"] == "call":
        o = plan["objs"][op["obj"]]
        kw = op.get("kw") or {}
        mi = kw.get("model", kw.get("mask_model", o.get("model")))
        if mi is not None and plan["models"][mi]["kind"] == "user_fn":
            mi = None
        n = 3
        if "n_iter" in o["kw"] and not kw.get("n_iter"):
            n = o["kw"]["n_iter"] = rng.choice([2, 3, 5])
    by_model = mi is not None and rng.random() < 0.6
    names = rng.choice([None, None, ["KeyboardInterrupt"], ["MemoryError"], ["OutOfMemoryError"], ["LinAlgError"], ["RuntimeError"]])
    far = rng.choice([20, 60, 150, 400])
    ops = []
    for i in range(rng.choice([6, 10, 16])):
        c = dict(copy.deepcopy(op), id=i)
        ops.append(c)
        if by_model and rng.random() < 0.85:
            plan["model"].append({"op": i, "m": mi, "nth": rng.choice([0] + list(range(n + 1))), "exc": rng.choice(sorted(ERRORS)),
                                  "when": rng.choice(["before", "after"])})
            if plan["models"][mi]["kind"] in L.STATEFUL and rng.random() < 0.2:
                plan["model"][-1].update(when="reset", nth=0)
        else:
            fs = FL.gen_faults(rng, [i], 1.0, far)[:1]
            if names:
                fs = [dict(f, exc=rng.choice(names)) for f in fs]
            plan["faults"] += fs
    plan["clients"] = [ops]


class Run(FL.Run):
    def go(self):
        self.ref = REF.SERVER
        self.rplan = {k: self.plan[k] for k in ("models", "objs", "garbage")}
        L.set_garbage(self.plan["garbage"])
        self.u = universe.Universe()
        self.u.activate()
        self.models, self.objs = REF.build(self.u, self.plan)
        self.before = None
        proc = W.Proc(self.w, "p", self.u)

        def client(t):
            t.proc = proc
            for op in self.plan["clients"][0]:
                if self.violations:
                    return
                k = op["op"]
                if k == "perturb":
                    self.perturb(op)
                elif k == "mode":
                    self.objs[op["obj"]].train(op["train"])
                else:
                    self.one(t, op)
                torch.set_default_dtype(torch.float32)
                torch.set_grad_enabled(True)
        self.w.run([client])
        w = self.w
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": 0,
                "nontrivial": self.extra.get("failures", 0) > 0, "log": w.log}

    @contextlib.contextmanager
    def troubled(self, op):
        """The user's model raises at its n-th use in this call."""
        todo = [f for f in self.plan["model"] if f["op"] == op["id"]]
        self.raised = None
        m = self.models[todo[0]["m"]] if todo else None
        if m is None or not callable(m):
            yield
            return
        f, n = todo[0], [0]

        def strike(*a):
            n[0] += 1
            if n[0] - 1 == f["nth"]:
                self.raised = ERRORS[f["exc"]]("the source model's own error")
                self.w.fired[f"model_raises_{f['exc']}"] += 1
                self.w.note("model raises", op["id"], f["exc"], f["nth"])
                raise self.raised
        if not isinstance(m, torch.nn.Module):
            yield
            return
        if f["when"] == "reset":
            if not hasattr(m, "reset"):
                yield
                return
            real = m.reset

            def reset(*a, **k):
                strike()
                return real(*a, **k)
            m.reset = reset
            try:
                yield
            finally:
                del m.reset
            return
        h = m.register_forward_pre_hook(strike) if f["when"] == "before" else m.register_forward_hook(strike)
        try:
            yield
        finally:
            h.remove()

    def one(self, t, op):
        kw = self.now(op)
        self.raw = self.error = None
        n0 = {k: v for k, v in self.w.fired.items()}
        with self.troubled(op):
            r, y, X = self.exec(t, op)
        raw, raised = self.raw, self.raised
        struck = self.struck[op["id"]]
        if raised is None and not struck:
            self.count(self.extra, "undisturbed")
            return
        hit = sorted(k for k, v in self.w.fired.items() if v > n0.get(k, 0))
        self.count(self.extra, "failures")
        self.count(self.extra, "failure_returned" if raw[0] == "ok" else "failure_raised")
        what = self.describe(op)
        if raised is not None and (raw[0] == "ok" or not inside(self.error, raised)):
            e = type(raised).__name__
            if raw[0] == "ok":
                self.bad("model_error_lost", f"{what}: the source model raised {e}, the call returned a result")
            elif not struck:
                self.bad("model_error_lost", f"{what}: the source model raised {e}, the caller got {raw[1]}")
            return
        if raw[0] != "ok":
            if {k.split("@")[0] for k in hit} == {"KeyboardInterrupt"} and raw[1] != "KeyboardInterrupt":
                self.bad("interrupt_lost", f"{what}: interrupted by the user, the caller got {raw[1]}")
            return
        if any(k.startswith("KeyboardInterrupt") for k in hit):
            self.bad("interrupt_lost", f"{what}: interrupted by the user, the call went on and returned a result")
            return
        e = self.ask(op, **kw)
        self.count(self.extra, "compared_calls")
        if e[0] != "ok":
            if e != ("exc", "missing"):
                self.bad("failure_hidden", f"{what}: an operation failed inside, the call returned; undisturbed it {FL.word(e)}")
            return
        d = L.diff(raw[1], e[1])
        if d <= L.tol(e[1]):
            return
        if d != float("inf") or FL.same_shapes(raw[1], e[1]):
            s = 0.0
            for seed in (1, 2, 3):
                p = self.ask(op, perturb=seed, **kw)
                s = max(s, L.diff(p[1], e[1]) if p[0] == "ok" else float("inf"))
            if d <= 100 * s:
                self.count(self.extra, "ill_conditioned_skipped")
                return
        self.bad("failure_hidden", f"{what}: {', '.join(hit)} inside the call, yet it returned a result that differs from that of the "
                                   f"undisturbed call (relative difference {d:.2g})")


def inside(e, raised):
    """Does the exception the caller got show the one that was raised?"""
    seen = 0
    while e is not None and seen < 20:
        if e is raised or type(e) is type(raised):
            return True
        if isinstance(raised, StopIteration) and isinstance(e, RuntimeError):
            return True  # Python's own rule inside generators
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


def run(prop, plan, root):
    return Run(prop, plan, root).go()


before_fork = REF.before_fork
after_failure = REF.after_failure


def shrink_lists(plan):
    yield ["faults"]
    yield ["model"]
    yield ["clients", 0]


def simpler(plan):
    for i, op in enumerate(plan["clients"][0]):
        for key in list(op.get("kw") or {}):
            p = copy.deepcopy(plan)
            del p["clients"][0][i]["kw"][key]
            yield p
        if op.get("back"):
            p = copy.deepcopy(plan)
            p["clients"][0][i].pop("back")
            yield p
    for i, f in enumerate(plan["faults"]):
        if f.get("times"):
            p = copy.deepcopy(plan)
            del p["faults"][i]["times"]
            yield p


def describe(prop):
    return dict(
        rule="a run is a seeded history of library calls (some back-propagated, with changes of weights and modes between), most of them with failures: tensor "
             "operations that raise once or from some point on, failed allocations, interrupts, source models that raise their own errors at their n-th use; "
             "non-trivial if at least one failure struck; distinct by event-log hash",
        real=["all of torchiva (executed from /repo's working tree)", "torch, its autograd engine and checkpointing"],
        stub=["torch functions fail or are interrupted at planned points", "contents of uninitialised memory"],
        assumptions=["CPU only", "failures strike at calls of torch functions, at entries of library functions and at uses of the source model",
                     "results more sensitive to rounding than to the observed difference are not judged"])
