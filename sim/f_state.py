"""C17: histories of training and inference with state dictionaries exported at arbitrary instants (also in the middle of
a call, by another thread), process crashes, and restores into fresh processes."""
import copy
import io

import torch

from . import f_lib as FL
from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W


def prepare(prop):
    FL.prepare("C10")


KINDS = ["tiss", "tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "bss", "bss", "bss"]


def gen(prop, rng, tier):
    plan = {"models": [], "objs": [], "clients": [], "faults": [], "switches": [], "garbage": rng.randrange(1 << 30)}
    nf = rng.choice([5, 5, 9])
    dt = "c64"
    n_obj = rng.choice([1, 1, 2])
    for _ in range(n_obj):
        plan["objs"].append(FL.gen_obj(rng, plan, nf, rng.choice(KINDS), "C10", dt))
    uid = [0]
    ops = []

    def add(op, to=None):
        op["id"] = uid[0]
        uid[0] += 1
        (ops if to is None else to).append(op)

    n_ops = rng.choice([2, 3, 4, 6, 8] if tier == "quick" else [3, 5, 8, 12, 16])
    for _ in range(n_ops):
        oi = rng.randrange(n_obj)
        r = rng.random()
        if r < 0.35:
            op = FL.gen_call(rng, plan, oi, "C10", nf, {})
            op.pop("back", None)
            add(op)
        elif r < 0.65:
            op = FL.gen_call(rng, plan, oi, "C10", nf, {})
            op.update(op="train", grad="yes", back=True, opt=rng.choice(["sgd", "adam"]), step=rng.random() < 0.8)
            add(op)
        elif r < 0.75:
            add({"op": "mode", "obj": oi, "train": rng.random() < 0.5})
        elif r < 0.88:
            add({"op": "save", "obj": oi, "seed": rng.randrange(1000), "x": FL.gen_x(rng, plan["objs"][oi]), "kw": {}})
        else:
            add({"op": "crash"})
    for oi in range(n_obj):
        add({"op": "save", "obj": oi, "seed": rng.randrange(1000), "x": FL.gen_x(rng, plan["objs"][oi]), "kw": {}})
        if rng.random() < 0.5:
            add({"op": "crash"})
    plan["clients"] = [ops]
    if rng.random() < 0.35:  # a second thread exports while calls run
        other = []
        for _ in range(rng.choice([1, 2, 3])):
            add({"op": "export", "obj": rng.randrange(n_obj)}, other)
        plan["clients"].append(other)
        plan["switches"] = [[s, 0] for s in sorted({1 + FL.log_int(rng, 900) for _ in range(rng.choice([1, 2, 4, 8]))})]
    plan["faults"] = FL.gen_faults(rng, [o["id"] for o in ops if o["op"] in ("call", "train")], 0.25)
    return plan


def snapshot(obj):
    return {k: v.detach().clone() for k, v in obj.state_dict().items()}


def bn(k):
    return k.rsplit(".", 1)[-1] in REF.KEEP


class Run(FL.Run):
    def go(self):
        self.rplan = {k: self.plan[k] for k in ("models", "objs", "garbage")}
        self.ref = REF.SERVER
        self.before = None
        L.set_garbage(self.plan["garbage"])
        self.boot()
        self.fresh_keys = {i: sorted(o.state_dict()) for i, o in self.objs.items()}
        self.saved = {}
        self.exports = []
        self.training = None
        clients = []
        self.proc = W.Proc(self.w, "p0", self.u)

        def client(ops, first):
            def fn(t):
                t.proc = self.proc
                (self.body if first else self.exporter)(t, ops)
            return fn
        self.w.run([client(ops, i == 0) for i, ops in enumerate(self.plan["clients"])])
        for oi, sd, want, opid, loose in self.exports:
            self.check_saved(oi, sd, f"exported while call {opid} was running" if opid is not None else "exported", want, loose)
        w = self.w
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": w.n_switches,
                "nontrivial": self.extra.get("restored", 0) > 0 and sum(self.outcomes.values()) > 0, "log": w.log}

    def boot(self):
        self.u = universe.Universe()
        self.u.activate()
        self.models, self.objs = REF.build(self.u, self.plan)
        self.opt = {}

    # -- the exporting thread
    def exporter(self, t, ops):
        for op in ops:
            t.op = op["id"]
            obj = self.objs.get(op["obj"])
            sd = snapshot(obj)
            run = self.training
            self.w.note("export", op["id"], run)
            self.count(self.extra, "exports_by_other_thread")
            loose = any(m.training for m in obj.modules())
            self.exports.append((op["obj"], sd, self.stable_state.get(op["obj"]) if run is not None else None, run, loose))
            self.w.yield_now(t)

    # -- the working thread
    def body(self, t, ops):
        for op in ops:
            k = op["op"]
            self.stable_state = {i: snapshot(o) for i, o in self.objs.items()}
            if k == "mode":
                self.objs[op["obj"]].train(op["train"])
            elif k == "save":
                self.save(op)
            elif k == "crash":
                self.crash(t)
            else:
                self.work(t, op)
            torch.set_default_dtype(torch.float32)
            torch.set_grad_enabled(True)
            if self.violations:
                return

    def line(self, frame):
        self.tick("line")

    def work(self, t, op):
        obj = self.objs[op["obj"]]
        before = {i: snapshot(o) for i, o in self.objs.items()}
        modes = {i: any(m.training for m in o.modules()) for i, o in self.objs.items()}
        cop = dict(op, op="call")
        trace = self.line if len(self.plan["clients"]) > 1 else None
        self.training = op["id"]
        train = op["op"] == "train"
        if train:
            cop["back"] = True
            ps = [p for p in L.params_of(obj, cop, self.models)]
        try:
            r, y, X = self.exec(t, cop, trace=trace)
        finally:
            self.training = None
        what = self.describe(cop)
        end = {"ok": "returned", "exc": "raised", "fault": "failed or was interrupted"}[r[0]]
        for i, o in self.objs.items():
            now = snapshot(o)
            self.same_state(before[i], now, modes[i], f"{what}: a call that {end}")
        if train and op.get("step") and r[0] == "ok":
            n_y = len(r[1]) - 1 - len(ps)
            gs = r[1][n_y + 1:]
            key = op["obj"], op["opt"]
            live = [p for p, g in zip(ps, gs) if g is not None and bool(torch.isfinite(g).all())]
            for p, g in zip(ps, gs):
                p.grad = g if any(p is q for q in live) else None
            if live:
                opt = (torch.optim.SGD(ps, lr=1e-2) if op["opt"] == "sgd" else torch.optim.Adam(ps, lr=1e-2))
                torch.nn.utils.clip_grad_norm_(live, 1.0)
                opt.step()
            for p in ps:
                p.grad = None
            for i, o in self.objs.items():
                now = o.state_dict()
                if sorted(now) != sorted(before[i]):
                    self.bad("keys_changed", f"{what}: an optimiser step changed the saved keys")

    def same_state(self, a, b, training, what):
        if list(sorted(a)) != list(sorted(b)):
            d = sorted(set(a) ^ set(b))
            self.bad("keys_changed", f"{what} changed what the saved state contains ({d[0]})")
            return
        for k in a:
            if training and bn(k):
                continue
            if a[k].shape != b[k].shape or a[k].dtype != b[k].dtype or not torch.equal(nz(a[k]), nz(b[k])):
                self.bad("state_changed", f"{what} altered {k} in the saved state")
                return

    # -- saving and restoring
    def save(self, op):
        obj = self.objs[op["obj"]]
        buf = io.BytesIO()
        torch.save(obj.state_dict(), buf)
        sd = torch.load(io.BytesIO(buf.getvalue()), weights_only=True)
        modes = REF.training([obj] + [m for m in self.models if isinstance(m, torch.nn.Module)])
        self.check_saved(op["obj"], sd, "saved", None, False)
        # outputs and gradients of the live object and of one restored elsewhere, both in inference mode
        mods = [obj]
        flags = [(m, m.training) for m in obj.modules()]
        obj.eval()
        live = self.probe(self.u, obj, op, self.models)
        for m, f in flags:
            m.training = f
        r = self.ref.ask(plan=self.rplan, op=op, restore=sd)
        self.count(self.extra, "restored")
        o = self.plan["objs"][op["obj"]]
        what = self.describe(dict(op, op="call"))
        if r[0] == "load":
            self.bad("not_loadable", f"{what}: the saved state does not load into a fresh object: {r[1]}")
            return
        if live[0] != r[0] or (live[0] == "exc" and live[1] != r[1]):
            self.bad("restored_differs", f"{what}: the live object {FL.word(live)}, the restored one {FL.word(r)}")
            return
        if live[0] == "ok":
            d = L.diff(live[1], r[1])
            if d > L.tol(r[1]):
                s = 0.0
                for seed in (1, 2, 3):
                    p = self.ref.ask(plan=self.rplan, op=op, restore=sd, perturb=seed)
                    s = max(s, L.diff(p[1], r[1]) if p[0] == "ok" else float("inf"))
                if d > 100 * s or d == float("inf") and not FL.same_shapes(live[1], r[1]):
                    self.bad("restored_differs", f"{what}: outputs or gradients of the restored object differ from the live one "
                             f"(relative difference {d:.2g})")
                    return
        self.saved[op["obj"]] = sd

    def probe(self, u, obj, op, models, perturb=None):
        cop = dict(op, op="call", grad="yes", back=True, kw={})
        return REF.perform(u, obj, cop, models, perturb=perturb)

    def check_saved(self, oi, sd, how, want, loose):
        o = self.plan["objs"][oi]
        name = self.describe({"op": "call", "obj": oi})
        if sorted(sd) != self.fresh_keys[oi]:
            d = sorted(set(sd) ^ set(self.fresh_keys[oi]))
            self.bad("keys_changed", f"{name}: the state {how} has other keys than a fresh object ({d[0]})")
            return
        if want is not None:
            for k in want:
                if loose and bn(k):
                    continue
                if not torch.equal(nz(want[k]), nz(sd[k])):
                    self.bad("state_changed", f"{name}: the state {how} has another {k} than before the call")
                    return

    def crash(self, t):
        """The process dies; a new one restores every object from its last saved state."""
        self.w.fired["process_crash"] += 1
        self.w.note("crash")
        modes = {i: [m.training for m in o.modules()] for i, o in self.objs.items()}
        self.boot()
        self.proc.universe = self.u
        for i, sd in self.saved.items():
            try:
                self.objs[i].load_state_dict(sd)
            except Exception as e:
                self.bad("not_loadable", f"{self.describe({'op': 'call', 'obj': i})}: the saved state does not load into a "
                         f"fresh object: {type(e).__name__}")
        for i, o in self.objs.items():
            for m, f in zip(o.modules(), modes[i]):
                m.training = f


def nz(t):
    return torch.nan_to_num(t) if t.dtype.is_floating_point else t


def restore(plan, req):
    """In the reference process: a fresh copy of the library, a fresh object, the saved state."""
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    u = universe.Universe()
    u.activate()
    op = req["op"]
    models, objs = REF.build(u, plan, only=op["obj"])
    obj = objs[op["obj"]]
    try:
        obj.load_state_dict(req["restore"])
    except Exception as e:
        return ("load", type(e).__name__)
    obj.eval()
    cop = dict(op, op="call", grad="yes", back=True, kw={})
    return REF.perform(u, obj, cop, models, perturb=req.get("perturb"))


REF.RESTORE = restore


def run(prop, plan, root):
    return Run(prop, plan, root).go()


before_fork = REF.before_fork
after_failure = REF.after_failure


def shrink_lists(plan):
    yield ["faults"]
    yield ["switches"]
    for i in range(len(plan["clients"])):
        yield ["clients", i]


def simpler(plan):
    for i, op in enumerate(plan["clients"][0]):
        for key in list(op.get("kw") or {}):
            p = copy.deepcopy(plan)
            del p["clients"][0][i]["kw"][key]
            yield p
        if op["op"] == "train":
            p = copy.deepcopy(plan)
            p["clients"][0][i]["op"] = "call"
            p["clients"][0][i].pop("back", None)
            yield p
    if len(plan["clients"]) > 1:
        p = copy.deepcopy(plan)
        p["clients"] = p["clients"][:1]
        p["switches"] = []
        yield p


def describe(prop):
    return {
        "rule": "run is non-trivial when at least one saved state was restored into a fresh copy of the library in another process and "
                "compared with the live object; distinct = distinct SHA-256 of the event log",
        "real": ["all separators, beamformers and source models (executed from /repo's working tree)", "torch autograd, optimisers, "
                 "torch.save / torch.load"],
        "stub": ["thread scheduler (exports by a second thread at line boundaries of library code)",
                 "torch functions fail or are interrupted at planned points", "process crash and restart", "uninitialised memory"],
        "assumptions": ["CPU only", "the state dictionary itself is stored intact by the caller",
                        "restored and live objects are compared in inference mode"],
    }
