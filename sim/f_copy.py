"""C19: separators copied (deep copy, pickle, torch.save, sent to another process) at arbitrary points of histories of
calls, failures, interrupts, training steps and mode changes, also by another thread while a call runs."""
import copy
import io
import os
import pickle
import select
import signal

import torch

from . import f_lib as FL
from . import f_state as FS
from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W

KINDS = ["tiss", "tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "bss", "bss", "bss", "stft"]
FORK_TIMEOUT = 15
HOWS = ["deepcopy", "pickle", "pickle", "save", "process"]


def prepare(prop):
    FL.prepare("C10")


def gen(prop, rng, tier):
    plan = {"models": [], "objs": [], "clients": [], "faults": [], "switches": [], "garbage": rng.randrange(1 << 30)}
    nf = rng.choice([5, 5, 9])
    dt = rng.choice(["c64", "c64", "c128"])
    n_obj = rng.choice([1, 1, 1, 2])
    two = rng.random() < 0.25
    how_obj = "C12" if two else "C10"  # threads share torch's generator: no models that draw from it
    for _ in range(n_obj):
        plan["objs"].append(FL.gen_obj(rng, plan, nf, rng.choice(KINDS), how_obj, dt if rng.random() < 0.8 else "c64"))
    for m in plan["models"]:
        if m["kind"] == "nmf" and rng.random() < 0.6:
            m.update(kind="gain_nmf", gain=rng.choice([0.5, 3.0]))
        elif not m["kind"].startswith("global:") and rng.random() < 0.15:
            m["hook"] = True
    for o in plan["objs"]:
        if o["kind"] != "stft" and rng.random() < 0.2:
            o["gain"] = rng.choice([0.5, 2.0])
    uid, n_inst, ops = [0], [n_obj], []
    kind_of = list(range(n_obj))  # instance -> object of the plan

    def add(op, to=None):
        op["id"] = uid[0]
        uid[0] += 1
        (ops if to is None else to).append(op)

    def a_call(i, back=None):
        op = FL.gen_call(rng, plan, kind_of[i], "C10", nf, {})
        for k in ("model", "mask_model"):
            (op.get("kw") or {}).pop(k, None)
        if back is False:
            op.pop("back", None)
        op["inst"] = i
        return op

    def make_copy(to=None, how=None, i=None):
        i = rng.randrange(len(kind_of)) if i is None else i
        add({"op": "copy", "inst": i, "how": how or rng.choice(HOWS[:4]), "new": len(kind_of)}, to)
        kind_of.append(kind_of[i])

    for _ in range(rng.choice([3, 4, 6, 8] if tier == "quick" else [5, 8, 12, 16])):
        r = rng.random()
        i = rng.randrange(len(kind_of))
        if r < 0.36:
            add(a_call(i))
        elif r < 0.5:
            op = a_call(i)
            op.update(op="train", grad="yes", back=True)
            add(op)
        elif r < 0.57:
            add({"op": "mode", "inst": i, "train": rng.random() < 0.5 and not two})
        elif r < 0.6:
            add({"op": "drop", "inst": i})
        elif r < 0.7:
            add({"op": rng.choice(["grads", "grads", "reload"]), "inst": i, "seed": rng.randrange(1000)})
            if rng.random() < 0.7:
                make_copy(i=i)
        elif r < 0.79:
            op = a_call(i, back=False)
            op.update(op="process", grad=rng.choice(["no", "yes"]), fork=rng.random() < 0.5)
            add(op)
        else:
            make_copy()
    make_copy()
    for i in (len(kind_of) - 1, kind_of[-1]):
        add(a_call(i))
    plan["clients"] = [ops]
    if two:  # another thread copies while calls run
        other = []
        for _ in range(rng.choice([1, 2])):
            add({"op": "copy_now", "inst": rng.randrange(n_obj), "how": rng.choice(["pickle", "save", "deepcopy", "fork", "fork"]),
                 "call": a_call(rng.randrange(n_obj), back=False)}, other)
        for op in other:
            op["call"]["obj"] = kind_of[op["inst"]]
            op["call"] = FL.gen_call(rng, plan, kind_of[op["inst"]], "C12", nf, {}, kw={})
            op["call"].pop("back", None)
            op["call"]["id"] = op["id"]
        n_sw = rng.choice([1, 2, 4, 8])
        if rng.random() < 0.3:  # a call, and forks at many moments of it
            plan["clients"] = [[op for op in ops if op["op"] in ("call", "train")][:2] or ops[:1]]
            one = other[0]
            other = []
            for _ in range(rng.choice([6, 10])):
                add(dict(copy.deepcopy(one), how="fork"), other)
            n_sw = 24
        plan["clients"].append(other)
        plan["switches"] = [[s, 0] for s in sorted({1 + FL.log_int(rng, 900) for _ in range(n_sw)})]
    plan["faults"] = FL.gen_faults(rng, [o["id"] for o in ops if o["op"] in ("call", "train")], 0.25)
    return plan


class Run(FL.Run):
    def go(self):
        self.rplan = {k: self.plan[k] for k in ("models", "objs", "garbage")}
        self.ref = REF.SERVER
        self.before = None
        L.set_garbage(self.plan["garbage"])
        self.u = universe.Universe()
        self.u.activate()
        self.models, objs = REF.build(self.u, self.plan)
        self.inst = dict(objs)
        self.kind = {i: i for i in objs}
        self.taped = {i: False for i in objs}  # the last call recorded gradients
        self.made = set()
        self.objs = _Objs(self)
        self.pin = {}
        self.busy = None
        proc = W.Proc(self.w, "p0", self.u)

        def client(ops, first):
            def fn(t):
                t.proc = proc
                for op in ops:
                    if self.violations:
                        return
                    (self.step if first else self.other)(t, op)
                    torch.set_grad_enabled(True)
            return fn
        self.w.run([client(ops, i == 0) for i, ops in enumerate(self.plan["clients"])])
        w = self.w
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": w.n_switches,
                "nontrivial": self.extra.get("copies", 0) > 0 and self.extra.get("compared_calls", 0) > 0, "log": w.log}

    # -- instances
    def copy_of(self, i, how):
        obj = self.inst[i]
        if how == "deepcopy":
            return copy.deepcopy(obj)
        if how == "pickle":
            return pickle.loads(pickle.dumps(obj))
        b = io.BytesIO()
        torch.save(obj, b)
        b.seek(0)
        return torch.load(b, weights_only=False)

    def name(self, i):
        return self.describe({"op": "call", "obj": self.kind[i]}) + (" (a copy)" if i in self.made else "")

    def tensors(self, obj):
        return {k: v for k, v in list(obj.named_parameters()) + list(obj.named_buffers())} if isinstance(obj, torch.nn.Module) else {}

    def copied(self, i, how, new, loose=False):
        """Make instance `new` from instance i."""
        if how == "deepcopy" and self.taped[i]:
            how = "pickle"  # torch does not deep-copy tensors that are part of a graph
        try:
            c = self.copy_of(i, how)
        except Exception as e:
            self.bad("not_copied", f"{self.name(i)}: {how} raises {type(e).__name__}: {str(e)[:80]}")
            return None
        self.count(self.extra, "copies")
        self.count(self.extra, "copies_" + how)
        self.w.note("copy", i, how, new)
        a, b = self.tensors(self.inst[i]), self.tensors(c)
        if sorted(a) != sorted(b):
            self.bad("copy_differs", f"{self.name(i)}: the copy made by {how} has other weights ({sorted(set(a) ^ set(b))[0]})")
            return None
        for k in a:
            if not torch.equal(FS.nz(a[k].detach()), FS.nz(b[k].detach())) and not loose:
                self.bad("copy_differs", f"{self.name(i)}: {k} of the copy made by {how} differs")
                return None
            if a[k].requires_grad != b[k].requires_grad:
                self.bad("copy_differs", f"{self.name(i)}: requires_grad of {k} differs in the copy made by {how}")
                return None
        for j, o in self.inst.items():
            mine = {t.data_ptr() for t in self.tensors(o).values() if t.numel()}
            if any(t.data_ptr() in mine for t in b.values() if t.numel()):
                self.bad("copy_shares", f"{self.name(i)}: the copy made by {how} shares weights with the original")
                return None
        if not loose and REF.training([c]) != REF.training([self.inst[i]]):
            self.bad("copy_differs", f"{self.name(i)}: the copy made by {how} is in another train/eval mode")
            return None
        pa, pb = FL.read_params(self.inst[i]), FL.read_params(c)
        pa = {k: v for k, v in pa.items() if "model" not in k}
        pb = {k: v for k, v in pb.items() if "model" not in k}
        if pa != pb and not loose:
            k = [k for k in pa if pa.get(k) != pb.get(k)] or sorted(set(pb) - set(pa))
            self.bad("copy_differs", f"{self.name(i)}: {k[0]} of the copy made by {how} reads {pb.get(k[0])!r} instead of {pa.get(k[0])!r}")
            return None
        self.inst[new] = c
        self.kind[new] = self.kind[i]
        self.taped[new] = False
        self.made.add(new)
        return c

    def state(self, i):
        o = self.inst[i]
        return {k: v.detach().clone() for k, v in o.state_dict().items()}

    def watch(self):
        """What the instances look like."""
        return {i: (self.state(i), REF.training([o]), {k: v for k, v in FL.read_params(o).items() if "model" not in k},
                    {k: None if p.grad is None else p.grad.clone() for k, p in o.named_parameters()},
                    {k: p.requires_grad for k, p in o.named_parameters()})
                for i, o in self.inst.items()}

    def unaffected(self, was, op, what, whole=False):
        """whole: not even the instance itself may change."""
        mine = {id(t) for t in self.tensors(self.inst[op["inst"]]).values()}
        mods = {id(m) for m in self.inst[op["inst"]].modules()}
        for i, (sd, tr, ps, gs, fr) in was.items():
            if i not in self.inst or (i == op["inst"] and not whole):
                continue
            o = self.inst[i]
            if not whole and ({id(t) for t in self.tensors(o).values()} & mine or {id(m) for m in o.modules()} & mods):
                continue  # built to share a model
            now = self.state(i)
            if sorted(now) != sorted(sd) or any(not torch.equal(FS.nz(now[k]), FS.nz(sd[k])) for k in sd):
                self.bad("other_affected", f"{self.name(i)}: its weights changed when {what}")
            elif REF.training([o]) != tr:
                self.bad("other_affected", f"{self.name(i)}: its train/eval mode changed when {what}")
            elif {k: v for k, v in FL.read_params(o).items() if "model" not in k} != ps:
                self.bad("other_affected", f"{self.name(i)}: its parameters changed when {what}")
            elif any(p.requires_grad != fr[k] for k, p in o.named_parameters()):
                self.bad("other_affected", f"{self.name(i)}: requires_grad changed when {what}")
            else:
                for k, p in o.named_parameters():
                    if (p.grad is None) != (gs[k] is None) or (p.grad is not None and not torch.equal(FS.nz(p.grad), FS.nz(gs[k]))):
                        self.bad("other_affected", f"{self.name(i)}: the gradient held by {k} changed when {what}")
                        break

    # -- operations
    def step(self, t, op):
        k, i = op["op"], op["inst"]
        if i not in self.inst:
            return
        obj = self.inst[i]
        was = self.watch()
        if k == "mode":
            obj.train(op["train"])
            self.unaffected(was, op, "another copy's mode was set")
        elif k == "drop":
            if len(self.inst) > 1 and i >= len(self.plan["objs"]):
                del self.inst[i]
                obj = None
        elif k == "copy":
            if self.copied(i, op["how"], op["new"]) is not None:
                self.unaffected(was, op, "a copy was made", True)
        elif k == "process":
            self.process(t, op)
            self.unaffected(was, op, "it was sent to another process", True)
        elif k == "grads":
            g = torch.Generator().manual_seed(op["seed"])
            for p in obj.parameters():
                if p.requires_grad:
                    p.grad = torch.randn(p.shape, generator=g).to(p.dtype)
        elif k == "reload":  # a state stored elsewhere
            g = torch.Generator().manual_seed(op["seed"])
            obj.load_state_dict({n: v * (1.0 + 0.1 * torch.rand(v.shape, generator=g)).to(v.dtype) if v.is_floating_point() else v
                                 for n, v in obj.state_dict().items()})
        else:
            self.work(t, op, was)

    def cop(self, op):
        return dict(op, op="call", obj=op["inst"])

    def work(self, t, op, was):
        i = op["inst"]
        obj = self.inst[i]
        sd, tr = self.state(i), REF.training([obj])
        trace = (lambda f: self.tick("line")) if len(self.plan["clients"]) > 1 else None
        cop = self.cop(op)
        ps = L.params_of(obj, cop, self.models)
        self.busy = op["id"]
        try:
            r, y, X = self.exec(t, cop, trace=trace)
        finally:
            self.busy = None
        self.taped[i] = op.get("grad") == "yes" or (self.taped[i] and r[0] != "ok")
        for j in self.inst:  # originals that share the model
            if {id(m) for m in self.inst[j].modules()} & {id(m) for m in obj.modules()}:
                self.taped[j] |= self.taped[i]
        what = "a copy was used" if op["op"] == "call" else "a copy was trained"
        if r[0] != "fault":
            self.compare(op, r, sd, tr, self.name(i))
        if op["op"] == "train" and r[0] == "ok" and ps:
            gs = r[1][-len(ps):]
            with torch.no_grad():
                for p, g in zip(ps, gs):
                    if g is not None and bool(torch.isfinite(g).all()) and p.requires_grad:
                        p.sub_(1e-2 * g / (1.0 + float(g.norm())))
        self.unaffected(was, op, what)

    def compare(self, op, r, sd, tr, what):
        cop = dict(self.cop(op), obj=self.kind[op["inst"]])
        e = self.ref.ask(plan=self.rplan, op=cop, restore=sd, otrain=tr, what="copy")
        self.count(self.extra, "compared_calls")
        if e[0] == "load":
            self.bad("not_loadable", f"{what}: its state does not load into a fresh object: {e[1]}")
            return
        if r[0] != e[0] or (r[0] == "exc" and r[1] != e[1]):
            self.bad("copy_behaves", f"{what}: it {FL.word(r)}, a fresh object with the same weights {FL.word(e)}")
            return
        if r[0] == "exc":
            return
        d = L.diff(r[1], e[1])
        if d <= L.tol(e[1]):
            return
        if d != float("inf") or FL.same_shapes(r[1], e[1]):
            s = 0.0
            for seed in (1, 2, 3):
                p = self.ref.ask(plan=self.rplan, op=cop, restore=sd, otrain=tr, what="copy", perturb=seed)
                s = max(s, L.diff(p[1], e[1]) if p[0] == "ok" else float("inf"))
            if d <= 100 * s:
                self.count(self.extra, "ill_conditioned_skipped")
                return
        self.bad("copy_behaves", f"{what}: result differs from that of a fresh object with the same weights (relative difference {d:.2g})")

    def forked(self, op, loose=False):
        """The object is used in a process forked from this one (which has this thread only): (modes, result) or None."""
        i = op["inst"]
        obj = self.inst[i]
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(FORK_TIMEOUT + 10)
                os.close(rfd)
                W._local.task = None
                W.WORLD = None
                W.FORKED = True
                if loose:
                    obj.eval()
                m = REF.training([obj])
                r = REF.perform(self.u, obj, dict(self.cop(op), obj=self.kind[i]), self.models)
                data = pickle.dumps((m, r))
                while data:
                    data = data[os.write(wfd, data):]
            finally:
                os._exit(0)
        os.close(wfd)
        got = b""
        try:
            while True:
                if not select.select([rfd], [], [], FORK_TIMEOUT)[0]:
                    break
                b = os.read(rfd, 1 << 16)
                if not b:
                    break
                got += b
        finally:
            os.close(rfd)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        self.count(self.extra, "used_in_a_forked_process")
        try:
            m, r = pickle.loads(got)
        except (EOFError, pickle.UnpicklingError):
            self.bad("forked", f"{self.name(i)}: a call in a forked process never comes to an end" + (" when the fork happens during a call" if loose else ""))
            return None
        self.w.note("forked", op["id"], r[0], r[1] if r[0] == "exc" else "")
        return m, r

    def process(self, t, op):
        """The object is pickled, sent to another process and used there."""
        i = op["inst"]
        if op.get("fork"):
            sd = self.state(i)
            r = self.forked(op)
            if r is not None:
                self.compare(op, r[1], sd, r[0], self.name(i) + ", used in a forked process")
            return
        obj = self.inst[i]
        try:
            data = pickle.dumps(obj)
        except Exception as e:
            self.bad("not_copied", f"{self.name(i)}: pickling raises {type(e).__name__}: {str(e)[:80]}")
            return
        cop = dict(self.cop(op), obj=self.kind[i])
        r = self.ref.ask(plan=self.rplan, op=cop, restore=data, what="process")
        self.w.note("process", op["id"], r[0], r[1] if r[0] == "exc" else "")
        if r[0] == "load":
            self.bad("not_copied", f"{self.name(i)}: unpickling it in another process raises {r[1]}")
            return
        self.count(self.extra, "used_in_another_process")
        self.compare(op, r, self.state(i), REF.training([obj]), self.name(i) + ", sent to another process")

    def other(self, t, op):
        """Another thread copies, possibly while a call runs."""
        t.op = op["id"]
        i = op["inst"]
        if i not in self.inst:
            return
        loose = self.busy is not None
        how = op["how"]
        if how == "fork":
            sd = self.state(i)
            cop = dict(op["call"], inst=i, kw={}, id=op["id"])
            r = self.forked(cop, True)
            if r is not None:
                self.compare(cop, r[1], sd, r[0], self.describe({"op": "call", "obj": self.kind[i]}) + " (used in a process forked during a call)")
            self.w.yield_now(t)
            return
        if loose and how == "deepcopy":
            how = "pickle"
        new = 1000 + op["id"]
        keep = dict(self.inst), dict(self.kind)
        c = self.copied(i, how, new, loose)
        if c is None:
            return
        self.count(self.extra, "copied_while_busy", int(loose))
        c.eval()
        sd, tr = self.state(new), REF.training([c])
        del self.inst[new]
        r = REF.perform(self.u, c, dict(op["call"], kw={}), self.models)
        self.kind[new] = self.kind[i]
        self.compare(dict(op["call"], inst=new, kw={}), r, sd, tr, self.describe({"op": "call", "obj": self.kind[i]}) + " (copied by another thread)")
        self.w.yield_now(t)


class _Objs:
    """Run.exec looks objects up here."""

    def __init__(self, run):
        self.run = run

    def get(self, i):
        return self.run.inst.get(i)

    def __getitem__(self, i):
        return self.run.inst[i]


def answer(plan, req):
    """In the reference process."""
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    u = universe.Universe()
    u.activate()
    op = req["op"]
    if req.get("what") == "process":
        L.user_classes(u.torchiva)
        try:
            obj = pickle.loads(req["restore"])
        except Exception as e:
            return ("load", type(e).__name__)
        return REF.perform(u, obj, op, [], perturb=req.get("perturb"))
    models, objs = REF.build(u, plan, only=op["obj"])
    obj = objs[op["obj"]]
    try:
        obj.load_state_dict(req["restore"])
    except Exception as e:
        return ("load", type(e).__name__)
    REF.set_training([obj], req["otrain"])
    return REF.perform(u, obj, op, models, perturb=req.get("perturb"))


REF.RESTORE = answer


def run(prop, plan, root):
    return Run(prop, plan, root).go()


before_fork = REF.before_fork
after_failure = REF.after_failure


def shrink_lists(plan):
    yield ["faults"]
    yield ["switches"]
    for i in range(len(plan["clients"])):
        yield ["clients", i]


def simpler(plan):
    for i, op in enumerate(plan["clients"][0]):
        for key in list(op.get("kw") or {}):
            p = copy.deepcopy(plan)
            del p["clients"][0][i]["kw"][key]
            yield p
        if op["op"] == "train":
            p = copy.deepcopy(plan)
            p["clients"][0][i].update(op="call")
            p["clients"][0][i].pop("back", None)
            yield p
    if len(plan["clients"]) > 1:
        p = copy.deepcopy(plan)
        p["clients"] = p["clients"][:1]
        p["switches"] = []
        yield p


def describe(prop):
    return {
        "rule": "run is non-trivial when at least one copy was made and at least one call compared with the same call on a fresh object with the "
                "same weights and modes; distinct = distinct SHA-256 of the event log",
        "real": ["all separators, beamformers and source models (executed from /repo's working tree)", "copy.deepcopy, pickle, torch.save / "
                 "torch.load of whole objects"],
        "stub": ["thread scheduler (copies by a second thread at line boundaries of library code)", "torch functions fail or are interrupted at "
                 "planned points", "uninitialised memory"],
        "assumptions": ["CPU only", "an object that holds tensors of a recorded graph (its last call was made with gradients on) is copied by "
                        "pickling, not by deepcopy, which torch refuses", "every process runs the same version of the library"],
    }
