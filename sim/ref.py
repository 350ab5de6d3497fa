"""The pristine library: a process forked before the simulated history starts.  Every request is answered in a fresh
copy of the library with freshly built objects, so it tells what a call gives when nothing happened before it."""
import os
import pickle
import signal
import struct
import traceback

import torch

from . import libzoo as L
from . import seams, universe
from . import world as W


def _enc(o):
    if isinstance(o, torch.Tensor):
        return _T(o.detach().resolve_conj().resolve_neg().contiguous().numpy())
    if isinstance(o, dict):
        return {k: _enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(_enc(v) for v in o)
    return o


def _dec(o):
    if isinstance(o, _T):
        return torch.from_numpy(o.a.copy())
    if isinstance(o, dict):
        return {k: _dec(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(_dec(v) for v in o)
    return o


class _T:
    def __init__(self, a):
        self.a = a


def _send(fd, obj):
    data = pickle.dumps(_enc(obj), protocol=5)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = seams.R["os_write"](fd, view)
        view = view[n:]


def _recv(fd):
    def exactly(n):
        buf = bytearray()
        while len(buf) < n:
            c = seams.R["os_read"](fd, n - len(buf))
            if not c:
                raise EOFError("peer is gone")
            buf += c
        return bytes(buf)
    (n,) = struct.unpack("<Q", exactly(8))
    return _dec(pickle.loads(exactly(n)))


class Server:
    """Forked from a process in which the library has not been used by any history."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.owner = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                while True:
                    try:
                        req = _recv(a)
                    except EOFError:
                        break
                    try:
                        L.set_garbage(f"ref{req['plan'].get('garbage')}")
                        r = ("done", evaluate(req["plan"], req))
                    except BaseException as e:
                        r = ("harness", "".join(traceback.format_exception(e))[-3000:])
                    _send(d, r)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def ask(self, **req):
        _send(self.w, req)
        st, r = _recv(self.r)
        if st != "done":
            raise W.HarnessError("reference: " + r)
        return r

    def stop(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass


SERVER = None
RESTORE = None


def before_fork():
    """Called in the process that forks the runs: it owns the reference process."""
    global SERVER
    if SERVER is None or SERVER.owner != os.getpid():
        SERVER = Server()


def after_failure():
    global SERVER
    if SERVER is not None and SERVER.owner == os.getpid():
        SERVER.stop()
    SERVER = None


def seed(n):
    torch.default_generator.manual_seed(n)


KEEP = ("running_mean", "running_var", "num_batches_tracked")


def weights(models):
    """What counts as the current weights: parameters and batch-normalisation statistics."""
    out = {}
    for i, m in enumerate(models):
        if isinstance(m, torch.nn.Module):
            sd = {k: p.detach().clone() for k, p in m.named_parameters()}
            sd.update({k: v.detach().clone() for k, v in m.state_dict().items() if k.rsplit(".", 1)[-1] in KEEP})
            out[i] = sd
    return out


def windows(obj):
    return {k: v.detach().clone() for k, v in obj.named_buffers() if k.endswith("_window")} if isinstance(obj, torch.nn.Module) else {}


def training(ms):
    return {i: {n: m2.training for n, m2 in m.named_modules()} for i, m in enumerate(ms) if isinstance(m, torch.nn.Module)}


def set_training(ms, tr):
    for i, m in enumerate(ms):
        if i in tr:
            for n, m2 in m.named_modules():
                if n in tr[i]:
                    m2.training = tr[i][n]


def load_weights(models, ws):
    with torch.no_grad():
        for i, m in enumerate(models):
            if i not in ws:
                continue
            own = dict(m.named_parameters())
            own.update(m.named_buffers())
            for k, v in ws[i].items():
                if k in own:
                    own[k].copy_(v)


def evaluate(plan, req):
    """("ok", tensors) or ("exc", type name) for one call made alone."""
    if "restore" in req:
        return RESTORE(plan, req)
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    op = req["op"]
    u = universe.Universe()
    u.activate()
    models, objs = build(u, plan, only=op.get("obj"), merge=req.get("merge"))
    cast, mcasts = req.get("casts") or (None, {})  # conversions made since
    for o, dt in [(objs.get(op.get("obj")), cast)] + [(models[i], dt) for i, dt in mcasts.items()]:
        if dt is not None:
            o.double() if dt == "c128" else o.float()
    load_weights(models, req.get("weights") or {})
    set_training(models, req.get("mtrain") or {})
    obj = objs.get(op.get("obj"))
    if obj is not None and req.get("win"):
        load_weights([obj], {0: req["win"]})
    if obj is not None and req.get("otrain") is not None:
        set_training([obj], req["otrain"])
        set_training(models, req.get("mtrain") or {})
    if req.get("merge"):
        op = dict(op, kw={})
    if req.get("defdtype"):
        torch.set_default_dtype(torch.float64)
    return perform(u, obj, op, models, perturb=req.get("perturb"))


def build(u, plan, only=None, merge=None):
    ti = u.torchiva
    models = [L.build_model(ti, m) for m in plan["models"]]
    for o in plan["objs"]:  # converting an object converts its model
        if o.get("double") and o.get("model") is not None and isinstance(models[o["model"]], torch.nn.Module):
            models[o["model"]].double()
    objs = {}
    for i, o in enumerate(plan["objs"]):
        if only is None or i == only:
            objs[i] = L.build_obj(ti, o, models, merge if i == only else None)
            if o.get("double"):
                objs[i].double()
    return models, objs


def inputs(u, op, perturb=None):
    if op["op"] == "fn":
        X = L.fn_args(op["fn"])
        if perturb is not None:
            X = ([_shake(a, perturb) for a in X[0]], {k: _shake(v, perturb) for k, v in X[1].items()})
        return X
    X = L.make_x(op["x"])
    if perturb is not None:
        X = _shake(X, perturb)
    return X


def _shake(t, seed):
    if not isinstance(t, torch.Tensor):
        return t
    g = torch.Generator().manual_seed(seed)  # (not numpy's: making one uses the operating system's entropy)
    e = 3e-7 if t.dtype in (torch.float32, torch.complex64) else 6e-16
    return t * (1 + e * torch.randn(tuple(t.shape), dtype=torch.float64, generator=g)).to(t.abs().dtype)


def perform(u, obj, op, models, X=None, perturb=None, only_input=False, keep=None):
    if X is None:
        X = inputs(u, op, perturb)
    fn = None
    if op["op"] == "fn":
        fn = L.find_fn(u, op["fn"]["name"])
        if fn is None:
            return ("exc", "missing")
    seed(op.get("seed", 0))
    try:
        with L.context(op):
            if op.get("back"):
                X = X.detach().clone().requires_grad_(op.get("xgrad", True))
            y = L.make_call(obj, op, X, models, fn)
            if op.get("back"):
                gs = L.grads_of(y, X, L.params_of(obj, op, models), only_input)
                gs = gs[:1] if op.get("gx") else gs
            else:
                gs = []
        if keep is not None:
            keep.append((y, X))
        return ("ok", L.detach(L.flat(y)) + L.detach(gs))
    except Exception as e:
        return ("exc", type(e).__name__)
