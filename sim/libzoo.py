"""Library objects, inputs and calls described by plain data, so that the same call can be made in the simulated
history and, alone, in a pristine copy of the library."""
import dis
import gc
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from . import universe

CPX = {"c64": torch.complex64, "c128": torch.complex128}
RE = {"c64": torch.float32, "c128": torch.float64}


# ------------------------------------------------------------------------------------ user-written source models
def user_fn(Y):
    """A plain function as source model."""
    return 1.0 / (Y.abs().mean(dim=-2, keepdim=True) + 0.1).expand(Y.shape)


class UserMask(torch.nn.Module):
    """Fixed random masks for the beamformers (no state)."""

    def __init__(self, n_src, n_masks, n_freq):
        super().__init__()
        self.a = torch.nn.Parameter(torch.rand(n_src, n_masks, n_freq, 1) + 0.2)

    def forward(self, X):
        p = X.abs()[..., None, None, :, :]
        return torch.sigmoid(self.a.to(p.dtype) * (p - 1.0)) + 1e-2


class StateMask(UserMask):
    """Masks that follow the level of the signal so far: internal state, reset for every new signal."""

    def __init__(self, *a):
        super().__init__(*a)
        self.log = []
        self.level = None

    def reset(self):
        self.log.append("R")
        self.level = None

    def forward(self, X):
        self.log.append("F")
        p = X.detach().abs().mean(dim=(-2, -1), keepdim=True)
        self.level = p if self.level is None else 0.7 * self.level + 0.3 * p  # may raise when a signal of another shape comes without reset
        return super().forward(X / (self.level + 0.1))


class UserWpe(torch.nn.Module):
    """Weights (..., freq, frames) for WPE (no state)."""

    def forward(self, Y):
        return 1.0 / (Y.abs().square().mean(dim=-3) + 1e-2)


class UserDrop(torch.nn.Module):
    """A small network whose only state is torch's random generator."""

    def __init__(self, n_freq, p, always=False):
        super().__init__()
        self.lin = torch.nn.Linear(n_freq, n_freq)
        self.p, self.always = p, always  # always: drops out in evaluation mode, too (Monte-Carlo dropout)

    def forward(self, Y):
        x = torch.log1p(Y.abs()).transpose(-2, -1).to(self.lin.weight.dtype)
        x = torch.nn.functional.dropout(torch.tanh(self.lin(x)), self.p, self.training or self.always)
        return (torch.sigmoid(x) * 0.9 + 0.1).transpose(-2, -1)


class UserState(torch.nn.Module):
    """A source model with internal state (running power), reset for every new signal.  It records how it is used."""

    def __init__(self, reduce=False, wrap=None):
        super().__init__()
        self.reduce = reduce
        self.wrap = wrap
        self.log = []
        self.acc = None
        self.scale = torch.nn.Parameter(torch.ones(1))

    def reset(self):
        self.log.append("R")
        self.acc = None
        if self.wrap is not None:
            self.wrap.reset()

    def forward(self, Y):
        self.log.append("F")
        if self.wrap is not None:
            w = self.wrap(Y)
            return w.mean(dim=-3) if self.reduce else w
        p = Y.abs().square().mean(dim=-2, keepdim=True)
        if self.reduce:
            p = p.mean(dim=-3)
        if self.acc is None:
            self.acc = p
        else:
            self.acc = 0.5 * self.acc + 0.5 * p  # raises when a signal of another shape comes without reset
        w = self.scale.to(p.dtype) / (self.acc + 0.05)
        return w.expand(w.shape[:-2] + Y.shape[-2:])


class PlainState:
    """A stateful source model that is not a torch module."""

    def __init__(self):
        self.log = []
        self.n = 0
        self.last = None

    def reset(self):
        self.log.append("R")
        self.n, self.last = 0, None

    def __call__(self, Y):
        self.log.append("F")
        p = Y.abs().mean(dim=-2, keepdim=True)
        if self.last is not None:
            p = (p + 0.5 * self.last) / (1.0 + 1.0 / (1 + self.n))
        self.n, self.last = self.n + 1, p
        return (1.0 / (p + 0.05)).expand(p.shape[:-2] + Y.shape[-2:])


class Wrapped:
    """A source model in a wrapper of the user's that hands everything on, its reset included."""

    def __init__(self, inner):
        self.__dict__["inner"] = inner
        self.__dict__["log"] = []

    def __getattr__(self, name):
        if name.startswith("__") or "inner" not in self.__dict__:
            raise AttributeError(name)
        f = getattr(self.inner, name)
        if name != "reset":
            return f

        def reset():
            self.log.append("R")
            return f()
        return reset

    def __call__(self, Y):
        self.log.append("F")
        return self.inner(Y)


def smooth_nmf(ti):
    """A user's model derived from NMFModel, with state of its own besides."""
    class SmoothNMF(ti.models.NMFModel):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.log.clear()

        def reset(self):
            self.__dict__.setdefault("log", []).append("R")
            super().reset()
            self.prev = None

        def forward(self, Y):
            self.log.append("F")
            P = Y.abs()
            if self.prev is not None:
                P = 0.5 * (P + self.prev)
            self.prev = P
            return super().forward(P.to(Y.dtype))
    return SmoothNMF


def user_class(ti, name):
    """A class of the user's derived from one of the library's, with a setting of its own; it can be pickled."""
    base = getattr(ti.models if name == "NMFModel" else ti.nn if name == "BSSSeparator" else ti, name)
    mine = "User" + name
    if mine not in vars(ti):
        def __init__(self, gain, *a, **kw):
            base.__init__(self, *a, **kw)
            self.gain = gain

        def forward(self, *a, **kw):
            y = base.forward(self, *a, **kw)
            return self.gain * y if isinstance(y, torch.Tensor) else y
        setattr(ti, mine, type(mine, (base,), {"__init__": __init__, "forward": forward, "__module__": ti.__name__}))
    return getattr(ti, mine)


def user_classes(ti):
    for name in ["NMFModel", "BSSSeparator"] + sorted(CLASSES.values()):
        user_class(ti, name)


def louder(m, args, y):
    """A user's forward hook."""
    return 1.5 * y if isinstance(y, torch.Tensor) else y


STATEFUL = {"state_mask", "nmf", "global:nmf", "user_state", "user_state_wpe", "user_nmf", "plain_state", "smooth_nmf", "gain_nmf", "wrap_nmf"}


def draws(m, train):
    """Does this model use torch's generator?"""
    if m["kind"] in ("nmf", "global:nmf", "user_nmf", "smooth_nmf", "gain_nmf", "wrap_nmf"):
        return True
    return bool((train or m.get("always")) and m.get("p", 0))


def build_model(ti, m):
    torch.default_generator.manual_seed(m["seed"])
    k = m["kind"]
    nf = m.get("n_freq")
    if k == "laplace":
        r = ti.models.LaplaceModel(eps=m.get("eps"))
    elif k == "gauss":
        r = ti.models.GaussModel(eps=m.get("eps"))
    elif k == "nmf":
        r = ti.models.NMFModel(n_basis=m.get("n_basis", 2), eps=m.get("eps"))
    elif k == "glu":
        r = ti.models.GLUMask(nf, m.get("nb", 4), dropout_p=m["p"], mag_spec=m.get("mag", True),
                              log_spec=m.get("log", True), n_sublayers=m.get("sub", 1))
    elif k == "blstm":
        r = ti.models.BLSTMMask(nf, 3, n_hidden=3, dropout_p=m["p"], mag_spec=m.get("mag", True),
                                log_spec=m.get("log", False))
    elif k == "simple":
        r = ti.models.SimpleModel(n_freq=nf, n_mels=3, n_hidden=4)
    elif k == "mask":
        r = ti.models.MaskMVDRSupport(n_src=m["n_src"], n_masks=m["n_masks"], n_input=nf, n_hidden=3,
                                      dropout_p=m["p"], n_layers=m.get("layers", 1))
    elif k.startswith("global:"):
        r = ti.source_models[k[7:]]
    elif k == "user_fn":
        return user_fn
    elif k == "plain_state":
        return PlainState()
    elif k == "wrap_nmf":
        return Wrapped(ti.models.NMFModel(n_basis=m.get("n_basis", 2)))
    elif k == "gain_nmf":
        r = user_class(ti, "NMFModel")(m.get("gain", 2.0), n_basis=m.get("n_basis", 2))
    elif k == "smooth_nmf":
        r = smooth_nmf(ti)(n_basis=m.get("n_basis", 2))
    elif k == "user_mask":
        r = UserMask(m["n_src"], m["n_masks"], nf)
    elif k == "state_mask":
        r = StateMask(m["n_src"], m["n_masks"], nf)
    elif k == "user_wpe":
        r = UserWpe()
    elif k == "user_drop":
        r = UserDrop(nf, m["p"], m.get("always", False))
    elif k == "user_state":
        r = UserState()
    elif k == "user_state_wpe":
        r = UserState(reduce=True)
    elif k == "user_nmf":
        r = UserState(reduce=m.get("reduce", False), wrap=ti.models.NMFModel(n_basis=m.get("n_basis", 2)))
    else:
        raise KeyError(k)
    if m.get("dtype") == "c128":
        r = r.double()
    if not m.get("train"):
        r.eval()
    if m.get("frozen") and isinstance(r, torch.nn.Module):
        r.requires_grad_(False)
    if m.get("hook") and isinstance(r, torch.nn.Module):
        r.register_forward_hook(louder)
    return r


CLASSES = {"tiss": "T_ISS", "ip": "AuxIVA_IP", "ip2": "AuxIVA_IP2", "five": "FIVE", "wpe": "WPE",
           "mvdr": "MVDRBeamformer", "mwf": "MWFBeamformer", "gev": "GEVBeamformer"}
MASKED = ("mvdr", "mwf", "gev")


def build_obj(ti, o, models, extra=None):
    torch.default_generator.manual_seed(o.get("seed", 0))
    kw = dict(o["kw"])
    kw.update(extra or {})
    k = o["kind"]
    mi = kw.pop("model", o.get("model"))
    model = models[mi] if mi is not None else None
    if o.get("built_double"):
        torch.set_default_dtype(torch.float64)
    try:
        if k == "stft":
            return ti.STFT(**kw)
        cls = "BSSSeparator" if k == "bss" else CLASSES[k]
        if o.get("gain"):
            args, cls = (o["gain"],), user_class(ti, cls)
        else:
            args, cls = (), ti.nn.BSSSeparator if k == "bss" else getattr(ti, cls)
        if k == "bss":
            obj = cls(*args, source_model=model, **kw)
        elif k in MASKED:
            obj = cls(*args, model, **kw)
        else:
            obj = cls(*args, model=model, **kw)
    finally:
        if o.get("built_double"):
            torch.set_default_dtype(torch.float32)
    obj.train(bool(o.get("train")))
    if o.get("own") is not None:  # the object's own flag; that of its model is the model's
        obj.training = o["own"]
    return obj


# ------------------------------------------------------------------------------------ inputs
def rand_cpx(shape, seed, dtype):
    g = np.random.RandomState(seed)
    z = (g.standard_normal(shape) + 1j * g.standard_normal(shape)).astype("complex64" if dtype == "c64" else "complex128")
    return z


def make_x(x):
    """The input tensor of a call.  {"shape", "dtype", "seed", "scale", "layout", "time"}"""
    shape = tuple(x["shape"])
    dt = x["dtype"]
    if x.get("time"):
        g = np.random.RandomState(x["seed"])
        z = g.laplace(size=shape) * x.get("scale", 1.0)
        t = torch.from_numpy(z.astype("float32" if dt == "c64" else "float64"))
    else:
        z = rand_cpx(shape, x["seed"], dt)
        if x.get("mix", True) and len(shape) >= 3:
            g = np.random.RandomState(x["seed"] + 1)
            env = 0.2 + g.gamma(0.7, 1.0, size=shape[:-3] + (shape[-3], 1, shape[-1]))
            A = np.eye(shape[-3]) + 0.5 * g.standard_normal((shape[-2], shape[-3], shape[-3]))
            z = np.einsum("fcd,...dfn->...cfn", A, z * env)
        z = z * x.get("scale", 1.0)
        t = torch.from_numpy(np.ascontiguousarray(z.astype("complex64" if dt == "c64" else "complex128")))
    q = x.get("quiet")
    if q == "channel":
        t[..., -1, :] = 0.0
    elif q == "frames":
        t[..., : t.shape[-1] // 2] = 0.0
    elif q == "alike" and t.ndim > 1:
        t = t[..., :1, :].expand(t.shape).clone() if x.get("time") or t.ndim < 3 else t[..., :1, :, :].expand(t.shape).clone()
    lay = x.get("layout")
    if lay == "t":  # not contiguous
        t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
    elif lay == "slice":
        big = torch.zeros(t.shape[:-1] + (t.shape[-1] + 3,), dtype=t.dtype)
        big[..., 2:-1] = t
        t = big[..., 2:-1]
    return t


_special = [None, 0.0]


def mats(n, shape, seed, dt, kind="herm"):
    sp, load = _special
    if sp is not None and seed % 3 != 1:
        e = np.broadcast_to(np.eye(n), tuple(shape) + (n, n)).astype("complex64" if dt == "c64" else "complex128")
        if sp in ("zero", "negload", "eye", "tiny", "huge"):
            k = {"zero": 0.0, "negload": -load, "eye": 1.0, "tiny": 1e-12, "huge": 1e12}[sp]
            return torch.from_numpy(np.ascontiguousarray(e * e.dtype.type(k)))
        z = rand_cpx(tuple(shape) + (n, 1), seed, dt)
        return torch.from_numpy(np.ascontiguousarray(z @ np.conj(np.swapaxes(z, -1, -2))))
    z = rand_cpx(tuple(shape) + (n, n + 2), seed, dt)
    if kind == "herm":
        z = z @ np.conj(np.swapaxes(z, -1, -2)) / n
    else:
        z = z[..., :n]
    return torch.from_numpy(np.ascontiguousarray(z))


# functions: name -> (module path, builder(rng-like spec) -> (args, kwargs))
def fn_args(f):
    _special[:] = [f.get("special"), f["load"]]
    try:
        return _fn_args(f)
    finally:
        _special[:] = [None, 0.0]


def _fn_args(f):
    n, dt, s = f["n"], f["dtype"], f["seed"]
    name = f["name"]
    sh = tuple(f["batch"]) + (f["f"],)
    if name == "divide":
        return [make_x(dict(shape=[n, 6], dtype=dt, seed=s)), make_x(dict(shape=[n, 6], dtype=dt, seed=s + 1)).abs()], {}
    if name == "multiply":  # complex and real, in either order, or two of a kind
        c, r = make_x(dict(shape=[n, 6], dtype=dt, seed=s)), make_x(dict(shape=[n, 6], dtype=dt, seed=s + 1)).abs()
        return [[c, r], [r, c], [c, c.flip(-1)], [r, r.flip(-1)]][f["pick"] % 4], {}
    if name in ("mag", "mag_sq", "hermite"):
        x = make_x(dict(shape=[n, 6], dtype=dt, seed=s))
        return [x.real.clone() if f["pick"] % 3 == 0 else x], {}
    if name == "eigh_wrapper":
        return [mats(n, sh, s, dt)], {"use_cpu": f["flag"]}
    if name == "bmm":
        return [mats(n, sh, s, dt, "gen"), mats(n, sh, s + 1, dt, "gen")], {}
    if name == "solve_loaded":
        return [mats(n, sh, s, dt), mats(n, sh, s + 1, dt, "gen")], {"load": f["load"]}
    if name == "solve_loaded_general":
        return [mats(n, sh, s, dt, "gen"), mats(n, sh, s + 1, dt, "gen")], {"load": f["load"], "eps": f["load"]}
    if name == "inv_loaded":
        return [mats(n, sh, s, dt)], {"load": f["load"]}
    if name == "inv_2x2":
        return [mats(2, sh, s, dt, "gen")], {}
    if name in ("eigh", "eigh_2x2"):
        k = 2 if name == "eigh_2x2" else n
        a = [mats(k, sh, s, dt)]
        return a, ({"B": mats(k, sh, s + 1, dt)} if f["flag"] else {})
    if name == "hankel_view":
        return [make_x(dict(shape=[n, 9], dtype=dt, seed=s)), 3], {}
    if name in ("projection_back", "minimum_distortion_l2", "minimum_distortion_l2_phase"):
        Y = make_x(dict(shape=list(f["batch"]) + [n, f["f"], 12], dtype=dt, seed=s))
        ref = make_x(dict(shape=list(f["batch"]) + [n, f["f"], 12], dtype=dt, seed=s + 1))[..., 0, :, :]
        return [Y, ref], {}
    if name == "minimum_distortion":
        Y = make_x(dict(shape=list(f["batch"]) + [n, f["f"], 12], dtype=dt, seed=s))
        ref = make_x(dict(shape=list(f["batch"]) + [n, f["f"], 12], dtype=dt, seed=s + 1))[..., 0, :, :]
        kw = [{}, {"p": 1.0}, {"p": 1.0, "q": 2.0}, {"p": 0.5, "q": 1.5, "max_iter": 5}, {"p": 2.0},
              {"p": 1.2, "rtol": 1e-3, "max_iter": 8}][f["pick"] % 6]
        return [Y, ref], dict(kw)
    if name == "fftconvolve":
        g = np.random.RandomState(s)
        a = torch.from_numpy(g.standard_normal((n, 7 + f["pick"] % 5))).to(RE[dt])
        b = torch.from_numpy(g.standard_normal((n, 3 + f["pick"] % 3))).to(RE[dt])
        return [a, b], {"mode": ["full", "same", "valid"][f["pick"] % 3]}
    if name == "select_most_energetic":
        g = np.random.RandomState(s)
        a = torch.from_numpy(g.standard_normal((2, n + 1, 9)) * (1 + np.arange(n + 1))[None, :, None]).to(RE[dt])
        return [a], {"num": 1 + f["pick"] % n, "dim": -2, "dim_reduc": -1}
    if name in ("compute_mwf_bf", "compute_mvdr_bf2", "compute_gev_bf", "compute_mvdr_rtf_eigh"):
        bs = tuple(f["batch"]) + (2, f["f"])
        kw = {"ref_mic": f["pick"] % n}
        if name == "compute_mvdr_rtf_eigh" and f["flag"]:
            kw["power_iterations"] = 3
        if name == "compute_mwf_bf" and f["flag"]:
            kw = {"eps": f["load"]}
        return [mats(n, bs, s, dt), mats(n, bs, s + 1, dt)], kw
    if name == "compute_mvdr_bf":
        return [mats(n, sh, s, dt), mats(n, sh, s + 1, dt, "gen")[..., 0]], {"eps": f["load"]}
    if name == "projection_back_from_demixing_matrix":
        return [make_x(dict(shape=[n, f["f"], 8], dtype=dt, seed=s)), mats(n, (f["f"],), s + 1, dt, "gen")], \
            {"ref_mic": f["pick"] % n}
    raise KeyError(name)


FN_PATH = {}
for _p, _names in {
    "linalg": "divide multiply mag mag_sq hermite bmm solve_loaded solve_loaded_general inv_loaded inv_2x2 eigh eigh_2x2 eigh_wrapper "
              "hankel_view",
    "scaling": "projection_back minimum_distortion_l2 minimum_distortion_l2_phase minimum_distortion",
    "": "fftconvolve select_most_energetic",
    "beamformer": "compute_mwf_bf compute_mvdr_bf2 compute_gev_bf compute_mvdr_rtf_eigh compute_mvdr_bf",
    "auxiva_ip": "projection_back_from_demixing_matrix",
}.items():
    for _n in _names.split():
        FN_PATH[_n] = _p
VIEWS = {"hankel_view", "hermite"}


def find_fn(u, name):
    p = FN_PATH[name]
    mod = u.torchiva if p == "" else u.modules.get(f"{universe.PKG}.{p}")
    return getattr(mod, name, None)


# ------------------------------------------------------------------------------------ uninitialised memory
_garbage = [None]
_orig = {}


def set_garbage(seed):
    """Uninitialised memory handed out by torch.empty & co. holds arbitrary, seed-dependent values."""
    _garbage[0] = random.Random(f"garbage/{seed}") if seed is not None else None


def _fill(t):
    g = _garbage[0]
    if g is not None:
        try:
            with torch.no_grad():
                if t.dtype.is_floating_point or t.dtype.is_complex:
                    t.fill_(g.uniform(-50.0, 50.0))
                elif t.dtype != torch.bool:
                    t.fill_(g.randrange(0, 2))
        except Exception:
            pass
    return t


def install_garbage():
    if _orig:
        return

    def wrap(holder, name):
        real = getattr(holder, name)
        _orig[holder, name] = real

        def fn(*a, **k):
            return _fill(real(*a, **k))
        fn.__name__ = name
        setattr(holder, name, fn)
    wrap(torch, "empty")
    wrap(torch, "empty_like")
    wrap(torch, "empty_strided")
    wrap(torch.Tensor, "new_empty")


# ------------------------------------------------------------------------------------ fault points inside calls
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
       "LinAlgError": torch.linalg.LinAlgError, "OutOfMemoryError": torch.OutOfMemoryError}


class Points(TorchFunctionMode):
    """Every torch function called while the library runs is a point at which a planned fault can strike."""

    def __init__(self, hit):
        super().__init__()
        self.hit = hit

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        if name in ("__get__", "__set__", "fill_") or name.lstrip("_").startswith(("set_", "get_", "is_", "are_")):
            return func(*args, **(kwargs or {}))  # not a call in the library's own code, or torch's own state keeping
        f = self.hit("torch", name)
        if f is not None and f.get("when") != "after":
            raise EXC[f["exc"]]("simulated: " + f["exc"])
        if f is None:
            return func(*args, **(kwargs or {}))
        try:
            func(*args, **(kwargs or {}))
        except Exception:
            pass  # the fault strikes when the operation is over, however that went
        raise EXC[f["exc"]]("simulated: " + f["exc"])


_MUT = {"append", "extend", "update", "setdefault", "pop", "popitem", "clear", "add", "insert", "remove", "discard", "register_buffer",
        "train", "eval", "set_default_dtype", "set_grad_enabled", "manual_seed", "set_rng_state", "setattr", "__setattr__"}
_hot = {}


def hot_lines(frame):
    """Lines that store into something that may be shared: attributes, globals, containers, tensors in place."""
    code = frame.f_code
    r = _hot.get(code)
    if r is None:
        r = set()
        if code.co_name != "__init__":
            ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "RESUME", "NOP", "EXTENDED_ARG")]
            for k, i in enumerate(ins):
                ln = i.positions.lineno if i.positions else None
                if i.opname in ("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR"):
                    r.add(ln)
                elif i.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL", "LOAD_NAME") and isinstance(i.argval, str) and (
                        i.argval in _MUT or (i.argval.endswith("_") and not i.argval.endswith("__"))):
                    if not (i.argval in _MUT and k and ins[k - 1].opname == "LOAD_FAST"):  # a local list or dict
                        r.add(ln)
                elif i.opname in ("STORE_SUBSCR", "DELETE_SUBSCR"):
                    # skip back over the key; what is below it is the container
                    need, j = 1, k - 1
                    while need > 0 and j >= 0:
                        try:
                            need -= dis.stack_effect(ins[j].opcode, ins[j].arg if ins[j].opcode >= dis.HAVE_ARGUMENT else None)
                        except ValueError:
                            break
                        j -= 1
                    if j >= 0 and ins[j].opname in ("LOAD_ATTR", "LOAD_GLOBAL", "LOAD_NAME", "BINARY_SUBSCR"):
                        r.add(ln)
        _hot[code] = r
    return r


class Tracer:
    """Calls on_line at every line (or bytecode) of library code, on_enter at every library function call, and on_hot
    after every line that stores into something that may be shared."""

    def __init__(self, on_line=None, on_enter=None, opcodes=False, on_hot=None):
        self.prefix = universe.REPO.rstrip("/") + "/" + universe.PKG + "/"
        self.on_line = on_line
        self.on_enter = on_enter
        self.opcodes = opcodes
        self.on_hot = on_hot

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.on_enter is not None:
            self.on_enter(frame)
        hot = hot_lines(frame) if self.on_hot is not None else ()
        if self.on_line is None and not hot:
            frame.f_trace_lines = False
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        if not hot:
            return self.loc
        prev = None
        on_line, on_hot = self.on_line, self.on_hot

        def loc(frame, event, arg):
            nonlocal prev
            if event == "line":
                p, prev = prev, frame.f_lineno
                if p in hot:
                    on_hot(frame)
                if on_line is not None:
                    on_line(frame)
            elif event == "opcode":
                if on_line is not None:
                    on_line(frame)
            elif event == "return" and prev in hot:
                prev = None
                on_hot(frame)
            return loc
        return loc

    def loc(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.on_line(frame)
        return self.loc

    def __enter__(self):
        sys.settrace(self.glob)

    def __exit__(self, *a):
        sys.settrace(None)


# ------------------------------------------------------------------------------------ making a call
def flat(y):
    if isinstance(y, torch.Tensor):
        return [y]
    if isinstance(y, (tuple, list)):
        out = []
        for v in y:
            out += flat(v)
        return out
    return []


def loss_of(y):
    t = 0.0
    for i, v in enumerate(flat(y)):
        w = torch.linspace(0.5, 1.5, v.numel(), dtype=torch.float64).reshape(v.shape)
        t = t + (v.abs().square() * w.to(v.abs().dtype)).sum()
    return t


def context(op):
    g = op.get("grad", "no")
    return torch.enable_grad() if g == "yes" else torch.inference_mode() if g == "inf" else torch.no_grad()


def modes():
    """Settings of the process a call has no business changing."""
    return {"gradient mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(),
            "default dtype": str(torch.get_default_dtype()), "number of threads": torch.get_num_threads(),
            "anomaly detection": torch.is_anomaly_enabled(),
            "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
            "autocast": (torch.is_autocast_enabled("cpu"), str(torch.get_autocast_dtype("cpu"))),
            "default device": str(torch.get_default_device()), "flush to zero": float(torch.tensor(1e-40) * 1.0) == 0.0,
            "float32 matmul precision": torch.get_float32_matmul_precision(),
            "print options": str(torch._tensor_str.PRINT_OPTS), "numpy error handling": str(np.geterr()),
            "multithreaded gradients": torch.autograd.is_multithreading_enabled(),
            "recursion limit": sys.getrecursionlimit(), "numpy print options": str(np.get_printoptions()),
            "warning filters": str(warnings.filters), "garbage collection": (gc.isenabled(), gc.get_threshold()),
            "interrupt handler": str(signal.getsignal(signal.SIGINT)), "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
            "environment variables": hash(frozenset(os.environ.items())), "working directory": os.getcwd(),
            "oneDNN": torch.backends.mkldnn.enabled, "exception hook": sys.excepthook is EXCEPTHOOK,
            "trace function of new threads": str(threading.gettrace())}


RECURSION = sys.getrecursionlimit()
EXCEPTHOOK = sys.excepthook


def set_modes(threads=1):
    """The process's settings at the start of a run, whatever the warming up did to them."""
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)
    torch.set_num_threads(threads)
    torch.set_flush_denormal(False)
    torch.autograd.set_detect_anomaly(False)
    torch.use_deterministic_algorithms(False)
    torch.set_autocast_enabled("cpu", False)
    torch.set_float32_matmul_precision("highest")
    torch.set_printoptions(profile="default")
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    sys.setrecursionlimit(RECURSION)


def hooks(m):
    """How many hooks of each kind a module and its parts carry."""
    return {(n, k): len(v) for n, s in m.named_modules() for k, v in vars(s).items() if k.endswith("_hooks") and v}


def call_kw(op, models):
    kw = dict(op.get("kw") or {})
    for key in ("model", "mask_model"):
        if key in kw:
            kw[key] = models[kw[key]]
    return kw


def make_call(obj, op, X, models, fn=None):
    """Run the call itself; returns the raw result."""
    if op["op"] == "fn":
        return fn(*X[0], **X[1])
    if op.get("inv"):
        return obj.inv(X)
    return obj(X, **call_kw(op, models))


def grads_of(y, X, params, only_input=False, retain=False):
    """Gradients of a fixed loss; leaves no .grad behind."""
    if only_input:
        g = torch.autograd.grad(loss_of(y), [X], allow_unused=True)
        return list(g)
    saved = [p.grad for p in params]
    for p in params:
        p.grad = None
    X.grad = None
    loss_of(y).backward(retain_graph=retain)
    out = [X.grad] + [p.grad for p in params]
    X.grad = None
    for p, s in zip(params, saved):
        p.grad = s
    return out


def params_of(obj, op, models):
    ps, seen = [], set()
    mods = [obj] if isinstance(obj, torch.nn.Module) else []
    for key in ("model", "mask_model"):
        if key in (op.get("kw") or {}):
            m = models[op["kw"][key]]
            if isinstance(m, torch.nn.Module):
                mods.append(m)
    for m in mods:
        for p in m.parameters():
            if id(p) not in seen:
                seen.add(id(p))
                ps.append(p)
    return ps


def detach(ts):
    return [None if t is None else t.detach().clone().resolve_conj() for t in ts]


# ------------------------------------------------------------------------------------ comparing
def diff(a, b, floor=0.0):
    """Largest difference of two result lists, each tensor relative to its size in b (at least `floor` times the
    largest of all); inf when not comparable."""
    if len(a) != len(b):
        return float("inf")
    worst = 0.0
    least = 1e-30
    if floor:
        for v in b:
            if v is not None and v.numel() and bool(torch.isfinite(v.abs()).any()):
                least = max(least, floor * float(v.abs()[torch.isfinite(v.abs())].max()))
    for u, v in zip(a, b):
        if (u is None) != (v is None):
            return float("inf")
        if u is None:
            continue
        if u.shape != v.shape or u.dtype != v.dtype:
            return float("inf")
        if torch.equal(u, v):
            continue
        fu, fv = torch.isfinite(u.abs()), torch.isfinite(v.abs())
        if not torch.equal(fu, fv):
            return float("inf")
        if not bool(fu.any()):
            continue
        d = float((u[fu] - v[fv]).abs().max())
        worst = max(worst, d / max(least, float(v[fv].abs().max())))
    return worst


def tol(ts):
    for t in ts:
        if t is not None and t.dtype in (torch.float32, torch.complex64):
            return 2e-5
    return 1e-10
