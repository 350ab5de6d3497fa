"""Small models published by the simulated origin or stored in local folders."""
import io

import torch
import yaml

CONFIGS = [
    # (name, config).  Several share their tensor shapes so that a mix-up cannot show as a shape error.
    ("lap_a", dict(n_fft=16, n_iter=2, hop_length=8, n_taps=0, n_delay=0, n_src=2, algo="tiss", proj_back_mic=0,
                   use_dmc=False, n_power_iter=None, eps=None,
                   source_model=dict(name="torchiva.models.LaplaceModel", kwargs=dict(eps=1.0e-5)))),
    ("lap_b", dict(n_fft=16, n_iter=3, hop_length=4, n_taps=1, n_delay=1, n_src=1, algo="tiss", proj_back_mic=0,
                   use_dmc=False, eps=1.0e-4,
                   source_model=dict(name="torchiva.models.LaplaceModel", kwargs=dict(eps=1.0e-3)))),
    ("glu_a", dict(n_fft=16, n_iter=2, hop_length=8, n_taps=1, n_delay=1, n_src=2, algo="tiss", proj_back_mic=0,
                   use_dmc=False, eps=None,
                   source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=9, n_bottleneck=4)))),
    ("glu_b", dict(n_fft=16, n_iter=1, hop_length=8, n_taps=0, n_delay=0, n_src=2, algo="tiss", proj_back_mic=1,
                   use_dmc=False, eps=None,
                   source_model=dict(name="torchiva.models.GLUMask",
                                     kwargs=dict(n_freq=9, n_bottleneck=4, dropout_p=0.3, log_spec=False)))),
    ("glu_c", dict(n_fft=16, n_iter=2, hop_length=8, window="hamming", n_src=2, algo="ip2", proj_back_mic=0, eps=None,
                   source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=9, n_bottleneck=4)))),
    ("mask_a", dict(n_fft=16, n_iter=1, hop_length=8, algo="mvdr", proj_back_mic=0, eps=1.0e-4,
                    source_model=dict(name="torchiva.models.MaskMVDRSupport",
                                      kwargs=dict(n_src=2, n_masks=2, n_input=9, n_hidden=4, n_layers=1,
                                                  dropout_p=0.0)))),
    ("mask_b", dict(n_fft=16, n_iter=1, hop_length=8, algo="mwf", proj_back_mic=1, eps=1.0e-3,
                    source_model=dict(name="torchiva.models.MaskMVDRSupport",
                                      kwargs=dict(n_src=2, n_masks=2, n_input=9, n_hidden=4, n_layers=1,
                                                  dropout_p=0.0)))),
    # little more than the defaults, as in configurations written by hand
    ("lap_d", dict(n_fft=16)),
    ("glu_d", dict(n_fft=16, algo="tiss", n_iter=2, n_src=2,
                   source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=9, n_bottleneck=4)))),
    ("mask_d", dict(n_fft=16, algo="gev",
                    source_model=dict(name="torchiva.models.MaskMVDRSupport",
                                      kwargs=dict(n_src=2, n_masks=2, n_input=9, n_hidden=4, n_layers=1)))),
    # files of a megabyte
    ("big_e", dict(n_fft=16, n_iter=1, hop_length=8, n_src=2, algo="tiss", proj_back_mic=0, eps=None,
                   source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=9, n_bottleneck=80)))),
]


class Model:
    def __init__(self, name, config, sd):
        self.name = name
        self.config = config
        self.sd = sd
        b = io.BytesIO()
        hand = name[:-1].endswith("_d")
        torch.save(sd, b, _use_new_zipfile_serialization=name != "glu_d0")
        self.ckpt = b.getvalue()
        self.yaml = yaml.safe_dump(config).encode()
        if hand:
            self.yaml = b"# trained on\n---\n" + yaml.safe_dump(config, sort_keys=False, default_flow_style=name.endswith("1")).encode() + b"...\n"


        if name == "big_e1":
            self.yaml = "".join(f"# epoch {i}: loss {1 / (i + 1):.5f}\n" for i in range(700)).encode() + self.yaml


MODELS = {}


def names_for(rng):
    """The models to choose from: the big ones take time."""
    big = rng.random() < 0.12
    return [n for n in MODELS if big or not n.startswith("big")]


def random_state(sd, gen):
    out = {}
    for k, v in sd.items():
        if v.dtype.is_floating_point and "window" not in k:
            r = torch.rand(v.shape, generator=gen) * 0.6 + 0.2
            if "running_var" not in k:
                r = (r - 0.5) * 1.5
            out[k] = r.to(v.dtype)
        elif not v.dtype.is_floating_point:
            out[k] = torch.full_like(v, int(torch.randint(1, 50, (1,), generator=gen)))
        else:
            out[k] = v.clone()
    return out


def build(torchiva):
    """Each configuration is published twice with different weights (…0 and …1)."""
    if MODELS:
        return MODELS
    gen = torch.Generator().manual_seed(20240607)
    for name, cfg in CONFIGS:
        for k in (0, 1):
            sep = torchiva.nn.BSSSeparator(**{**cfg})
            sep.load_state_dict(random_state(sep.state_dict(), gen))  # parameters may be shared
            MODELS[f"{name}{k}"] = Model(f"{name}{k}", cfg, {n: v.clone() for n, v in sep.state_dict().items()})
    return MODELS


PROBE_GEN = 7


def probe(n_chan=2, n=70, seed=PROBE_GEN):
    g = torch.Generator().manual_seed(seed)
    return torch.randn(n_chan, n, generator=g)


def attrs(sep):
    """Public configuration read back from a BSSSeparator."""
    out = {}
    for k in ("n_iter", "n_src", "algo"):
        out[k] = getattr(sep, k, None)
    st = getattr(sep, "stft", None)
    for k in ("n_fft", "hop_length", "n_freq"):
        out["stft." + k] = getattr(st, k, None)
    inner = getattr(sep, "separator", None)
    for k in ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps", "ref_mic", "n_power_iter"):
        out["sep." + k] = getattr(inner, k, None)
    return out


def outputs(sep, x):
    was = sep.training
    sep.eval()
    try:
        with torch.random.fork_rng(devices=[]):
            torch.manual_seed(5)
            with torch.no_grad():
                return sep(x)
    except Exception as e:
        return type(e).__name__
    finally:
        sep.train(was)


def same(a, b, tol=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if torch.equal(a, b):
        return True
    if torch.isnan(a).any() or torch.isnan(b).any():
        return bool(torch.equal(torch.isnan(a), torch.isnan(b))) and same(torch.nan_to_num(a), torch.nan_to_num(b), tol)
    return tol > 0 and float((a - b).abs().max()) <= tol * max(1e-12, float(b.abs().max()))


def differs(torchiva, sep, model, overrides):
    """None if `sep` is exactly `model` with the overrides, else what differs."""
    sd = sep.state_dict()
    if set(sd) != set(model.sd):
        return f"state keys differ: {sorted(set(sd) ^ set(model.sd))[:4]}"
    for k, v in model.sd.items():
        if sd[k].shape != v.shape or not torch.equal(sd[k].cpu(), v):
            return f"weight {k} differs from the stored one"
    b, y = reference(torchiva, model, overrides)
    a = attrs(sep)
    for k in b:
        if a[k] != b[k]:
            return f"configuration {k} is {a[k]!r}, expected {b[k]!r}"
    if not same(outputs(sep, probe(2)), y, 1e-5):
        return "output differs from that of the stored model"
    return None


_ref = {}


def reference(torchiva, model, overrides):
    """Configuration and probe output of the model built directly (no files involved)."""
    key = (model.name, repr(sorted(overrides.items(), key=lambda kv: kv[0])))
    if key not in _ref:
        ref = torchiva.nn.BSSSeparator(**{**model.config, **overrides})
        ref.load_state_dict(model.sd)
        _ref[key] = (attrs(ref), outputs(ref, probe(2)))
    return _ref[key]
