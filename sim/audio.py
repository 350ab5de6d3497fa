"""Audio codec seam: torchaudio.load / torchaudio.save as seen by the library.

Reading uses the real decoder after a seam event.  Writing goes through the simulator's file seam as a float32 WAV file, in
small pieces, so that a disk fault or crash can hit any of them; plans with codec == "real" use the real encoder.
"""
import os
import struct

import torch
import torchaudio

from . import seams
from . import world as W

R = {}


def wav_bytes(data, fs, kind="f32"):
    """data: (channels, samples) float tensor."""
    ch, n = data.shape
    if kind == "f32":
        fmt, width = 3, 4
        body = data.t().contiguous().to(torch.float32).numpy().astype("<f4").tobytes()
    else:
        fmt, width = 1, 2
        q = (data.t().contiguous().to(torch.float64).clamp(-1, 1 - 1 / 32768) * 32768).round()
        body = q.numpy().astype("<i2").tobytes()
    head = struct.pack("<4sI4s4sIHHIIHH4sI", b"RIFF", 36 + len(body), b"WAVE", b"fmt ", 16, fmt, ch, fs,
                       fs * ch * width, ch * width, 8 * width, b"data", len(body))
    return head + body


def _codec_fault(w, f, path, what):
    if f is None:
        return
    if f["what"] in ("codec", "oom"):
        w.fired["codec_error" if f["what"] == "codec" else "oom"] += 1
        w.note("FAULT", f["what"])
        if f["what"] == "oom":
            raise MemoryError("simulated allocation failure")
        raise RuntimeError(f"Failed to {what} audio: simulated codec error for {path}")
    seams.apply_fault(w, f, "codec." + what, path)
    w.fired["codec_error"] += 1
    raise RuntimeError(f"Failed to {what} audio: simulated codec error for {path}")


def load(uri, *a, **k):
    w = W.world()
    if w is None or not isinstance(uri, (str, os.PathLike)):
        return R["load"](uri, *a, **k)
    f = w.event("codec.read", seams.rel(w, uri))
    _codec_fault(w, f, uri, "decode")
    with outside():
        return R["load"](uri, *a, **k)


class outside:
    def __enter__(self):
        self.t = W.current()
        W._local.task = None

    def __exit__(self, *a):
        W._local.task = self.t


def save(uri, src, sample_rate, channels_first=True, *a, **k):
    w = W.world()
    if w is None or not isinstance(uri, (str, os.PathLike)):
        return R["save"](uri, src, sample_rate, channels_first, *a, **k)
    f = w.event("codec.write", seams.rel(w, uri))
    _codec_fault(w, f, uri, "encode")
    if not isinstance(src, torch.Tensor):
        raise ValueError("Expected src to be a torch.Tensor")
    if sample_rate <= 0:
        raise ValueError("sample_rate must be positive")
    if not seams.in_root(w, uri):
        seams._escape(w, "save", uri)
    if w.plan.get("codec") == "real":
        with outside():
            return R["save"](uri, src, sample_rate, channels_first, *a, **k)
    if src.ndim == 1:
        src = src.unsqueeze(0) if channels_first else src.unsqueeze(1)
    if src.ndim != 2:
        raise ValueError(f"Expected 1D or 2D tensor, got {src.ndim}D tensor")
    if not channels_first:
        src = src.t()
    if src.requires_grad:
        raise RuntimeError("Can't encode a tensor that requires grad")
    if os.path.splitext(os.fspath(uri))[1].lower() not in (".wav",):
        raise RuntimeError(f"Failed to save audio to {uri}: no such format")
    data = wav_bytes(src.detach().cpu().float(), int(sample_rate))
    step = int(w.plan.get("write_chunk", 2048))
    with open(uri, "wb", buffering=0) as out:
        for i in range(0, len(data), step):
            out.write(data[i:i + step])


def _compute(name):
    def fn(*a, **k):
        w = W.world()
        if w is not None:
            f = w.event("compute." + name, "")
            if f is not None:
                if f["what"] in ("crash", "torn_crash"):
                    w.crash(None, "crash")
                if f["what"] == "interrupt":
                    w.fired["interrupt"] += 1
                    raise KeyboardInterrupt("simulated Ctrl-C")
                w.fired["oom"] += 1
                w.note("FAULT oom")
                raise RuntimeError("DefaultCPUAllocator: not enough memory (simulated)")
        return R[name](*a, **k)
    fn.__name__ = name
    return fn


def install():
    if R:
        return
    R.update(load=torchaudio.load, save=torchaudio.save, stft=torch.stft, istft=torch.istft)
    torchaudio.load, torchaudio.save = load, save
    torch.stft, torch.istft = _compute("stft"), _compute("istft")
