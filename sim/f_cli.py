"""C06-C09: the separation command (torchiva.separate) over simulated file trees, processes and faults."""
import contextlib
import copy
import os
import shutil

import torch

from . import audio, net, seams, universe, zoo
from . import world as W
from .f_loader import Ctx, call, harness, setup_home

URL = "https://models.example.org/pretrained/"
NN = ["glu_a0", "glu_b0", "glu_c0", "mask_a0", "mask_b1", "lap_a0", "glu_d1", "mask_d0"]
RATES = [8000, 16000, 22050, 44100]
ODD_RATES = [1, 11, 100, 1000, 96000, 192000]  # at 11 Hz a short file lasts for minutes


AFTER = None  # called after each run of the command (C20)


def prepare(prop):
    u = universe.Universe()
    u.activate()
    zoo.build(u.torchiva)
    # warm the codec and the kernels so that forked runs start hot
    import tempfile
    d = tempfile.mkdtemp(prefix="warm", dir=os.environ["SIM_SCRATCH"])
    p = os.path.join(d, "x.wav")
    with seams.R["open"](p, "wb") as f:
        f.write(audio.wav_bytes(torch.randn(2, 300) * 0.1, 8000))
    x, fs = audio.R["load"](p)
    audio.R["save"](os.path.join(d, "y.wav"), x, fs)
    for algo in ("tiss", "ip2", "five"):
        with contextlib.suppress(Exception), torch.no_grad():
            u.torchiva.nn.BSSSeparator(64, n_iter=1, n_src=1 if algo == "five" else 2, algo=algo)(x)
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------------- generation
def gen_opts(rng, prop):
    o = {}
    o["n_iter"] = rng.choice([1, 2, 2, 3, 4] if rng.random() < 0.92 else [0, 6, 9])
    if rng.random() < 0.3:
        o["model_type"] = "nn"
        o["model"] = rng.choice(NN)
        o["where"] = rng.choice(["dir", "dir", "url"])
        mask = o["model"].startswith("mask")
        o["mic"] = rng.choice([2, 2, 3])
        o["src"] = rng.choice([1, 2, 2])
        if mask:
            o["algo"] = rng.choice([None, None, "mvdr", "mwf", "gev"])
        else:
            o["algo"] = rng.choice([None, None, "tiss", "ip2", "five"])
            if o["algo"] == "ip2" or (o["algo"] is None and o["model"].startswith("glu_c")):
                o["mic"] = 2
        o["ref"] = rng.choice([0, 0, 1])
        return o
    o["model_type"] = rng.choice(["laplace", "laplace", "gauss"] if prop in ("C08", "C09") else
                                 ["laplace", "laplace", "gauss", "nmf"])
    o["algo"] = rng.choice([None, "tiss", "tiss", "ip2", "five"])
    o["mic"] = rng.choice([2, 2, 3, 4])
    o["src"] = rng.choice([1, 2, 2, 3])
    if o["algo"] == "ip2":
        o["mic"] = 2
    o["src"] = min(o["src"], o["mic"])
    o["nfft"] = rng.choice([16, 32, 32, 64, 128])
    if rng.random() < 0.4:
        o["hop"] = o["nfft"] // rng.choice([2, 4]) if rng.random() < 0.8 else rng.choice([o["nfft"] // 3, o["nfft"] // 8, o["nfft"] - 2])
    if rng.random() < 0.3:
        o["win"] = rng.choice(["hamming", "hann", "blackman"])
    if o["algo"] in (None, "tiss") and rng.random() < 0.35:
        o["taps"] = rng.choice([1, 2, 2, 4])
        o["delay"] = rng.choice([0, 1, 2])
    o["ref"] = rng.choice([0, 0, 0, 1]) if rng.random() < 0.9 else rng.randrange(o["mic"])
    if rng.random() < 0.05:
        o["device"] = "cpu"
    if rng.random() < 0.3:
        o["eps"] = rng.choice([1e-2, 1e-1, 1e-6])
    if rng.random() < 0.3:
        o["model_eps"] = rng.choice([1e-2, 1e-1, 1e-6])
    if o["model_type"] == "nmf":
        o["n_basis"] = rng.choice([1, 2, 3])
    return o


NAMES = ["a.wav", "b.wav", "c d.wav", "mix_01.wav", "take.final.wav", "é.wav", "A.wav", "x.wav"]
ODD_NAMES = [".a.wav", "-n.wav", "[1].wav", "a*.wav", "a.WAV.wav", "wav.wav", " b.wav", "out.wav", "mix.flac.wav", "~a.wav", "a.wav.wav",
             "a" * 120 + ".wav", "B.wav", "0.wav", "mix_1.wav", "mix_10.wav", "a_out.wav", "sep.wav", "tmp.wav", "a.tmp.wav", "_a.wav", "#1.wav"]
ODD_DIRS = [".h", "s1/s2/s3/s4", "s1/s2/s3", "[x]", "a b", "a.wav", "x/a.wav", "tmp", "out", "__pycache__", "S1", "s10", "-d", "..a"]
DIRS = ["", "", "", "s1", "s2", "s1/s2", "in", "sep", "s1.wav.d", "sep2", "s1/sep.old", "out.d.bak", "s"]
NEAR = [lambda s: s[:-1] or "o", lambda s: s.split("_")[0] + "-", lambda s: s.split("_")[0] if "_" in s else s + "_1", lambda s: s + "_sep", lambda s: "." + s,
        lambda s: s + ".wav", lambda s: s + ".sep", lambda s: "sep_" + s, lambda s: s.swapcase() + "2", lambda s: s.split(".")[0] + "1"]


def gen_tree(rng, n_files, opts, layout):
    files, seen = [], set()
    mic = max(o["mic"] for o in opts)
    src = max(o["src"] for o in opts)
    same_name = rng.random() < 0.4
    odd = rng.random() < 0.3
    alike = rng.random() < 0.35  # all of one length, rate and format: nothing but their content tells them apart
    n0 = rng.randrange(200, 400) if rng.random() < 0.85 else rng.choice([40, 90, 900, 1500])
    fs0, fmt0, extra_ch = rng.choice(RATES), rng.choice(["f32", "i16"]), rng.choice([0, 0, 1, 3])
    for i in range(n_files):
        for _ in range(20):
            name = rng.choice(NAMES[:2] if same_name else NAMES + (ODD_NAMES if odd else []))
            d = rng.choice(DIRS + (ODD_DIRS if odd else []))
            p = os.path.join(d, name)
            parts = p.split("/")
            taken = {"/".join(q.split("/")[:k + 1]) for q in seen for k in range(q.count("/") + 1)}
            if p not in taken and not any("/".join(parts[:k]) in seen for k in range(1, len(parts))):
                break
        else:
            continue
        seen.add(p)
        lo = max(src, 2)
        files.append({"p": p, "ch": rng.choice([lo, max(lo, mic), max(lo, mic), mic + 1]), "n": n0 + 37 * i + rng.randrange(30),
                      "fs": rng.choice(RATES), "seed": rng.randrange(1 << 20), "fmt": rng.choice(["f32", "f32", "i16"])})
        if rng.random() < 0.08:
            files[-1]["fs"] = rng.choice(ODD_RATES)
        if rng.random() < 0.015:
            files[-1]["n"] = (1 << rng.choice([13, 15, 17, 18, 19, 20])) + rng.randrange(50)
        if rng.random() < 0.1:
            files[-1]["level"] = rng.choice([0.0, 0.0, 1e-4, 0.01, 10.0, 100.0])
        if rng.random() < 0.1:
            files[-1]["mode"] = rng.choice([0o444, 0o400, 0o755, 0o600])
        if alike:
            files[-1].update(ch=max(lo, mic) + extra_ch, n=n0, fs=fs0, fmt=fmt0)
        elif rng.random() < 0.08:
            files[-1]["ch"] = mic + rng.choice([2, 5])
    return files


def gen(prop, rng, tier):
    n_opts = 2 if rng.random() < 0.4 else 1
    opts = [gen_opts(rng, prop) for _ in range(n_opts)]
    if n_opts == 2 and rng.random() < 0.5:  # close relatives: same model, another number of sources or iterations
        opts[1] = dict(copy.deepcopy(opts[0]), n_iter=rng.choice([1, 2, 5]))
    single = rng.random() < {"C06": 0.25, "C07": 0.12, "C08": 0.12, "C09": 0.12}[prop]
    risky = {"C06": 0.75, "C07": 0.35, "C08": 0.1, "C09": 0.3}[prop]
    layout = rng.choice(["same_dots", "same_link", "out_in_in", "out_in_in", "in_in_out", "hard", "symfile", "symdir", "in_link",
                         "out_link", "cwd"]) if rng.random() < risky else rng.choice(["sep", "sep", "sep_new", "abs", "in_symlink"])
    if single:
        layout = rng.choice(["f_file", "f_dir", "f_same", "f_owndir", "f_samelink", "f_dots", "f_hard"] + ["f_next"] * 7) \
            if rng.random() < risky else rng.choice(["f_file", "f_dir", "f_file", "f_next"])
    n_files = rng.choice([1, 2, 2, 3, 4, 5] if rng.random() < 0.93 else [8, 11, 17]) if not single else rng.choice([1, 1, 2])
    files = gen_tree(rng, n_files, opts, layout)
    if single:
        files[0]["p"] = os.path.basename(files[0]["p"])
        files = files[:1] + [f for f in files[1:] if f["p"] != files[0]["p"]]
        if layout == "f_next" and rng.random() < 0.7:  # names that can be cut or continued
            files[0]["p"] = rng.choice(["mix_01.wav", "take.final.wav", "c d.wav", "abc.wav", "a.tmp.wav", "mix_10.wav", "rec-1.wav"])
            files = files[:1] + [dict(f, p=f["p"][:-4] + "2.wav") if f["p"] == files[0]["p"] else f for f in files[1:]]
    # unusable inputs
    if rng.random() < {"C06": 0.2, "C07": 0.35, "C08": 0.15, "C09": 0.1}[prop]:
        f = rng.choice(files)
        f["bad"] = rng.choice(["empty", "garbage", "cut", "cut", "header", "few_ch", "short"])
        f["frac"] = rng.choice([0.2, 0.5, 0.9, 0.99])
    oid = 0
    tasks, faults = [], []
    par = rng.random() < 0.12 and layout in ("sep", "abs")
    codec = "real" if rng.random() < 0.06 else "seam"

    def run_op(**k):
        nonlocal oid
        op = {"id": oid, "do": "run", "o": rng.randrange(n_opts), "out": 0, "quiet": rng.random() < 0.5, **k}
        oid += 1
        return op

    def fault(op_id):
        kind = rng.choice(["fs.write", "fs.write", "fs.write", "fs.open_w", "fs.close_w", "fs.mkdir", "fs.list", "fs.stat", "codec.read",
                           "codec.read", "compute.stft", "compute.istft", "codec.write", "any", "fs.rename", "stdout"])
        nf = max(1, len(files))
        nth = rng.choice([0, 0, 1, 2, nf - 1, rng.randrange(nf * 3)])
        if kind == "fs.stat":
            nth = rng.randrange(4 + 8 * nf)
        what = rng.choice({"fs.write": ["torn_crash", "torn_crash", "short_enospc", "short_enospc", "eio", "crash", "interrupt"],
                           "codec.read": ["codec", "codec", "oom", "crash", "interrupt", "eio"],
                           "codec.write": ["codec", "crash", "interrupt", "eacces"],
                           "stdout": ["epipe", "epipe", "eio", "enospc", "crash", "interrupt"],
                           "compute.stft": ["oom", "crash", "interrupt"], "compute.istft": ["oom", "crash", "interrupt"],
                           }.get(kind, ["eacces", "eio", "enospc", "crash", "interrupt"]))
        f = {"op": op_id, "what": what}
        if kind == "any":
            f["ev"] = rng.randrange(10 + 12 * nf)
        else:
            f.update(kind=kind, nth=nth)
            if what not in ("crash", "torn_crash", "interrupt") and rng.random() < 0.45:
                f["times"] = rng.choice([2, 3, 4, 100, 100])
        if what in ("torn_crash", "short_enospc"):
            f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
        return f

    n_tasks = 2 if par else 1
    p_fault = {"C06": 0.6, "C07": 0.6, "C08": 0.4, "C09": 0.9}[prop]
    n_ops = {"C06": [1, 1, 2, 3], "C07": [1, 1, 2], "C08": [1, 1, 2], "C09": [1, 2, 2, 3]}[prop]
    for ti in range(n_tasks):
        ops = []
        for _ in range(rng.choice(n_ops)):
            op = run_op(out=ti, proc=rng.choice(["p%d" % ti, "p%d" % ti, "q%d" % oid]))
            if layout == "f_next" and rng.random() < 0.5:  # the output cannot be written, the command goes on to clean up
                faults.append({"op": op["id"], **rng.choice([
                    {"kind": "fs.write", "what": "short_enospc", "frac": rng.choice([0.0, 0.5]), "nth": rng.choice([0, 1])},
                    {"kind": "fs.write", "what": "eio", "nth": 0}, {"kind": "codec.write", "what": "codec", "nth": 0},
                    {"kind": "fs.write", "what": "interrupt", "nth": 0}, {"kind": "fs.open_w", "what": "enospc", "nth": 0}])})
            elif rng.random() < p_fault:
                for _ in range(rng.choice([1, 1, 2])):
                    faults.append(fault(op["id"]))
            ops.append(op)
            r = rng.random()
            if r < 0.25 and not par and layout not in ("hard", "symfile", "in_link", "f_hard", "f_samelink"):
                ops.append({"id": oid, "do": "edit", "f": rng.randrange(len(files)), "seed": rng.randrange(1 << 20),
                            "dn": rng.choice([0, 0, 11])})
                oid += 1
            elif r < 0.4:
                ops.append({"id": oid, "do": "clock", "dt": rng.choice([5.0, 3600.0, 86400.0 * 30, -3600.0])})
                oid += 1
            elif r < 0.45 and not par:
                ops.append({"id": oid, "do": "fix"})  # repair unusable inputs
                oid += 1
        tasks.append(ops)
    tail = []
    if rng.random() < {"C06": 0.3, "C07": 0.4, "C08": 0.5, "C09": 1.0}[prop]:
        if rng.random() < 0.6:
            tail.append({"id": oid, "do": "fix"})
            oid += 1
        tail.append(run_op(healthy=True, proc="tail"))
    switches = []
    if par:
        switches = sorted([rng.randrange(1, 120), rng.randrange(3)] for _ in range(rng.choice([1, 3, 6, 12])))
    extra = []
    if rng.random() < 0.3:
        extra = rng.sample(["notes.txt", "s1/list.csv", "b.flac", "README.md"], 2)
    return {"layout": layout, "files": files, "opts": opts, "tasks": tasks, "tail": tail, "faults": faults, "switches": switches,
            "extra": extra, "codec": codec, "pre": rng.random() < 0.4, "write_chunk": rng.choice([512, 1024, 4096, 65536]),
            "entropy_seed": rng.randrange(1 << 30), "dir_seed": rng.randrange(1 << 30), "name": rng.choice(["in", "rec", "data.wav"]),
            "sub": rng.choice(["sep", "s1/sep", "out.d", "s1"]), "near": rng.randrange(len(NEAR)),
            "outname": rng.choice(["out", "out", "longer", "shorter"])}


# ---------------------------------------------------------------------------------- the tree
def signal(f):
    g = torch.Generator().manual_seed(f["seed"])
    n = f["n"]
    ch = f["ch"]
    src = torch.randn(ch + 1, n, generator=g) * torch.rand(ch + 1, n, generator=g).pow(3)  # sparse, super-Gaussian
    mix = torch.randn(ch, ch + 1, generator=g)
    x = mix @ src + 0.05 * torch.randn(ch, n, generator=g)
    return 0.3 * f.get("level", 1.0) * x / x.abs().max()


def content(f):
    g = dict(f)
    if g.get("bad") == "few_ch":
        g["ch"] = 1
    if g.get("bad") == "short":
        g["n"] = 5
    x = signal(g)
    if g.get("perturb") is not None:
        x = x * (1 + 3e-7 * torch.randn(x.shape, generator=torch.Generator().manual_seed(g["perturb"])))
    b = audio.wav_bytes(x, g["fs"], g["fmt"])
    bad = g.get("bad")
    if bad == "empty":
        return b""
    if bad == "garbage":
        return b"this is not a sound" * 40
    if bad == "cut":
        return b[:44 + int((len(b) - 44) * g["frac"])]
    if bad == "header":
        return b[:20]
    return b


class Tree:
    """One instance of the plan's file tree below `base`."""

    def __init__(self, w, plan, base, files):
        self.w, self.plan, self.base = w, plan, base
        lay = plan["layout"]
        name = plan["name"]
        self.outs = ["out", "out2"]
        if lay in ("sep", "sep_new", "abs", "cwd", "in_symlink"):  # folders whose names begin alike
            self.outs[0] = {"longer": name + "_sep", "shorter": name[:-1]}.get(plan.get("outname"), "out")
        self.inp = name
        self.single = lay.startswith("f_")
        mk = lambda p: os.makedirs(os.path.join(base, p), exist_ok=True)  # noqa
        os.makedirs(base)
        if lay == "in_in_out":
            self.inp = "out/" + name
        if lay == "in_symlink":
            self.inp = "lnk"
        real_in = {"in_in_out": "out/" + name}.get(lay, name)
        self.real_in = real_in
        mk(real_in)
        self.put(files)
        for p in plan["extra"]:
            mk(os.path.join(real_in, os.path.dirname(p)))
            self.write(os.path.join(base, real_in, p), b"some text " + p.encode())
        L = lambda p: os.path.join(base, p)  # noqa
        if plan["pre"] and lay in ("sep", "abs", "cwd", "f_dir", "in_symlink"):
            mk(self.outs[0])
        first = files[0]["p"]
        if lay == "same_dots":
            self.outs[0] = "./x/../%s" % name if plan["pre"] else os.path.join(base, name)
            mk("x")
        elif lay == "same_link":
            os.symlink(name, L("lnk"))
            self.outs[0] = "lnk"
        elif lay == "out_in_in":
            self.outs[0] = os.path.join(name, plan["sub"])
            if plan["pre"]:
                mk(self.outs[0])
        elif lay in ("hard", "f_hard"):
            mk(os.path.dirname(os.path.join("out", first)) or "out")
            os.link(L(os.path.join(real_in, first)), L(os.path.join("out", first)))
        elif lay == "symfile":
            mk(os.path.dirname(os.path.join("out", first)) or "out")
            os.symlink(L(os.path.join(real_in, first)), L(os.path.join("out", first)))
        elif lay == "symdir":
            mk("out")
            mk(os.path.join(real_in, "s1"))
            os.symlink(L(os.path.join(real_in, "s1")), L("out/s1"))
        elif lay == "in_link":  # an input that is a link to a file in the output folder
            mk(os.path.dirname(os.path.join("out", first)) or "out")
            os.rename(L(os.path.join(real_in, first)), L(os.path.join("out", first)))
            os.symlink(L(os.path.join("out", first)), L(os.path.join(real_in, first)))
        elif lay == "out_link":
            mk(os.path.join(real_in, "s1"))
            os.symlink(L(os.path.join(real_in, "s1")), L("outl"))
            self.outs[0] = "outl"
        elif lay == "in_symlink":
            os.symlink(name, L("lnk"))
        elif lay == "f_file":
            self.outs[0] = "res.wav"
        elif lay == "f_next":  # the output next to the input, under a similar name
            n = NEAR[plan.get("near", 0) % len(NEAR)](first[:-4]) + ".wav"
            while n in [f["p"] for f in files]:
                n = "o" + n
            self.outs[0] = os.path.join(name, n)
        elif lay == "f_dir":
            mk("out")
        elif lay == "f_same":
            self.outs[0] = os.path.join(name, first)
        elif lay == "f_owndir":
            self.outs[0] = name
        elif lay == "f_samelink":
            os.symlink(L(os.path.join(name, first)), L("l.wav"))
            self.outs[0] = "l.wav"
        elif lay == "f_dots":
            mk("x")
            self.outs[0] = "x/../%s" % name
        if self.single:
            self.inp = os.path.join(real_in, first)

    def write(self, p, data):
        with seams.R["open"](p, "wb") as f:
            f.write(data)
        t = self.w.now - 60.0
        seams.R["utime"](p, (t, t))

    def put(self, files):
        for f in files:
            p = os.path.join(self.base, self.real_in, f["p"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                if os.path.islink(p) or os.stat(p).st_nlink > 1:
                    self.write(p, content(f))
                    continue
                os.unlink(p)
            self.write(p, content(f))
            if f.get("mode"):
                seams.R["chmod"](p, f["mode"])

    def args(self, op):
        a, o = self.inp, self.outs[op["out"]]
        if self.plan["layout"] == "abs":
            a, o = os.path.join(self.base, a), os.path.join(self.base, o)
        if self.plan["layout"] == "cwd":
            return ".", "../" + o, os.path.join(self.base, self.inp)
        return a, o, self.base

    def in_abs(self):
        return os.path.join(self.base, self.inp)

    def out_abs(self, op):
        return os.path.join(self.base, self.outs[op["out"]])

    # -- what the command has to process, independently of its code
    def inputs(self, op):
        """[(path, relative path)] of the wav files to separate."""
        if self.single:
            return [(self.in_abs(), os.path.basename(self.inp))]
        I, O = os.path.realpath(self.in_abs()), os.path.realpath(self.out_abs(op))
        res = []
        for b, ds, fs in os.walk(self.in_abs()):
            if O != I and (os.path.realpath(b) + "/").startswith(O + "/") and O.startswith(I + "/"):
                continue
            for n in fs:
                if n.endswith(".wav"):
                    p = os.path.join(b, n)
                    res.append((p, os.path.relpath(p, self.in_abs())))
        return sorted(res)

    def target(self, op, rel):
        o = self.out_abs(op)
        if self.single:
            return os.path.join(o, rel) if os.path.isdir(o) else o
        return os.path.join(o, rel)

    def safe(self, op, inputs):
        """True if no output coincides with an input (then nothing justifies a refusal)."""
        if not self.single:
            if os.path.realpath(self.in_abs()) == os.path.realpath(self.out_abs(op)):
                return False
            if os.path.lexists(self.out_abs(op)) and not os.path.isdir(self.out_abs(op)):
                return False
        tgts = set()
        ins = {os.path.realpath(p) for p, _ in inputs}
        ids = {(os.stat(p).st_dev, os.stat(p).st_ino) for p, _ in inputs}
        for p, r in inputs:
            t = self.target(op, r)
            if os.path.realpath(t) in ins or os.path.realpath(t) in tgts:
                return False
            tgts.add(os.path.realpath(t))
            if os.path.exists(t) and (os.stat(t).st_dev, os.stat(t).st_ino) in ids:
                return False
            if os.path.isdir(t):
                return False
            d = t
            while len(d) > len(self.base):
                d = os.path.dirname(d)
                if os.path.lexists(d) and not os.path.isdir(d):
                    return False
        if self.single:
            if not os.path.isdir(os.path.dirname(self.target(op, inputs[0][1]))):
                return False
        return True

    def tangled(self, op, inputs):
        """Some output falls inside the input folder: only C06 is checked there."""
        if self.single:
            return False
        I, O = os.path.realpath(self.in_abs()), os.path.realpath(self.out_abs(op))
        if O.startswith(I + "/") and self.plan["layout"] == "out_in_in":
            return False
        return any((os.path.realpath(self.target(op, r)) + "/").startswith(I + "/") for _, r in inputs)


def snap(paths):
    out = {}
    for p, r in paths:
        try:
            with seams.R["open"](p, "rb") as f:
                out[r] = f.read()
        except OSError as e:
            out[r] = type(e).__name__
    return out


# ---------------------------------------------------------------------------------- running
def argv(o, inp, out, model_path, quiet):
    a = [inp, out, "--model-type", o["model_type"], "--n_iter", str(o["n_iter"]), "--mic", str(o["mic"]), "--src", str(o["src"])]
    if model_path:
        a += ["--model-path", model_path]
    for k, flag in (("algo", "--algo"), ("nfft", "--nfft"), ("hop", "--hop"), ("win", "--win"), ("taps", "--taps"),
                    ("delay", "--delay"), ("ref", "--ref"), ("eps", "--eps"), ("model_eps", "--model-eps"), ("n_basis", "--n-basis"), ("device", "--device")):
        if o.get(k) is not None:
            a += [flag, str(o[k])]
    if quiet:
        a.append("--quiet")
    return a


class Reference:
    """The library's separator for an option set, built without the command."""

    def __init__(self):
        self.u = None
        self.cache = {}

    def __call__(self, o, x):
        """Returns (signals, None) or (None, error)."""
        if self.u is None:
            self.u = universe.Universe()
        old = universe.Universe.active
        self.u.activate()
        try:
            tv = self.u.torchiva
            n_src = 1 if o.get("algo") == "five" else o["src"]
            try:
                if o["model_type"] == "nn":
                    m = zoo.MODELS[o["model"]]
                    cfg = {**m.config, "n_iter": o["n_iter"], "n_src": n_src, "proj_back_mic": o["ref"], "use_dmc": False}
                    if o.get("algo"):
                        cfg["algo"] = o["algo"]
                    s = tv.nn.BSSSeparator(**copy.deepcopy(cfg))
                    s.load_state_dict(m.sd)
                else:
                    M = tv.models
                    sm = {"laplace": lambda: M.LaplaceModel(eps=o.get("model_eps")),
                          "gauss": lambda: M.GaussModel(eps=o.get("model_eps")),
                          "nmf": lambda: M.NMFModel(n_basis=o.get("n_basis", 2), eps=o.get("model_eps"))}[o["model_type"]]()
                    s = tv.nn.BSSSeparator(n_fft=o["nfft"], n_iter=o["n_iter"], hop_length=o.get("hop"), window=o.get("win"),
                                           n_taps=o.get("taps", 0), n_delay=o.get("delay", 0), n_src=n_src,
                                           algo=o.get("algo") or "tiss", source_model=sm, proj_back_mic=o["ref"], use_dmc=False,
                                           eps=o.get("eps"))
                s.eval()
                with torch.no_grad(), torch.random.fork_rng(devices=[]):
                    y = s(x[:o["mic"]].clone())
            except Exception as e:
                return None, e
            if y.shape[-2] > n_src:
                p = y.square().mean(-1)
                y = y[torch.argsort(p, descending=True)[:n_src]]
            n = x.shape[-1]
            if y.shape[-1] < n:
                y = torch.nn.functional.pad(y, (0, n - y.shape[-1]))
            return y, None
        finally:
            if old is not None:
                old.activate()


def n_src_of(o):
    return 1 if o.get("algo") == "five" else o["src"]


def unmatched(may):
    """One input for which no output is left when every input gets one of its own; None if there is an assignment."""
    owner = {}

    def place(r, tried):
        for c in may[r]:
            if c not in tried:
                tried.add(c)
                if c not in owner or place(owner[c], tried):
                    owner[c] = r
                    return True
        return False
    for r in sorted(may):
        if not place(r, set()):
            return r
    return None


def metas(paths):
    """What the file system says about the inputs: permissions, identity, date of the content."""
    out = {}
    for p, r in paths:
        try:
            st = seams.R["stat"](p)
            out[r] = {"permissions": st.st_mode, "inode": st.st_ino, "modification time": st.st_mtime_ns}
        except OSError as e:
            out[r] = {"state": type(e).__name__}
    return out


def decode(p):
    try:
        return audio.R["load"](p)
    except Exception as e:
        return e


def close(y, ref, real):
    if y.shape != ref.shape:
        return False, "shape %s instead of %s" % (tuple(y.shape), tuple(ref.shape))
    if torch.isnan(ref).any():
        return True, ""
    d = float((y.double() - ref.double()).norm())
    n = float(ref.double().norm())
    tol = 3e-4 * n + (1e-4 * y.numel() ** 0.5 if real else 1e-7)
    return d <= tol, "relative difference %.3g" % (d / max(n, 1e-12))


def stable(ref, o, x, y):
    """Does the reference stay where it is when its input moves by rounding errors?"""
    g = torch.Generator().manual_seed(3)
    for _ in range(3):
        z, e = ref(o, x * (1 + 3e-7 * torch.randn(x.shape, generator=g)))
        if z is None or z.shape != y.shape or not close(z, y, False)[0]:
            return False
    return True


def run(prop, plan, root):
    setup_home(root)
    w = W.World(plan, root)
    w.origin = net.Origin()
    ctx = Ctx(w)
    files = copy.deepcopy(plan["files"])
    tree = Tree(w, plan, os.path.join(root, "w"), files)
    for m in NN:
        d = os.path.join(root, "models", m)
        os.makedirs(d)
        for n, b in (("model_weights.ckpt", zoo.MODELS[m].ckpt), ("model_config.yaml", zoo.MODELS[m].yaml)):
            with seams.R["open"](os.path.join(d, n), "wb") as f:
                f.write(b)
            w.origin.files[URL + m + "/" + n] = b
    faulty = {f["op"] for f in plan["faults"]}
    stats = {"ok": 0, "raise": 0, "crash": 0, "stuck": 0, "refused": 0}
    probes = {}
    ref = Reference()

    def probe(k):
        probes[k] = probes.get(k, 0) + 1

    def model_path(o):
        if o["model_type"] != "nn":
            return None
        return (URL + o["model"]) if o["where"] == "url" else os.path.join(root, "models", o["model"])

    def invoke(t, op, tr, procname):
        o = plan["opts"][op["o"]]
        inp, out, cwd = tr.args(op)
        os.chdir(cwd)
        av = argv(o, inp, out, model_path(o), op.get("quiet"))

        def fn(u):
            sep = u["separate"]
            args = sep.get_parser().parse_args(av)
            sep.main(args)

        n_fault = sum(w.fired.values())
        kind, v = call(ctx, t, op, procname, fn)
        if kind == "raise" and isinstance(v, SystemExit) and not v.code:
            kind = "ok"
        return kind, v, sum(w.fired.values()) > n_fault

    def do_run(t, op):
        o = plan["opts"][op["o"]]
        with harness():
            inputs = tree.inputs(op)
            before, meta = snap(inputs), metas(inputs)
            safe = tree.safe(op, inputs)
            tangled = tree.tangled(op, inputs)
        kind, v, faulted = invoke(t, op, tree, op.get("proc", "p"))
        stats[kind] += 1
        w.note("OUT", op["id"], kind, type(v).__name__)
        with harness():
            # C06 -- always
            after = snap(inputs)
            for r in before:
                if before[r] != after[r]:
                    how = "changed" if isinstance(after[r], bytes) else "no longer readable: " + after[r]
                    ctx.bad("C06", "input_" + how.split(":")[0].replace(" ", "_"),
                            f"{plan['layout']}: input {r} {how} after the run ended with {kind}"
                            + (f" ({type(v).__name__}: {v})" if kind == "raise" else ""))
                    break
            else:
                for r, m in metas(inputs).items():
                    if m != meta[r]:
                        what = [k for k in m if m[k] != meta[r].get(k)][0]
                        ctx.bad("C06", "input_replaced", f"{plan['layout']}: the {what} of input {r} changed while the command ran")
                        break
            if kind == "stuck":
                ctx.bad("C07", "stuck", f"the command never finished: {v}")
            if tangled:
                probe("tangled_layout")
                return
            loaded = None
            P = prop if prop in ("C07", "C08") else "C07"  # outputs that are missing, of another shape or rate break both
            if kind == "ok" and prop != "C06":
                probe("success")
                loaded = {r: decode(p) for p, r in inputs}
                outs, may = {}, {}
                root_o = tree.out_abs(op)
                if os.path.isdir(root_o) or not tree.single:
                    for b, ds, fs in os.walk(root_o):
                        for n in fs:
                            if n.endswith(".wav"):
                                p = os.path.join(b, n)
                                outs.setdefault(n, []).append(p)
                for p, r in inputs:
                    x = loaded[r]
                    if isinstance(x, Exception):
                        ctx.bad(P, "unreadable_ignored", f"success although {r} cannot be read ({x})"[:300])
                        continue
                    x, fs = x
                    if tree.single and not os.path.isdir(root_o):
                        cands = [root_o] if os.path.exists(root_o) else []
                    else:
                        inp_set = {os.path.realpath(q) for q, _ in inputs}
                        cands = [c for c in outs.get(os.path.basename(r), []) if os.path.realpath(c) not in inp_set]
                    fits, why = [], "no output file with that name"
                    for c in cands:
                        y = decode(c)
                        if isinstance(y, Exception):
                            why = f"{os.path.relpath(c, tree.base)} is not a readable wav file"
                            continue
                        y, fy = y
                        if y.shape[-1] != x.shape[-1]:
                            why = f"{os.path.relpath(c, tree.base)} has {y.shape[-1]} samples, the input {x.shape[-1]}"
                            continue
                        if fy != fs or y.shape[0] != n_src_of(o):
                            why = (f"{os.path.relpath(c, tree.base)} has {y.shape[0]} channels at {fy} Hz instead of "
                                   f"{n_src_of(o)} at {fs} Hz")
                            continue
                        fits.append((os.path.realpath(c), y))
                    if not fits:
                        ctx.bad(P, "missing_output", f"success, but input {r} has no complete output: {why}")
                        continue
                    may[r] = [c for c, _ in fits]
                    if prop in ("C07", "C08"):
                        y, e = ref(o, x)
                        if y is None:
                            probe("reference_raises")
                            ctx.bad(P, "inseparable_ignored", f"success although {r} cannot be separated ({e!r})"[:300])
                            continue
                    if prop in ("C07", "C08") and o["model_type"] != "nmf":
                        if plan["codec"] == "real" and not float(y.abs().max()) < 0.99:
                            probe("clipped")
                            continue
                        # which sub-folder an output is in is the command's business
                        res = [close(got, y, plan["codec"] == "real") for _, got in fits]
                        probe("compared")
                        if any(same for same, _ in res):
                            continue
                        if not stable(ref, o, x, y):
                            probe("ill_conditioned")  # rounding alone moves the reference as much
                            continue
                        ctx.bad(P, "output", f"the output for {r} is not what the library gives with {o}: {res[0][1]}")
                lone = unmatched(may)
                if lone is not None:
                    ctx.bad(P, "missing_output", f"success, but input {lone} has no output file of its own")
            if kind == "raise" and not faulted and safe and prop in ("C07", "C08"):
                # nothing went wrong: is there a reason to fail?
                why = None
                for p, r in inputs:
                    x = decode(p)
                    if isinstance(x, Exception):
                        why = "unreadable"
                        break
                    y, e = ref(o, x[0])
                    if y is None:
                        why = "inseparable"
                        break
                if why is None:
                    ctx.bad("C07", "needless_failure", f"the command failed with {type(v).__name__}: {v} although every input "
                                                       f"can be read and separated with {o}"[:400])
                else:
                    probe(why)
            if kind == "raise" and not safe:
                stats["refused"] += 1
            # C09
            if op.get("healthy") and prop == "C09" and o["model_type"] != "nmf":
                clean(t, op, inputs, kind, v)

    def clean(t, op, inputs, kind, v):
        if tree.plan["layout"] == "in_in_out":
            return
        base2 = os.path.join(root, "clean", "w")
        os.makedirs(os.path.dirname(base2), exist_ok=True)
        tr2 = Tree(w, dict(plan, pre=plan["pre"]), base2, files)
        op2 = dict(op, id=-1 - op["id"])
        t.harness_clean = True
        W._local.task = t  # the clean run is a simulated process like the others
        try:
            k2, v2, _ = invoke(t, op2, tr2, "clean%d" % op["id"])
        finally:
            W._local.task = None
        probe("clean_" + k2)
        if k2 == "stuck":
            return
        if k2 == "raise":
            if kind == "ok":
                probe("clean_fails_only")
            return
        if kind == "raise":
            ctx.bad("C09", "rerun_fails", f"{plan['layout']}: an undisturbed run after the disturbed ones fails with {type(v).__name__}: {v}, "
                                          "into an empty folder it succeeds")
            return
        if kind != "ok":
            return
        for p, r in tr2.inputs(op2):
            a, b = tr2.target(op2, r), tree.target(op, r)
            try:
                da = seams.R["open"](a, "rb").read()
            except OSError:
                continue
            try:
                db = seams.R["open"](b, "rb").read()
            except OSError as e:
                db = type(e).__name__
            probe("repaired_compared")
            if da != db:
                ctx.bad("C09", "not_repaired", f"{plan['layout']}: after an undisturbed rerun the output for {r} is "
                        + (f"missing ({db})" if isinstance(db, str) else f"{len(db)} bytes, different from the {len(da)} of a clean run"))
                return

    def step(t, op):
        if op["do"] == "run":
            do_run(t, op)
            if AFTER:
                AFTER(op, getattr(t, "proc", None))
        elif op["do"] == "clock":
            w.now += op["dt"]
            w.fired["clock_jump"] += 1
        elif op["do"] == "edit":
            with harness():
                f = files[op["f"] % len(files)]
                f["seed"] = op["seed"]
                f["n"] += op["dn"]
                tree.put([f])
        elif op["do"] == "fix":
            with harness():
                bad = [f for f in files if f.pop("bad", None)]
                tree.put(bad)

    def client(i):
        def fn(t):
            for op in plan["tasks"][i]:
                step(t, op)
        return fn

    def tail(t):
        for op in plan["tail"]:
            step(t, op)

    w.run([client(i) for i in range(len(plan["tasks"]))])
    if plan["tail"]:
        w.run([tail])
    if any(f.get("bad") for f in plan["files"]):
        w.fired["bad_input"] += 1
    fired = dict(w.fired)
    probe("layout_" + plan["layout"])
    return {"violations": ctx.violations, "digest": w.digest(), "fired": fired, "events": dict(w.events),
            "sim_time": abs(w.now - w.t_start), "switches": w.n_switches, "outcomes": stats, "log": w.log, "extra": probes,
            "nontrivial": bool(fired or w.n_switches or len(files) > 1 or sum(stats.values()) > 1)}


def shrink_lists(plan):
    return [("faults",), ("switches",), ("tail",), ("extra",)] + [("tasks", i) for i in range(len(plan["tasks"]))] \
        + ([("files",)] if len(plan["files"]) > 1 else [])


def simpler(plan):
    for i, o in enumerate(plan["opts"]):
        for k in ("hop", "win", "taps", "delay", "eps", "model_eps", "device"):
            if k in o:
                p = copy.deepcopy(plan)
                del p["opts"][i][k]
                if k in ("taps", "delay"):
                    p["opts"][i].pop("taps", None)
                    p["opts"][i].pop("delay", None)
                yield p
    for i, f in enumerate(plan["faults"]):
        if f.get("times"):
            p = copy.deepcopy(plan)
            del p["faults"][i]["times"]
            yield p
    for i, f in enumerate(plan["files"]):
        if f.get("bad"):
            p = copy.deepcopy(plan)
            del p["files"][i]["bad"]
            yield p
    if plan.get("codec") == "real":
        yield dict(copy.deepcopy(plan), codec="seam")


def describe(prop):
    return dict(
        rule="a run is a seeded plan: a tree of 1-5 wav files (nested, equal names, links, unusable ones), one of 23 input/output layouts, 1-2 option "
             "sets, 1-3 invocations of the command (some in the same process, some in two concurrent processes) with disk faults, codec and allocation "
             "failures, torn writes, crashes and interrupts at chosen events, edits and clock jumps in between, then for C09 one undisturbed invocation "
             "and one clean reference invocation; non-trivial if a fault fired, processes were interleaved, or several files or invocations took part; "
             "distinct by event-log hash",
        real=["torchiva.separate (parser and main), torchiva.nn and the algorithms, torchiva.loader", "torchaudio's decoder", "pathlib/os over the kernel's file system (scratch folder)",
              "torchaudio's encoder in about 6 % of the runs"],
        stub=["torchaudio.save elsewhere: float32 WAV written through the file seam", "directory order, clock, pids, entropy, network"],
        assumptions=["process-crash model: data written before the crash survives", "inputs are not changed while a run is under way",
                     "torch kernels run single-threaded"])
