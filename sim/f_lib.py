"""C10-C14: histories of library calls: one or several threads, shared objects and models, interrupts and failures at
arbitrary points, compared with the same calls made alone in a pristine copy of the library."""
import re
import contextlib
import copy
import random

import numpy as np
import torch

from . import libzoo as L
from . import ref as REF
from . import universe
from . import world as W

MAX_EVENTS = 2_000_000


def prepare(prop):
    L.install_garbage()
    u = universe.Universe()
    u.activate()
    rng = random.Random(5)
    # warm the kernels before forking; what a changed library may do wrong here is for the runs to find
    for kind in ("tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "bss"):
        with contextlib.suppress(Exception):
            plan = {"models": [], "objs": []}
            o = gen_obj(rng, plan, 5, kind, prop, "c64")
            plan["objs"].append(o)
            models, objs = REF.build(u, plan)
            REF.perform(u, objs[0], gen_call(rng, plan, 0, prop, 5, {}), models)
    # torch imports a lot lazily on first use of checkpointing, function modes and backward
    X = L.make_x(dict(shape=[2, 5, 12], dtype="c64", seed=1)).requires_grad_(True)
    with L.Points(lambda *a: None):
        with contextlib.suppress(Exception):
            m = u.torchiva.models.GLUMask(5, 4)
            u.torchiva.T_ISS(n_iter=1, model=m, use_dmc=True)(X).abs().sum().backward()
    torch.save({"a": X.detach()}, __import__("io").BytesIO())
    for n in L.FN_PATH:
        with contextlib.suppress(Exception):
            REF.perform(u, None, {"op": "fn", "fn": dict(name=n, n=3, dtype="c64", seed=1, batch=[], f=2, load=1e-5, flag=True,
                                                         pick=1), "seed": 0}, [])
    L.set_modes()


# ------------------------------------------------------------------------------------ generation
def gen_model(rng, plan, nf, kinds, dt, prop):
    if plan["models"] and rng.random() < 0.45:  # share a model between objects
        ok = [i for i, m in enumerate(plan["models"])
              if m["kind"] in kinds and m.get("n_freq", nf) == nf and (m.get("dtype", "c64") == dt or "n_freq" not in m)]
        if ok:
            return rng.choice(ok)
    k = rng.choice(kinds)
    m = {"kind": k, "seed": rng.randrange(1000)}
    train = prop not in ("C12",) and rng.random() < 0.3
    if k in ("laplace", "gauss"):
        m["eps"] = rng.choice([None, None, 1e-3, 1e-1])
    if k in ("nmf", "user_nmf", "smooth_nmf", "gain_nmf", "wrap_nmf"):
        m["n_basis"] = rng.choice([1, 2, 3])
    if k in ("glu", "blstm", "simple", "mask", "user_mask", "user_drop", "state_mask"):
        m["n_freq"] = nf
        if dt == "c128":
            m["dtype"] = dt
    if k in ("glu", "blstm", "mask", "user_drop"):
        m["p"] = rng.choice([0.0, 0.3, 0.5])
        m["train"] = train
    if k == "user_drop" and prop != "C12":
        m["always"] = rng.random() < 0.3
    if k == "glu":
        m["nb"] = rng.choice([3, 4, nf + 2])
        m["mag"] = rng.random() < 0.7
        m["log"] = rng.random() < 0.7
        m["sub"] = rng.choice([1, 1, 2])
    if k == "blstm":
        m["mag"] = rng.random() < 0.7
        m["log"] = rng.random() < 0.5
    if k in ("mask", "user_mask", "state_mask"):
        m["n_src"] = rng.choice([1, 2])
        m["n_masks"] = rng.choice([2, 2, 3, 4, 4])
    if k in ("laplace", "gauss", "nmf", "user_nmf", "user_state", "user_wpe", "user_mask", "user_state_wpe", "smooth_nmf"):
        m["train"] = rng.random() < 0.5  # the mode makes no difference to these
    if prop not in ("C13",) and rng.random() < 0.12:
        m["frozen"] = True  # requires_grad off
    plan["models"].append(m)
    return len(plan["models"]) - 1


def kinds_for(kind, prop, algo=None):
    if kind in L.MASKED or (kind == "bss" and algo in L.MASKED):
        if kind == "bss" and prop == "C13":
            return ["state_mask"]
        return ["mask", "mask", "user_mask"] + (["state_mask"] if kind == "bss" and prop == "C10" else [])
    if kind == "wpe":
        if prop == "C13":
            return ["user_state_wpe", "user_nmf_wpe"]
        return ["user_wpe"] if prop == "C12" else ["user_wpe", "user_state_wpe"]
    if prop == "C13":
        return ["nmf", "nmf", "user_state", "user_state", "user_nmf", "global:nmf", "smooth_nmf", "smooth_nmf", "gain_nmf"] + \
            (["plain_state", "wrap_nmf"] if kind != "bss" else [])
    det = ["laplace", "gauss", "user_fn", "global:laplace", "global:gauss"]
    if kind == "bss" or kind == "tiss":
        det = ["laplace", "gauss", "global:laplace"] + (["user_fn"] if kind == "tiss" else [])
    if not (kind == "five" or (kind == "bss" and algo == "five")):
        det += ["glu", "glu", "blstm", "simple", "user_drop"]
    if prop == "C12":
        return det
    return det + ["nmf", "user_state", "global:nmf", "gain_nmf"]


def gen_obj(rng, plan, nf, kind, prop, dt):
    o = {"kind": kind, "kw": {}, "seed": rng.randrange(1000)}
    kw = o["kw"]
    eps = rng.choice([None, None, 1e-5, 1e-3])
    algo = None
    if kind == "tiss":
        kw.update(n_iter=rng.choice([1, 1, 2, 3, 0]), n_src=rng.choice([None, None, 2, 1, 2]), eps=eps,
                  proj_back_mic=rng.choice([0, 0, 1, None]), n_taps=rng.choice([0, 0, 1, 2]), use_dmc=rng.random() < (0.3 if prop == "C12" else 0.2))
        kw["n_delay"] = rng.choice([0, 1, 2]) if kw["n_taps"] else 0
    elif kind == "ip":
        kw.update(n_iter=rng.choice([1, 2]), n_src=rng.choice([1, 2, 2]), eps=eps, proj_back_mic=rng.choice([0, 0, 1, None]))
    elif kind == "ip2":
        kw.update(n_iter=rng.choice([1, 2, 0]), eps=eps, proj_back_mic=rng.choice([0, 0, 1, None]))
    elif kind == "five":
        kw.update(n_iter=rng.choice([1, 2, 3]), eps=eps, proj_back_mic=rng.choice([0, 1]), n_power_iter=rng.choice([None, None, 3, 2]))
    elif kind == "wpe":
        kw.update(n_iter=rng.choice([1, 2, 3]), n_taps=rng.choice([1, 2]), n_delay=rng.choice([0, 1, 2]), eps=eps or 1e-5)
    elif kind in L.MASKED:
        kw.update(ref_mic=rng.choice([0, 0, 1]), eps=eps or 1e-5)
        if kind == "mvdr":
            kw.update(mvdr_type=rng.choice(["rtf", "rtf", "scm"]), n_power_iter=rng.choice([None, None, 3]))
        if kind == "mwf":
            kw.update(time_invariant=rng.choice([True, False]))
    elif kind == "stft":
        kw.update(n_fft=2 * (nf - 1), hop_length=rng.choice([None, nf - 1, (nf - 1) // 2]), window=rng.choice([None, "hamming", "hann"]))
        o.update(dt=dt, nf=nf)
        if dt == "c128":
            o[rng.choice(["double", "built_double"])] = True
        return o
    elif kind == "bss":
        algo = rng.choice(["tiss", "tiss", "ip2", "five", "mvdr", "mwf", "gev"])
        kw.update(n_fft=2 * (nf - 1), hop_length=rng.choice([None, nf - 1]), n_iter=rng.choice([1, 2, 3]), algo=algo,
                  n_src=rng.choice([None, 2]), proj_back_mic=rng.choice([0, 0, 1]), eps=rng.choice([1e-5, 1e-3]))
        if algo == "tiss":
            kw.update(n_taps=rng.choice([0, 0, 1]), n_delay=rng.choice([0, 1]))
        if algo in ("five", "mvdr"):
            kw.update(n_power_iter=rng.choice([None, 3]))
    ks = kinds_for(kind, prop, algo)
    if kind in L.MASKED or kind == "bss" or prop == "C13" or rng.random() < 0.85:
        k2 = [k for k in ks if k != "user_nmf_wpe"] or ks
        if kind == "wpe" and "user_nmf_wpe" in ks and rng.random() < 0.4:
            plan["models"].append({"kind": "user_nmf", "reduce": True, "seed": rng.randrange(1000), "wpe": True})
            o["model"] = len(plan["models"]) - 1
        else:
            o["model"] = gen_model(rng, plan, nf, k2, dt, prop)
    if kind in ("mvdr", "mwf", "gev", "bss") or o.get("model") is None:
        pass
    o["train"] = bool(o.get("model") is not None and plan["models"][o["model"]].get("train"))
    if rng.random() < 0.6:
        o["own"] = rng.random() < 0.75
    o["dt"] = dt
    o["nf"] = nf
    o["algo"] = algo
    if dt == "c128" and (kind == "bss" or rng.random() < 0.4):
        # the whole object is converted, or it was built while double precision was the default
        o["built_double" if kind == "bss" and rng.random() < 0.5 else "double"] = True
    return o


def overrides(rng, plan, oi, prop):
    o = plan["objs"][oi]
    k = o["kind"]
    pool = {}
    if k == "tiss":
        pool = dict(n_iter=[1, 2, 3], n_taps=[1, 2], n_delay=[1, 2], n_src=[1, 2, 2, 3], proj_back_mic=[0, 1],
                    eps=[1e-4, 1e-2])
        pool["use_dmc"] = [True]
    elif k == "ip":
        pool = dict(n_iter=[1, 2], n_src=[1, 2, 3], proj_back_mic=[0, 1], eps=[1e-4, 1e-2])
    elif k == "ip2":
        pool = dict(n_iter=[1, 2], proj_back_mic=[0, 1, 5], eps=[1e-4, 1e-2])
    elif k == "five":
        pool = dict(n_iter=[1, 2, 3], proj_back_mic=[0, 1], eps=[1e-4], n_power_iter=[2, 3])
    elif k == "wpe":
        pool = dict(n_iter=[1, 2, 3], n_taps=[1, 2, 3], n_delay=[1, 2], eps=[1e-4, 1e-2])
    elif k in L.MASKED:
        pool = dict(ref_mic=[0, 1], eps=[1e-4, 1e-2])
        if k == "mvdr":
            pool.update(mvdr_type=["rtf", "scm"], n_power_iter=[2, 3])
        if k == "mwf":
            pool.update(time_invariant=[True, False])
    kw = {}
    for key in sorted(pool):
        if rng.random() < 0.4:
            kw[key] = rng.choice(pool[key])
    if k in L.CLASSES and rng.random() < 0.35:  # a model for this call only
        key = "mask_model" if k in L.MASKED else "model"
        ks = [x for x in kinds_for(k, prop) if x != "user_nmf_wpe"]
        kw[key] = gen_model(rng, plan, o["nf"], ks, o["dt"], prop)
    return kw


def gen_x(rng, o, bufs=None):
    dt = o.get("dt", "c64")
    nf = o["nf"] if "nf" in o else 5
    k = o["kind"]
    n_chan = rng.choice([2, 2, 2, 3])
    if k == "ip2" or o.get("algo") == "ip2":
        n_chan = 2 if rng.random() < 0.95 else 3
    batch = rng.choice([[], [], [], [1], [2]])
    x = {"dtype": dt, "seed": rng.randrange(100000), "scale": rng.choice([1.0, 1.0, 0.1, 3.0]),
         "layout": rng.choice([None, None, None, "t", "slice"])}
    if k in ("bss", "stft"):
        x["time"] = 1
        x["shape"] = batch + [n_chan, rng.choice([60, 73, 90])]
    else:
        x["shape"] = batch + [n_chan, nf, rng.choice([12, 14, 17, 20])]
    return x


def widen(rng, plan):
    """Sizes and values away from the usual ones: more iterations, taps, channels, frames, batch dimensions; silence, extreme levels."""
    for o in plan["objs"]:
        kw = o["kw"]
        if "n_iter" in kw and rng.random() < 0.4:
            kw["n_iter"] = rng.choice([4, 5, 7])
        if kw.get("n_taps") and rng.random() < 0.3:
            kw["n_taps"] = rng.choice([3, 5])
            kw["n_delay"] = rng.choice([1, 3])
        if kw.get("n_src") and o["kind"] in ("tiss", "ip") and rng.random() < 0.3:
            kw["n_src"] = 3
    for op in [op for c in plan["clients"] for op in c]:
        if op["op"] == "fn":
            if rng.random() < 0.5:
                op["fn"]["special"] = rng.choice(["zero", "rank1", "negload", "tiny", "huge", "eye"])
            if rng.random() < 0.3:
                op["fn"]["n"] = 4
            continue
        if op["op"] != "call":
            continue
        x, o = op["x"], plan["objs"][op["obj"]]
        sh = x["shape"]
        if rng.random() < 0.5:
            if x.get("time"):
                sh[-1] = rng.choice([33, 64, 128, 200, 301])
            else:
                sh[-1] = rng.choice([2, 6, 8, 9, 32, 33, 64, 100])
        if rng.random() < 0.25 and not op.get("inv") and o["kind"] != "ip2" and o.get("algo") != "ip2":
            sh[-2 if x.get("time") else -3] = rng.choice([4, 5, 1])
        if rng.random() < 0.3:
            k = 2 if x.get("time") or op.get("inv") else 3
            if op.get("inv"):
                k = 3
            x["shape"] = rng.choice([[3], [2, 2], [1, 1], [5], [8], [3, 3], [12]]) + sh[-k:]
        if rng.random() < 0.3:
            x["scale"] = rng.choice([1e-4, 1e-2, 50.0, 1e3, 0.0])
        elif rng.random() < 0.2:
            x["quiet"] = rng.choice(["channel", "frames", "alike"])
        if op.get("kw") and rng.random() < 0.4:
            for k, v in (("n_iter", [4, 6, 0]), ("n_taps", [4]), ("n_delay", [4, 0]), ("n_src", [4, 3]), ("proj_back_mic", [2, 3, -1]), ("ref_mic", [2, -1]),
                         ("eps", [1e-8, 1e-1]), ("n_power_iter", [7])):
                if k in op["kw"] and rng.random() < 0.5:
                    op["kw"][k] = rng.choice(v)
    for m in plan["models"]:
        if "n_basis" in m and rng.random() < 0.3:
            m["n_basis"] = rng.choice([4, 6])


def gen_call(rng, plan, oi, prop, nf, bufs, kw=None):
    o = plan["objs"][oi]
    op = {"op": "call", "obj": oi, "seed": rng.randrange(10000)}
    o.setdefault("nf", nf)
    x = gen_x(rng, o)
    if o["kind"] == "stft" and rng.random() < 0.4:
        op["inv"] = True
        x = {"dtype": x["dtype"], "seed": x["seed"], "shape": x["shape"][:-1] + [o["nf"], 12], "scale": 1.0}
    if rng.random() < 0.07:  # a signal of another precision than the object's
        x["dtype"] = "c128" if x["dtype"] == "c64" else "c64"
    op["x"] = x
    if o["kind"] not in ("bss", "stft"):
        op["kw"] = kw if kw is not None else (overrides(rng, plan, oi, prop) if rng.random() < 0.5 else {})
    op["grad"] = rng.choice(["no", "no", "yes", "yes", "inf"])
    if op["grad"] == "yes" and rng.random() < 0.6:
        op["back"] = True
        if prop in ("C11", "C12"):
            op["gx"] = True
    return op


def gen_fn(rng):
    return {"op": "fn", "seed": rng.randrange(10000),
            "fn": dict(name=rng.choice(sorted(L.FN_PATH)), n=rng.choice([2, 2, 3]), dtype=rng.choice(["c64", "c64", "c128"]),
                       seed=rng.randrange(100000), batch=rng.choice([[], [], [2]]), f=rng.choice([1, 3, 4]),
                       load=rng.choice([1e-6, 1e-5, 1e-2]), flag=rng.random() < 0.5, pick=rng.randrange(12))}


def log_int(rng, hi):
    return int(round(np.exp(rng.random() * np.log(hi)))) - 1


def gen_faults(rng, ids, p, hi=250):
    out = []
    for i in ids:
        if rng.random() < p:
            out.append({"op": i, "kind": rng.choice(["torch", "torch", "torch", "enter"]), "nth": log_int(rng, hi),
                        "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "RuntimeError", "MemoryError",
                                           "OutOfMemoryError", "LinAlgError"]),
                        "when": rng.choice(["before", "after"])})
            if out[-1]["kind"] == "enter":
                out[-1]["nth"] = log_int(rng, 60)
            if rng.random() < 0.25:
                out[-1].update(kind="hot", nth=log_int(rng, 30))
    return out


def gen(prop, rng, tier):
    if prop == "C14" and rng.random() < 0.12:  # calls that overlap in several threads: nothing may stay behind
        plan = gen_plan("C12", rng, tier)
        ids = [o["id"] for c in plan["clients"] for o in c]
        if rng.random() < 0.5:
            plan["faults"] = gen_faults(rng, ids, 0.4)
        if rng.random() < 0.4:  # one starts before and ends before the other
            plan["switches"] = sorted([log_int(rng, 400), rng.randrange(4)] for _ in range(rng.choice([2, 3, 5])))
            plan.pop("hot", None)
        plan["both"] = True
        if rng.random() < 0.3:
            widen(rng, plan)
        return plan
    plan = gen_plan(prop, rng, tier)
    if rng.random() < 0.3:
        widen(rng, plan)
    if prop in ("C10", "C11", "C13", "C14") and rng.random() < 0.15:
        sweep(rng, plan, prop)
    return plan


def sweep(rng, plan, prop):
    """One call fails over and over, at another point each time; undisturbed calls in between."""
    calls = [o for o in plan["clients"][0] if o["op"] == "call"]
    if prop == "C11":
        calls = [o for o in calls if o.get("kw")] or calls
    if not calls:
        return
    op = rng.choice(calls)
    far = rng.choice([20, 60, 150, 400])
    names = rng.choice([None, None, ["KeyboardInterrupt"], ["MemoryError"], ["LinAlgError"]])
    ops, plan["faults"] = [], []
    for i in range(0, 2 * rng.choice([3, 5, 7]), 2):
        bad, good = copy.deepcopy(op), copy.deepcopy(op if rng.random() < 0.7 else rng.choice(calls))
        bad["id"], good["id"] = i, i + 1
        good["x"]["seed"] = rng.randrange(100000)
        if "kw" in good and (prop == "C11" or rng.random() < 0.5):
            good["kw"] = {}
        ops += [bad, good] if prop != "C14" else [bad]
        fs = gen_faults(rng, [i], 1.0, far)[:1]
        plan["faults"] += [dict(f, exc=rng.choice(names)) for f in fs] if names else fs
    plan["clients"] = [ops]


def gen_plan(prop, rng, tier):
    plan = {"models": [], "objs": [], "clients": [], "faults": [], "switches": [], "garbage": rng.randrange(1 << 30)}
    nf = rng.choice([5, 5, 5, 9, 9, 17] if rng.random() < 0.97 else [33])
    dt = rng.choice(["c64", "c64", "c64", "c128"])
    kinds = ["tiss", "tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "bss", "bss"]
    if prop == "C13":
        kinds = ["tiss", "ip", "ip2", "five", "wpe", "bss", "bss"]
    if prop == "C11":
        kinds = [k for k in kinds if k != "bss"]
    if prop in ("C10", "C12", "C14"):
        kinds = kinds + ["stft"]
    n_obj = rng.choice([1, 2, 2, 3])
    if prop == "C12":
        n_obj = rng.choice([1, 1, 1, 2])
    for _ in range(n_obj):
        odt = dt if rng.random() < 0.8 else rng.choice(["c64", "c128"])
        plan["objs"].append(gen_obj(rng, plan, nf, rng.choice(kinds), prop, odt))
    if rng.random() < 0.2:  # an object built twice the same way, with a model of its own when it has one
        o = copy.deepcopy(rng.choice(plan["objs"]))
        if o.get("model") is not None and rng.random() < 0.7:
            plan["models"].append(copy.deepcopy(plan["models"][o["model"]]))
            o["model"] = len(plan["models"]) - 1
        plan["objs"].append(o)
    pair = prop == "C10" and rng.random() < 0.12
    if pair:  # two transforms of the same kind; a stored state is loaded into one
        d2 = rng.choice(["c64", "c128"])
        o = gen_obj(rng, plan, nf, rng.choice(["stft", "stft", "bss"]), prop, d2)
        o2 = copy.deepcopy(o)
        if rng.random() < 0.3:
            o2["kw"]["hop_length"] = nf - 1
        plan["objs"] += [o, o2]
    n_ops = rng.choice([2, 3, 4, 5, 6]) if tier == "quick" else rng.choice([2, 4, 6, 8, 10])
    if rng.random() < 0.06:
        n_ops = 14
    uid = [0]

    def add(ops, op):
        op["id"] = uid[0]
        uid[0] += 1
        ops.append(op)
        return op

    if prop == "C12":
        n_cl = rng.choice([2, 2, 3])
        alike = rng.random() < 0.3  # the clients run the same kind of call with other data and parameters
        base = None
        for _ in range(n_cl):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.12:
                    add(ops, gen_fn(rng))
                    continue
                oi = rng.randrange(len(plan["objs"]))
                op = gen_call(rng, plan, oi, prop, nf, {})
                if plan["objs"][op["obj"]]["kw"].get("use_dmc") or (op.get("kw") or {}).get("use_dmc"):
                    op.pop("back", None)
                if alike and base is not None and base["obj"] == op["obj"] and "kw" in op:
                    op["x"]["shape"] = list(base["x"]["shape"])
                base = base or op
                add(ops, op)
            plan["clients"].append(ops)
        plan["opcodes"] = rng.random() < 0.15
        total = 230 * sum(len(c) for c in plan["clients"]) * (7 if plan["opcodes"] else 1)
        n_sw = rng.choice([1, 2, 3, 5, 8, 15, 40])
        mode = rng.random()
        steps = set()
        for _ in range(n_sw):
            if mode < 0.5:
                steps.add(rng.randrange(1, total))
            else:
                steps.add(1 + log_int(rng, total))
        if mode > 0.9:  # fine round robin over a window
            a = rng.randrange(1, total // 2)
            steps |= set(range(a, a + rng.choice([20, 60, 120]), rng.choice([1, 2, 3])))
        plan["switches"] = [[s, rng.randrange(4)] for s in sorted(steps)]
        if rng.random() < 0.65:  # right after stores into something that may be shared
            ids = [o["id"] for c in plan["clients"] for o in c]
            plan["hot"] = sorted([rng.choice(ids), log_int(rng, rng.choice([4, 8, 16, 40])), rng.randrange(4)]
                                 for _ in range(rng.choice([1, 2, 3, 6])))
            q = rng.choice([0, 0, 0.15, 0.4, 1])
            if q:
                plan["hot"] = [[i, n, rng.randrange(4)] for i in ids for n in range(24) if rng.random() < q]
            if rng.random() < 0.6:
                plan["switches"] = plan["switches"][:rng.choice([0, 1, 2])]
        plan["faults"] = gen_faults(rng, [o["id"] for c in plan["clients"] for o in c], 0.1)
        return plan

    ops = []
    if prop == "C11":
        for _ in range(max(1, n_ops // 2)):
            oi = rng.randrange(len(plan["objs"]))
            for _ in range(10):
                kw = overrides(rng, plan, oi, prop)
                if kw:
                    break
            op = gen_call(rng, plan, oi, prop, nf, {}, kw=kw)
            add(ops, op)
            if rng.random() < 0.8:
                op = gen_call(rng, plan, oi if rng.random() < 0.8 else rng.randrange(len(plan["objs"])), prop, nf, {}, kw={})
                add(ops, op)
        plan["clients"] = [ops]
        plan["faults"] = gen_faults(rng, [o["id"] for o in ops], 0.35)
        return plan

    only_fn = prop in ("C10", "C14") and rng.random() < 0.12  # cheap: many calls of the stand-alone functions
    if only_fn:
        plan["models"], plan["objs"] = [], []
        pool = rng.sample(sorted(L.FN_PATH), rng.choice([1, 3, 8]))
        for _ in range(rng.choice([12, 20, 30])):
            op = gen_fn(rng)
            op["fn"]["name"] = rng.choice(pool)
            if rng.random() < 0.5:
                op["fn"]["special"] = rng.choice(["zero", "rank1", "negload", "negload", "tiny", "huge", "eye"])
            add(ops, op)
        n_ops = 0
    dts = {}
    for _ in range(n_ops):
        r = rng.random()
        if r < 0.10 and prop in ("C10", "C14"):
            add(ops, gen_fn(rng))
        elif r < 0.16 and prop == "C10":
            add(ops, {"op": "perturb", "seed": rng.randrange(1000)})
            if plan["models"] and rng.random() < 0.5:
                ops[-1]["model"] = rng.randrange(len(plan["models"]))
            wins = [i for i, o in enumerate(plan["objs"]) if o["kind"] in ("stft", "bss")]
            if wins and rng.random() < 0.6:
                ops[-1]["win"] = rng.choice(wins)
        elif r < 0.22 and prop == "C10":
            add(ops, {"op": "mode", "obj": rng.randrange(len(plan["objs"])), "train": rng.random() < 0.5})
        elif r < 0.27 and prop == "C10":
            add(ops, {"op": "scribble", "value": rng.choice([0.0, 7.0])})
        elif r < 0.30 and prop == "C10":
            add(ops, {"op": "defdtype", "double": rng.random() < 0.7})
        elif r < 0.33 and prop == "C10" and plan["objs"]:
            # the whole object, its model included, is converted; most later calls come in the new precision
            i = rng.randrange(len(plan["objs"]))
            dts.setdefault(i, plan["objs"][i]["dt"])
            plan["objs"][i]["dt"] = "c64" if plan["objs"][i]["dt"] == "c128" else "c128"
            add(ops, {"op": "cast", "obj": i, "to": plan["objs"][i]["dt"]})
        else:
            prev = [o for o in ops if o["op"] == "call"]
            if prev and rng.random() < 0.45:  # same object and shape, other data or parameters
                first = rng.choice(prev)
                op = copy.deepcopy(first)
                q = rng.random()
                if q < 0.5:
                    op["x"]["seed"] = rng.randrange(100000)
                    if q < 0.15 and not op.get("back"):  # in the same place
                        first["buf"] = op["buf"] = "raw"
                elif q < 0.7:
                    op["x"]["dtype"] = "c128" if op["x"]["dtype"] == "c64" else "c64"
                elif q < 0.85 and "kw" in op:
                    op["kw"] = overrides(rng, plan, op["obj"], prop)
                if rng.random() < 0.4:
                    op["grad"] = rng.choice(["no", "yes", "inf"])
                    op.pop("back", None)
                if rng.random() < 0.4:
                    op["obj"] = rng.choice([i for i, o in enumerate(plan["objs"])
                                            if o["kind"] == plan["objs"][op["obj"]]["kind"]])
            else:
                op = gen_call(rng, plan, rng.randrange(len(plan["objs"])), prop, nf, {})
            if rng.random() < 0.4 and not op.get("back"):
                op["buf"] = rng.choice([1, "raw"])  # the caller reuses one input buffer per shape and type
            add(ops, op)
    if pair and plan["objs"]:
        n = len(plan["objs"])
        uid[0] += 1
        ops.insert(rng.randrange(len(ops) + 1), {"op": "perturb", "seed": rng.randrange(1000), "win": n - rng.choice([1, 2]), "id": uid[0]})
        for i in rng.sample([n - 2, n - 1], 2):
            add(ops, gen_call(rng, plan, i, prop, nf, {}))
    for i, dt in dts.items():
        plan["objs"][i]["dt"] = dt
    plan["clients"] = [ops]
    p = {"C10": 0.25, "C13": 0.35, "C14": 0.35}[prop]
    plan["faults"] = gen_faults(rng, [o["id"] for o in ops if o["op"] in ("call", "fn")], p)
    if prop == "C14":
        plan["watch"] = rng.random() < 0.75
        plan["threads"] = rng.choice([1, 1, 2, 3])
    return plan


# ------------------------------------------------------------------------------------ running
PARAMS = ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps", "n_power_iter", "ref_mic", "mvdr_type",
          "time_invariant", "algo", "n_fft", "hop_length", "n_freq")


def read_params(obj):
    out = {}
    for k in PARAMS:
        if hasattr(obj, k):
            out[k] = getattr(obj, k)
    for k in ("model", "mask_model", "source_model"):
        if hasattr(obj, k):
            out[k] = id(getattr(obj, k))
    return out


class Run:
    def __init__(self, prop, plan, root):
        self.prop = prop
        self.plan = plan
        self.w = W.World(plan, root, max_events=MAX_EVENTS)
        self.violations = []
        self.outcomes = {}
        self.extra = {}
        self.results = []
        self.bufs = {}
        self.defdtype = False
        self.casts, self.mcasts = {}, {}
        self.struck = {}
        self.hot = {(o, n): tgt for o, n, tgt in plan.get("hot", [])}
        self.armed = None
        self.moved = []
        self.keep_error = prop == "C21"

    def bad(self, cls, msg):
        self.violations.append({"property": self.prop, "cls": cls, "msg": msg})
        self.w.note("VIOLATION", cls, msg)

    def count(self, d, k, n=1):
        d[k] = d.get(k, 0) + n

    # -- points
    def tick(self, kind, detail=""):
        """A point inside a library call.  Cheap version of World.event."""
        w = self.w
        t = W.current()
        w.step += 1
        if w.step > w.max_events:
            raise W.StepLimit("event budget used up")
        w.events[kind] += 1
        w.now += 1e-5
        if kind in ("line",):
            if w.step in w.switches:
                w.maybe_switch(t)
            return None
        n = w.kind_seen[t.op, kind]
        w.kind_seen[t.op, kind] += 1
        if kind == "hot":
            tgt = self.hot.get((t.op, n))
            if tgt is not None:
                w.maybe_switch(t, tgt)
            self.armed = w.kind_faults.get((t.op, kind, n)) or self.armed
            return None
        f = w.kind_faults.get((t.op, kind, n))
        if f is None and w.lasting:
            g = w.lasting.get((t.op, kind))
            if g is not None and g["nth"] <= n < g["nth"] + g["times"]:
                f = g
        if kind == "torch" and self.armed is not None and self.armed["op"] == t.op:
            f, self.armed = self.armed, None  # the first tensor operation after a chosen store
        if f is not None:
            w.fired[f["exc"] + "@" + kind] += 1
            self.struck[t.op] = True
            w.note("fault", t.op, kind, n, f["exc"], detail)
        return f

    def enter(self, frame):
        f = self.tick("enter", frame.f_code.co_name)
        if f is not None:
            raise L.EXC[f["exc"]]("simulated: " + f["exc"])

    # -- one call
    def describe(self, op):
        if op["op"] == "fn":
            return op["fn"]["name"]
        o = self.plan["objs"][op["obj"]]
        m = o.get("model")
        s = L.CLASSES.get(o["kind"], {"bss": f"BSSSeparator[{o['kw'].get('algo')}]", "stft": "STFT"}.get(o["kind"]))
        if m is not None:
            s += f" with {self.plan['models'][m]['kind']} model"
        if op.get("kw"):
            s += " and per-call " + ", ".join(sorted(op["kw"]))
        return s

    def live_input(self, op):
        X = REF.inputs(self.u, op)
        if op.get("buf"):
            key = (tuple(X.shape), X.dtype, op["x"].get("layout"))
            b = self.bufs.get(key)
            if b is None:
                self.bufs[key] = X
            else:
                if op["buf"] == "raw":  # as a recording library does: without torch's knowledge
                    b.numpy()[...] = X.numpy()
                else:
                    b.copy_(X)
                X = b
        return X

    def exec(self, t, op, trace=None, points=True, only_input=False):
        """Make the call in the simulated history.  Returns ("ok", tensors) / ("exc", type) / ("fault", type)."""
        t.op = op["id"]
        obj = self.objs.get(op.get("obj"))
        X = self.live_input(op)
        fn = None
        if op["op"] == "fn":
            fn = L.find_fn(self.u, op["fn"]["name"])
            if fn is None:
                return ("exc", "missing"), None, X
        REF.seed(op.get("seed", 0))
        self.struck[op["id"]] = False
        has_fault = any(f["op"] == op["id"] for f in self.plan["faults"])
        y = None
        if self.before is not None:
            self.before(op, obj, X)
        import contextlib
        try:
            with contextlib.ExitStack() as st:
                st.enter_context(L.context(op))
                if op.get("back"):
                    X = X.detach().clone().requires_grad_(True)
                on_line = trace
                if has_fault and points:
                    st.enter_context(L.Points(self.tick))
                hot = (lambda frame: self.tick("hot", "")) if self.hot or (points and any(
                    f["op"] == op["id"] and f.get("kind") == "hot" for f in self.plan["faults"])) else None
                if on_line is not None or (has_fault and points) or hot is not None:
                    st.enter_context(L.Tracer(on_line, self.enter if has_fault else None, self.plan.get("opcodes", False), hot))
                if self.prop == "C14":
                    m0 = L.modes()
                    try:
                        y = L.make_call(obj, op, X, self.models, fn)
                    finally:
                        m1 = L.modes()
                        self.moved = [(k, m0[k], m1[k]) for k in m0 if m0[k] != m1[k]]
                else:
                    y = L.make_call(obj, op, X, self.models, fn)
                gs = L.grads_of(y, X, L.params_of(obj, op, self.models), only_input) if op.get("back") else []
                gs = gs[:1] if op.get("gx") else gs
            r = ("ok", L.detach(L.flat(y)) + L.detach(gs))
        except W.StepLimit:
            raise
        except (Exception, KeyboardInterrupt) as e:
            r = ("exc", type(e).__name__)
            self.error = e if self.keep_error else None
        self.raw = r
        if self.struck[op["id"]]:
            r = ("fault", r[1] if r[0] == "exc" else "returned")
        self.w.note("call", t.idx, op["id"], r[0], r[1] if r[0] != "ok" else len(r[1]))
        self.count(self.outcomes, ("call " if op["op"] == "call" else "function ") + (r[0] if r[0] != "exc" else "raised"))
        return r, y, X

    def ask(self, op, merge=None, perturb=None, ws=None, mtrain=None, otrain=None, win=None):
        obj = self.objs.get(op.get("obj"))
        return self.ref.ask(plan=self.rplan, op={k: v for k, v in op.items() if k != "buf"},
                            weights=ws if ws is not None else REF.weights(self.models),
                            win=win if win is not None else REF.windows(obj),
                            mtrain=mtrain if mtrain is not None else REF.training(self.models),
                            otrain=otrain if otrain is not None else (
                                REF.training([obj]) if isinstance(obj, torch.nn.Module) else None),
                            casts=(self.casts.get(op.get("obj")), dict(self.mcasts)),
                            defdtype=self.defdtype, merge=merge, perturb=perturb)

    def judge(self, op, r, kw, cls="differs", merge=None):
        """Compare a call that was not disturbed with the same call made alone."""
        e = self.ask(op, merge=merge, **kw)
        self.count(self.extra, "compared_calls")
        if e == ("exc", "missing"):
            return
        what = self.describe(op)
        if r[0] != e[0]:
            if merge is not None and "exc" in (r[0], e[0]):
                pass
            self.bad(cls, f"{what}: in this history it {word(r)}, alone it {word(e)}")
            return
        if r[0] == "exc":
            if r[1] != e[1]:
                self.bad(cls, f"{what}: in this history it raises {r[1]}, alone {e[1]}")
            return
        d = L.diff(r[1], e[1])
        if d <= L.tol(e[1]):
            return
        if d != float("inf") or same_shapes(r[1], e[1]):
            # is the result that sensitive to rounding?
            s = 0.0
            for seed in (1, 2, 3):
                p = self.ask(op, merge=merge, perturb=seed, **kw)
                s = max(s, L.diff(p[1], e[1]) if p[0] == "ok" else float("inf"))
            if d <= 100 * s:
                self.count(self.extra, "ill_conditioned_skipped")
                return
        self.bad(cls, f"{what}: result differs from that of the same call made alone (relative difference {d:.2g})")

    # -- whole run
    def go(self):
        self.ref = REF.SERVER
        self.rplan = {k: self.plan[k] for k in ("models", "objs", "garbage")}
        if True:
            L.set_garbage(self.plan["garbage"])
            torch.set_num_threads(self.plan.get("threads", 1))
            self.u = universe.Universe()
            self.u.activate()
            self.models, self.objs = REF.build(self.u, self.plan)
            self.before = None
            proc = W.Proc(self.w, "p", self.u)
            body = {"C10": self.body10, "C11": self.body11, "C12": self.body12, "C13": self.body13, "C14": self.body14}[self.prop]
            if self.plan.get("both"):
                body = self.body12
                self.watched = []
                self.before14({"op": "fn", "seed": 1}, None, ([], {}))
                m0 = L.modes()

            def client(ops):
                def fn(t):
                    t.proc = proc
                    body(t, ops)
                return fn
            self.w.run([client(ops) for ops in self.plan["clients"]])
            if self.prop == "C12":
                self.after12()
            if self.plan.get("both"):
                m1 = L.modes()
                self.moved = [(k, m0[k], m1[k]) for k in m0 if m0[k] != m1[k]]
                self.count(self.extra, "overlapping_calls", len(self.results))
                for name, was, now in self.state_diff({"op": "fn"}):
                    if name != "random_state":
                        self.bad(name, f"after calls that overlapped in {len(self.plan['clients'])} threads, {was}" + (f" ({now})" if now else ""))
            if self.prop == "C10":
                self.returned_results()
        w = self.w
        n_cmp = self.extra.get("compared_calls", 0)
        return {"violations": self.violations, "digest": w.digest(), "fired": dict(w.fired), "events": dict(w.events),
                "outcomes": self.outcomes, "extra": self.extra, "sim_time": w.now - w.t_start, "switches": w.n_switches,
                "nontrivial": (w.n_switches > 0) if self.prop == "C12" else
                (n_cmp > 0 and (sum(len(c) for c in self.plan["clients"]) > 1 or bool(w.fired))), "log": w.log}

    # -- C10
    def body10(self, t, ops):
        for op in ops:
            k = op["op"]
            if k == "perturb":
                self.perturb(op)
            elif k == "mode":
                o = self.objs.get(op["obj"])
                if o is not None:
                    o.train(op["train"])
            elif k == "scribble":
                for _, y, _, _ in self.results[-1:]:
                    for v in L.flat(y):
                        if not v.requires_grad and not v.is_inference():
                            with torch.no_grad():
                                v.fill_(op["value"])
                    self.results.pop()
            elif k == "cast":
                o = self.objs.get(op["obj"])
                if o is not None:
                    self.to(o, op["to"])
                    self.casts[op["obj"]] = op["to"]
                    mi = self.plan["objs"][op["obj"]].get("model")
                    if mi is not None and isinstance(self.models[mi], torch.nn.Module):
                        self.mcasts[mi] = op["to"]
            elif k == "defdtype":
                self.defdtype = op["double"]
                torch.set_default_dtype(torch.float64 if op["double"] else torch.float32)
            else:
                kw = self.now(op)
                r, y, X = self.exec(t, op)
                if r[0] != "fault":
                    self.judge(op, r, kw)
                    if r[0] == "ok" and not shares(y, X):
                        self.results.append((op, y, L.detach(L.flat(y)), r))
                torch.set_default_dtype(torch.float64 if self.defdtype else torch.float32)
                torch.set_grad_enabled(True)

    @staticmethod
    def to(o, dt):
        return o.double() if dt == "c128" else o.float()

    def perturb(self, op):
        """Training moves the weights of one model, or all; a stored state replaces a transform's window."""
        g = torch.Generator().manual_seed(op["seed"])
        mods = [m for i, m in enumerate(self.models) if isinstance(m, torch.nn.Module) and op.get("model", i) == i]
        win = self.objs.get(op.get("win"))
        meant = {id(p) for m in mods for p in m.parameters()}
        if win is not None:
            meant |= {id(v) for n, v in win.state_dict(keep_vars=True).items() if not n.endswith("_window")}
        was = {}
        for who, o in [(f"model {i}", m) for i, m in enumerate(self.models)] + [(f"object {i}", o) for i, o in self.objs.items()]:
            if isinstance(o, torch.nn.Module):
                for n, v in list(o.named_parameters()) + list(o.named_buffers()):
                    if id(v) not in meant and id(v) not in was and not (o is win and n.endswith("_window")):
                        was[id(v)] = (who, n, v, v.detach().clone())
        with torch.no_grad():
            for m in mods:
                for p in m.parameters():
                    p.mul_(1 + 0.2 * torch.randn(p.shape, generator=g).to(p.dtype))
        if win is not None:
            win.load_state_dict({n: v * (0.9 + 0.2 * torch.rand(v.shape, generator=g)).to(v.dtype) if n.endswith("_window") else v
                                 for n, v in win.state_dict().items()})
        for who, n, v, old in was.values():
            if not torch.equal(v.detach(), old):
                self.bad("shared_state", f"{n} of {who} changed when only the stored state of something else was changed")
                return

    def now(self, op):
        obj = self.objs.get(op.get("obj"))
        return dict(ws=REF.weights(self.models), mtrain=REF.training(self.models), win=REF.windows(obj),
                    otrain=REF.training([obj]) if isinstance(obj, torch.nn.Module) else None)

    def returned_results(self):
        for op, y, was, _ in self.results:
            if L.diff(L.detach(L.flat(y)), was) > 0:
                self.bad("result_changed", f"{self.describe(op)}: a result already returned was changed by a later call")

    # -- C11
    def body11(self, t, ops):
        for op in ops:
            obj = self.objs[op["obj"]]
            kw = self.now(op)
            p0 = read_params(obj)
            r, y, X = self.exec(t, op)
            p1 = read_params(obj)
            if p0 != p1:
                k = [k for k in p0 if p0.get(k) != p1.get(k)] or sorted(set(p1) - set(p0))
                self.bad("parameter_leaked", f"{self.describe(op)}: after the call ({r[0]}) the object's configured "
                         f"{k[0]} reads {short(p1.get(k[0]))}, before it {short(p0.get(k[0]))}")
                return
            if r[0] == "fault":
                continue
            o = self.plan["objs"][op["obj"]]
            if op["kw"]:
                merge = dict(op["kw"])
                if "mask_model" in merge:
                    merge["model"] = merge.pop("mask_model")
                merge = {k: v for k, v in merge.items() if v is not None}
                kw2 = dict(kw, otrain=None)
                # modes of the models are those of the live ones; the object's own flag does not matter
                self.judge(op, r, kw2, cls="override_not_applied", merge=merge)
            else:
                self.judge(op, r, kw, cls="later_call_affected")

    # -- C12
    def body12(self, t, ops):
        for op in ops:
            def line(frame, self=self):
                self.tick("line")
            r, y, X = self.exec(t, op, trace=line, only_input=True)
            if r[0] != "fault":
                self.results.append((op, y, None, r))

    def after12(self):
        for op, y, _, r in sorted(self.results, key=lambda q: q[0]["id"]):
            self.judge12(op, r)

    def judge12(self, op, r):
        self._cmp12(op, r, self.ask(op))

    def _cmp12(self, op, r, e):
        self.count(self.extra, "compared_calls")
        if e == ("exc", "missing"):
            return
        what = self.describe(op)
        if r[0] != e[0] or (r[0] == "exc" and r[1] != e[1]):
            self.bad("interference", f"{what}: when other threads run it {word(r)}, alone it {word(e)}")
            return
        if r[0] == "exc":
            return
        d = L.diff(r[1], e[1])
        if d <= L.tol(e[1]):
            return
        if d != float("inf") or same_shapes(r[1], e[1]):
            s = 0.0
            for seed in (1, 2, 3):
                p = self.ask(op, perturb=seed)
                s = max(s, L.diff(p[1], e[1]) if p[0] == "ok" else float("inf"))
            if d <= 100 * s:
                self.count(self.extra, "ill_conditioned_skipped")
                return
        self.bad("interference", f"{what}: with other threads running the result differs from the call made alone "
                 f"(relative difference {d:.2g})")

    # -- C13
    def body13(self, t, ops):
        for op in ops:
            kw = self.now(op)
            mi = (op.get("kw") or {}).get("model", self.plan["objs"][op["obj"]].get("model"))
            m = self.models[mi] if mi is not None else None
            logs = hasattr(m, "log")
            if logs:
                m.log.clear()
            dmc = (op.get("kw") or {}).get("use_dmc", self.plan["objs"][op["obj"]]["kw"].get("use_dmc"))
            r, y, X = self.exec(t, op)
            if logs:
                s = "".join(m.log)
                if s.startswith("F") or (s and not s.startswith("R")):
                    self.bad("no_reset", f"{self.describe(op)}: the model was used without being reset for the new signal ({s[:12]})")
                elif re.search("FR+F", s) and not dmc:
                    self.bad("reset_midway", f"{self.describe(op)}: the model was reset in the middle of a signal ({s[:12]})")
            if r[0] != "fault":
                self.judge(op, r, kw, cls="state_carried_over")

    # -- C14
    def body14(self, t, ops):
        for op in ops:
            obj = self.objs.get(op.get("obj"))
            self.watched = []
            self.changed = None
            self.moved = []
            self.before = self.before14
            line = None
            if self.plan.get("watch"):
                def line(frame, self=self):
                    self.w.events["line"] += 1
                    self.w.step += 1
                    if self.w.step > self.w.max_events:
                        raise W.StepLimit("event budget used up")
                    self.look(frame)
            op = dict(op)
            op.pop("back", None)
            r, y, X = self.exec(t, op, trace=line)
            self.count(self.extra, "compared_calls")
            what = self.describe(op)
            end = {"ok": "returned", "exc": "raised", "fault": "was interrupted or failed"}[r[0]]
            self.look(None)
            if self.changed:
                self.bad("argument_changed", f"{what}: {self.changed}")
            for name, was, now in self.state_diff(op):
                self.bad(name, f"{what}: after the call {end}, {was}" + (f" ({now})" if now else ""))
            torch.set_default_dtype(torch.float32)
            torch.set_grad_enabled(True)

    def before14(self, op, obj, X):
        xs = [("input", X)] if op["op"] == "call" else \
            [(f"argument {i}", a) for i, a in enumerate(X[0]) if isinstance(a, torch.Tensor)] + \
            [(f"argument {k}", a) for k, a in X[1].items() if isinstance(a, torch.Tensor)]
        for name, a in xs:
            if op.get("grad") == "yes" and op["seed"] % 2 and op["op"] == "call" and not op.get("buf"):
                a.requires_grad_(True)
            v = a.detach().numpy()
            self.watched.append((name, a, v, v.copy(), a.requires_grad, a.grad, tuple(a.shape), a.stride()))
        mods = [m for m in self.models if isinstance(m, torch.nn.Module)] + \
            [o for o in self.objs.values() if isinstance(o, torch.nn.Module)]
        g = torch.Generator().manual_seed(op["seed"])
        self.mods = []
        for m in mods:
            for p in m.parameters():
                if p.grad is None and op["seed"] % 3 == 0:
                    p.grad = torch.randn(p.shape, generator=g).to(p.dtype)
                if op["seed"] % 5 == 0 and p.numel() > 1:
                    p.requires_grad_(False)
            self.mods.append((m, {k: (p, p.requires_grad, p.detach().clone(), p.grad, None if p.grad is None else p.grad.clone())
                                  for k, p in m.named_parameters()},
                              {k: b.detach().clone() for k, b in m.named_buffers()},
                              {k: s.training for k, s in m.named_modules()}, L.hooks(m)))
        self.glob = (torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_rng_state().clone(),
                     torch.is_inference_mode_enabled(), random.getstate(), np.random.get_state()[1].copy(),
                     torch.get_num_threads(), torch.is_anomaly_enabled(), torch.are_deterministic_algorithms_enabled())

    def look(self, frame):
        if self.changed:
            return
        for name, a, v, was, *_ in self.watched:
            if not np.array_equal(v, was, equal_nan=True):
                where = f" while the call ran (line {frame.f_lineno} of {frame.f_code.co_name})" if frame is not None else ""
                self.changed = f"the caller's {name} was changed{where}"
                if frame is not None:
                    self.changed = f"the caller's {name} was changed while the call ran (in {frame.f_code.co_name})"

    def state_diff(self, op):
        out = []
        for name, a, v, was, rg, gr, sh, st in self.watched:
            if a.requires_grad != rg:
                out.append(("grad_flag", f"requires_grad of the caller's {name} changed", None))
            if a.grad is not gr:
                out.append(("grad_changed", f"the gradient stored on the caller's {name} changed", None))
            if tuple(a.shape) != sh or a.stride() != st:
                out.append(("argument_changed", f"the caller's {name} changed shape", None))
        random_ok = False
        used = []
        if op["op"] == "call":
            o = self.plan["objs"][op["obj"]]
            mi = (op.get("kw") or {}).get("model", (op.get("kw") or {}).get("mask_model", o.get("model")))
            if mi is not None:
                used = [self.models[mi]]
                m = self.models[mi]
                tr = isinstance(m, torch.nn.Module) and any(s.training for s in m.modules())
                random_ok = L.draws(self.plan["models"][mi], tr)
        for m, ps, bs, tr, hk in self.mods:
            if L.hooks(m) != hk:
                out.append(("hooks_changed", "hooks were left on (or taken from) a model", None))
            now_p = dict(m.named_parameters())
            now_b = dict(m.named_buffers())
            for k, (p, rg, val, gr, grv) in ps.items():
                q = now_p.get(k)
                if q is not p or not torch.equal(p.detach(), val):
                    out.append(("weights_changed", f"model weight {k} changed", None))
                elif p.requires_grad != rg:
                    out.append(("grad_flag", f"requires_grad of {k} changed", None))
                elif p.grad is not gr or (gr is not None and not torch.equal(gr, grv)):
                    out.append(("grad_changed", f"the gradient stored for {k} changed", None))
            for k in set(now_p) - set(ps):
                out.append(("weights_changed", f"a parameter {k} appeared", None))
            for k, val in bs.items():
                if k.rsplit(".", 1)[-1] in REF.KEEP and any(tr.values()):
                    continue  # batch-normalisation statistics in training mode
                b = now_b.get(k)
                if b is None or not torch.equal(b, val):
                    out.append(("weights_changed", f"model buffer {k} changed", None))
            now_t = {k: s.training for k, s in m.named_modules()}
            if any(now_t.get(k, v) != v for k, v in tr.items()):
                out.append(("mode_changed", "train/eval mode of a model changed", None))
        dd, ge, rs, im, pr, npr, nt, an, det = self.glob
        if torch.get_default_dtype() != dd:
            out.append(("global_state", "torch's default dtype changed", str(torch.get_default_dtype())))
        if torch.is_grad_enabled() != ge0(op) and torch.is_grad_enabled() != ge:
            out.append(("global_state", "torch's gradient mode changed", str(torch.is_grad_enabled())))
        if torch.is_inference_mode_enabled() != im:
            out.append(("global_state", "torch's inference mode changed", None))
        for k, a, b in self.moved:
            out.append(("global_state", f"the process's {k} is {b}, before the call it was {a}", None))
        torch_seeded = self.rng_before(op)
        if not random_ok and not torch.equal(torch.get_rng_state(), torch_seeded):
            out.append(("random_state", "torch's random state changed", None))
        if random.getstate() != pr or not np.array_equal(np.random.get_state()[1], npr):
            out.append(("random_state", "Python's or numpy's random state changed", None))
        if (torch.get_num_threads(), torch.is_anomaly_enabled(), torch.are_deterministic_algorithms_enabled()) != (nt, an, det):
            out.append(("global_state", "a global torch setting changed", None))
        return out[:3]

    def rng_before(self, op):
        return self.glob[2]


def ge0(op):
    return True


def word(r):
    return {"ok": "returns a result", "exc": f"raises {r[1]}" if isinstance(r[1], str) else "raises"}[r[0]]


def short(v):
    return repr(v)[:40]


def same_shapes(a, b):
    return len(a) == len(b) and all((u is None) == (v is None) and (u is None or u.shape == v.shape and u.dtype == v.dtype)
                                    for u, v in zip(a, b))


def shares(y, X):
    xs = L.flat(X) if not isinstance(X, tuple) else L.flat(list(X[0])) + L.flat(list(X[1].values()))
    ptr = {v.untyped_storage().data_ptr() for v in xs}
    return any(v.untyped_storage().data_ptr() in ptr for v in L.flat(y))


before_fork = REF.before_fork
after_failure = REF.after_failure


def run(prop, plan, root):
    return Run(prop, plan, root).go()


# ------------------------------------------------------------------------------------ minimisation
def shrink_lists(plan):
    yield ["faults"]
    yield ["switches"]
    if plan.get("hot"):
        yield ["hot"]
    for i in range(len(plan["clients"])):
        yield ["clients", i]


def simpler(plan):
    for ci, ops in enumerate(plan["clients"]):
        for i, op in enumerate(ops):
            if op["op"] != "call":
                continue
            for key in list(op.get("kw") or {}):
                p = copy.deepcopy(plan)
                del p["clients"][ci][i]["kw"][key]
                yield p
            for key, val in (("back", None), ("buf", None)):
                if op.get(key):
                    p = copy.deepcopy(plan)
                    p["clients"][ci][i].pop(key)
                    yield p
            if op["x"].get("layout"):
                p = copy.deepcopy(plan)
                p["clients"][ci][i]["x"]["layout"] = None
                yield p
            if op.get("grad") != "no" and not op.get("back"):
                p = copy.deepcopy(plan)
                p["clients"][ci][i]["grad"] = "no"
                yield p
    if plan.get("opcodes"):
        p = copy.deepcopy(plan)
        p["opcodes"] = False
        yield p


def describe(prop):
    rule = {
        "C10": "run is non-trivial when at least one undisturbed call was compared with the same call made alone and another call, "
               "failure or interrupt preceded it",
        "C11": "as C10, every history contains calls with per-call parameters",
        "C12": "run is non-trivial when the scheduler preempted a thread inside library code at least once",
        "C13": "as C10, every object has a stateful source model",
        "C14": "run is non-trivial when at least two calls, or one disturbed call, were watched",
    }[prop]
    return {
        "rule": rule + "; distinct = distinct SHA-256 of the event log",
        "real": ["all of torchiva (executed from /repo's working tree)", "torch", "Python threads (released one at a time)"],
        "stub": ["thread scheduler (seeded, at line or bytecode boundaries of library code)",
                 "torch functions fail or are interrupted at planned points", "contents of uninitialised memory",
                 "clock, entropy, pids"],
        "assumptions": ["CPU only", "interrupts strike at calls of torch functions and at entries of library functions, where "
                        "CPython delivers them", "results more sensitive to rounding than to the observed difference are not judged"],
    }
