"""C22: separation commands running at the same time do not disturb each other.  Two to five processes run torchiva.separate over
own or shared inputs into own or shared output folders, sharing one home (model cache) and one temporary folder; some of them meet
disk faults, failing allocations, network trouble, unusable inputs, interrupts, crashes.  Every other command must succeed, and at
the end everything a successful command was asked for is there and is what the library gives for that input."""
import copy
import os

import torch

from . import audio, net, seams, zoo
from . import f_cli as FC
from . import world as W
from .f_loader import Ctx, _net_fault, call, setup_home

URL = FC.URL
NN = FC.NN
prepare = FC.prepare


# ---------------------------------------------------------------------------------- generation
def gen(prop, rng, tier):
    n_opts = rng.choice([1, 1, 2, 2, 3])
    opts = [FC.gen_opts(rng, "C08") for _ in range(n_opts)]
    if rng.random() < 0.3:  # everybody downloads the same model
        o = FC.gen_opts(rng, "C08")
        while o["model_type"] != "nn":
            o = FC.gen_opts(rng, "C08")
        opts[0] = dict(o, where="url")
    for i in range(1, n_opts):
        if rng.random() < 0.5:  # close relatives
            opts[i] = dict(copy.deepcopy(opts[0]), **rng.choice([{"n_iter": rng.choice([1, 2, 5])}, {"ref": 1 - opts[0].get("ref", 0) % 2},
                                                                 {"src": 1}]))
    mic = max(o["mic"] for o in opts)
    k = rng.choice([2, 2, 2, 3, 3, 4, 5])
    arr = rng.choice(["own_own", "shared_own", "own_shared", "own_shared", "own_shared", "files_shared", "files_shared", "files_named",
                      "mixed", "mixed", "next"])
    twins = rng.random() < 0.3  # commands of the same shape, one step after the other
    if twins:
        arr, k = rng.choice(["own_shared", "own_shared", "own_own", "shared_own", "files_shared"]), rng.choice([2, 2, 2, 3])
        common = rng.choice(FC.DIRS[3:8] + ["s1/s2/s3"])
    alike = rng.random() < 0.5
    odd = rng.random() < 0.3
    fs0, n0, ch0 = rng.choice(FC.RATES), rng.randrange(150, 320), mic + rng.choice([0, 0, 1])
    same_base = rng.random() < 0.4
    files, seen, seen_base = [], set(), set()

    def new_file(folder, flat, avoid):
        """A file below input folder `folder` whose relative name is not in `avoid` (nor a folder there)."""
        for _ in range(60):
            name = rng.choice(["a.wav", "b.wav"] if same_base and not flat else FC.NAMES + (FC.ODD_NAMES if odd else []))
            d = "" if flat else common if twins else rng.choice(FC.DIRS[:8] + (["s3", "s4/s5", "s6", "é"]) + (FC.ODD_DIRS if odd else []))
            p = os.path.join(d, name)
            parts = p.split("/")
            pre = {"/".join(parts[:j]) for j in range(1, len(parts))}
            if p in avoid or pre & avoid or any(q.startswith(p + "/") for q in avoid):
                continue
            if os.path.join(folder, p) in seen or any(q.startswith(os.path.join(folder, p) + "/") for q in seen) \
                    or {os.path.join(folder, q) for q in pre} & seen:
                continue
            seen.add(os.path.join(folder, p))
            avoid.add(p)
            i = len(files)
            f = {"d": folder, "p": p, "ch": rng.choice([max(2, mic), mic + 1]), "n": n0 + 37 * i + rng.randrange(30), "fs": rng.choice(FC.RATES),
                 "seed": rng.randrange(1 << 20), "fmt": rng.choice(["f32", "f32", "i16"])}
            if alike:
                f.update(ch=max(2, ch0), n=n0, fs=fs0, fmt="f32")
            files.append(f)
            return i
        return None

    cmds = []
    shared_avoid = set()
    for c in range(k):
        a = arr
        if a == "mixed":
            a = rng.choice(["own_shared", "files_shared", "own_own"])
        folder = "in" if a == "shared_own" or (a in ("files_shared", "files_named", "next") and rng.random() < 0.5) else "in%d" % c
        if a == "next":
            folder = "in"
        if a in ("own_own", "own_shared"):
            avoid = shared_avoid if a == "own_shared" else set()
            idx = [new_file(folder, False, avoid) for _ in range(rng.choice([1, 1, 2, 3]))]
            cmds.append({"kind": "dir", "in": folder, "f": [i for i in idx if i is not None], "out": "out" if a == "own_shared" else "o%d" % c})
        elif a == "shared_own":
            if c == 0:
                idx = [new_file(folder, False, set()) for _ in range(rng.choice([1, 2, 3]))]
                idx = [i for i in idx if i is not None]
            cmds.append({"kind": "dir", "in": folder, "f": idx, "out": rng.choice(["o%d", "out%d", "in_%d", "out/%d"]) % c})
        else:
            i = new_file(folder, a != "files_shared" or rng.random() < 0.8, shared_avoid if a == "files_shared" else set())
            if i is None:
                continue
            p = files[i]["p"]
            base = os.path.basename(p)
            if a == "files_shared":
                if base in seen_base:  # another command already writes this name into the folder
                    continue
                seen_base.add(base)
                cmds.append({"kind": "file", "in": os.path.join(folder, p), "f": [i], "out": "out"})
            elif a == "files_named":
                cmds.append({"kind": "file", "in": os.path.join(folder, p), "f": [i], "out": rng.choice(["out/y%d.wav", "out/y.%d.wav", "out/%d.y.wav"]) % c})
            else:
                cmds.append({"kind": "file", "in": os.path.join(folder, p), "f": [i], "out": "in/%s_sep%d.wav" % (p.split("/")[-1][:40].rsplit(".", 1)[0], c)})
    # a folder command and a file command may not write the same name into the shared folder
    rel = set()
    for c in cmds:
        if c["out"] == "out" and c["kind"] == "dir":
            rel |= {files[i]["p"] for i in c["f"]}
    cmds = [c for c in cmds if not (c["kind"] == "file" and c["out"] == "out" and any(
        os.path.basename(c["in"]) == r or r.startswith(os.path.basename(c["in"]) + "/") for r in rel))]
    cmds = [c for c in cmds if c["f"]]
    for i, c in enumerate(cmds):
        c.update(id=i, o=0 if twins else rng.randrange(n_opts), quiet=rng.random() < 0.5, abs=rng.random() < 0.2)
    bad = []
    if rng.random() < 0.2 and cmds:
        f = files[rng.choice(rng.choice(cmds)["f"])]
        f["bad"] = rng.choice(["empty", "garbage", "cut", "header", "few_ch", "short"])
        f["frac"] = rng.choice([0.2, 0.5, 0.9])
        bad.append(f)
    faults = []
    if rng.random() < (0.15 if twins else 0.6) and len(cmds) > 1:
        for c in rng.sample(cmds, rng.choice([1, 1, 2]) if len(cmds) > 2 else 1):
            o = opts[c["o"]]
            for _ in range(rng.choice([1, 1, 2])):
                if o["model_type"] == "nn" and o["where"] == "url" and rng.random() < 0.4:
                    faults.append(_net_fault(rng, c["id"]))
                else:
                    faults.append(gen_fault(rng, c["id"], len(c["f"])))
    # several commands one after the other in one shell, next to the others
    tasks = [[c["id"]] for c in cmds]
    if len(tasks) > 2 and rng.random() < 0.3 and not twins:
        tasks[0] += tasks.pop()
    style = rng.random()
    n_ev = 25 + 30 * sum(len(c["f"]) for c in cmds)
    if twins:
        ahead, n = rng.choice([0, 0, 0, 1, 2, 3, 5]), max(1, len(tasks))
        switches = [[s + ahead, ((s - 1) % n) % max(1, n - 1)] for s in range(1, min(n_ev * 2, 600))]
    elif style < 0.5:
        switches = sorted([rng.randrange(1, n_ev), rng.randrange(8)] for _ in range(rng.choice([2, 4, 8, 16])))
    elif style < 0.8:  # at nearly every event
        q = rng.choice([0.3, 0.6, 1.0])
        switches = [[s, rng.randrange(8)] for s in range(1, min(n_ev * 2, 500)) if rng.random() < q]
    else:  # one is overtaken by all the others at one point
        switches = [[rng.randrange(1, 60), rng.randrange(8)] for _ in range(rng.choice([1, 1, 2]))]
        switches.sort()
    return {"arr": arr, "files": files, "opts": opts, "cmds": cmds, "tasks": tasks, "faults": faults, "switches": switches,
            "pre": rng.random() < 0.5, "codec": "real" if rng.random() < 0.06 else "seam", "write_chunk": rng.choice([512, 1024, 4096, 65536]),
            "entropy_seed": rng.randrange(1 << 30), "dir_seed": rng.randrange(1 << 30), "cached": rng.random() < 0.2,
            "foreign": rng.sample(["old.wav", "notes.txt", "s1/old.wav", ".keep", "log.csv", "x.part", "y.tmp"], rng.choice([0, 0, 1, 2, 3])),
            "pid0": rng.randrange(100)}


def gen_fault(rng, op, nf):
    kind = rng.choice(["fs.write", "fs.write", "fs.write", "fs.open_w", "fs.close_w", "fs.mkdir", "fs.list", "fs.stat", "codec.read",
                       "codec.read", "compute.stft", "compute.istft", "codec.write", "any", "any", "fs.rename"])
    what = rng.choice({"fs.write": ["torn_crash", "torn_crash", "short_enospc", "short_enospc", "eio", "crash", "interrupt"],
                       "codec.read": ["codec", "oom", "crash", "interrupt", "eio"], "codec.write": ["codec", "crash", "interrupt", "eacces"],
                       "compute.stft": ["oom", "crash", "interrupt"], "compute.istft": ["oom", "crash", "interrupt"],
                       }.get(kind, ["eacces", "eio", "enospc", "crash", "interrupt"]))
    f = {"op": op, "what": what}
    if kind == "any":
        f["ev"] = rng.randrange(10 + 12 * nf)
    else:
        f.update(kind=kind, nth=rng.choice([0, 0, 1, 2, rng.randrange(nf * 3)]))
        if what not in ("crash", "torn_crash", "interrupt") and rng.random() < 0.4:
            f["times"] = rng.choice([2, 4, 100])
    if what in ("torn_crash", "short_enospc"):
        f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
    return f


# ---------------------------------------------------------------------------------- running
def run(prop, plan, root):
    setup_home(root)
    w = W.World(plan, root, max_events=40000)
    w.origin = net.Origin()
    ctx = Ctx(w)
    base = os.path.join(root, "w")
    L = lambda p: os.path.join(base, p)  # noqa
    os.makedirs(base)
    files, cmds, opts = copy.deepcopy(plan["files"]), plan["cmds"], plan["opts"]

    def write(p, data):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with seams.R["open"](p, "wb") as f:
            f.write(data)
        seams.R["utime"](p, (w.now - 60.0,) * 2)

    for f in files:
        write(os.path.join(base, f["d"], f["p"]), FC.content(f))
    for c in cmds:
        os.makedirs(os.path.join(base, c["in"] if c["kind"] == "dir" else os.path.dirname(c["in"])), exist_ok=True)
    out_needed = any(c["kind"] == "file" and (c["out"] == "out" or c["out"].startswith("out/")) for c in cmds)
    if plan["pre"] or out_needed:
        os.makedirs(L("out"), exist_ok=True)
    foreign = {}
    if os.path.isdir(L("out")):
        taken = {files[i]["p"] for c in cmds for i in c["f"]} | {os.path.basename(files[i]["p"]) for c in cmds for i in c["f"]}
        for n in plan["foreign"]:
            if n not in taken and not any(t.startswith(n + "/") or n.startswith(t + "/") for t in taken):
                foreign[n] = b"somebody else's " + n.encode()
                write(os.path.join(base, "out", n), foreign[n])
    for m in NN:
        d = os.path.join(root, "models", m)
        os.makedirs(d)
        for n, b in (("model_weights.ckpt", zoo.MODELS[m].ckpt), ("model_config.yaml", zoo.MODELS[m].yaml)):
            with seams.R["open"](os.path.join(d, n), "wb") as f:
                f.write(b)
            w.origin.files[URL + m + "/" + n] = b
    os.chdir(base)
    ref = FC.Reference()
    stats = {"ok": 0, "raise": 0, "crash": 0, "stuck": 0}
    probes = {}
    result = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1

    def paths(c):
        a, o = c["in"], c["out"]
        return (L(a), L(o)) if c.get("abs") else (a, o)

    def one(t, c, proc):
        o = opts[c["o"]]
        mp = None
        if o["model_type"] == "nn":
            mp = (URL + o["model"]) if o["where"] == "url" else os.path.join(root, "models", o["model"])
        inp, out = paths(c)
        av = FC.argv(o, inp, out, mp, c.get("quiet"))

        def fn(u):
            sep = u["separate"]
            sep.main(sep.get_parser().parse_args(av))

        kind, v = call(ctx, t, c, proc, fn)
        if kind == "raise" and isinstance(v, SystemExit) and not v.code:
            kind = "ok"
        stats[kind] += 1
        w.note("OUT", c["id"], kind, type(v).__name__)
        result[c["id"]] = (kind, v)

    ins = [os.path.join(f["d"], f["p"]) for f in files]
    before = FC.snap([(L(p), p) for p in ins])

    if plan["cached"]:  # the models are there already
        def warm(t):
            for j, o in enumerate(opts):
                if o["model_type"] == "nn" and o["where"] == "url":
                    call(ctx, t, {"id": 900 + j}, "warm", lambda u: u["loader"].load_separator(URL + o["model"]))
        w.run([warm])
        probe("cached")

    def client(i):
        def fn(t):
            for j in plan["tasks"][i]:
                c = next((c for c in cmds if c["id"] == j), None)
                if c is not None:
                    one(t, c, "p%d" % i)
        return fn

    w.run([client(i) for i in range(len(plan["tasks"]))])

    own_fault = {f["op"] for f in plan["faults"]}
    fired_any = bool(sum(w.fired.values()))
    # ---- everything has ended
    after = FC.snap([(L(p), p) for p in ins])
    for r in before:
        if before[r] != after[r]:
            ctx.bad("C22", "input_changed", f"{plan['arr']}: input {r} changed or gone after the commands ran")
            break
    for n, b in foreign.items():
        try:
            same = seams.R["open"](os.path.join(base, "out", n), "rb").read() == b
        except OSError:
            same = False
        if not same:
            ctx.bad("C22", "foreign", f"{plan['arr']}: the file {n} of somebody else in the output folder was changed or removed")
            break
    claimed = {}
    for c in cmds:
        if c["id"] not in result or ctx.violations:
            continue
        kind, v = result[c["id"]]
        o = opts[c["o"]]
        if kind == "stuck":
            ctx.bad("C22", "stuck", f"{plan['arr']}: command {c['id']} never finished: {v}")
            continue
        if kind == "crash" or (kind == "raise" and c["id"] in own_fault):
            continue
        if kind == "raise":
            why = None
            for i in c["f"]:
                x = FC.decode(L(ins[i]))
                if isinstance(x, Exception):
                    why = "unreadable"
                    break
                if ref(o, x[0])[0] is None:
                    why = "inseparable"
                    break
            if why is None:
                ctx.bad("C22", "failed", f"{plan['arr']}: command {c['id']} failed with {type(v).__name__}: {v} although nothing is wrong with "
                                         f"its inputs and it met no fault; {len(cmds)} commands ran at the same time"[:400])
            else:
                probe(why)
            continue
        probe("success")
        if fired_any:
            probe("success_beside_trouble")
        out = L(c["out"])
        for i in c["f"]:
            x = FC.decode(L(ins[i]))
            if isinstance(x, Exception):
                continue  # C07's business
            x, fs = x
            if c["kind"] == "file" and not os.path.isdir(out):
                cands = [out] if os.path.exists(out) else []
            else:
                cands, bn = [], os.path.basename(files[i]["p"])
                for b, _, fn in os.walk(out):
                    if bn in fn:
                        cands.append(os.path.join(b, bn))
            y, e = ref(o, x)
            if y is None:
                continue
            if plan["codec"] == "real" and not float(y.abs().max()) < 0.99:
                probe("clipped")
                continue
            probe("compared")
            ok, why = False, "there is no such output"
            for p in cands:
                got = FC.decode(p)
                if isinstance(got, Exception):
                    why = f"{os.path.relpath(p, base)} is not a readable wav file"
                    continue
                if got[1] != fs:
                    why = f"{os.path.relpath(p, base)} is at {got[1]} Hz"
                    continue
                ok, d = FC.close(got[0], y, plan["codec"] == "real")
                if ok:
                    break
                why = f"{os.path.relpath(p, base)}: {d}"
            if not ok and cands and "difference" in why and not FC.stable(ref, o, x, y):
                probe("ill_conditioned")
                continue
            if not ok:
                ctx.bad("C22", "output", f"{plan['arr']}: command {c['id']} of {len(cmds)} running at the same time ended successfully, but at the end "
                                         f"its output for {ins[i]} is not what it gives alone: {why}"[:400])
                break
    fired = dict(w.fired)
    if any(f.get("bad") for f in plan["files"]):
        fired["bad_input"] = fired.get("bad_input", 0) + 1
    probe("arr_" + plan["arr"])
    return {"violations": ctx.violations, "digest": w.digest(), "fired": fired, "events": dict(w.events), "sim_time": abs(w.now - w.t_start),
            "switches": w.n_switches, "outcomes": stats, "log": w.log, "extra": probes, "nontrivial": w.n_switches > 0}


def shrink_lists(plan):
    return [("faults",), ("switches",), ("cmds",), ("foreign",)]


def simpler(plan):
    for i, c in enumerate(plan["cmds"]):
        if len(c["f"]) > 1:
            for j in range(len(c["f"])):
                p = copy.deepcopy(plan)
                del p["cmds"][i]["f"][j]
                used = {k for q in p["cmds"] for k in q["f"]}
                if plan["cmds"][i]["f"][j] in used:
                    continue
                p["files"][plan["cmds"][i]["f"][j]]["d"] = "unused"
                yield p
    for i, o in enumerate(plan["opts"]):
        for k in ("hop", "win", "taps", "delay", "eps", "model_eps", "device"):
            if k in o:
                p = copy.deepcopy(plan)
                del p["opts"][i][k]
                if k in ("taps", "delay"):
                    p["opts"][i].pop("taps", None)
                    p["opts"][i].pop("delay", None)
                yield p
    for i, f in enumerate(plan["files"]):
        if f.get("bad"):
            p = copy.deepcopy(plan)
            del p["files"][i]["bad"]
            yield p
    if plan.get("codec") == "real":
        yield dict(copy.deepcopy(plan), codec="seam")


def describe(prop):
    return dict(
        rule="a run is a seeded plan: 2-5 commands started at the same time in processes of their own (folders or single files; own or shared input "
             "folders; own or shared output folders, same and odd names), one home with one model cache and one folder for temporary files, 0-4 disk, "
             "codec, network, allocation faults, crashes and interrupts for some of them, unusable inputs, other people's files in the output folder, and "
             "a schedule of pre-emptions at file, network and codec events (2-16 points, or nearly every event, or one overtaken at one point); "
             "non-trivial if at least one pre-emption took place; distinct by event-log hash",
        real=["torchiva.separate (parser and main), torchiva.nn and the algorithms, torchiva.loader", "torchaudio's decoder",
              "pathlib/os over the kernel's file system (scratch folder)", "torchaudio's encoder in about 6 % of the runs"],
        stub=["torchaudio.save elsewhere: float32 WAV written through the file seam", "directory order, clock, pids, entropy, network",
              "processes: one simulated address space each (own copy of the library), one shared file system"],
        assumptions=["no two commands are asked to write the same file", "no command's input is another one's output",
                     "process-crash model: data written before the crash survives", "torch kernels run single-threaded"])
