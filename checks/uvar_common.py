"""Stimuli for the type-erased variant checks."""
import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
KIND = {"ip": 1, "pm": 2, "mx": 3, "mxa": 4}
VARIANT = {"asan": FLAGS + vlib.ASAN, "noexc": FLAGS + ["-fno-exceptions"] + vlib.ASAN,
           "cpp17": ["-std=c++17", "-O2", "-DNDEBUG"]}


def conf(g):
    return ("c" if g["cp"] else "") + ("m" if g["mv"] else "") or "n"


def script(g, walk, rng):
    """Model labels name two types; pick real ones of the same storage class, and a way to do each operation."""
    m = {1: rng.choice([1, 2, 4]), 2: rng.choice([3, 5]), 3: 4}
    if not g["pmr"]:
        m[1] = rng.choice([1, 2])
    ops = []
    for l in walk:
        x = json.loads(l)
        if x[0] == "newv":
            x[5] = m[x[5]]
            x.append(rng.randint(1, 5) if x[1] == "e" else rng.randint(0, 5))
        elif x[0] == "store":
            x[4] = m[x[4]]
            x.append(rng.randint(1, 3) if x[1] == "e" else rng.randint(0, 3))
        elif x[0] == "get":
            x[4] = m[x[4]]
        if x[0] == "swap" and x[1] != "n":
            x[2] = rng.randint(1, 3)
        ops.append(" ".join(map(str, x)))
        if rng.random() < 0.15:
            ops.append(f"get n 0 {x[3]} {rng.randint(1, 8)} {rng.choice([0, 1, 2, 4, 5, 6])}")
    return ops


def random_history(rng, slots, n, pmr, faults=""):
    ops = []

    def fault():
        if faults and rng.random() < 0.3:
            return f"{rng.choice(faults)} {rng.choice([1, 1, 1, 2, 3])}"
        return "n 0"

    def typ():
        return rng.randint(1, 5) if pmr else rng.choice([1, 2, 4])

    for _ in range(n):
        s, t = rng.randint(1, slots), rng.randint(1, slots)
        m = rng.randint(1, 2) if pmr else 0
        k = rng.random()
        f = fault()
        lo = 1 if f[0] == "e" else 0
        if k < 0.15:
            ops.append(rng.choice([f"new n 0 {s} {m}", f"newv {f} {s} {m} {typ()} {rng.randint(0, 99)} {rng.randint(lo, 5)}",
                                   f"newv {f} {s} {m} {typ()} {rng.randint(0, 99)} {rng.randint(lo, 5)}"]))
        elif k < 0.35:
            ops.append(f"store {f} {s} {typ()} {rng.randint(0, 99)} {rng.randint(lo, 3)}")
        elif k < 0.48:
            ops.append(rng.choice(["copynew", "copya", "copya"]) + f" {f} {s} {t}")
        elif k < 0.61:
            ops.append(rng.choice(["movenew", "movea", "movea"]) + f" n 0 {s} {t}")
        elif k < 0.76:
            ops.append(f"swap {f} {s} {t}")
        elif k < 0.80:
            ops.append(f"reset n 0 {s}")
        elif k < 0.84:
            ops.append(f"resetmr n 0 {s} {m}")
        elif k < 0.88:
            ops.append(f"write n 0 {s} {rng.randint(0, 99)}")
        elif k < 0.91:
            ops.append(f"dest n 0 {s}")
        else:
            ops.append(f"get n 0 {s} {rng.randint(1, 8)} {rng.randint(0, 6)}")
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if any(p["on"] and p["e"] for p in e["post"])]
    if not c:
        return None
    e = rng.choice(c)
    p = rng.choice([p for p in e["post"] if p["on"] and p["e"]])
    what = rng.choice(["q", "c", "n", "x", "live"])
    if what in "qc":
        p[what][p["tid"] - 1] += 1
    elif what == "n":
        p["n"] += 1
    elif what == "x":
        p["x"] = True
    else:
        e["live"] += 1
    return tr


def prepare(c, models, variants):
    jobs = {f"{v}-{k}": ("uvar.cpp", VARIANT[v] + [f"-DGROUP={g}"]) for v in variants for k, g in KIND.items()}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        ms = {}
        for m in models:
            ms[m] = vlib.explore("UVarMC.tla", m + ".cfg", c.sub("mc-" + m))
            c.add_model(m, ms[m])
        bins = f.result()
    c.mark("models + build")
    return ms, bins


def run(c, bins, hist):
    """hist: {binary name: [(header, ops)]}"""
    neg = True
    for name, h in sorted(hist.items()):
        if h:
            c.rng.shuffle(h)
            c.campaign(name, bins[name], h, lambda j: {}, "UVarTrace.tla", "UVarTrace.cfg", corrupt=corrupt if neg else None)
            neg = False
