import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import fwd
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"] + vlib.ASAN


def script(walk, rng):
    ops = []
    for l in walk:
        x = json.loads(l)
        if x[0] == "newt":
            if x[5] == 1 and rng.random() < 0.15 and x[1] == "n":
                x[5] = 3
            x.append(1 if x[1] == "e" else rng.randint(0, 1))
        elif x[0] == "store":
            x.append(1 if x[1] == "e" else rng.randint(0, 1))
        elif x[0] in ("swap", "reset", "copynew", "copya"):
            x.append(rng.randint(0, 1))
        ops.append(" ".join(map(str, x)))
        if rng.random() < 0.2:
            ops.append(f"call n 0 {x[3]} {rng.randint(0, 99)}")
    return ops


def random_history(rng, slots, n, pmr, faults):
    ops = []
    for _ in range(n):
        s, t = rng.randint(1, slots), rng.randint(1, slots)
        m = rng.randint(1, 2) if pmr else 0
        f = f"{rng.choice(faults)} 1" if rng.random() < 0.25 else "n 0"
        k = rng.choice([1, 2, 3] if pmr else [1, 3])
        v = rng.randint(1, 9)
        how = 1 if f[0] == "e" else rng.randint(0, 1)
        x = rng.random()
        if x < 0.12:
            ops.append(rng.choice([f"new n 0 {s} {m}", f"newt {f} {s} {m} {k} {v} {how}"]))
        elif x < 0.28:
            ops.append(f"store {f} {s} {k} {v} {how}")
        elif x < 0.40:
            ops.append(rng.choice(["copynew", "copya"]) + f" {f} {s} {t} {rng.randint(0, 1)}")
        elif x < 0.52:
            ops.append(rng.choice(["movenew", "movea"]) + f" n 0 {s} {t}")
        elif x < 0.62:
            ops.append(f"swap n 0 {s} {t} {rng.randint(0, 1)}")
        elif x < 0.66:
            ops.append(f"reset n 0 {s} {rng.randint(0, 1)}")
        elif x < 0.70:
            ops.append(f"resetmr n 0 {s} {m}")
        elif x < 0.73:
            ops.append(f"dest n 0 {s}")
        else:
            ops.append(f"call n 0 {s} {rng.randint(0, 999)}")
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] == "call" and e["r"] == "ok"]
    if not c:
        return None
    e = rng.choice(c)
    w = rng.choice(["ret", "log", "twice"])
    if w == "ret":
        e["ret"][rng.randrange(3)] += 1
    elif w == "log":
        e["log"] = []
    else:
        e["log"].append(e["log"][0])
    return tr


def check(c):
    jobs = {}
    for v in ("exc", "noexc"):
        for k, g in dict(ip=1, pm=2, mx=3).items():
            if (v, k) != ("noexc", "ip"):
                sig = 1 if v == "exc" else 2
                jobs[f"{v}-{k}"] = ("func.cpp", FLAGS + [f"-DGROUP={g}", f"-DSIG={sig}"] +
                                    (["-fno-exceptions"] if v == "noexc" else []))
    jobs["exc2-mx"] = ("func.cpp", ["-std=c++17", "-O2", "-DNDEBUG", "-DGROUP=3", "-DSIG=2"])
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        m = vlib.explore("FuncMC.tla", "FuncMC.cfg", c.sub("mc"))
        c.add_model("FuncMC", m)
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}
    walks, cov, tot = vlib.covering_walks(m, c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g = json.loads(init)[0]
        kind = "ip" if not g["pmr"] else "pm" if g["big"][0] else "mx"
        b = f"{'exc' if g['exc'] else 'noexc'}-{kind}"
        if b == "exc-mx" and c.rng.random() < 0.2:
            b = "exc2-mx"
        hist[b].append((f"2 {c.rng.randint(0, 1)}", script(walk, c.rng)))
    for _ in range(4000 if c.thorough else 700):
        b = c.rng.choice(sorted(bins))
        hist[b].append((f"3 {c.rng.randint(0, 1)}",
                        random_history(c.rng, 3, 80, not b.endswith("ip"), "a" if b.startswith("noexc") else "ae")))
    neg = True
    for b, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(b, bins[b], h, lambda j: {}, "FuncTrace.tla", "FuncTrace.cfg", corrupt=corrupt if neg else None)
        neg = False
    fwd.run(c, ["func"])


vlib.main(check, "C08")
