import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"] + vlib.ASAN


def script(walk, rng):
    ops = []
    for l in walk:
        x = json.loads(l)
        if x[0] == "alloc" and x[3] >= 1000:
            x[3] = 999999990 + rng.randrange(10)
            x[4] = rng.choice([1, 2, 8, 16, 64])
        if x[0] == "release" and rng.random() < 0.3:
            x[0] = "renew"
        ops.append(" ".join(map(str, x)))
    return ops


def random_history(rng, n, buf):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < 0.75:
            k = rng.random()
            sz = (rng.randint(0, 6) if k < 0.3 else rng.randint(max(0, buf - 20), buf + 20) if k < 0.5 else
                  rng.choice([8, 16, 24, 32, 48, 64, 100, 128]) if k < 0.8 else rng.randint(0, 1500) if k < 0.92 else
                  rng.choice([1 << 19, (1 << 20) - 20, 1 << 21]) if k < 0.95 else 999999990 + rng.randrange(10))
            f = f"a {rng.randint(1, 2)}" if rng.random() < 0.15 else "n 0"
            ops.append(f"alloc {f} {sz} {1 << rng.randint(0, 8)}")
        elif x < 0.9:
            ops.append(f"dealloc n 0 {rng.randint(1, 12)}")
        elif x < 0.93:
            ops.append("max n 0")
        else:
            ops.append(rng.choice(["release", "release", "renew"]) + " n 0")
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] == "alloc" and e["r"] == "ok" and e["n"] > 0] + [e for e in tr["e"] if e["op"] == "release" and e["ups"]]
    if not c:
        return None
    e = rng.choice(c)
    if e["op"] == "release":
        if rng.random() < 0.5:
            e["ups"].pop()
        else:
            e["ups"][0]["n"] += 1
    elif rng.random() < 0.5:
        e["intact"] = False
    else:
        e["at"] += 100000
    return tr


def check(c):
    jobs = {"exc": ("mono.cpp", FLAGS), "noexc": ("mono.cpp", FLAGS + ["-fno-exceptions"]),
            "opt": ("mono.cpp", ["-std=c++17", "-O2", "-DNDEBUG"])}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        models = [("MonoMC", None)] + ([("MonoMC_deep", 250000)] if c.thorough else [])
        ms = []
        for n, part in models:
            m = vlib.explore("MonoMC.tla", n + ".cfg", c.sub(n))
            c.add_model(n, m)
            ms.append((m, part))
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}
    cov = tot = 0
    for m, part in ms:
        walks, a, b = vlib.covering_walks(m, c.rng, 120, part)
        cov, tot = cov + a, tot + b
        for init, walk in walks:
            g = json.loads(init)[0]
            kind = c.rng.choice([0, 3]) if g["buf"] else c.rng.choice([1, 2, 4, 5])
            buf = g["buf"] or c.rng.choice([1, 7, 32])
            hist[c.rng.choice(sorted(bins))].append((f"{kind} {buf} {g['base'] + 64} {c.rng.randint(0, 1)}", script(walk, c.rng)))
    c.stats["edges"] = {"covered": cov, "total": tot}
    for _ in range(4000 if c.thorough else 600):
        kind = c.rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])
        buf = c.rng.choice([1, 3, 8, 17, 40, 64, 100, 256])
        hist[c.rng.choice(sorted(bins))].append((f"{kind} {buf} {c.rng.randint(0, 130)} {c.rng.randint(0, 1)} {c.rng.choice([0, 0, 0, 300, 2000])}",
                                                 random_history(c.rng, 40, buf)))
    neg = True
    for b, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(b, bins[b], h, lambda j: {}, "MonoTrace.tla", "MonoTrace.cfg", corrupt=corrupt if neg else None)
        neg = False


vlib.main(check, "C12")
