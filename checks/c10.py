import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import fwd
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"] + vlib.ASAN


def script(walk, rng):
    ops = []
    for l in walk:
        x = json.loads(l)
        if x[0] in ("make", "makeo"):
            if rng.random() < 0.2:
                x[4] = 3
            x += [rng.randint(6, 99), rng.randint(0, 1)]
        elif x[0] == "swap":
            x.append(rng.randint(0, 1))
        ops.append(" ".join(map(str, x)))
    return ops


def random_history(rng, slots, n):
    ops = []
    for _ in range(n):
        s, t = rng.randint(1, slots), rng.randint(1, slots)
        x = rng.random()
        if x < 0.35:
            f = rng.choice(["a 1", "e 1"]) if rng.random() < 0.3 else "n 0"
            ops.append(f"{rng.choice(['make', 'makeo'])} {f} {s} {rng.randint(1, 3)} {rng.randint(1, 2)} "
                       f"{rng.randint(6, 99)} {rng.randint(0, 1)}")
        elif x < 0.55:
            ops.append(f"{rng.choice(['movenew', 'movea'])} n 0 {s} {t}")
        elif x < 0.70:
            ops.append(f"swap n 0 {s} {t} {rng.randint(0, 1)}")
        else:
            ops.append(f"{rng.choice(['new', 'reset', 'release', 'put', 'adopt', 'dest'])} n 0 {s}")
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if any(l[0] in "xd" for l in e["log"])]
    if not c:
        return None
    e = rng.choice(c)
    i = rng.choice([i for i, l in enumerate(e["log"]) if l[0] in "xd"])
    w = rng.randrange(3)
    if w == 0:
        del e["log"][i]
    elif w == 1:
        e["log"].insert(i, list(e["log"][i]))
    else:
        e["log"][i][rng.randint(1, 4 if e["log"][i][0] == "d" else 3)] += 1
    return tr


def check(c):
    jobs, fam = {}, {}
    for name, flags in {"f1": ["-DFAM=1"], "f2": ["-DFAM=2"], "f3": ["-DFAM=3", "-DKIND=2"], "f3b": ["-DFAM=3", "-DKIND=3"],
                        "f4": ["-DFAM=4", "-DKIND=1"], "f5": ["-DFAM=5"]}.items():
        jobs[name] = ("owner.cpp", FLAGS + flags)
    jobs["f1s"] = ("owner.cpp", ["-std=c++17", "-O2", "-DNDEBUG", "-DSTDPMR", "-DFAM=1"])
    jobs["f3s"] = ("owner.cpp", ["-std=c++17", "-O2", "-DNDEBUG", "-DSTDPMR", "-DFAM=3"])
    for f in (1, 3, 4, 5):
        jobs[f"n{f}"] = ("owner.cpp", FLAGS + [f"-DFAM={f}", "-fno-exceptions"])
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        m = vlib.explore("OwnerMC.tla", "OwnerMC.cfg", c.sub("mc"))
        c.add_model("OwnerMC", m)
        if c.thorough:
            d = vlib.explore("OwnerMC.tla", "OwnerMC_deep.cfg", c.sub("mcd"))
            c.add_model("OwnerMC_deep", d)
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}
    use = {(1, True): ["f1", "f2", "f1s"], (3, True): ["f3", "f3b", "f3s"], (1, False): ["f1", "f2", "n1"], (3, False): ["f3", "n3"],
           (4, False): ["f4", "n4"], (5, False): ["f5", "n5"]}
    stats = [0, 0]
    for slots, mod, part in [(2, m, None)] + ([(3, d, 200000)] if c.thorough else []):
        walks, cov, tot = vlib.covering_walks(mod, c.rng, 100, part)
        stats = [stats[0] + cov, stats[1] + tot]
        for init, walk in walks:
            g = json.loads(init)[0]
            b = use[(g["fam"], g["throws"])]
            if not g["nullfail"]:  # needs exceptions
                b = [x for x in b if x[0] == "f"]
            else:  # standard allocators never give null
                b = [x for x in b if x[-1] != "s"]
            b = c.rng.choice(b)
            hist[b].append((f"{slots} {int(g['nullfail'])}", script(walk, c.rng)))
    c.stats["edges"] = {"covered": stats[0], "total": stats[1]}
    for _ in range(6000 if c.thorough else 800):
        b = c.rng.choice(sorted(bins))
        n = c.rng.randint(2, 4)
        hist[b].append((f"{n} {0 if b[-1] == 's' else c.rng.randint(0, 1)}", random_history(c.rng, n, 80)))
    neg = True
    for b, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(b, bins[b], h, lambda j: {}, "OwnerTrace.tla", "OwnerTrace.cfg", corrupt=corrupt if neg else None)
        neg = False
    fwd.run(c, ["owner"])


vlib.main(check, "C10")
