import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-I", os.path.join(vlib.ROOT, "harness", "o1stub"), "-fno-builtin", "-Wl,--wrap=malloc,--wrap=realloc,--wrap=free", "-O1", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
JOBS = {"exc": ["-std=c++14"] + FLAGS + vlib.ASAN, "noexc": ["-std=c++17", "-fno-exceptions"] + FLAGS + vlib.ASAN, "plain": ["-std=c++14", "-O2", "-DNDEBUG"] + FLAGS[:4]}


def line(rng, x):
    if x[0] == "alloc":
        x[4] = rng.randint(1, 2) if x[4] else 0
    return " ".join(map(str, x))


def random_op(rng):
    k = rng.random()
    b = rng.randint(1, 4)
    n = rng.choice([0, 1, 7, 24, 100, 200, 1000, 3000, 5000, 100000, 1000000000])
    if k < 0.45:
        return ["alloc", b, n, 1 << rng.randint(0, 8), rng.random() < 0.9]
    if k < 0.65:
        return ["free", b]
    if k < 0.9:
        return ["realloc", b, max(n, 1), 1 << rng.choice([0, 3, 4, 4, 4, 5, 8])]
    return rng.choice([["max"], ["refuse"], ["ignore"], ["eq", rng.choice(["self", "same", "null", "sys", "mine"])]])


def corrupt(tr, rng):
    es = [e for e in tr["e"] if e["op"] in ("alloc", "free", "max", "eq")]
    if not es:
        return None
    e = rng.choice(es)
    if e["op"] == "max":
        e["ret"] += 1
    elif e["op"] == "eq":
        e["eq"] = not e["eq"]
    elif e["op"] == "alloc" and rng.random() < 0.5:
        e["r"] = "null" if e["r"] == "ok" else "ok"
    else:
        e[rng.choice(["clash", "off"])] = True if rng.random() < 0.5 else 1
        e["kept"] = False
    return tr


def check(c):
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, {b: ("sysmem.cpp", fl) for b, fl in JOBS.items()}, c.sub("bin"))
        name = "SysMemMC_deep" if c.thorough else "SysMemMC"
        m = vlib.explore("SysMemMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    walks, cov, tot = vlib.covering_walks(m, c.rng, 100)
    c.stats["edges"] = {"covered": cov, "total": tot}
    hist = {b: [] for b in bins}
    for init, walk in walks:
        g = json.loads(init)[0]
        hist[c.rng.choice(["exc", "plain"]) if g["exc"] else "noexc"].append((f"{g['kind']} {c.rng.randint(0, 1)}", [line(c.rng, json.loads(l)) for l in walk]))
    for b in hist:
        for _ in range(1000 if c.thorough else 150):
            hist[b].append((f"{c.rng.choice(['sys', 'sys', 'heap', 'null'])} {c.rng.randint(0, 1)}", [line(c.rng, random_op(c.rng)) for _ in range(60)]))
    for b in sorted(bins):
        c.rng.shuffle(hist[b])
        c.campaign(b, bins[b], hist[b], lambda j: {}, "SysMemTrace.tla", "SysMemTrace.cfg", corrupt=corrupt if b == "exc" else None)


vlib.main(check, "C22")
