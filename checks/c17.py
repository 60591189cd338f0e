import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O0", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp17": ["-std=c++17", "-O0", "-DNDEBUG"]}
CATS = ["l", "cl", "r", "cr"]
ALTS = [3, 2, 1, 9]
TRIPLES = [[1, 2, 3], [2, 3, 1], [3, 1, 2]]


def line(rng, x):
    if x[0] in ("visit", "pick"):
        n, a, w, ss, cs = x
        x = [n, a, w, len(ss)] + ss + cs + [rng.randrange(9 if n == "visit" else 4)]
    return " ".join(map(str, x))


def group(x):
    """The binary that has the step; steps that only change the pool are in all of them."""
    if x[0] not in ("visit", "pick"):
        return 0
    if 4 in x[3]:
        return 5
    n = max(len(x[3]), 1)
    return n if x[0] == "visit" or n == 1 else 4


def random_op(rng):
    k = rng.random()
    if k < 0.3:
        s = rng.choice([1, 2, 3, 4, 4])
        return ["put", s, rng.randint(1, ALTS[s - 1]), rng.randrange(100)]
    if k < 0.33:
        return ["lose", rng.randint(1, 4)]
    if k < 0.35:
        return ["visit", rng.choice(["read", "write", "take", "throw"]), rng.randrange(100), [], []]
    if k < 0.5:  # the long one, four at a time
        ss = rng.choice([[4], [4, 2], [2, 4], [1, 2, 3, 4], [4, 3, 2, 1]])
        cs = [rng.choice(CATS)] if len(ss) == 1 else [rng.choice("lr"), rng.choice(["cl", "r"])]
        if len(ss) == 4:
            cs = [cs[0], "cl", "r", cs[1]] if ss[0] == 1 else [rng.choice(["l", "cl"]), "r", "l", "r"]
        if len(ss) == 1 and rng.random() < 0.3:
            return ["pick", rng.randint(1, 5), 0, ss, cs]
        return ["visit", rng.choice(["read", "write", "take", "throw", "ref"]), rng.randrange(100), ss, cs]
    n = rng.choice([1, 2, 2, 3]) if k < 0.75 else rng.choice([1, 2])
    ss = rng.choice(TRIPLES) if n == 3 else [rng.randint(1, 3) for _ in range(n)]
    cs = [rng.choice(CATS) for _ in ss]
    if n == 3:
        cs[1:] = [rng.choice(["cl", "r"]), rng.choice(["l", "r"])]
    if k < 0.75:
        return ["visit", rng.choice(["read", "write", "take", "throw", "ref"]), rng.randrange(100), ss, cs]
    return ["pick", rng.randint(1, 5) if n == 1 else rng.randint(6, 7), 0, ss, cs]


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] in ("visit", "pick") and e["r"] == "ok"]
    if not c:
        return None
    e = rng.choice(c)
    what = rng.choice(["calls", "given", "ret", "same"]) if e["op"] == "visit" else "won"
    if what == "given" and e["given"]:
        g = rng.choice(e["given"])
        k = rng.randrange(3)
        g[k] = {"l": "r", "r": "cr", "cl": "l", "cr": "cl"}[g[k]] if k == 2 else g[k] + 1
    elif what in ("same", "given"):
        e["same"] = False
    else:
        e[what] += 1
    return tr


def check(c):
    variants = ["asan", "cpp17"] if c.thorough else ["asan"]
    jobs = {f"{v}-{g}": ("visit.cpp", VARIANT[v] + [f"-DGROUP={g}"]) for v in variants for g in range(1, 6)}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        name = "VisitMC_deep" if c.thorough else "VisitMC"
        m = vlib.explore("VisitMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}

    def add(ops):
        for g in range(1, 6):
            # a step another binary has is replaced by its effect on the pool: nothing, or a fresh value
            mine = [x for x in ops if group(x) in (0, g)]
            if any(group(x) for x in mine):
                for v in variants:
                    hist[f"{v}-{g}"].append(("0", [line(c.rng, x) for x in mine]))

    walks, cov, tot = vlib.covering_walks(m, c.rng, 200, None if c.thorough else 40000)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        add([json.loads(l) for l in walk])
    for _ in range(3000 if c.thorough else 300):
        add([random_op(c.rng) for _ in range(100)])
    neg = True
    for name, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(name, bins[name], h, lambda j: {}, "VisitTrace.tla", "VisitTrace.cfg", corrupt=corrupt if neg else None)
        neg = False


vlib.main(check, "C17")
