import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

KINDS = ["no", "lead", "trail", "both", "mix", "picky"]
VARIANT = {"asan": ["-std=c++14", "-O0", "-DCETL_ENABLE_DEBUG_ASSERT=1"] + vlib.ASAN, "cpp20": ["-std=c++20", "-O1", "-DNDEBUG"]}
CATS = ["l", "cl", "r"]


def flat(args):
    return [len(args)] + [y for a in args for y in (a["c"], a["v"])]


def line(rng, x):
    if x[0] == "one":
        x = x[:4] + flat(x[4])
    elif x[0] == "pair":
        x = x[:6] + flat(x[6]) + flat(x[7])
    elif x[0] == "deriv":
        x = x[:5] + ["two"] + flat(x[5]) + flat(x[6])
    elif x[0] == "copy":
        x = x + [rng.randrange(4)]
    elif x[0] == "eq":
        x = x + [rng.randrange(2)]
    return " ".join(map(str, x))


def args(rng, n, cats=CATS):
    return [{"c": rng.choice(cats), "v": 99 if rng.random() < 0.05 else rng.randrange(90)} for _ in range(n)]


def random_object(rng, first):
    a, k = rng.randint(1, 2), rng.choice(KINDS)
    if first is None:
        return ["one", a, rng.randint(1, 3), k, args(rng, rng.randint(0, 2))]
    t = rng.randint(1, 2)
    if rng.random() < 0.15:
        return ["deriv", a, t, first, k] + [[{"c": rng.choice(CATS), "v": rng.randrange(90)}] for _ in range(2)]
    how = rng.choice(["two", "none", "refs", "vals", "cpair", "lpair", "rpair"])
    if how == "none":
        return ["pair", a, t, first, k, how, [], []]
    if how in ("refs", "vals"):
        part = [[[], args(rng, 1, ["cl"]), args(rng, 1, ["l"]) + args(rng, 1, ["r"])][rng.randrange(3)] for _ in range(2)]
        return ["pair", a, 2, first, k, how] + part
    return ["pair", a, t, first, k, how] + [args(rng, 1, CATS if how == "two" else ["r"]) for _ in range(2)]


def random_op(rng, first):
    k = rng.random()
    a, b = rng.randint(1, 2), rng.randint(1, 2)
    if k < 0.4:
        return random_object(rng, first)
    if k < 0.7:
        n = rng.choice([0, 1, 2, 3, 7, 40, -1, -2])
        f = rng.choice(["ok", "ok", "ok", "null", "throw"])
        if rng.random() < 0.5:
            return ["alloc", a, b, rng.randint(2 if n == -2 else 1, 4), n, f]
        return ["realloc", a, b, 5 if n == -2 else n, f]
    if k < 0.8:
        return ["free", a, b]
    return rng.choice([["max", a, rng.randint(1, 4)], ["copy", a, b], ["eq", a, b], ["make", a, rng.randint(1, 3)]])


def corrupt(tr, rng):
    es = [e for e in tr["e"] if e["op"] in ("one", "pair", "alloc", "max", "eq")]
    if not es:
        return None
    e = rng.choice(es)
    if e["op"] in ("one", "pair"):
        g = e["log"][0]
        what = rng.choice(["form", "res", "args", "alive", "log"])
        if what == "form":
            g["form"] = "trail" if g["form"] != "trail" else "lead"
        elif what == "res":
            g["res"] += 1
        elif what == "args" and g["args"]:
            g["args"][0]["v"] -= 3
        elif what == "log":
            e["log"].append(g)
        else:
            e["alive"] += 1
    elif e["op"] == "alloc":
        e["r"] = "null" if e["r"] != "null" else "ok"
    elif e["op"] == "max":
        e["ret"] += 1
    else:
        e["eq"] = not e["eq"]
    return tr


def check(c):
    variants = list(VARIANT) if c.thorough else ["asan"]
    with cf.ThreadPoolExecutor(2) as ex:
        jobs = {f"{v}-{g}": ("polyalloc.cpp", VARIANT[v] + [f"-DGROUP={g}"]) for v in variants for g in range(len(KINDS) + 1)}
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        name = "PolyAllocMC_deep" if c.thorough else "PolyAllocMC"
        m = vlib.explore("PolyAllocMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    walks, cov, tot = vlib.covering_walks(m, c.rng, 100, 250000 if c.thorough else None)
    c.stats["edges"] = {"covered": cov, "total": tot}
    hist = {b: [] for b in bins}
    pairs = {g: [] for g in range(1, len(KINDS) + 1)}
    for k, (init, walk) in enumerate(walks):
        walk = [json.loads(l) for l in walk]
        for x in walk:  # pairs leave the state alone; those with the same kind first go to one program
            if x[0] in ("pair", "deriv"):
                pairs[1 + KINDS.index(x[3])].append(line(c.rng, x))
        walk = [line(c.rng, x) for x in walk if x[0] not in ("pair", "deriv")]
        if walk:
            hist[f"{variants[k % len(variants)]}-0"].append(("0", walk))
    for v in variants:
        for g, ls in pairs.items():
            hist[f"{v}-{g}"] += [("0", ls[k:k + 60]) for k in range(0, len(ls), 60)]
        for g in range(len(KINDS) + 1):
            for _ in range(300 if c.thorough else 60):
                hist[f"{v}-{g}"].append(("0", [line(c.rng, random_op(c.rng, KINDS[g - 1] if g else None)) for _ in range(60)]))
    for b in sorted(bins):
        c.rng.shuffle(hist[b])
        c.campaign(b, bins[b], hist[b], lambda j: {}, "PolyAllocTrace.tla", "PolyAllocTrace.cfg", corrupt=corrupt if b.endswith("-0") else None)


vlib.main(check, "C21")
