import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import fwd
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp17": ["-std=c++17", "-O2", "-DNDEBUG"]}
GROUP = {1: (1, 2, 3), 2: (4, 5, 6, 7), 3: (8, 9, 10)}
ALTS = {1: 3, 2: 3, 3: 2, 4: 3, 5: 1, 6: 3, 7: 4, 8: 8, 9: 2, 10: 2}
HOWS = {"newv": 10, "emplace": 7, "assign": 5, "copynew": 2}


def kinds_for(g):
    """Lists of alternatives with the capabilities of a model configuration."""
    if not g["cc"]:
        return [3]
    return [1] if g["alts"][0]["keep"] else [2]


def line(rng, x):
    if x[0] in HOWS:
        x = x + [rng.randrange(HOWS[x[0]])]
    return " ".join(map(str, x))


def script(rng, walk):
    return [line(rng, json.loads(l)) for l in walk]


def random_history(rng, kind, n, length, vals):
    ops = []
    names = ["newv", "newv", "assign", "assign", "assign", "emplace", "emplace", "copynew", "movenew", "copya", "copya", "movea", "movea",
             "swap", "swap", "dest", "write", "take"]
    for _ in range(length):
        k = rng.choice(names)
        x = [k] + (["e", rng.choice([1, 1, 1, 2, 3])] if rng.random() < 0.3 else ["n", 0]) + [rng.randint(1, n)]
        if k in ("newv", "assign", "emplace"):
            x += [rng.randint(1, ALTS[kind]), rng.choice(vals)]
        elif k in ("copynew", "movenew", "copya", "movea", "swap"):
            x.append(rng.randint(1, n))
        elif k == "take":
            x.append(rng.randint(1, ALTS[kind]))
        elif k == "write":
            x.append(rng.choice(vals))
        if k in ("write", "dest"):
            x[1:3] = ["n", 0]
        ops.append(line(rng, x))
    return ops


def corrupt(tr, rng):
    c = [(e, p) for e in tr["e"] for p in e["post"] if p["on"] and p["i"] > 0]
    if not c:
        return None
    e, p = rng.choice(c)
    what = rng.choice("gthvl")
    if what in "gt":
        l = rng.choice(p[what])
        l[rng.randrange(len(l))] += 1
        if what == "t" and not all(tr["c"]["uniq"]):
            return None
    elif what == "h":
        p["hold"][p["i"] - 1] += 1
    elif what == "v":
        p["vis"][rng.randrange(2)] += 1
    else:
        e["live"] += 1
    return tr


def check(c):
    variants = ["asan", "cpp17"] if c.thorough else ["asan"]
    jobs = {f"{v}-{g}": ("var.cpp", VARIANT[v] + [f"-DGROUP={g}"]) for v in variants for g in GROUP}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        name = "VarMC_deep" if c.thorough else "VarMC"
        m = vlib.explore("VarMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}

    def add(kind, slots, ops):
        g = next(g for g in GROUP if kind in GROUP[g])
        for v in variants:
            hist[f"{v}-{g}"].append((f"{kind} {slots}", ops))

    walks, cov, tot = vlib.covering_walks(m, c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g, a = json.loads(init)
        for k in kinds_for(g):
            add(k, len(a), script(c.rng, walk))
        if len(g["alts"]) == 3:  # other lists of at least as many alternatives follow the same steps
            for k in c.rng.sample([4, 6, 7, 8], 4 if c.thorough else 1):
                add(k, len(a), script(c.rng, walk))
    for _ in range(4000 if c.thorough else 600):
        k = c.rng.randint(1, 10)
        n = c.rng.choice([2, 3, 3, 4])
        add(k, n, random_history(c.rng, k, n, 80, list(range(100))))
    neg = True
    for name, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(name, bins[name], h, lambda j: {}, "VarTrace.tla", "VarTrace.cfg", corrupt=corrupt if neg else None)
        neg = False
    fwd.run(c, ["var"])


vlib.main(check, "C15")
