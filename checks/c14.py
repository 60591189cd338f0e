import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import fwd
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp17": ["-std=c++17", "-O2", "-DNDEBUG"]}
GROUP = {1: range(1, 6), 2: range(6, 13)}
HOWS = {"newv": 12, "assign": 3, "emplace": 4, "copynew": 2, "movenew": 1, "copya": 2, "movea": 1, "swap": 2, "write": 3, "take": 2,
        "takeor": 2}


def kinds_for(g):
    """Value types with the capabilities of a model configuration."""
    if g["cv"]:
        return [4] if not g["cc"] else [1] if g["keep"]["t"] else [2, 3, 5]
    return [9]


def line(rng, x):
    n = x[0]
    if n in ("newd", "reset"):
        x = x + [rng.randrange(3 if n == "reset" else 2)]
    elif n in HOWS:
        x = x + [rng.randrange(HOWS[n])]
    return " ".join(str(int(y) if isinstance(y, bool) else y) for y in x)


def script(rng, walk, deeper):
    ops = []
    for l in walk:
        x = json.loads(l)
        if x[1] == "e":
            x[2] = rng.choice(deeper)
        ops.append(line(rng, x))
    return ops


def random_history(rng, n, length, vals):
    ops = []
    names = ["newd", "newv", "newv", "assign", "assign", "emplace", "copynew", "movenew", "copya", "copya", "movea", "movea", "swap", "swap",
             "reset", "dest", "write", "take", "takeor"]
    for _ in range(length):
        k = rng.choice(names)
        x = [k] + (["e", rng.choice([1, 1, 1, 2, 3])] if rng.random() < 0.25 else ["n", 0]) + [rng.randint(1, n)]
        if k in ("newv", "assign", "emplace", "write"):
            x.append(rng.choice(vals))
        elif k in ("copynew", "movenew", "copya", "movea", "swap"):
            x.append(rng.randint(1, n))
        elif k in ("take", "takeor"):
            x.append(rng.randrange(2))
        if k in ("write", "newd", "reset", "dest"):
            x[1:3] = ["n", 0]
        ops.append(line(rng, x))
    return ops


def corrupt(tr, rng):
    c = [(e, p) for e in tr["e"] for p in e["post"] if p["on"] and p["e"]]
    if not c:
        return None
    e, p = rng.choice(c)
    what = rng.choice("owel")
    if what in "ow":
        p[what][rng.randrange(len(p[what]))] += 1
    elif what == "e":
        p["e"] = False
    else:
        e["live"] += 1
    return tr


def check(c):
    variants = ["asan", "cpp17"] if c.thorough else ["asan"]
    jobs = {f"{v}-{g}": ("opt.cpp", VARIANT[v] + [f"-DGROUP={g}"]) for v in variants for g in GROUP}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        name = "OptMC_deep" if c.thorough else "OptMC"
        m = vlib.explore("OptMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}

    def add(kind, shape, ops):
        g = 1 if kind in GROUP[1] else 2
        for v in variants:
            hist[f"{v}-{g}"].append((f"{kind} {shape}", ops))

    walks, cov, tot = vlib.covering_walks(m, c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g = json.loads(init)[0]
        same = kinds_for(g)
        for k in same:
            add(k, "".join(g["kind"]), script(c.rng, walk, [1] if k != 3 else [1, 1, 2, 3]))
        # the remaining value types have no conversion: those steps are left out when driven
        if g["cv"] and g["cc"]:
            for k in c.rng.sample([6, 7, 8, 10, 11, 12], 6 if c.thorough else 2):
                add(k, "".join(g["kind"]), script(c.rng, walk, [1]))
    for _ in range(4000 if c.thorough else 500):
        k = c.rng.randint(1, 12)
        shape = c.rng.choice(["ttu", "tttu", "ttuu"])
        add(k, shape, random_history(c.rng, len(shape), 80, [0, 1] if k == 12 else list(range(100))))
    neg = True
    for name, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(name, bins[name], h, lambda j: {}, "OptTrace.tla", "OptTrace.cfg", corrupt=corrupt if neg else None)
        neg = False
    fwd.run(c, ["opt"])


vlib.main(check, "C14")
