import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp17": ["-std=c++17", "-O2", "-DNDEBUG"]}
ALTS = {1: 4, 2: 4, 3: 4, 4: 4, 5: 9, 6: 1}


def table(rng):
    """Answers of the values' own operators: any relation, or all alike but one operator."""
    if rng.random() < 0.5:
        return "".join(rng.choice("01") for _ in range(6 * 4 * 9))
    odd, base = rng.randrange(6), rng.choice("01")
    return "".join((base if o != odd else "10"[int(base)]) * 36 for o in range(6))


def bits(tab):
    return "".join("01"[x] for o in tab for p in o for v in p for x in v)


def random_history(rng, kind, shape, length):
    ops = []
    n = len(shape)
    for _ in range(length):
        k = rng.choice(["put", "put", "put", "clear", "cmp", "cmp", "cmp", "cmpv", "cmpv", "cmpn"])
        x = [k, rng.randint(1, n)]
        if k == "put":
            x += [1 if shape[x[1] - 1] != "0" else rng.randint(1, ALTS[kind]), rng.randrange(3)]
        elif k == "cmp":
            x.append(rng.randint(1, n))
        elif k == "cmpv":
            x += [rng.randint(1, 2), rng.randrange(3)]
        ops.append(" ".join(map(str, x)))
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["r"]]
    if not c:
        return None
    e = rng.choice(c)
    if rng.random() < 0.8:
        k = rng.randrange(len(e["r"]))
        e["r"][k] = not e["r"][k]
    else:
        e["post"][0]["v"] += 1
    return tr


def check(c):
    variants = ["asan", "cpp17"] if c.thorough else ["asan"]
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, {v: ("cmp.cpp", VARIANT[v]) for v in variants}, c.sub("bin"))
        name = "CmpMC_deep" if c.thorough else "CmpMC"
        m = vlib.explore("CmpMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    hist = []
    walks, cov, tot = vlib.covering_walks(m, c.rng, 200, 60000)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g = json.loads(init)[0]
        ops = [" ".join(map(str, json.loads(l))) for l in walk]
        shape = "".join(map(str, g["kind"]))
        kinds = {"natural": [1, 2, 3], "partial": [1, 2, 4], "lawless": [1, 2]}[g["name"]]
        for k in kinds if c.thorough else c.rng.sample(kinds, 1):
            hist.append((f"{k} {shape} {bits(g['tab'])}", ops))
    for _ in range(4000 if c.thorough else 500):
        k = c.rng.choice([1, 1, 1, 2, 3, 4, 5, 5, 6])
        shape = c.rng.choice(["112", "1212", "000", "0012", "0000"])
        hist.append((f"{k} {shape} {table(c.rng)}", random_history(c.rng, k, shape, 80)))
    neg = True
    for name in variants:
        c.rng.shuffle(hist)
        c.campaign(name, bins[name], hist, lambda j: {}, "CmpTrace.tla", "CmpTrace.cfg", corrupt=corrupt if neg else None)
        neg = False


vlib.main(check, "C16")
