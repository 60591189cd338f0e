import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

TYPES = "b c s i u l ul f d ci cd cb as cs xi ob od ag mo ti p".split()
ARITH = TYPES[:9]
CATS = ["l", "cl", "r"]
# always among the lists: numbers only, the same class twice, classes made from each other's sources
FIXED = [["i"], ["b", "p", "cs"], ["l", "f"], ["d", "i", "ul"], ["ci", "cd"], ["od", "ob"], ["as", "l"], ["i", "i", "d"], ["ci", "as", "b"],
         ["ti", "ci"], ["mo", "ag"], ["xi", "l", "cb"], ["s", "c", "b", "u"], ["p", "b"]]
GROUPS = 8


def lists(rng, n):
    r = list(FIXED)
    while len(r) < n:
        k = rng.choice([2, 2, 3, 3, 3, 4])
        if rng.random() < 0.4:
            l = [rng.choice(ARITH if rng.random() < 0.8 else TYPES) for _ in range(k)]
        else:
            l = [rng.choice(TYPES) for _ in range(k)]
        if l not in r:
            r.append(l)
    return r


def clear(x, l):
    return x != "ti" or not (set(l) & set(ARITH)) - {"i", "l"}


def random_op(rng, l):
    if rng.random() < 0.2:
        j = rng.randint(1, len(l))
        return ["put", j, "-", rng.randrange(2 if l[j - 1] in ("b", "cb") else 10)]
    x = rng.choice([t for t in (TYPES if rng.random() < 0.7 else l) if clear(t, l)] or ["b"])
    return [rng.choice(["make", "assign", "assign"]), x, rng.choice(CATS), rng.randrange(2 if x in ("b", "cb") else 10)]


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] != "put"]
    if not c:
        return None
    e = rng.choice(c)
    what = rng.choice(["ok", "same", "alike"])
    e[what] = not e[what]
    return tr


def check(c):
    ls = lists(c.rng, 200 if c.thorough else 48)
    with open(os.path.join(c.sub("in"), "lists.ndjson"), "w") as f:
        f.write("".join(json.dumps(l) + "\n" for l in ls))
    os.environ["LISTS_FILE"] = f.name
    jobs = {}
    n = GROUPS * (4 if c.thorough else 1)
    for g in range(n):
        inc = os.path.join(c.sub("in"), f"lists{g}.inc")
        with open(inc, "w") as f:
            f.write("".join(f"LIST({k}, {', '.join(l)})\n" for k, l in enumerate(ls) if k % n == g))
        # both language versions, both ways of building the library
        flags = [["-std=c++14"], ["-std=c++17", "-DNDEBUG"], ["-std=c++20"], ["-std=c++14", "-DCETL_ENABLE_DEBUG_ASSERT=1"]][g % 4]
        jobs[f"conv{g}"] = ("conv.cpp", flags + ["-O0", f'-DLISTS="{inc}"'])
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        name = "ConvMC_deep" if c.thorough else "ConvMC"
        m = vlib.explore("ConvMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    c.stats["lists"] = len(ls)
    hist = {b: [] for b in bins}
    walks, cov, tot = vlib.covering_walks(m, c.rng, 200)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        k = ls.index(json.loads(init)[0]["alts"])
        hist[f"conv{k % n}"].append((str(k), [" ".join(map(str, json.loads(x))) for x in walk]))
    for k, l in enumerate(ls):
        for _ in range(10):
            hist[f"conv{k % n}"].append((str(k), [" ".join(map(str, random_op(c.rng, l))) for _ in range(60)]))
    for g, (name, h) in enumerate(sorted(hist.items())):
        c.rng.shuffle(h)
        c.campaign(name, bins[name], h, lambda j: {}, "ConvTrace.tla", "ConvTrace.cfg", corrupt=corrupt if g == 0 else None)


vlib.main(check, "C18")
