import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O0", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
ELEMENTS = ["char", "int", "Twelve"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp20": ["-std=c++20", "-O0", "-DNDEBUG"]}


def line(rng, x):
    x = [int(y) if isinstance(y, bool) else y for y in x]
    if x[0] == "make":
        x.append(rng.randrange(7))
    elif x[0] == "copy":
        x.append(rng.randrange(2))
    elif x[0] == "write":
        x.append(rng.randrange(4))
    elif x[0] in ("todyn", "tofix", "tocst"):
        x.append(0)
    return " ".join(map(str, x))


def random_op(rng):
    d, s = rng.randint(1, 2), rng.randint(1, 2)
    k = rng.random()
    if k < 0.15:
        o = rng.randint(0, 2)
        n = rng.randint(0, 4 - o)
        return ["make", d, o, n, rng.choice([-1, n]), rng.random() < 0.3]
    if k < 0.17:
        return ["none", d, rng.choice([-1, 0]), rng.random() < 0.5]
    if k < 0.3:
        return [rng.choice(["first", "last"]), d, s, rng.randint(0, 4), rng.random() < 0.5]
    if k < 0.5:
        return ["sub", d, s, rng.randint(0, 3), rng.randint(-1, 3), rng.random() < 0.5]
    if k < 0.65:
        return [rng.choice(["todyn", "tofix", "tocst", "copy"]), d, s]
    return ["write", s, rng.randint(0, 3), rng.randrange(100)]


EXTENTS = [0, 4, 44, 256, 300]


def many_op(rng):
    d, s = rng.randint(1, 2), rng.randint(1, 2)
    k = rng.random()
    fixed = rng.random() < 0.5
    count = rng.choice(EXTENTS) if fixed else rng.choice([rng.randint(0, 300), 255, 256, 257, 300])
    if k < 0.3:
        n = rng.choice([300, 300, 256, rng.randint(250, 300)])
        return ["make", d, rng.randint(0, 300 - n), n, rng.choice([-1, n]) if n in EXTENTS else -1, rng.random() < 0.2]
    if k < 0.5:
        return [rng.choice(["first", "last"]), d, s, count, fixed]
    if k < 0.75:
        return ["sub", d, s, rng.choice(EXTENTS) if fixed else rng.choice([rng.randint(0, 300), 44, 255, 256, 257]), rng.choice([-1, count]), fixed]
    if k < 0.85:
        return [rng.choice(["todyn", "tofix", "tocst", "copy"]), d, s]
    return ["write", s, rng.choice([0, 255, 256, 257, 299, rng.randint(0, 299)]), rng.randrange(100)]


def corrupt(tr, rng):
    if not tr["e"]:
        return None
    e = rng.choice(tr["e"])
    p = rng.choice(e["post"])
    what = rng.choice(["o", "n", "x", "bytes", "same", "empty", "back", "mem"])
    if what == "mem":
        e["mem"][rng.randrange(len(e["mem"]))] += 1
    elif what == "back":
        p["back"].append(0)
    elif what in ("same", "empty"):
        p[what] = not p[what]
    else:
        p[what] += 1
    return tr


def check(c):
    variants = list(VARIANT) if c.thorough else ["asan"]
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, {f"{v}-{e}": ("span.cpp", VARIANT[v] + ["-DELEMENT=" + e]) for v in variants for e in ELEMENTS}
                      | {"many": ("span.cpp", VARIANT["asan"] + ["-DELEMENT=Twelve", "-DMANY"])}, c.sub("bin"))
        name = "SpanMC_deep" if c.thorough else "SpanMC"
        m = vlib.explore("SpanMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    walks, cov, tot = vlib.covering_walks(m, c.rng, 100)
    c.stats["edges"] = {"covered": cov, "total": tot}
    c.rng.shuffle(walks)
    hist = {b: [] for b in bins}
    names = sorted(set(bins) - {"many"})
    for _ in range(200 if c.thorough else 40):
        x = [line(c.rng, many_op(c.rng)) for _ in range(20)]
        hist["many"].append(("0", ["make 1 0 300 -1 0 0", "make 2 0 300 300 0 0"] + x))
    for k, (init, walk) in enumerate(walks):
        hist[names[k % len(names)]].append(("0", [line(c.rng, json.loads(l)) for l in walk]))
    for b in names:
        for _ in range(600 if c.thorough else 150):
            hist[b].append(("0", [line(c.rng, random_op(c.rng)) for _ in range(50)]))
        # which conversions there are at all
        hist[b].append(("0", [f"can 1 {k} {w} {x} {y}" for k in range(7) for w in range(4) for x in range(-1, 5) for y in range(-1, 5)]))
    for b in names + ["many"]:
        c.rng.shuffle(hist[b])
        c.campaign(b, bins[b], hist[b], lambda j: {}, "SpanTrace.tla", "SpanTrace.cfg", corrupt=corrupt if b == names[0] else None)


vlib.main(check, "C20")
