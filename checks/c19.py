import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O1"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp17": ["-std=c++17", "-O2", "-DNDEBUG"], "cpp20": ["-std=c++20", "-O1"] + vlib.ASAN}
KINDS = 5
STREAMS = (0, 1, 4)


def line(rng, kind, x):
    """A step as the harness takes it: ways of doing the same thing are chosen here."""
    x = list(x)
    if x[0] == "fresh":
        x[2:] = [rng.randrange(3)] + x[2]
    elif x[0] == "swap":
        x.append(rng.randrange(2))
    elif x[0] in ("finds", "cmp"):
        x.append(rng.choice([0, 0, 0, 1, 2, 3] if x[0] == "cmp" else [0, 0, 1, 2]))
    elif x[0] == "out" and kind not in STREAMS:
        x = ["walk", x[1]]
    elif x[0] in ("sub", "copy", "at", "findc"):
        # any number beyond the end is as good as the largest
        x = [y if y != -1 or not isinstance(y, int) else rng.choice([-1, -1, -2, -3]) for y in x]
    return " ".join(map(str, x))


def random_history(rng, kind):
    letters = rng.choice([[0, 1, 2, 3], [2, 3], [0, 3], [1, 2], [2]])
    top = rng.choice([3, 6, 12, 40])

    def word(n):
        return [rng.choice(letters) for _ in range(rng.randint(0, n))]

    ops = [["fresh", 1, word(top)], ["fresh", 2, word(rng.choice([1, 2, 3]))]]
    place = lambda: rng.choice([-1, rng.randint(0, top + 1), rng.randint(0, top + 1), 0, 1, top])
    for _ in range(60):
        s, d = rng.randint(1, 3), rng.randint(1, 3)
        k = rng.random()
        if k < 0.08:
            ops.append(["fresh", s, word(top if s == 1 else 4)])
        elif k < 0.1:
            ops.append(["clear", s])
        elif k < 0.14:
            ops.append(["assign", s, d])
        elif k < 0.18:
            ops.append(["swap", s, d])
        elif k < 0.24:
            ops.append([rng.choice(["prefix", "suffix"]), s, rng.randint(0, 3)])
        elif k < 0.36:
            ops.append(["sub", s, d, rng.choice([place(), rng.randint(0, 3)]), place()])
        elif k < 0.44:
            ops.append(["copy", s, rng.choice([place(), rng.randint(0, 3)]), place()])
        elif k < 0.5:
            ops.append(["at", s, place()])
        elif k < 0.6:
            ops.append(["findc", s, rng.choice(letters), place()])
        elif k < 0.74:
            ops.append(["finds", s, d, place()])
        elif k < 0.86:
            ops.append(["cmp", s, d])
        elif k < 0.92:
            ops.append(["walk", s])
        else:
            ops.append(["out", s, rng.choice([0, top, rng.randint(0, top + 3)]), 4, rng.choice(["none", "left", "right", "internal", "both"])])
    return ops


def long_history(rng):
    """Long views that differ late or in length only."""
    n = rng.choice([130, 260, rng.randint(200, 520), rng.randint(513, 700)])
    base = [rng.choice([2, 2, 2, 2, 1]) for _ in range(n)]
    late = rng.randint(max(0, n - 6), n - 1)
    other = list(base)
    other[late] = 3
    cut = rng.choice([1, 128, 129, 200, n - 2, rng.randint(1, n - 1)])
    place = lambda: rng.choice([-1, 0, late, late + 1, n, n + 1, n - 1, rng.randint(0, n)])
    ops = [["fresh", 1, base], ["fresh", 2, other], ["cmp", 1, 2], ["cmp", 2, 1], ["findc", 2, 3, 0], ["fresh", 3, base[:]],
           ["cmp", 1, 3], ["suffix", 3, min(cut, n)], ["cmp", 1, 3], ["cmp", 3, 1], ["finds", 1, 3, rng.choice([0, 1])],
           ["sub", 2, 3, late - rng.randint(0, min(late, 4)), rng.choice([-1, 3])], ["finds", 2, 3, 0], ["walk", 2]]
    for _ in range(10):
        s = rng.randint(1, 2)
        ops.append(rng.choice([["at", s, place()], ["findc", s, rng.choice([0, 1, 2, 3]), place()], ["finds", s, 3, place()],
                               ["sub", s, 3, place(), place()], ["copy", s, place(), place()], ["cmp", s, 3],
                               ["out", s, rng.choice([0, n - 1, n + 1, n + 200]), 4, rng.choice(["none", "left", "right"])]]))
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] in ("findc", "finds", "cmp", "sub", "out", "walk")]
    if not c:
        return None
    e = rng.choice(c)
    if e["op"] in ("findc", "finds"):
        e["ret"] += 1
    elif e["op"] == "cmp":
        k = rng.randrange(6)
        e["rel"][k] = not e["rel"][k]
    elif e["op"] == "sub":
        rng.choice(e["post"])["n"] += 1
    elif e["op"] == "out":
        e["ret"].append(1)
    else:
        rng.choice(e["seqs"]).append(2)
    return tr


def check(c):
    variants = list(VARIANT) if c.thorough else ["asan"]
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, {v: ("strview.cpp", VARIANT[v]) for v in variants}, c.sub("bin"))
        models = []
        for name in ["StrViewMC_deep" if c.thorough else "StrViewMC", "StrViewMC_fold"]:
            models.append(vlib.explore("StrViewMC.tla", name + ".cfg", c.sub(name)))
            c.add_model(name, models[-1])
        bins = f.result()
    c.mark("model + build")
    for v in variants:
        hist = []
        for m, kinds, top in ((models[0], [0, 1, 2, 3], 60000 if c.thorough else 35000), (models[1], [4], None if c.thorough else 15000)):
            walks, cov, tot = vlib.covering_walks(m, c.rng, 120, top)
            c.stats.setdefault("edges", []).append({"covered": cov, "total": tot})
            for init, walk in walks:
                kind = c.rng.choice(kinds)
                hist.append((str(kind), [line(c.rng, kind, json.loads(l)) for l in walk]))
        for _ in range(2000 if c.thorough else 500):
            kind = c.rng.randrange(KINDS)
            hist.append((str(kind), [line(c.rng, kind, x) for x in random_history(c.rng, kind)]))
        for _ in range(300 if c.thorough else 60):
            kind = c.rng.randrange(KINDS)
            hist.append((str(kind), [line(c.rng, kind, x) for x in long_history(c.rng)]))
        c.rng.shuffle(hist)
        c.campaign(v, bins[v], hist, lambda j: {}, "StrViewTrace.tla", "StrViewTrace.cfg", corrupt=corrupt if v == "asan" else None)


vlib.main(check, "C19")
