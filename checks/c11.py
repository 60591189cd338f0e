import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"]


def word(x):
    return str(int(x)) if isinstance(x, bool) else str(x)


def random_history(rng, size, base, upmax, n):
    """Long history with sizes around the limits; ids of live blocks are guessed, the harness skips dead ones."""
    ops = []
    live = []
    nxt = 1
    edge = sorted({1, 2, 7, 8, 9, 15, 16, 17, size // 2, max(1, size - 1), size, size + 1, max(1, upmax - 1) if upmax < 10000 else 50,
                   upmax if 0 < upmax < 10000 else 60, (upmax + 1) if upmax < 10000 else 70} - {0})
    for _ in range(n):
        k = rng.random()
        sz = rng.choice(edge) if rng.random() < 0.7 else rng.randint(1, size + 20)
        if upmax <= 1000000 and rng.random() < 0.05:
            sz = 2000000 - rng.choice([0, 1, 7, 15, 31, size, size + 1, 100, 4095])  # next to the largest size there is
        al = rng.choice([1, 2, 4, 8, 16, 32, 64]) if rng.random() < 0.8 else rng.choice([128, 256, 512, 1024, 4096])
        f = int(rng.random() < 0.2)
        if k < 0.42 or not live:
            if len(live) < 6:
                if rng.random() < 0.8:
                    ops.append(f"alloc {nxt} {0 if upmax and rng.random() < 0.05 else sz} {al} {f}")
                else:
                    ops.append(f"rnull {nxt} {sz} {al} {f}")
                live.append(nxt)
                nxt += 1
        elif k < 0.70:
            ops.append(f"realloc {rng.choice(live)} {sz} {f}")
        elif k < 0.97:
            ops.append(f"dealloc {live.pop(rng.randrange(len(live)))}")
        else:
            ops.append("max")
    rng.shuffle(live)
    ops += [f"dealloc {i}" for i in live]
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] == "alloc" and e.get("r") == "ok"]
    if not c:
        return None
    e = rng.choice(c)
    e["w"] = "up" if e["w"] == "buf" else "buf"
    return tr


def check(c):
    jobs = {"asan": ("bufres.cpp", FLAGS + vlib.ASAN),
            "noexc": ("bufres.cpp", FLAGS + ["-fno-exceptions"]),
            "cpp20": ("bufres.cpp", ["-std=c++20", "-O2", "-DNDEBUG"])}
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        bins_f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        m = vlib.explore("BufResMC.tla", "BufResMC.cfg", c.sub("mc"))
        bins = bins_f.result()
    c.add_model("BufResMC", m)
    c.mark("model + build")
    walks, cov, tot = vlib.covering_walks(m, c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for name, binary in bins.items():
        exc = name != "noexc"
        hist, cfgs = [], []

        def add(kind, g, ops, nullup=0):
            hist.append((f"{kind} {g['size']} {g['base']} {g['upmax']} {int(g['uprealloc'])} {nullup}", ops))
            cfgs.append(dict(g, exc=exc, cap=1000000))

        for init, walk in walks:
            g = json.loads(init)[0]
            if name == "cpp20" and c.rng.random() < 0.5:
                continue
            kind = c.rng.choice(["buf", "buf", "bufmv"] + ([] if g["uprealloc"] else ["dlg", "dlg"]))
            if g["upmax"] == 0:
                kind = c.rng.choice(["buf", "buf0"])
            elif g["size"] == 40 and c.rng.random() < 0.4:
                kind = "arr"
            ops = [" ".join(word(x) for x in json.loads(l)) for l in walk]
            add(kind, g, ops + ["max"], int(exc and c.rng.random() < 0.3))
        for _ in range(1200 if c.thorough else 150):
            kind = c.rng.choice(["buf", "buf", "bufmv", "dlg", "arr", "arr0", "buf0"])
            size = 40 if kind.startswith("arr") else c.rng.choice([0, 1, 7, 8, 16, 24, 33, 40, 64, 100, 255, 300, 1000, 5000, 66000])
            base = c.rng.choice([0, 0, 1, 3, 4, 8, 12, 16, 24, 40, 63, 64, 500, 2048])
            upmax = 0 if kind.endswith("0") else c.rng.choice([0, 1, 16, 40, 41, 64, 500, 999950, 999960, 999976, 1000000, 1000001])
            g = dict(size=size, base=base, upmax=upmax, uprealloc=(kind != "dlg" and c.rng.random() < 0.5))
            # a limit above the pointer range counts as unlimited
            add(kind, g, ["max"] + random_history(c.rng, size, base, upmax, 60), int(exc and c.rng.random() < 0.3))
            cfgs[-1]["upmax"] = min(upmax, 1000000)
        c.campaign("bufres-" + name, binary, hist, lambda j: cfgs[j], "BufResTrace.tla", "BufResTrace.cfg",
                   corrupt=corrupt if name == "asan" else None)


vlib.main(check, "C11")
