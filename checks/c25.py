import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O0", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
VARIANT = {"asan": FLAGS + vlib.ASAN, "cpp17": ["-std=c++17", "-O1", "-DNDEBUG"], "cpp20": ["-std=c++20", "-O0"]}
GROUPS = range(5)


def corrupt(tr, rng):
    asks = [e for e in tr["e"] if e["op"] == "ask" and e["w"] == "can" and e["q"] == "cc"]
    logs = [e for e in tr["e"] if e["op"] in ("made", "put", "assign") and e["log"]]
    if logs and (not asks or rng.random() < 0.7):
        e = rng.choice(logs)
        e["log"].append(list(e["log"][0]))
    elif asks:
        e = rng.choice(asks)
        e["a"] = not e["a"]
    else:
        return None
    return tr


def check(c):
    variants = list(VARIANT) if c.thorough else ["asan"]
    far = {"asan": "1,4,9,13,17,20,26" if c.thorough else "1,9,20"}
    far["cpp17"] = far["cpp20"] = far["asan"]
    jobs = {f"{v}-{g}": ("caps.cpp", VARIANT[v] + [f"-DGROUP={g}", f"-DFARS={far[v]}"]) for v in variants for g in GROUPS}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        name = "CapsMC_deep" if c.thorough else "CapsMC"
        m = vlib.explore("CapsMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    hist = {b: [] for b in bins}
    walks, cov, tot = vlib.covering_walks(m, c.rng, 400, None)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g = json.loads(init)[0]
        xs = g["xs"]
        head = f"uvar {int(g['c'])}{int(g['m'])}" if g["k"] == "uvar" else " ".join([g["k"]] + [str(x) for x in xs])
        group = 0 if len(xs) == 1 else (xs[0] - 1) % 4 + 1
        for v in variants:
            hist[f"{v}-{group}"].append((head, [" ".join(map(str, json.loads(l))) for l in walk]))
    neg = True
    for name, h in sorted(hist.items()):
        c.rng.shuffle(h)
        c.campaign(name, bins[name], h, lambda j: {}, "CapsTrace.tla", "CapsTrace.cfg", corrupt=corrupt if neg else None)
        neg = False


vlib.main(check, "C25")
