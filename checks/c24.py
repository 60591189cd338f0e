import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

VARIANT = {"asan": ["-std=c++14", "-O1", "-g", "-fno-exceptions"] + vlib.ASAN,
           "assert": ["-std=c++14", "-O0", "-fno-exceptions", "-DCETL_ENABLE_DEBUG_ASSERT=1"],
           "cpp17": ["-std=c++17", "-O2", "-DNDEBUG", "-fno-exceptions"]}


def corrupt(tr, rng):
    c = [e for e in tr["e"] if "out" in e]
    if not c:
        return None
    e = rng.choice(c)
    e["out"]["end"] = not e["out"]["end"]
    return tr


def check(c):
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, {v: ("noexc.cpp", fl) for v, fl in VARIANT.items()}, c.sub("bin"))
        name = "NoExcMC_deep" if c.thorough else "NoExcMC"
        m = vlib.explore("NoExcMC.tla", name + ".cfg", c.sub("mc"))
        c.add_model(name, m)
        bins = f.result()
    c.mark("model + build")
    walks, cov, tot = vlib.covering_walks(m, c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    hist = {v: [] for v in VARIANT}
    for init, walk in walks:
        comp = json.loads(init)[0]["comp"]
        ops = [" ".join(map(str, json.loads(l))) for l in walk]
        for v in VARIANT if c.thorough else [c.rng.choice(list(VARIANT))]:
            hist[v].append((comp, ops))
    for v, h in hist.items():
        c.rng.shuffle(h)
        c.campaign(v, bins[v], h, lambda j: {}, "NoExcTrace.tla", "NoExcTrace.cfg", corrupt=corrupt)


vlib.main(check, "C24")
