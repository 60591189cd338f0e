"""What a component is given to make an object of is what the object gets: spec/Fwd.tla against harness/fwd.cpp."""
import concurrent.futures as cf
import json

import vlib

COMP = {"opt": 1, "var": 2, "uvar": 3, "vla": 4, "owner": 5, "func": 6}


def line(x, shift):
    """The values passed are the model's, shifted: they mean nothing but which object is which."""
    return " ".join([x[0], x[1], str(len(x[2]))] + [f"{a['c']} {a['v'] + shift}" for a in x[2]])


def corrupt(tr, rng):
    e = rng.choice(tr["e"])
    if e["saw"] and rng.random() < 0.5:
        s = rng.choice(e["saw"])
        s["c"] = "r" if s["c"] != "r" else "l"
    else:
        e["made"] += 1
    return tr


def run(c, comps):
    f = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"] + vlib.ASAN
    jobs, what = {}, {}
    for x in comps:
        kinds = {"fwd": f, "fwd17": ["-std=c++17", "-O2", "-DNDEBUG"]} if c.thorough else {"fwd": f}
        if x in ("opt", "var"):
            kinds["fwdt"] = f + ["-DTRIV"]
        for n, fl in kinds.items():
            jobs[f"{n}-{x}"] = ("fwd.cpp", fl + [f"-DCOMP={COMP[x]}"])
            what[f"{n}-{x}"] = x
    with cf.ThreadPoolExecutor(2) as ex:
        j = ex.submit(vlib.compile_all, jobs, c.sub("fwdbin"))
        m = vlib.explore("FwdMC.tla", "FwdMC.cfg", c.sub("fwdmc"))
        c.add_model("FwdMC", m)
        bins = j.result()
    count = 0
    for n in jobs:
        ops = sorted(l for s, e in m.edges.items() if json.loads(s)[0]["comp"] == what[n] for l in e)
        count += len(ops)
        c.rng.shuffle(ops)
        # both parities: a call goes through either of two wrappers
        h = [("0", [line(json.loads(l), k) for l in ops[b:b + 20] for k in (0, 1)]) for b in range(0, len(ops), 20)]
        c.campaign(n, bins[n], h, lambda j: {}, "FwdTrace.tla", "FwdTrace.cfg", corrupt=corrupt if n[:4] == "fwd-" else None)
    c.stats["forwarding"] = count
