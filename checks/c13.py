import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1", "-pthread"]
KINDS = ["getnd", "setnd", "getdf", "setdf"]


class Values:
    """Every set uses another resource, so that a result tells which set it saw."""
    def __init__(self):
        self.n = 0

    def of(self, a):
        if a == 0:
            return 0
        self.n += 1
        return self.n


def schedule(walk):
    v, ops = Values(), []
    for l in walk:
        x = json.loads(l)
        if x[0] == "inv":
            ops.append(f"inv {x[1]} {x[2]} {v.of(x[3])}")
        elif x[0] == "go":
            ops.append(f"go {x[1]}")
    return ops


def random_schedule(rng, n, length):
    v, ops = Values(), []
    for _ in range(length):
        t = rng.randint(1, n)
        if rng.random() < 0.4:
            k = rng.choice(KINDS)
            ops.append(f"inv {t} {k} {v.of(rng.randint(0, 3)) if k[0] == 's' else 0}")
        else:
            ops.append(f"go {t}")
    return ops


def free_run(rng, n, length):
    v, ops = Values(), []
    style = rng.choice([KINDS, ["setdf"], ["setnd"], ["setdf", "getdf"], ["setnd", "setdf"]])
    for _ in range(length):
        for t in range(1, n + 1):
            k = rng.choice(style)
            ops.append(f"op {t} {k} {v.of(rng.randint(0, 5)) if k[0] == 's' else 0}")
    return ops


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] == "ret"]
    if not c:
        return None
    rng.choice(c)["v"] = 255
    return tr


def check(c):
    jobs = {"coop": ("reg.cpp", FLAGS + ["-DCOOP"]), "free": ("reg.cpp", ["-std=c++14", "-O2", "-DNDEBUG", "-pthread"])}
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, jobs, c.sub("bin"))
        models = ["RegMC", "RegMC_deep"]
        ms = []
        for n in models:
            m = vlib.explore("RegMC.tla", n + ".cfg", c.sub(n))
            c.add_model(n, m)
            ms.append(m)
        bins = f.result()
    c.mark("model + build")
    hist, cov, tot = [], 0, 0
    for n, m, part in ((2, ms[0], None), (3, ms[1], None if c.thorough else 12000)):
        walks, a, b = vlib.covering_walks(m, c.rng, 40, part)
        cov, tot = cov + a, tot + b
        hist += [(str(n), schedule(w)) for _, w in walks]
    c.stats["edges"] = {"covered": cov, "total": tot}
    for _ in range(4000 if c.thorough else 500):
        n = c.rng.randint(2, 4)
        hist.append((str(n), random_schedule(c.rng, n, 50)))
    c.rng.shuffle(hist)
    c.campaign("coop", bins["coop"], hist, lambda j: {}, "RegTrace.tla", "RegTrace.cfg", corrupt=corrupt, timeout=300)
    free = []
    for _ in range(6000 if c.thorough else 1200):
        n = c.rng.randint(2, 4)
        free.append((str(n), free_run(c.rng, n, c.rng.randint(3, 12))))
    c.campaign("free", bins["free"], free, lambda j: {}, "RegTrace.tla", "RegTrace.cfg", timeout=300)


vlib.main(check, "C13")
