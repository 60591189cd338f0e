"""Stimuli for the array checks: walks over the explored model and long random histories."""
import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

BIG = 1000000
FLAGS = ["-std=c++14", "-O1", "-g", "-DCETL_ENABLE_DEBUG_ASSERT=1"]
GROUP = {"tok-00": 1, "int-00": 1, "thr-00": 2, "mov-11": 2, "tok-10": 3, "tok-01": 3, "tok-11": 4, "tok-eq": 4, "tok-sc": 4,
         "tok-p": 5, "odd-p": 5, "tok-b": 6, "int-b": 6, "bool-00": 7, "bool-p": 7, "bool-10": 8, "bool-01": 8,
         "bool-r": 8, "thr-p": 9, "int-r": 9, "bool-b": 10, "mov-p": 10,
         "bool-11": 11, "bool-eq": 11, "bool-sc": 11}


def builds(kinds, variants):
    jobs = {}
    for v in variants:
        fl = {"asan": FLAGS + vlib.ASAN, "noexc": FLAGS + ["-fno-exceptions"] + vlib.ASAN,
              "cpp20": ["-std=c++20", "-O2", "-DNDEBUG"], "cpp17": ["-std=c++17", "-O2", "-D_GLIBCXX_ASSERTIONS"]}[v]
        for g in sorted({GROUP[k] for k in kinds}):
            jobs[f"{v}-{g}"] = ("vla.cpp", fl + [f"-DGROUP={g}"])
    return jobs


def model_kind(g, exc_ok=("tok",)):
    """Allocator suffix that has the propagation traits of a model configuration."""
    if g["socc"]:
        return "sc"
    if g["aleq"]:
        return "eq"
    return f"{int(g['pocma'])}{int(g['pocca'])}"


def header(kind, slots, amax, realloc, bits):
    lim = [a if a >= BIG else (a // 8 if bits else a) for a in amax]
    return f"{kind} {slots} {int(realloc)} " + " ".join(map(str, lim))


def script(walk, rng):
    ops = []
    for l in walk:
        x = json.loads(l)
        if x[1] == "e" and rng.random() < 0.7:
            x[2] = rng.choice([1, 1, 2, 2, 3, 4])
        elif x[1] == "a" and rng.random() < 0.1:
            x[2] = 2
        ops.append(" ".join(str(int(v)) if isinstance(v, bool) else str(v) for v in x))
        if x[0] == "push" and rng.random() < 0.05:
            ops.append(f"pushalias n 0 {x[3]} 1")
    return ops


def random_history(rng, slots, bits, n, faults="", limits=(BIG,), als=(1,), big=40, reads=True, huge=0.0):
    """Slot lengths are only guessed; the harness skips what does not apply."""
    on = [False] * (slots + 1)
    ln = [0] * (slots + 1)
    ops = []
    val = (lambda: rng.randint(0, 1)) if bits else (lambda: rng.randint(0, 99))

    def fault():
        if faults and rng.random() < 0.35:
            f = rng.choice(faults)
            return f"{f} {rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 9])}"
        return "n 0"

    def size(cur):
        if rng.random() < huge:
            return 2 * BIG - rng.choice([0, 1, 6] if bits else [0, 0, 1, 6, 7, 8, 9, 15, 31, 63, 100])
        k = rng.random()
        if k < 0.35:
            return max(0, cur + rng.choice([-2, -1, 1, 1, 2, 3]))
        if k < 0.5:
            l = rng.choice(limits)
            if l < BIG:
                return max(0, l + rng.choice([-1, 0, 0, 1, 2]))
        if bits and k < 0.75:
            return max(0, rng.choice([8, 16, 24, 32, 64]) + rng.choice([-1, 0, 0, 1]))
        return rng.randint(0, big)

    for _ in range(n):
        s = rng.randint(1, slots)
        others = [t for t in range(1, slots + 1) if on[t] and t != s]
        if not on[s]:
            k = rng.random()
            if k < 0.35 or not others:
                ops.append(f"new n 0 {s} {rng.choice(als)} {rng.choice(limits)}")
                ln[s] = 0
            elif k < 0.55:
                m = rng.choice([0, 1, 2, 2, 3, 3, 5, 8, 9, rng.randint(0, 20)])
                ops.append(f"list {fault()} {s} {rng.choice(als)} {rng.choice(limits)} " +
                           " ".join(str(val()) for _ in range(m)))
                ln[s] = m
            else:
                t = rng.choice(others)
                o = rng.choice(["copynew", "copynewa", "movenew", "movenewa"])
                ops.append(f"{o} {fault() if o != 'movenew' else 'n 0'} {s} {t}" +
                           (f" {rng.choice(als)}" if o.endswith("a") else ""))
                ln[s] = ln[t]
                if o.startswith("move"):
                    ln[t] = 0
            on[s] = True
            continue
        k = rng.random()
        idx = lambda: rng.randint(1, max(1, ln[s]))
        if k < 0.22:
            for _ in range(rng.choice([1, 1, 1, 2, 3, 9]) if rng.random() < 0.9 else rng.randint(min(5, big), big)):
                ops.append(f"push {fault()} {s} {val()}")
                ln[s] += 1
        elif k < 0.26:
            ops.append(f"pushalias {fault()} {s} {idx()}")
            ln[s] += 1
        elif k < 0.33:
            for _ in range(rng.choice([1, 1, 2, 5])):
                ops.append(f"pop n 0 {s}")
                ln[s] = max(0, ln[s] - 1)
        elif k < 0.345:
            ops.append(f"clear n 0 {s}")
            ln[s] = 0
        elif k < 0.43:
            m = size(ln[s])
            ops.append(f"resize {fault()} {s} {m} {rng.choice([0, val()])}")
            ln[s] = m if m < BIG else ln[s]
        elif k < 0.45:
            m = size(ln[s])
            ops.append(f"resizealias {fault()} {s} {m} {idx()}")
            ln[s] = m if m < BIG else ln[s]
        elif k < 0.50:
            m = size(ln[s])
            ops.append(f"assign {fault()} {s} {m} {val()}")
            ln[s] = m if m < BIG else ln[s]
        elif k < 0.52:
            m = size(ln[s])
            ops.append(f"assignalias {fault()} {s} {m} {idx()}")
            ln[s] = m if m < BIG else ln[s]
        elif k < 0.56:
            ops.append(f"reserve {fault()} {s} {size(ln[s])}")
        elif k < 0.60:
            ops.append(f"shrink {fault()} {s}")
        elif k < 0.65:
            ops.append(f"write n 0 {s} {idx()} {val()}")
        elif k < 0.67:
            ops.append(f"destroy n 0 {s}")
            on[s] = False
            ln[s] = 0
        elif k < 0.82:
            t = rng.choice(others + [s]) if others else s
            ops.append(f"copyassign {fault()} {s} {t}")
            ln[s] = ln[t]
        elif k < 0.91:
            t = rng.choice(others + ([s] if rng.random() < 0.2 else [])) if others else s
            ops.append(f"moveassign {fault()} {s} {t}")
            ln[s], ln[t] = ln[t], (ln[t] if s == t else 0)
        elif not reads:
            continue
        elif k < 0.95 and others:
            ops.append(f"eq n 0 {s} {rng.choice(others + [s])}")
        elif k < 0.97:
            ops.append(f"at n 0 {s} {2 * BIG - rng.choice([-1, 0, 7]) if rng.random() < huge else max(1, ln[s] + rng.choice([-1, 0, 1, 1, 2]))}")
        elif bits and k < 0.985:
            o = rng.choice(["bit", "setbit", "flip", "refassign"])
            i = idx() if o != "bit" else max(1, ln[s] + rng.choice([-3, 0, 1, 9]))
            if o in ("bit", "setbit") and rng.random() < huge:
                i = 2 * BIG - rng.choice([-1, 0, 7, 8])
            ops.append(f"{o} n 0 {s} {i}" + (f" {rng.randint(0, 1)}" if o == "setbit" else f" {idx()}" if o == "refassign" else ""))
        else:
            ops.append(f"iter n 0 {s}")
    return ops


def large_history(rng, bits, n, als=(1,)):
    """Few calls on arrays of about n elements."""
    val = (lambda: rng.randint(0, 1)) if bits else (lambda: rng.randint(1, 99))
    at = lambda: rng.choice([1, n // 2, n - 1, n, rng.randint(1, n)])
    ops = [f"new n 0 1 {rng.choice(als)} {BIG}", f"new n 0 2 {rng.choice(als)} {BIG}", f"{rng.choice(['resize', 'assign'])} n 0 1 {n} {val()}"]
    ops += [f"write n 0 1 {at()} {val()}" for _ in range(4)]
    ops += [f"push n 0 1 {val()}" for _ in range(3)]
    ops += ["copyassign n 0 2 1", "eq n 0 1 2", f"write n 0 2 {n + 1} {val()}", "eq n 0 1 2", f"write n 0 2 {at()} {val()}", "eq n 0 2 1", "iter n 0 1"]
    tail = [f"pushalias n 0 1 {at()}", "shrink n 0 1", f"reserve n 0 2 {n + n // 3}", f"resize n 0 2 {n + 40} {val()}", "copynew n 0 3 1",
            f"movenewa n 0 3 2 {rng.choice(als)}", "moveassign n 0 2 1", f"resize n 0 1 {n // 2} {val()}", f"assign n 0 1 {n - 3} {val()}",
            f"at n 0 1 {n}", "copyassign n 0 1 2", f"copynewa n 0 3 2 {rng.choice(als)}", "pop n 0 2", "eq n 0 1 2", "eq n 0 2 3", "iter n 0 2"]
    if bits:
        tail += [f"flip n 0 1 {at()}", f"setbit n 0 2 {at()} {val()}", f"bit n 0 1 {at()}", f"refassign n 0 1 {at()} {at()}"]
    rng.shuffle(tail)
    return ops + tail


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] in ("push", "assign", "copyassign", "write") and e.get("r") == "ok" and
         any(p["q"] for p in e["post"])]
    if not c:
        return None
    e = rng.choice(c)
    p = rng.choice([p for p in e["post"] if p["q"]])
    k = rng.randrange(len(p["q"]))
    p["q"][k] += 1
    return tr


def prepare(c, models, kinds, variants):
    """Explores the models while the harnesses build."""
    with cf.ThreadPoolExecutor(2) as ex:
        f = ex.submit(vlib.compile_all, builds(kinds, variants), c.sub("bin"))
        ms = {}
        for m in models:
            ms[m] = vlib.explore("VlaMC.tla", f"VlaMC_{m}.cfg", c.sub("mc-" + m))
            c.add_model("VlaMC_" + m, ms[m])
        bins = f.result()
    c.mark("models + build")
    return ms, bins


def run(c, variant, bins, jobs, neg=False):
    """jobs: list of (kind, header, ops). Histories of one harness binary form one campaign each."""
    by = {}
    for kind, hdr, ops in jobs:
        by.setdefault(GROUP[kind], []).append((hdr, ops))
    for g, hist in sorted(by.items()):
        c.rng.shuffle(hist)
        c.campaign(f"{variant}-{g}", bins[f"{variant}-{g}"], hist, lambda j: {}, "VlaTrace.tla", "VlaTrace.cfg",
                   corrupt=corrupt if neg else None)
        neg = False
