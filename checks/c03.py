from vla_common import *


def check(c):
    kinds = ["tok-00", "bool-00", "tok-b", "bool-b", "tok-11", "tok-p", "bool-r", "int-r"]
    variants = ["asan", "noexc"]
    ms, bins = prepare(c, ["lim", "bitlim"], kinds, variants)
    jobs = {v: [] for v in variants}
    for m in ms:
        walks, cov, tot = vlib.covering_walks(ms[m], c.rng, 80)
        c.stats["edges-" + m] = {"covered": cov, "total": tot}
        for init, walk in walks:
            g = json.loads(init)[0]
            kind = "bool-00" if g["bits"] else c.rng.choice(["tok-00", "tok-00", "int-00"])
            jobs["asan" if g["exc"] else "noexc"].append(
                (kind, header(kind, 1 if m == "bitlim" else 2, g["amax"], 0, g["bits"]), script(walk, c.rng)))
    for v in variants:
        for _ in range(1200 if c.thorough else 220):
            kind = c.rng.choice(["tok-00", "int-00", "bool-00", "bool-p", "tok-b", "int-b", "bool-b", "tok-11", "tok-eq",
                                 "bool-r", "int-r", "odd-p", "tok-p"])
            bits = kind.startswith("bool")
            lims = c.rng.choice([(0, 3, BIG), (5, 9), (17, 40), (1, 8, 9), (BIG,)])
            finite = 8 * c.rng.randint(0, 4) if bits else c.rng.randint(0, 12)
            amax = [c.rng.choice([BIG, finite]) for _ in range(3)]
            # a limit hidden by a smaller allocator is not observable after a failure: only without faults
            faults = c.rng.choice(["a", ""])
            if faults or kind.endswith("-b") or kind == "tok-eq":
                amax = [BIG if kind.endswith("-b") else amax[0]] * 3
            jobs[v].append((kind, header(kind, 3, amax, c.rng.random() < 0.4, bits),
                            random_history(c.rng, 3, bits, 70, faults=faults, limits=lims, als=(1, 2),
                                           big=c.rng.choice([12, 40]), huge=0.1 if v == "asan" else 0.0)))
    for v in variants:
        run(c, v, bins, jobs[v], neg=v == "asan")


vlib.main(check, "C03")
