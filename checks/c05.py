from vla_common import *


def check(c):
    kinds = ["tok-00", "tok-10", "tok-11", "tok-p", "tok-b", "bool-00", "bool-10", "bool-11", "bool-b"]
    ms, bins = prepare(c, ["alc"] + (["pmr"] if c.thorough else []), kinds, ["asan"])
    jobs = []
    for m in ms:
        walks, cov, tot = vlib.covering_walks(ms[m], c.rng, 80, None if c.thorough else 120000)
        c.stats["edges-" + m] = {"covered": cov, "total": tot}
        for init, walk in walks:
            g = json.loads(init)[0]
            kind = c.rng.choice(["tok-", "tok-", "tok-", "bool-"]) + model_kind(g)
            if kind == "tok-00":
                kind = c.rng.choice(["tok-00", "tok-p"])
            jobs.append((kind, header(kind, 2, g["amax"], 0, kind.startswith("bool")), script(walk, c.rng)))
    for _ in range(3000 if c.thorough else 450):
        kind = c.rng.choice(["tok-00", "tok-10", "tok-01", "tok-11", "tok-eq", "tok-sc", "tok-p", "tok-b", "odd-p", "int-b",
                             "bool-00", "bool-10", "bool-01", "bool-p", "bool-b", "mov-p", "bool-r", "bool-11", "bool-eq",
                             "bool-sc"])
        bits = kind.startswith("bool")
        faults = "a" if c.rng.random() < 0.3 else ""
        amax = [BIG] * 3 if faults or kind[-2:] in ("-b", "eq") or c.rng.random() < 0.3 else \
            [c.rng.choice([BIG, 16 if bits else 7]) for _ in range(3)]
        jobs.append((kind, header(kind, 3, amax, c.rng.random() < 0.4, bits),
                     random_history(c.rng, 3, bits, 60, faults=faults, als=(1, 2, 3),
                                    limits=c.rng.choice([(BIG,), (BIG, 9, 3)]), big=c.rng.choice([6, 12, 40]),
                                    reads=False)))
    run(c, "asan", bins, jobs, neg=True)


vlib.main(check, "C05")
