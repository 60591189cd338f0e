from vla_common import *


def check(c):
    kinds = ["tok-00", "thr-00", "thr-p", "int-r", "tok-p"]
    variants = ["asan"]
    ms, bins = prepare(c, ["flt"], kinds, variants)
    walks, cov, tot = vlib.covering_walks(ms["flt"], c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    jobs = []
    for init, walk in walks:
        kind = c.rng.choice(["tok-00", "thr-00", "thr-00"])
        jobs.append((kind, header(kind, 2, [BIG] * 3, 0, False), script(walk, c.rng)))
    for _ in range(3000 if c.thorough else 500):
        kind = c.rng.choice(["tok-00", "thr-00", "thr-p", "tok-p", "odd-p", "int-r", "mov-11"])
        jobs.append((kind, header(kind, 3, [BIG] * 3, c.rng.random() < 0.5, False),
                     random_history(c.rng, 3, False, 60, faults="ae" if c.rng.random() < 0.8 else "", als=(1, 2),
                                    limits=c.rng.choice([(BIG,), (4, 9, BIG)]), big=c.rng.choice([6, 12, 40]))))
    run(c, "asan", bins, jobs, neg=True)
    # elements that cannot be moved as bytes over a resource that re-allocates to another address
    c.known_finding("bytewise-reallocation", bins[f"asan-{GROUP['tok-p']}"],
                    (f"tok-p 1 3 {BIG} {BIG} {BIG}", [f"new n 0 1 1 {BIG}", "push n 0 1 1", "reserve n 0 1 8"]),
                    lambda j: {}, "VlaTrace.tla", "VlaTrace.cfg")


vlib.main(check, "C04")
