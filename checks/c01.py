from vla_common import *
import fwd


def check(c):
    kinds = ["tok-00", "int-00", "thr-00", "mov-11", "tok-b", "int-b", "tok-p", "odd-p", "int-r", "thr-p", "mov-p"]
    ms, bins = prepare(c, ["seq"], kinds, ["asan"] + (["cpp20"] if c.thorough else []))
    walks, cov, tot = vlib.covering_walks(ms["seq"], c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for variant in ["asan"] + (["cpp20"] if c.thorough else []):
        jobs = []
        for init, walk in walks:
            g = json.loads(init)[0]
            kind = c.rng.choice(["tok-00", "int-00", "thr-00", "int-r", "tok-p", "odd-p"])
            jobs.append((kind, header(kind, 2, g["amax"], c.rng.random() < 0.7, False), script(walk, c.rng) + ["iter n 0 1", "eq n 0 1 2"]))
        for _ in range(1500 if c.thorough else 300):
            kind = c.rng.choice(kinds + ["tok-00"])
            jobs.append((kind, header(kind, 3, [BIG] * 3, c.rng.random() < 0.6, False),
                         random_history(c.rng, 3, False, 60, big=c.rng.choice([12, 40, 150]), huge=0.05)))
        for kind in kinds:
            for n in [c.rng.randint(257, 400), c.rng.randint(513, 800)] + ([4100, 33000, 66000] if c.thorough else []):
                jobs.append((kind, header(kind, 3, [BIG] * 3, c.rng.random() < 0.6, False), large_history(c.rng, False, n)))
        run(c, variant, bins, jobs, neg=variant == "asan")
    fwd.run(c, ["vla"])


vlib.main(check, "C01")
