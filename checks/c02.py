from vla_common import *


def check(c):
    variants = ["asan"] + (["cpp20"] if c.thorough else [])
    kinds = ["bool-00", "bool-10", "bool-b"]
    ms, bins = prepare(c, ["bit", "bit2"], kinds, variants)
    jobs = []
    for m in ms:
        walks, cov, tot = vlib.covering_walks(ms[m], c.rng, 80)
        c.stats["edges-" + m] = {"covered": cov, "total": tot}
        for init, walk in walks:
            g = json.loads(init)[0]
            kind = "bool-10" if g["pocma"] else c.rng.choice(["bool-00", "bool-r"]) if m == "bit" else "bool-00"
            slots = 1 if m == "bit" else 2
            tail = ["iter n 0 1", "at n 0 1 8", "bit n 0 1 9", "bit n 0 1 20", "setbit n 0 1 8 0", "flip n 0 1 1",
                    "setbit n 0 1 30 1"] + (["eq n 0 1 2"] if slots == 2 else [])
            jobs.append((kind, header(kind, slots, [BIG] * 3, c.rng.random() < 0.5, True), script(walk, c.rng) + tail))
    for _ in range(2000 if c.thorough else 400):
        kind = c.rng.choice(["bool-00", "bool-r", "bool-10", "bool-01", "bool-b", "bool-p"])
        jobs.append((kind, header(kind, 3, [BIG] * 3, c.rng.random() < 0.5, True),
                     random_history(c.rng, 3, True, 90, big=c.rng.choice([18, 40, 200]), als=(1, 2), huge=0.05)))
    for kind in ["bool-00", "bool-r", "bool-10", "bool-01", "bool-b", "bool-p"]:
        for n in [c.rng.randint(257, 500), c.rng.randint(2049, 2600)] + ([4100, 33000, 66000] if c.thorough else []):
            jobs.append((kind, header(kind, 3, [BIG] * 3, c.rng.random() < 0.5, True), large_history(c.rng, True, n, (1, 2))))
    for v in variants:
        run(c, v, bins, jobs, neg=v == "asan")


vlib.main(check, "C02")
