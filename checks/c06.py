from uvar_common import *
import fwd


def check(c):
    variants = ["asan"] + (["cpp17"] if c.thorough else [])
    ms, bins = prepare(c, ["UVarMC_seq"], variants)
    hist = {b: [] for b in bins}
    walks, cov, tot = vlib.covering_walks(ms["UVarMC_seq"], c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g = json.loads(init)[0]
        kind = "ip" if not g["pmr"] else "pm" if g["big"][0] else c.rng.choice(["mx", "mx", "mxa"])
        for v in variants:
            hist[f"{v}-{kind}"].append((f"{conf(g)} 2 0", script(g, walk, c.rng)))
    for _ in range(4000 if c.thorough else 800):
        kind = c.rng.choice(list(KIND))
        v = c.rng.choice(variants)
        hist[f"{v}-{kind}"].append((f"{c.rng.choice(['cm', 'cm', 'm', 'c', 'n'])} 4 0",
                                    random_history(c.rng, 4, 90, kind != "ip")))
    run(c, bins, hist)
    fwd.run(c, ["uvar"])


vlib.main(check, "C06")
