from uvar_common import *


def check(c):
    variants = ["asan", "noexc"]
    ms, bins = prepare(c, ["UVarMC"], variants)
    hist = {b: [] for b in bins}
    walks, cov, tot = vlib.covering_walks(ms["UVarMC"], c.rng, 80)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        g = json.loads(init)[0]
        kind = "ip" if not g["pmr"] else "pm" if g["big"][0] else c.rng.choice(["mx", "mx", "mxa"])
        hist[f"{'asan' if g['exc'] else 'noexc'}-{kind}"].append((f"{conf(g)} 2 {c.rng.randint(0, 1)}", script(g, walk, c.rng)))
    for _ in range(4000 if c.thorough else 800):
        kind = c.rng.choice(list(KIND))
        v = c.rng.choice(variants)
        hist[f"{v}-{kind}"].append((f"{c.rng.choice(['cm', 'cm', 'm', 'c', 'c', 'n'])} 3 {c.rng.randint(0, 1)}",
                                    random_history(c.rng, 3, 80, kind != "ip", "a" if v == "noexc" else "ae")))
    run(c, bins, hist)


vlib.main(check, "C07")
