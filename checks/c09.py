import concurrent.futures as cf
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib

FLAGS = ["-std=c++14", "-O0", "-g", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"]


def identities(rng, n):
    """n distinct identities, sometimes differing in a single byte only."""
    mode = rng.randrange(6)
    vals = rng.sample([1, 2, 3, 5, 100, 127, 128, 129, 200, 254, 255] + list(range(10, 90)), n)
    if mode == 0:
        return [[v] for v in vals]
    if mode == 1:
        return [[7] * 15 + [v] for v in vals]
    if mode == 2:
        return [[v] + [9] * 15 for v in vals]
    if mode == 3:
        k = rng.randrange(16)
        return [[0x80] * k + [v] + [0x80] * (15 - k) for v in vals]
    if mode == 4:
        k = rng.randint(1, 14)
        return [[5] * k + [v] for v in vals]
    r = set()
    while len(r) < n:
        r.add(tuple(rng.choice([0, 1, 127, 128, 255]) for _ in range(rng.randint(1, 16))))
        r = {x for x in r if any(x)}
        r = {tuple(list(x) + [0] * (16 - len(x))): x for x in r}
        r = set(r.values())
    return [list(x) for x in sorted(r, key=lambda x: rng.random())]


def near(rng, ids):
    """An identity next to one of those there are, or none at all."""
    b = list(rng.choice(ids))
    b += [0] * (16 - len(b))
    k = rng.random()
    if k < 0.1:
        b = [0] * 16
    elif k < 0.2:
        b = b[8:] + b[:8]
    elif k < 0.8:
        b[rng.choice([0, 7, 8, 15, rng.randrange(16)])] ^= rng.choice([1, 0x80, 0xFF])
    return "any " + " ".join(map(str, b))


def random_tree(rng, n):
    """Bases of classes 1..n; the top class n reaches every other."""
    roots, bases = [], []
    for k in range(1, n + 1):
        take = len(roots) if k == n else rng.randint(0, min(len(roots), 3))
        l = rng.sample(roots, take)
        bases.append(l)
        roots = [x for x in roots if x not in l] + [k]
    return bases


def source(hiers, rng):
    out = ['#include "rtti_run.hpp"']
    for h, (bases, ids, top) in hiers:
        out.append(f"namespace h{h} {{")
        for c, b in enumerate(bases, 1):
            helper = "cetl::rtti_helper<cetl::type_id_type<" + ", ".join(map(str, ids[c - 1])) + ">" + \
                "".join(f", C{x}" for x in b) + ">"
            pad = f"char pad{c}[{rng.choice([1, 5, 8, 24])}]; " if rng.random() < 0.7 else ""
            plain = rng.random() < 0.3
            if plain:
                out.append(f"struct P{c} {{ virtual ~P{c}() {{}} long x[{rng.randint(1, 3)}]; }};")
            if rng.random() < 0.8:  # the helper has to be the first base
                out.append(f"struct C{c} : {helper}" + (f", P{c}" if plain else "") + f" {{ {pad}}};")
            else:  # the documented manual implementation, which may have any other base first
                l = ([f"P{c}"] if plain else []) + ["virtual cetl::rtti"] + [f"C{x}" for x in b]
                out.append(f"struct C{c} : " + ", ".join(l) + f" {{ {pad}virtual ~C{c}() {{}}\n"
                           f"static constexpr cetl::type_id _get_type_id_() noexcept {{ return cetl::type_id_type_value<"
                           f"cetl::type_id_type<{', '.join(map(str, ids[c - 1]))}>>(); }}")
                for k, q in (("", "&"), ("const ", "const&")):
                    out.append(f"{k}void* _cast_(const cetl::type_id& id) {q} noexcept override {{ if (id == _get_type_id_()) return this;")
                    out += [f"if ({k}void* const p = C{x}::_cast_(id)) return p;" for x in b] + ["return nullptr; }"]
                out.append("};")
        out.append("}")
        out.append(f"static const int r{h} = (vh::registry()[{h}] = &vh::run_hier<h{h}::C{top}, " +
                   ", ".join(f"h{h}::C{c}" for c in range(1, len(bases) + 1)) + ">, 0);")
    return "\n".join(out) + "\n"


def corrupt(tr, rng):
    c = [e for e in tr["e"] if e["op"] == "cast"]
    if not c:
        return None
    e = rng.choice(c)
    if e["found"]:
        if rng.random() < 0.5:
            e["found"] = False
        else:
            e["at"] = [x for x in e["at"] if x != e["c"]]
    else:
        e["found"], e["at"] = True, [e["c"]]
    return tr


def check(c):
    mc = "RttiMC_deep" if c.thorough else "RttiMC"
    m = vlib.explore("RttiMC.tla", mc + ".cfg", c.sub("mc"))
    c.add_model(mc, m)
    hier, key, hist = {}, {}, []
    for init in m.inits:
        g = json.loads(init)[0]
        n = len(g["bases"])
        h = len(hier)
        hier[h] = (g["bases"], identities(c.rng, n), g["top"])
        key[init] = h
    walks, cov, tot = vlib.covering_walks(m, c.rng, 120)
    c.stats["edges"] = {"covered": cov, "total": tot}
    for init, walk in walks:
        h = key[init]
        n = len(hier[h][0])
        ops = [f"id {k}" for k in range(1, n + 1)] + [f"order {a} {b}" for a in range(1, n + 1) for b in range(1, n + 1)]
        for l in walk:
            x = json.loads(l)
            if x[0] == "cast":
                x[2] += 2 * c.rng.randint(0, 2)
            elif x[0] == "ask":
                x[2] = c.rng.randint(0, 1)
            ops.append(" ".join(map(str, x)))
            if c.rng.random() < 0.2:
                ops.append(near(c.rng, hier[h][1]))
            if x[0] != "ask":
                at = x[1] if x[0] != "cast" or x[1] < n else 0
            if x[0] == "cast" and c.rng.random() < 0.05:  # a detour, also from the null pointer, and back
                ops += [f"cast {c.rng.randint(1, n)} {c.rng.randint(0, 5)}", f"start {at}" if at else "drop 1"]
        hist.append((h, ops))
    for _ in range(60 if c.thorough else 16):
        n = c.rng.randint(6, 11)
        h = len(hier)
        hier[h] = (random_tree(c.rng, n) + [[]], identities(c.rng, n + 1), n)
        ops = []
        for s in range(1, n + 1):
            for q in range(1, n + 2):
                ops += ["drop 1", f"start {s}", near(c.rng, hier[h][1]), f"ask {q} {c.rng.randint(0, 1)}", f"cast {q} {c.rng.randint(0, 5)}",
                        f"cast {c.rng.randint(1, n + 1)} {c.rng.randint(0, 5)}"]
        ops += [f"id {k}" for k in range(1, n + 2)] + [f"order {a} {b}" for a in range(1, n + 2) for b in range(1, n + 2)]
        hist.append((h, ops))
    parts = [sorted(hier)[i::8] for i in range(8)]
    jobs = {}
    for i, p in enumerate(parts):
        path = os.path.join(c.sub("gen"), f"h{i}.cpp")
        with open(path, "w") as f:
            f.write(source([(h, hier[h]) for h in p], c.rng))
        jobs[f"h{i}"] = (path, FLAGS)
    bins = vlib.compile_all(jobs, c.sub("bin"))
    c.mark("model + build")
    where = {h: f"h{i}" for i, p in enumerate(parts) for h in p}
    by = {}
    for h, ops in hist:
        by.setdefault(where[h], []).append((h, ops))
    # all binaries feed one validation
    for i, (b, l) in enumerate(sorted(by.items())):
        c.campaign(b, bins[b], [(str(h), ops) for h, ops in l],
                   lambda j, l=l: dict(bases=hier[l[j][0]][0], ids=hier[l[j][0]][1], top=hier[l[j][0]][2]),
                   "RttiTrace.tla", "RttiTrace.cfg", corrupt=corrupt if i == 0 else None)


vlib.main(check, "C09")
