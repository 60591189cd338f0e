"""Shared machinery: TLC runs, covering walks, harness builds and runs, trace validation, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

GXX = "g++"
WARN = ["-w"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


class Rejection:
    def __init__(self, what, history, events, index, script, state, cfg):
        self.what, self.history, self.events, self.index = what, history, events, index
        self.script, self.state, self.cfg = script, state, cfg


def run_tlc(module, cfg, work, env=None, workers=None, heap="3g", extra=(), timeout=600):
    """Runs TLC; returns (returncode, output)."""
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m",
           "-Djava.io.tmpdir=" + work, "-cp", JAR, "tlc2.TLC", "-workers", str(workers or CORES),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    out_path = os.path.join(work, "tlc.out")
    with open(out_path, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT,
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
    shutil.rmtree(meta, ignore_errors=True)
    with open(out_path, errors="replace") as f:
        return rc, f.read()


def tlc_counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))


class Model:
    """Result of exhaustively exploring a spec, with every transition it generated."""

    def __init__(self, states, transitions, edges, inits):
        self.states, self.transitions, self.edges, self.inits = states, transitions, edges, inits


_canon = {}


def canon(x):
    """TLC prints record fields in no fixed order; give every state one spelling."""
    r = _canon.get(x)
    if r is None:
        r = json.dumps(json.loads(x.replace('\\"', '"').replace("\\\\", "\\")), sort_keys=True, separators=(",", ":"))
        _canon[x] = r
    return r


def explore(module, cfg, work, want_edges=True, timeout=300):
    rc, out = run_tlc(module, cfg, work, workers=CORES, timeout=timeout)
    if rc != 0:
        tail = "\n".join(l for l in out.splitlines() if not l.startswith('<<"E"'))[-4000:]
        raise CheckError(f"model {module}/{cfg} failed (rc {rc}):\n{tail}")
    states, gen = tlc_counts(out)
    edges = {}
    order = {}
    inits = []
    if want_edges:
        for line in out.splitlines():
            if line.startswith('<<"E", '):
                m = re.match(r'<<"E", "(.*)", "(.*)", "(.*)">>$', line)
                if not m:
                    raise CheckError("cannot parse edge: " + line[:200])
                pre, lab, post = (canon(x) for x in m.groups())
                edges.setdefault(pre, {})[lab] = post
        if not edges:
            raise CheckError(f"model {module}/{cfg} printed no transitions")
        posts = {p for d in edges.values() for p in d.values()}
        for pre in edges:
            if pre not in posts:
                inits.append(pre)
        for line in out.splitlines():
            m = re.match(r'<<"I", "(.*)">>$', line)
            if m:
                inits.append(canon(m.group(1)))
        inits = sorted(set(inits))
        if not inits:
            raise CheckError("no initial state found in edge list")
        # canonical order, so that a run depends on the seed only
        edges = {k: dict(sorted(edges[k].items())) for k in sorted(edges)}
    return Model(states, gen, edges, inits)


def covering_walks(model, rng, max_len=60, limit_edges=None):
    """Walks from an initial state that together traverse every edge of the explored graph."""
    edges = model.edges
    # breadth-first tree from the initial states: shortest way to each state
    parent = {}
    frontier = []
    for s in model.inits:
        parent[s] = None
        frontier.append(s)
    while frontier:
        nxt = []
        for s in frontier:
            for lab, t in edges.get(s, {}).items():
                if t not in parent:
                    parent[t] = (s, lab)
                    nxt.append(t)
        frontier = nxt
    todo = {s: list(d.items()) for s, d in edges.items() if s in parent}
    for v in todo.values():
        rng.shuffle(v)
    pending = list(todo)
    rng.shuffle(pending)
    walks = []
    covered = 0
    total = sum(len(v) for v in todo.values())

    def path_to(s):
        p = []
        while parent[s] is not None:
            s, lab = parent[s]
            p.append(lab)
        return s, p[::-1]

    while pending:
        s = pending[-1]
        if not todo[s]:
            pending.pop()
            continue
        init, walk = path_to(s)
        cur = s
        while len(walk) < max_len or todo.get(cur):
            if todo.get(cur):
                lab, t = todo[cur].pop()
                covered += 1
                walk.append(lab)
                cur = t
                if len(walk) >= max_len:
                    break
                continue
            # look for a nearby state with an uncovered edge
            seen = {cur: None}
            q = [cur]
            found = None
            while q and found is None and len(seen) < 200:
                n2 = []
                for x in q:
                    for lab, t in edges.get(x, {}).items():
                        if t not in seen:
                            seen[t] = (x, lab)
                            if todo.get(t):
                                found = t
                                break
                            n2.append(t)
                    if found is not None:
                        break
                q = n2
            if found is None:
                break
            back = []
            x = found
            while seen[x] is not None:
                x, lab = seen[x]
                back.append(lab)
            walk += back[::-1]
            cur = found
        walks.append((init, walk))
        if limit_edges and covered >= limit_edges:
            break
    return walks, covered, total


class Rejected(CheckError):
    """The headers compile, but a use of them that the property covers does not."""


def _cxx(cmd):
    """A compiler that runs away on changed headers must not take the machine with it."""
    try:
        return subprocess.run(["sh", "-c", 'ulimit -v 8000000; exec "$@"', "sh", *cmd], capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        raise CheckError("compiler does not end: " + " ".join(cmd))


def _rejected(cmd, out):
    syntax = cmd[:cmd.index("-o")] + ["-fsyntax-only"]
    p = _cxx(syntax)
    if p.returncode != 1 or ": error: " not in p.stderr or "fatal error" in p.stderr or "internal compiler error" in p.stderr:
        return False
    src = syntax[-2]
    with open(src) as f, open(out + ".headers.cpp", "w") as g:
        g.write("".join(l for l in f if re.match(r'# *include (<|"cetl/)', l)))
    syntax[-2] = out + ".headers.cpp"
    return _cxx(syntax).returncode == 0


def compile_all(jobs, work):
    """jobs: {name: (source, flags)}; returns {name: binary}."""
    os.makedirs(work, exist_ok=True)

    def one(item):
        name, (src, flags) = item
        out = os.path.join(work, name)
        cxx = GXX
        fl = list(flags)
        if fl and fl[0] in ("g++", "clang++"):
            cxx = fl.pop(0)
        cmd = [cxx, *fl, *WARN, "-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "harness"),
               src if os.path.isabs(src) else os.path.join(ROOT, "harness", src), "-o", out, "-pthread"]
        p = _cxx(cmd)
        if p.returncode != 0:
            what = "harness build failed: " + " ".join(cmd) + "\n" + p.stderr[-6000:]
            raise (Rejected if _rejected(cmd, out) else CheckError)(what)
        return name, out

    with cf.ThreadPoolExecutor(CORES) as ex:
        return dict(ex.map(one, jobs.items()))


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:"
                    "detect_stack_use_after_return=0:malloc_context_size=6",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=78",
}


def _run_chunk(binary, args, histories, work, tag, timeout):
    """histories: list of (header, [op lines]); returns list of event lists. A crash ends a history with a crash event."""
    res = []
    start = 0
    crashes = 0
    n = len(histories)
    while start < n:
        spath = os.path.join(work, f"{tag}.script")
        opath = os.path.join(work, f"{tag}.out")
        with open(spath, "w") as f:
            for hdr, ops in histories[start:]:
                f.write("H " + hdr + "\n")
                f.write("".join(o + "\n" for o in ops))
                f.write(".\n")
        env = dict(os.environ)
        env.update(SAN_ENV)
        with open(opath + ".err", "w") as ef:
            try:
                p = subprocess.run([binary, spath, opath, *args], env=env, stdout=subprocess.DEVNULL, stderr=ef,
                                   timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        cur = None
        done = 0
        got = []
        with open(opath, errors="replace") as f:
            for line in f:
                line = line.rstrip("\n")
                if line == "H":
                    cur = []
                elif line == ".":
                    got.append(cur)
                    cur = None
                    done += 1
                elif cur is not None:
                    try:
                        cur.append(json.loads(line))
                    except json.JSONDecodeError:
                        pass
        res += got
        start += done
        if start >= n:
            if rc != 0:
                with open(opath + ".err", errors="replace") as f:
                    why = f.read()[:1500]
                res[-1].append({"op": "crash", "why": f"exit {rc}: {why}"})
            break
        if rc == 0:
            raise CheckError(f"harness {binary} ended early without an error at history {start}")
        with open(opath + ".err", errors="replace") as f:
            why = f.read()[:1500]
        ev = cur if cur is not None else []
        # a script that cannot go on may be owed to what the code did before: the events up to there are still to be judged
        ev.append({"op": "stuck", "why": why} if rc == 3 else {"op": "crash", "why": f"exit {rc}: {why}"})
        res.append(ev)
        start += 1
        crashes += 1
        if crashes >= 2:
            # enough evidence: the remaining histories are not needed to report a violation
            res += [None] * (n - start)
            break
    return res


def run_histories(binary, histories, work, args=(), timeout=60, chunks=None):
    """Runs all histories over several processes; returns events per history (None = not run)."""
    os.makedirs(work, exist_ok=True)
    if not histories:
        return []
    k = max(1, min(chunks or CORES, len(histories)))
    parts = [list(range(i, len(histories), k)) for i in range(k)]
    name = os.path.basename(binary)
    with cf.ThreadPoolExecutor(k) as ex:
        outs = list(ex.map(lambda it: _run_chunk(binary, list(args), [histories[j] for j in it[1]], work,
                                                 f"{name}.{it[0]}", timeout), enumerate(parts)))
    res = [None] * len(histories)
    for idx, evs in zip(parts, outs):
        for j, e in zip(idx, evs):
            res[j] = e
    return res


def validate(module, cfg, traces, work, timeout=600, heap="6g", workers=None):
    """traces: list of {"c": cfg record, "e": [events]}.
    Returns (None, counts) when TLC accepts every history, else ((history index, event index, message), counts)."""
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "trace.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    rc, out = run_tlc(module, cfg, work, env={"TRACE_FILE": path}, timeout=timeout, heap=heap, workers=workers)
    counts = tlc_counts(out)
    if rc == 0:
        want = sum(len(t["e"]) + 1 for t in traces)
        if counts[0] != want:
            raise CheckError(f"{module}: {counts[0]} trace states explored, expected {want}\n" + out[-2000:])
        return None, counts
    # a recorded value outside of what the specification can be evaluated with is one it does not allow
    outside = "TLC was evaluating" in out and "StackOverflow" not in out and "OutOfMemory" not in out
    if rc in (11, 12, 13) or "Deadlock reached" in out or "is violated" in out or outside:
        hs = re.findall(r"^/\\ h = (\d+)", out, re.M)
        is_ = re.findall(r"^/\\ i = (\d+)", out, re.M)
        if hs and is_:
            msg = out[out.find("Error:"):]
            last = msg.rfind("State ")
            return (int(hs[-1]) - 1, int(is_[-1]) - 1, msg[:200] + "\n...\n" + msg[last:last + 3000]), counts
    raise CheckError(f"TLC failed on trace {module} (rc {rc}):\n" + out[-4000:])


def as_trace(cfg, events):
    """A leading cfg event carries configuration facts only the harness knows."""
    events = [e for e in events if e.get("op") != "stuck"]
    if events and events[0].get("op") == "cfg":
        cfg = dict(cfg, **{k: v for k, v in events[0].items() if k != "op"})
        events = events[1:]
    return {"c": cfg, "e": events}


def known_findings():
    """{(property, key): text} of the defects listed as known."""
    r = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (\S+): (.*)$", line.rstrip("\n"))
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.work = os.path.join(ROOT, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.stats = {}
        self.assumptions = []
        self.violations = 0
        self.t_mark = self.t0

    def mark(self, what):
        now = time.time()
        log(f"{what}: {now - self.t_mark:.1f} s")
        self.t_mark = now

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add_model(self, name, m):
        self.cov["states"] += m.states
        self.cov["transitions"] += m.transitions
        self.stats.setdefault("models", {})[name] = {"states": m.states, "transitions": m.transitions}

    def campaign(self, name, binary, histories, cfg_of, module, cfg, args=(), corrupt=None, timeout=60,
                 rerun_exact=False):
        """Runs histories on the real code, validates the recorded events with TLC, reports rejections."""
        work = self.sub("c-" + name)
        events = run_histories(binary, histories, work, args, timeout)
        traces, idx, stuck = [], [], None
        for j, e in enumerate(events):
            if e is None:
                continue
            if e and e[-1].get("op") == "stuck":
                stuck = e[-1]["why"]
                if len(e) == 1:
                    continue
            if e and e[0].get("op") == "crash" and not cfg_of(j):  # before anything was there to be described
                self.violation(name, dict(binary=os.path.basename(binary), args=list(args), header=histories[j][0],
                                          script=histories[j][1], rejected=e[0]))
            traces.append(as_trace(cfg_of(j), e))
            idx.append(j)
        nev = sum(len(t["e"]) for t in traces)
        neg = None
        ex = cf.ThreadPoolExecutor(2)
        if corrupt is not None:
            bad = None
            order = list(range(len(traces)))
            self.rng.shuffle(order)
            for j in order:
                if traces[j]["e"] and traces[j]["e"][-1].get("op") == "crash":
                    continue
                c = corrupt(json.loads(json.dumps(traces[j])), self.rng)
                if c is not None:
                    bad = c
                    break
            if bad is not None:
                neg = ex.submit(validate, module, cfg, [bad], self.sub("neg-" + name), 300, "1g", 1)
        rej, counts = validate(module, cfg, traces, work)
        if neg is not None and neg.result()[0] is None:
            raise CheckError(f"{name}: the trace spec accepted a corrupted event; binding is vacuous")
        if rej is None and corrupt is not None and neg is None and not stuck:
            raise CheckError(f"{name}: no event to corrupt for the negative control")
        if rej is None and stuck is not None:
            raise CheckError("harness rejects its script: " + stuck)
        if rej is not None:
            self.report(name, binary, histories, events, idx, rej, cfg_of, module, cfg, args, timeout)
        ops = {}
        distinct = set()
        for t in traces:
            for e in t["e"]:
                k = e.get("op", "?") + ":" + str(e.get("r", ""))
                ops[k] = ops.get(k, 0) + 1
            distinct.add(hashlib.sha1(json.dumps(t, sort_keys=True).encode()).digest())
        st = self.stats.setdefault("campaigns", {})
        st[name] = {"histories": len(traces), "distinct_histories": len(distinct), "events": nev, "event_kinds": ops}
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["states"] += counts[0]
        self.cov["transitions"] += counts[1]
        if traces and len(self.cov["samples"]) < 3:
            j = self.rng.randrange(len(traces))
            hdr, script = histories[idx[j]]
            self.cov["samples"].append({"campaign": name, "header": hdr, "script": script[:12],
                                        "events": traces[j]["e"][:6]})
        self.mark(f"campaign {name}: {len(traces)} histories, {nev} events")
        return traces

    def report(self, name, binary, histories, events, idx, rej, cfg_of, module, cfg, args, timeout):
        """Re-runs a rejected history; a repeated rejection is a violation."""
        j = idx[rej[0]]
        log(f"campaign {name}: history {j} rejected at event {rej[1]}; re-running it")
        one = run_histories(binary, [histories[j]], self.sub("re-" + name), args, timeout, 1)
        tr = [as_trace(cfg_of(j), one[0])]
        rej2, _ = validate(module, cfg, tr, self.sub("re-" + name))
        if rej2 is None:
            # a difference between two runs of the same history is itself only explained by the code under test
            # when it crashed; try the original grouping once more
            again = run_histories(binary, histories[: j + 1], self.sub("re-" + name), args, timeout, 1)
            tr = [as_trace(cfg_of(k), e) for k, e in enumerate(again) if e is not None]
            rej2, _ = validate(module, cfg, tr, self.sub("re-" + name))
            if rej2 is None:
                # the recorded run itself is the evidence
                log("the rejection did not repeat; reporting the recorded run")
                j, rej2 = idx[rej[0]], (0,) + tuple(rej[1:])
                tr = [as_trace(cfg_of(j), events[j])]
            else:
                j = rej2[0]
                tr = [tr[j]]
        self.violation(name, dict(binary=os.path.basename(binary), args=list(args), header=histories[j][0],
                                  script=histories[j][1], cfg=tr[0]["c"], events=tr[0]["e"],
                                  rejected_event=rej2[1],
                                  rejected=tr[0]["e"][rej2[1]] if rej2[1] < len(tr[0]["e"]) else None,
                                  spec=module, tlc=rej2[2]))

    def known_finding(self, key, binary, history, cfg_of, module, cfg, args=(), timeout=60):
        """A listed defect: runs exactly its history. Still rejected: say so. Not listed: a violation like any other."""
        name = "known-" + key
        ev = run_histories(binary, [history], self.sub(name), args, timeout, 1)
        rej, _ = validate(module, cfg, [as_trace(cfg_of(0), ev[0])], self.sub(name))
        if rej is None:
            log(f"known finding {key} does not show any more")
            return
        what = known_findings().get((self.pid, key))
        if what is None:
            self.report(name, binary, [history], ev, [0], rej, cfg_of, module, cfg, args, timeout)
        print(f"KNOWN-FINDING: property={self.pid} {key}: {what}", flush=True)
        self.stats.setdefault("known_findings", []).append(key)

    def violation(self, name, data):
        self.violations += 1
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{self.pid}-{name}.json")
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.finish()
        log(json.dumps(data.get("rejected"))[:600])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        sys.exit(1)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage={**self.cov, "detail": self.stats}, wall_s=round(time.time() - self.t0, 2),
                  assumptions=self.assumptions, violations=self.violations)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def main(fn, pid, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        c.finish()
        log(f"{pid} held; {time.time() - c.t0:.1f} s")
        sys.exit(0)
    except Rejected as e:
        c.violation("build", {"property": pid, "rejected": "does not compile", "build": str(e)})
    except CheckError as e:
        print("CHECK-ERROR:", e, file=sys.stderr, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
