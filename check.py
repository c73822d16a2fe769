#!/usr/bin/env python3
"""check.py setup | check.py CXX quick|thorough | check.py replay FILE

Builds the simulator from /repo's working tree, searches seeded schedules and fault
sequences for a violation of one property, minimises and replays what it finds."""
import collections, json, os, queue, re, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "sim"))
import build as simbuild

T0 = time.time()
NPROC = max(2, min(8, os.cpu_count() or 8))
SIM = os.path.join(ROOT, "build", "sim")
SEARCH = {"quick": float(os.environ.get("VERIF_SECS", 45)), "thorough": float(os.environ.get("VERIF_SECS", 700))}

def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)

# ---- results ---------------------------------------------------------------------------
def parse_result(text):
    r = {"viol": [], "n": {}}
    cls = None
    for l in text.split("\n"):
        k, _, v = l.partition("=")
        if k == "class": cls = v
        elif k == "msg" and cls is not None:
            r["viol"].append((cls, v)); cls = None
        elif k in ("status", "hash", "sched", "decs"): r[k] = v
        elif k:
            try: r["n"][k] = int(v)
            except ValueError: pass
    if cls is not None: r["viol"].append((cls, ""))
    return r

def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(C\d\d) class=(\S+) match=(.*)$", l.strip())
            if m: out.append((m[1], m[2], re.compile(m[3])))
    return out

def relevant(prop, viol):
    """violations of this property among those of a run"""
    out = []
    for cls, msg in viol:
        props, _, _ = cls.partition(":")
        if props == "generic" or prop in props.split(","): out.append((cls, msg))
    return out

def is_known(prop, cls, msg, known):
    return any(p == prop and c == cls and rx.search(msg) for p, c, rx in known)

def sim_run(plan, *args, timeout=120):
    try:
        return subprocess.run([SIM, "run", plan, *args], capture_output=True, timeout=timeout).stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "status=died\nclass=generic:died\nmsg=did not end\n"

# ---- plans -------------------------------------------------------------------------------
class PlanText:
    def __init__(self, text):
        self.cfg, self.items, self.decs, self.replay = [], [], [], False
        for l in text.split("\n"):
            if l.startswith("cfg "): self.cfg.append(l)
            elif l.startswith("item "): self.items.append(l)
            elif l.startswith("dec "): self.decs.append(l)
            elif l.startswith("decisions "): self.replay = True
    def text(self, items=None, decs=None, note=""):
        items = self.items if items is None else items
        decs = self.decs if decs is None else decs
        L = list(self.cfg) + list(items)
        if self.replay: L += ["decisions replay"] + list(decs)
        return "".join(f"# {n}\n" for n in note.split("\n") if n) + "\n".join(L) + "\n"

class Pool:
    """serve processes that run plans"""
    def __init__(self, n, scratch):
        self.q = queue.Queue(); self.n = 0
        self.scratch = scratch
        self.ps = [subprocess.Popen([SIM, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE) for _ in range(n)]
        for i, p in enumerate(self.ps): self.q.put((i, p))
    def run(self, text):
        i, p = self.q.get()
        try:
            f = os.path.join(self.scratch, f"serve{i}.plan")
            open(f, "w").write(text)
            p.stdin.write((f + "\n").encode()); p.stdin.flush()
            out = []
            while True:
                l = p.stdout.readline()
                if not l or l == b"\n": break
                out.append(l.decode("utf-8", "replace"))
            return parse_result("".join(out))
        finally:
            self.q.put((i, p))
    def map(self, texts):
        res = [None] * len(texts)
        def w(k): res[k] = self.run(texts[k])
        th = [threading.Thread(target=w, args=(k,)) for k in range(len(texts))]
        for t in th: t.start()
        for t in th: t.join()
        return res
    def close(self):
        for p in self.ps:
            p.stdin.close(); p.kill(); p.wait()

def ddmin(elems, test_many, deadline):
    """removes chunks of elems while a test still succeeds; test_many(list of candidates) -> index or None"""
    n = 2
    while len(elems) >= 1 and time.time() < deadline:
        size = max(1, (len(elems) + n - 1) // n)
        chunks = [(i, min(len(elems), i + size)) for i in range(0, len(elems), size)]
        hit = None
        for g in range(0, len(chunks), NPROC):
            if time.time() >= deadline: break
            grp = chunks[g:g + NPROC]
            k = test_many([elems[:a] + elems[b:] for a, b in grp])
            if k is not None: hit = grp[k]; break
        if hit:
            elems = elems[:hit[0]] + elems[hit[1]:]
            n = max(2, n - 1)
        elif size == 1: break
        else: n = min(len(elems), n * 2)
    return elems

def minimise(prop, seed, cls, scratch, budget):
    deadline = time.time() + budget
    gen = subprocess.run([SIM, "gen", prop, str(seed)], capture_output=True).stdout.decode("utf-8", "replace")
    f = os.path.join(scratch, "min.plan")
    open(f, "w").write(gen)
    r = parse_result(sim_run(f, "--decs"))
    if not any(c == cls for c, _ in r["viol"]): return None
    P = PlanText(gen)
    pool = Pool(NPROC, scratch)
    try:
        def tester(make):
            def t(cands):
                rs = pool.map([make(c) for c in cands])
                for k, x in enumerate(rs):
                    if any(c == cls for c, _ in x["viol"]): return k
                return None
            return t
        # items, with the schedule drawn from the seed
        P.items = ddmin(P.items, tester(lambda c: P.text(items=c)), time.time() + budget * 0.45)
        open(f, "w").write(P.text())
        r = parse_result(sim_run(f, "--decs"))
        if not any(c == cls for c, _ in r["viol"]): return None
        if "decs" in r:
            Q = PlanText(P.text()); Q.replay = True
            Q.decs = [f"dec {x.split(':')[0]} {x.split(':')[1]}" for x in r["decs"].split()]
            x = pool.run(Q.text())
            if any(c == cls for c, _ in x["viol"]):
                P = Q
                P.decs = ddmin(P.decs, tester(lambda c: P.text(decs=c)), time.time() + budget * 0.35)
                P.items = ddmin(P.items, tester(lambda c: P.text(items=c)), deadline)
        return P
    finally:
        pool.close()

def symbolise(msg):
    addrs = re.findall(r"\b(?:0x)?([0-9a-f]{6,7})\b", msg)
    if not addrs or "stack" not in msg: return ""
    o = subprocess.run(["addr2line", "-Cfpe", SIM] + addrs[:24], capture_output=True).stdout.decode("utf-8", "replace")
    return "\n".join(x[:220] for x in o.strip().split("\n"))

# ---- the search ---------------------------------------------------------------------------
def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        if not simbuild.build(os.path.join(ROOT, "build")): return 2
        log("built", SIM)
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        if not simbuild.build(os.path.join(ROOT, "build")): return 2
        r = parse_result(sim_run(sys.argv[2]))
        r2 = parse_result(sim_run(sys.argv[2]))
        print("status", r.get("status"), "hash", r.get("hash"), "same again:", r.get("hash") == r2.get("hash"))
        for c, m in r["viol"]:
            print(c, m); s = symbolise(m)
            if s: print(s)
        return 1 if r["viol"] else 0
    if len(sys.argv) < 3 or sys.argv[2] not in SEARCH:
        print(__doc__); return 2
    prop, tier = sys.argv[1], sys.argv[2]
    seed_in = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev_path = os.path.join(ROOT, "evidence", f"{prop}.json")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if os.path.exists(ev_path): os.unlink(ev_path)
    if not simbuild.build(os.path.join(ROOT, "build")):
        log("the tree does not build"); return 2
    log("built")
    scratch = os.path.join(ROOT, "build", f"scratch-{prop}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    known = known_findings()
    seed0 = (seed_in % 1000000) * 1000000000 + 1
    secs = SEARCH[tier]
    # determinism gate: a seed gives one execution, in fresh processes too
    f = os.path.join(scratch, "gate.plan")
    gate = []
    for s in (seed0, seed0 + 1):
        open(f, "wb").write(subprocess.run([SIM, "gen", prop, str(s)], capture_output=True).stdout)
        a, b = parse_result(sim_run(f)), parse_result(sim_run(f))
        gate.append(a.get("hash") == b.get("hash") and a.get("hash") is not None)
        if not gate[-1] and not (a["viol"] or b["viol"]):
            log("the simulation is not deterministic:", s, a.get("hash"), b.get("hash")); return 2
    log("determinism gate passed")

    tot = collections.Counter(); scheds, hashes = set(), set(); nontrivial = set()
    runs = 0; found = queue.Queue(); knowns = {}; lock = threading.Lock(); samples = []
    stop = threading.Event(); procs = []
    gate_hash = {}
    def worker(i):
        nonlocal runs
        p = subprocess.Popen([SIM, "batch", prop, str(seed0 + i), str(NPROC), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        procs.append(p)
        cur = None; buf = []
        for raw in p.stdout:
            l = raw.decode("utf-8", "replace").rstrip("\n")
            if l.startswith("seed=") and not buf: cur = int(l[5:]); continue
            if l == "" and cur is not None:
                r = parse_result("\n".join(buf)); buf = []
                if "status" not in r: continue
                with lock:
                    runs += 1
                    for k, v in r["n"].items(): tot[k] += v
                    scheds.add(r.get("sched")); hashes.add(r.get("hash"))
                    if r["n"].get("cycles", 0) + r["n"].get("ops", 0) > 1 and r["n"].get("switches", 0) > 2: nontrivial.add(r.get("hash"))
                    if cur in (seed0, seed0 + 3, seed0 + 7): gate_hash[cur] = r.get("hash")
                for cls, msg in relevant(prop, r["viol"]):
                    if is_known(prop, cls, msg, known): knowns[(cls, msg)] = cur
                    else: found.put((cur, cls, msg, r.get("hash")))
                cur = None; continue
            if cur is not None: buf.append(l)
        p.wait()
    th = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(NPROC)]
    t_search = time.time()
    for t in th: t.start()
    first = None
    end = time.time() + secs + 40
    while time.time() < end and any(t.is_alive() for t in th):
        try: first = found.get(timeout=0.2); break
        except queue.Empty: pass
    if first is None:
        try: first = found.get_nowait()
        except queue.Empty: pass
    t_search = time.time() - t_search
    for p in procs:
        if first is not None or p.poll() is None: p.kill()
    for t in th: t.join(timeout=5)
    cand = [first] if first else []
    while not found.empty(): cand.append(found.get())
    log(f"{runs} runs in {t_search:.1f}s")

    violation = None; shaky = []
    for seed, cls, msg, h in cand[:12]:
        # must happen again in a fresh process
        open(f, "wb").write(subprocess.run([SIM, "gen", prop, str(seed)], capture_output=True).stdout)
        r = parse_result(sim_run(f))
        if any(c == cls for c, _ in r["viol"]): violation = (seed, cls, msg); break
        shaky.append((seed, cls, msg))
    if violation:
        seed, cls, msg = violation
        log("violation", cls, "seed", seed, "-", msg[:600])
        P = minimise(prop, seed, cls, scratch, 50 if tier == "quick" else 240)
        if P is None: P = PlanText(open(f).read())
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}-{seed}.plan")
        tmp = os.path.join(scratch, "final.plan"); open(tmp, "w").write(P.text())
        a, b = parse_result(sim_run(tmp)), parse_result(sim_run(tmp))
        m2 = next((m for c, m in a["viol"] if c == cls), msg)
        exact = a.get("hash") == b.get("hash") and any(c == cls for c, _ in a["viol"])
        if not exact:
            P = PlanText(open(f).read())
        sym = symbolise(m2)
        open(path, "w").write(P.text(note=f"property {prop} seed {seed} class {cls}\n{m2[:1500]}\n{sym}\nreplay with: python3 check.py replay {path}"))
        log(f"minimised to {len(P.items)} items, {len(P.decs) if P.replay else 'seeded'} decisions; replayed exactly: {exact}")
        print(m2[:1500])
        if sym: print(sym)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    # the batch and a fresh process agree on the same seeds
    agree = True
    for s, h in sorted(gate_hash.items())[:2]:
        open(f, "wb").write(subprocess.run([SIM, "gen", prop, str(s)], capture_output=True).stdout)
        r = parse_result(sim_run(f))
        if r.get("hash") != h: agree = False
    for s in (seed0, seed0 + 3):
        samples.append({"seed": s, "plan": subprocess.run([SIM, "gen", prop, str(s)], capture_output=True).stdout.decode("utf-8", "replace").split("\n")[:60]})
    faults = {k[8:]: v for k, v in sorted(tot.items()) if k.startswith("c.fault.")}
    probes = {k[2:]: v for k, v in sorted(tot.items()) if k.startswith("c.") and not k.startswith("c.fault.")}
    ev = dict(property=prop, tier=tier, seed=seed_in, level="exploration", wall_s=round(time.time() - T0, 1), coverage=dict(
        evaluations=runs, distinct_nontrivial=len(nontrivial),
        rule="one case is one simulated run of the real daemon (or, in library mode, of real registry, meters and publisher) under a plan generated from a seed: configuration, client traffic, aggregator and administration behaviour, signals, clock steps, faults and a seeded schedule; it is non-trivial when it reached a reporting cycle or an update with at least three context switches, and distinct when the hash over every scheduling decision and every visible event differs",
        samples=samples, seeds_from=seed0, search_s=round(t_search, 1),
        runs_per_hour=int(runs / max(t_search, 0.1) * 3600), seeds_per_hour=int(runs / max(t_search, 0.1) * 3600),
        simulated_seconds=round(tot["sim_ns"] / 1e9, 1), distinct_interleavings=len(scheds),
        interleaving_measure="distinct hashes over the sequence (thread, synchronisation or I/O point) at every context switch",
        steps=tot["steps"], context_switches=tot["switches"], instrumented_memory_accesses=tot["accesses"], random_decisions=tot["decisions"],
        faults_injected=faults, probes=probes, reporting_cycles=tot["cycles"], accepted_updates=tot["ops"], datagrams=tot["dgrams"],
        aggregator_requests=tot["attempts"], administration_requests=tot["admin"],
        determinism_gate=all(gate), batch_and_fresh_process_agree=agree,
        real_components=["spectator/* (registry, meters, percentile meters, publisher, HTTP client, smile encoder, string pool, ids, tags)", "server/* (UDP, statsd and unix servers, line parsers, janitor)", "admin/*", "util/*", "bin/spectatord_main.cc", "asio, spdlog, absl, Poco Net, libstdc++"],
        stub_components=["kernel: sockets, epoll, timers, signals, threads, mutexes, condition variables, clocks (sim/rt_*.cc)", "libcurl, zlib and OpenSSL run for real over the simulated sockets but uninstrumented (no preemption or race detection inside them)", "the aggregator, the clients and the administrator (sim/world.cc)", "container types of ska and tsl replaced by same-interface headers where the originals are not installed"],
        unreproduced=[list(x) for x in shaky[:5]], known_findings=[f"{c}: {m[:200]}" for c, m in list(knowns)[:10]],
        result="violation" if violation else "held on everything explored"))
    json.dump(ev, open(ev_path, "w"), indent=1)
    for (cls, msg), s in sorted(knowns.items())[:20]:
        print(f"KNOWN-FINDING: property={prop} {cls} seed {s}: {msg[:300]}")
    subprocess.run(["rm", "-rf", scratch])
    if violation: return 1
    if shaky: log("violations that did not repeat in a fresh process:", shaky[:3]); return 2
    if runs == 0 or not all(gate): log("no runs"); return 2
    log(f"{prop}: held on {runs} runs")
    return 0

if __name__ == "__main__":
    sys.exit(main())
