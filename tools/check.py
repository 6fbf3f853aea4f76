#!/usr/bin/env python3
"""Runner: decides one property of /repo with a TLA+ specification.

check.py PID        (VERIF_SEED, VERIF_TIER in the environment)

 1. TLC checks the specification's own state machine exhaustively (bounded constants);
 2. TLC generates operation scripts from it where the property is about histories;
 3. the drivers are compiled from /repo's current working tree and run; they log every call;
 4. TLC validates every log against the specification (trace validation).

Exit 0: accepted.  Exit 1 + VIOLATION line: a log was rejected twice.  Exit 2: the check could not answer.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "g++-9"
MODULES = ["LitlTypes", "LitlContainer", "LitlRaster", "LitlTransforms", "LitlRun", "LitlIo"]
BASE_FLAGS = ["-std=c++14", "-DNDEBUG", "-w", "-pthread"]
SAN = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
NOSAN = ["-O2"]
TSAN = ["-O1", "-g1", "-fsanitize=thread"]


class CheckError(Exception):
    pass


class Refused(Exception):
    """The library compiles, but refuses calls which the specification allows."""

    def __init__(self, drv, src, text):
        Exception.__init__(self, text)
        self.drv, self.src, self.text = drv, src, text


def log(*a):
    print(*a, flush=True)


def refuses(work, drv, cmd, text, flags):
    """Whether a driver is refused because of what it calls, not because of the compiler or of the headers themselves."""
    if not cmd[-3].startswith(HARNESS) or re.search(r"fatal error|internal compiler error|Killed signal|out of memory|memory exhausted|allocate memory|No space left", text):
        return False
    headers, todo, done = [], [cmd[-3]], set()
    while todo:
        p = todo.pop()
        done.add(p)
        for x in re.findall(r'^\s*#\s*include\s*["<]([^">]+)', open(p).read(), re.M):
            if x.startswith("Litl"):
                headers.append(x)
            elif os.path.exists(os.path.join(HARNESS, x)) and os.path.join(HARNESS, x) not in done:
                todo.append(os.path.join(HARNESS, x))
    probe = os.path.join(work, drv["name"] + ".probe.cpp")
    with open(probe, "w") as f:
        f.write("".join('#include "%s"\n' % x for x in sorted(set(headers))) + "int main() {}\n")
    alone = subprocess.run([CXX] + flags + ["-fsyntax-only", probe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    again = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return alone.returncode == 0 and again.returncode == 1 and "error:" in again.stdout \
        and not re.search(r"fatal error|internal compiler error|Killed signal|out of memory|memory exhausted|allocate memory|No space left", again.stdout)


def compile_driver(work, drv):
    """Each driver may have several translation units and several variants (macros)."""
    exe = os.path.join(work, drv["name"])
    san = drv.get("san", True)
    flags = BASE_FLAGS + (TSAN if san == "thread" else SAN if san else NOSAN) + drv.get("flags", [])
    inc = ["-I" + os.path.join(REPO, m) for m in MODULES] + ["-I/usr/include/eigen3", "-I" + HARNESS]
    srcs = [os.path.join(HARNESS, s) for s in drv["src"]]
    srcs += [os.path.join(REPO, s) for s in drv.get("repo_src", [])]
    objs, jobs = [], []
    for k, s in enumerate(srcs):
        o = "%s.%d.o" % (exe, k)
        objs.append(o)
        jobs.append([CXX] + flags + inc + ["-c", s, "-o", o])
    for cmd in jobs:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            if refuses(work, drv, cmd, r.stdout, flags + inc):
                raise Refused(drv, cmd[-3], r.stdout)
            raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), "\n".join([x for x in r.stdout.splitlines() if "error" in x][:12])[:3000]))
    cmd = [CXX] + flags + objs + drv.get("libs", []) + ["-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise CheckError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return exe


def tlc(module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), meta=None):
    e = dict(os.environ)
    e.update(env or {})
    d = tempfile.mkdtemp(prefix="tlc_", dir=meta)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-metadir", d, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return 124, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m = [(x, x) for x in re.findall(r"The number of states generated: (\d+)", out)]
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def run_model(work, m):
    t = time.time()
    rc, out = tlc(m["module"], m.get("cfg", m["module"] + ".cfg"), env=m.get("env"), workers=m.get("workers", 2),
                  timeout=m.get("timeout", 600), heap=m.get("heap", "4g"), extra=m.get("extra", ()), meta=work)
    if rc != m.get("expect", 0):  # 12: a naive variant which the invariants must reject
        raise CheckError("model %s: TLC exit %d\n%s" % (m["module"], rc, out[-5000:]))
    gen, dis = stats(out)
    return {"model": m["module"], "cfg": m.get("cfg", m["module"] + ".cfg"), "states": dis, "transitions": gen,
            "seconds": round(time.time() - t, 1)}


def generate(work, g, seed):
    """Operation scripts printed by TLC (one JSON value per line, marked SCRIPT)."""
    extra = list(g.get("extra", ()))
    extra = [str(seed) if x == "$SEED" else x for x in extra]
    env = dict(g.get("env") or {})
    rc, out = tlc(g["module"], g["cfg"], env=env, workers=1, timeout=g.get("timeout", 300), meta=work,
                  heap=g.get("heap", "4g"), extra=extra)
    lines = []
    for l in out.splitlines():
        if l.startswith('"SCRIPT '):
            lines.append(json.loads(l)[7:])  # TLC prints a TLA+ string: same escapes as JSON here
    if rc not in (0,) or not lines:
        raise CheckError("generator %s: TLC exit %d, %d scripts\n%s" % (g["module"], rc, len(lines), out[-3000:]))
    seen, uniq = set(), []
    for l in lines:
        if l not in seen:
            seen.add(l)
            uniq.append(l)
    if g.get("stride", 1) > 1:
        uniq = uniq[seed % g["stride"]::g["stride"]]
    path = os.path.join(work, g["name"] + ".scripts")
    with open(path, "w") as f:
        f.write("\n".join(uniq) + "\n")
    gen, dis = stats(out)
    return path, {"generator": g["module"], "cfg": g["cfg"], "scripts": len(uniq), "states": dis, "transitions": gen}


def run_driver(exe, logpath, seed, part, parts, tier, script, drv):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:" \
                          "allocator_may_return_null=1:max_allocation_size_mb=6000:hard_rss_limit_mb=3000"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:suppressions=%s/tsan.supp" % HARNESS
    env.update(drv.get("env", {}))
    cwd = tempfile.mkdtemp(prefix="cwd_", dir=os.path.dirname(logpath))
    args = [exe, logpath, str(seed), str(part), str(parts), tier] + ([script] if script else [])
    note, outp = "", ""
    limit = 100000000 if tier == "quick" else 500000000  # far above any log: a driver caught in a loop ends there

    def bounded():
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    try:
        r = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=drv.get("timeout", 150 if tier == "quick" else 900), preexec_fn=bounded)
        outp = r.stdout.decode(errors="replace")
        if r.returncode:
            note = "crash"
    except subprocess.TimeoutExpired as ex:
        note = "hang"
        outp = (ex.stdout or b"").decode(errors="replace")
    if "FATAL: ThreadSanitizer" in outp:  # the sanitizer cannot run here (memory layout): not the code's fault
        raise CheckError("ThreadSanitizer does not start: %s" % outp[-500:])
    shutil.rmtree(cwd, ignore_errors=True)
    if note:
        with open(logpath, "rb") as f:
            data = f.read(10000000)  # enough to show the beginning of what does not end
        if data and not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
        with open(logpath, "wb") as f:
            f.write(data + json.dumps({"op": note}).encode() + b"\n")
    return note, outp[-4000:]


def validate(work, drv, logpath):
    """Returns (verdict, index of the first rejected event, output). verdict: ok, rejected."""
    n = sum(1 for _ in open(logpath, "rb"))
    rc, out = tlc(drv["trace"], drv.get("cfg", drv["trace"] + ".cfg"), env={"TRACE": logpath}, workers=1,
                  timeout=drv.get("tlc_timeout", 600), heap=drv.get("heap", "3g"), meta=work)
    gen, dis = stats(out)
    if rc == 0:
        return "ok", n, out, gen, dis
    if "is violated" in out and "ostcondition" in out or "POSTCONDITION" in out:
        pass
    elif rc == 124 or "OutOfMemory" in out or "StackOverflow" in out or "Parsing" in out and "rror" in out.split("Semantic")[0] and dis == 0:
        raise CheckError("TLC could not validate %s (exit %d)\n%s" % (logpath, rc, out[-4000:]))
    elif dis == 0:
        raise CheckError("TLC could not start on %s (exit %d)\n%s" % (logpath, rc, out[-4000:]))
    return "rejected", dis, out, gen, dis


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    base = os.environ.get("VERIF_OUT", VERIF)
    outdir = os.path.join(base, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    ncpu = int(os.environ.get("VERIF_JOBS", "8"))
    pool = ThreadPoolExecutor(ncpu)
    rc = 2
    try:
        rc = body(pid, tier, seed, spec, t0, outdir, work, pool)
    except CheckError as ex:
        log("ERROR", ex)
        rc = 2
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


BUDGET = int(os.environ.get("VERIF_BUDGET", "420"))  # seconds after which a thorough run starts nothing


def tiered(x, tier):
    return x[tier] if isinstance(x, dict) and "quick" in x and "thorough" in x else x


def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res


def body(pid, tier, seed, spec, t0, outdir, work, pool):
    models = [] if os.environ.get("VERIF_NOMODEL") else [m for m in spec.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
    gens = [g for g in spec.get("generators", []) if tier == "thorough" or not g.get("thorough_only")]
    drivers = spec["drivers"]
    fm = [pool.submit(run_model, work, {**m, **m.get(tier, {})}) for m in models]
    fg = {g["name"]: pool.submit(generate, work, {**g, **g.get(tier, {})}, seed) for g in gens}
    fc = [pool.submit(compile_driver, work, d) for d in drivers]
    try:
        exes = [f.result() for f in fc]
    except Refused as ex:
        rp = os.path.join(outdir, ex.drv["name"] + ".refused.json")
        errors = [x for x in ex.text.splitlines() if "error:" in x]
        json.dump({"property": pid, "driver": ex.drv["name"], "src": ex.drv["src"], "refused_calls": errors[:20], "compiler": ex.text[:6000],
                   "how": "VERIF_SEED=%d VERIF_TIER=%s tools/check.py %s" % (seed, tier, pid)}, open(rp, "w"), indent=1)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
                   "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": errors[:5],
                                "rule": "calls of the drivers do not compile any more although the headers do"},
                   "wall_s": round(time.time() - t0, 1), "violations": 1}, open(os.path.join(os.environ.get("VERIF_OUT", VERIF), "evidence", pid + ".json"), "w"), indent=1)
        log("refused:", errors[0][:400] if errors else ex.text[:400])
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    genres = {k: f.result() for k, f in fg.items()}

    runs, more = [], []
    for d, exe in zip(drivers, exes):
        parts = tiered(d.get("parts", 1), tier)
        seeds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(d.get("thorough_seeds", 3))]
        script = None
        if not d.get("script"):
            more += [(d, exe, p, parts) for p in range(parts)]
        if d.get("script"):
            names = [x for x in ([d["script"]] if isinstance(d["script"], str) else d["script"]) if x in genres]
            script = os.path.join(work, d["name"] + ".allscripts")
            with open(script, "w") as f:
                for x in names:
                    f.write(open(genres[x][0]).read())
        for sd in seeds:
            for p in range(parts):
                runs.append((d, exe, sd, p, parts, script))

    def one(r, tag=""):
        d, exe, sd, p, parts, script = r
        lp = os.path.join(work, "%s.%d.%d%s.ndjson" % (d["name"], sd, p, tag))
        note, outp = run_driver(exe, lp, sd, p, parts, tier, script, d)
        verdict, idx, tout, gen, dis = validate(work, d, lp)
        if note and verdict == "ok":
            verdict = "rejected"
        return {"log": lp, "note": note, "out": outp, "verdict": verdict, "idx": idx, "tlc": tout, "gen": gen,
                "dis": dis}

    t1 = time.time()
    results = list(pool.map(one, runs))
    spent = time.time() - t1
    modelres = [f.result() for f in fm]

    events = traces = 0
    ops, samples, distinct = {}, [], set()

    def count(r, res):
        nonlocal events, traces
        with open(res["log"], "rb") as f:
            for k, line in enumerate(f):
                events += 1
                distinct.add(hashlib.blake2b(line, digest_size=8).digest())
                m = re.match(rb'\{"op": ?"([^"]*)"', line)
                op = m.group(1).decode() if m else "?"
                ops[op] = ops.get(op, 0) + 1
                if ops[op] == 3 and len(samples) < 8 and len(line) < 600:
                    samples.append(line.decode().strip())
        traces += 1
        if res["verdict"] == "ok":
            os.remove(res["log"])

    for r, res in zip(runs, results):
        count(r, res)
    # Thorough runs go on with other seeds as long as there is time
    turn, longest = 3, spent / 3
    while tier == "thorough" and more and turn < 1000 and all(x["verdict"] == "ok" for x in results):
        t1 = time.time()
        if t1 - t0 + 1.3 * longest > BUDGET:
            break
        batch = [(d, exe, seed + 1000 * turn, p, parts, None) for d, exe, p, parts in more]
        got = list(pool.map(one, batch))
        for r, res in zip(batch, got):
            count(r, res)
        runs += batch
        results += got
        turn += 1
        longest = max(longest, time.time() - t1)

    violations = []
    rejected = [x for x in zip(runs, results) if x[1]["verdict"] != "ok"]
    for r, res in rejected:
        log("rejected:", r[0]["name"], "seed", r[2], "part", r[3], "event", res["idx"], res["note"])
    rejected.sort(key=lambda x: (x[1]["note"] == "hang", bool(x[1]["note"])))
    for r, res in rejected:
        if violations and res["note"]:
            break  # one confirmed violation is enough, hangs are long to confirm
        again = one(r, ".again")
        if again["verdict"] == "ok":  # the code does not behave the same twice
            race = r[0].get("san") == "thread" and "ThreadSanitizer: reported" in res["out"]
            if res["note"] and not race:  # a reported data race is one, whether or not the next schedule shows it
                raise CheckError("a %s of the driver did not repeat" % res["note"])
            verdict, idx, tout, gen, dis = validate(work, r[0], res["log"])
            if verdict == "ok" and not race:
                raise CheckError("TLC rejected %s once only" % res["log"])
            again = {**res, "idx": idx, "tlc": tout}
        d, exe, sd, p, parts, script = r
        lines = open(again["log"]).read().splitlines()
        idx = again["idx"]
        bad = lines[idx - 1] if 0 < idx <= len(lines) else (lines[-1] if lines else "")
        rp = os.path.join(outdir, "%s.%d.%d.json" % (d["name"], sd, p))
        m = re.search(r"(Error: .*?)(\n\n|\Z)", again["tlc"], re.S)
        json.dump({"property": pid, "driver": d["name"], "src": d["src"], "seed": sd, "part": p, "parts": parts,
                   "tier": tier, "trace_spec": d["trace"], "event_index": idx, "rejected_event": bad,
                   "previous_events": lines[max(0, idx - 6):max(0, idx - 1)], "driver_end": again["note"],
                   "driver_output": again["out"][-2500:], "tlc": (m.group(1) if m else again["tlc"][-1500:])[:2000],
                   "how": "VERIF_SEED=%d VERIF_TIER=%s tools/check.py %s" % (sd, tier, pid)},
                  open(rp, "w"), indent=1)
        shutil.copy(again["log"], rp.replace(".json", ".ndjson")) if os.path.getsize(again["log"]) < 20e6 else None
        violations.append(rp)
        log("rejected:", d["name"], "seed", sd, "part", p, "event", idx, bad[:600], "|", again["note"])

    for k in known_findings(pid):
        log("KNOWN-FINDING: property=%s %s" % (pid, k))
    states = sum(m["states"] for m in modelres) + sum(g[1]["states"] for g in genres.values()) + \
        sum(r["dis"] for r in results)
    trans = sum(m["transitions"] for m in modelres) + sum(g[1]["transitions"] for g in genres.values()) + \
        sum(r["gen"] for r in results)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                       "events_validated": events, "distinct_events": len(distinct), "events_by_action": ops,
                       "models": modelres, "generators": [g[1] for g in genres.values()],
                       "rule": spec.get("rule", ""), "samples": samples[:6]},
          "assumptions": spec.get("assumptions", []) + [
              "TLC, CommunityModules Json and g++-9 with AddressSanitizer are trusted"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    json.dump(ev, open(os.path.join(os.environ.get("VERIF_OUT", VERIF), "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s seed=%d: %d model states, %d traces, %d events, %.1fs" % (
        pid, tier, seed, states, traces, events, time.time() - t0))
    if violations:
        log("VIOLATION property=%s replay=%s" % (pid, violations[0]))
        return 1
    return 0


if __name__ == "__main__":
    main()
