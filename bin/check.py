#!/usr/bin/env python3
"""check.py <property> [--replay FILE]     decides one property against /repo's working tree.

  1. builds the recorder (harness/) with /repo's sources, once per back end and configuration
  2. TLC evaluates the generator module: the cases
  3. the recorder executes them on the real code and writes the observed events
  4. TLC validates the events against the specification module (trace validation)
  5. TLC explores the property's finite models exhaustively
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS
VERIF, BUILD = build.VERIF, build.VERIF + "/.build"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER") or "quick"
SEED = os.environ.get("VERIF_SEED") or "1"
T0 = time.time()
def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

def java_classes():
    srcs = sorted(glob.glob(VERIF + "/java/tlc2/overrides/*.java"))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    d = "%s/java-%s" % (BUILD, h)
    if not os.path.exists(d):
        os.makedirs(BUILD, exist_ok=True)
        t = tempfile.mkdtemp(dir=BUILD)
        subprocess.run(["javac", "-nowarn", "-d", t, "-cp", JARS] + srcs, check=True, stderr=subprocess.PIPE)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return d

class TLC:
    def __init__(self, work):
        self.cp, self.work, self.n = java_classes() + ":" + JARS, work, 0
    def run(self, module, cfg, env=None, workers=8, args=(), timeout=3000, heap="6g"):
        self.n += 1
        meta = "%s/meta%d" % (self.work, self.n)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.work, "-cp", self.cp, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", VERIF + "/spec/" + cfg] + list(args) + [VERIF + "/spec/" + module + ".tla"]
        e = dict(os.environ); e.update(VERIF_SEED=SEED, VERIF_TIER=TIER); e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout.decode(errors="replace")

def states(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    return tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)

MAXCRASH = 4
def shard(exe, cases, out, i, n, lines, env):
    first, crashes = 0, 0
    while True:
        p = subprocess.run([exe, cases, out, str(i), str(n), str(first)], stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, env=env)
        if p.returncode == 0:
            return
        err = p.stderr.decode(errors="replace")
        m = re.findall(r"HARNESS-(SIGNAL|TIMEOUT) (\d+)", err)
        if not m:
            if "unknown op" in err or p.returncode == 2:
                raise RuntimeError("recorder: " + err[-500:])
            # killed from outside or by a sanitizer: find the last completed line
            m = [("SIGNAL", None)]
        kind, ln = m[-1]
        if ln is None:
            done = 0
            if os.path.exists(out):
                done = sum(1 for _ in open(out, errors="replace"))
            mine = [k for k in range(len(lines)) if k % n == i and lines[k]]
            if done >= len(mine): return
            ln = mine[done]
        ln = int(ln)
        f = lines[ln].split("\t")
        san = re.findall(r"(?:ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|ERROR: LeakSanitizer[^\n]*)", err)
        ev = dict(id=f[0], op=f[1].split("@")[0], be="", x="crash" if kind == "SIGNAL" else "timeout", a=[], r=[], note=" ".join(san)[:300])
        data = open(out, "rb").read() if os.path.exists(out) else b""
        with open(out, "wb") as g:   # drop a partial line
            g.write(data[:data.rfind(b"\n") + 1]); g.write((json.dumps(ev) + "\n").encode())
        crashes += 1
        first = ln + 1
        if crashes >= MAXCRASH:
            return

def run_cases(exe, be, cases, work, n=8):
    lines = open(cases, encoding="latin-1").read().split("\n")
    outs = ["%s/ev.%s.%s.%d" % (work, be, os.path.basename(exe)[-8:], i) for i in range(n)]
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=99:allocator_may_return_null=1:handle_segv=0:handle_abort=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1"
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda i: shard(exe, cases, outs[i], i, n, lines, env), range(n)))
    return [o for o in outs if os.path.exists(o)]

def main():
    pid = sys.argv[1]
    C = CHECKS[pid]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    os.makedirs(BUILD, exist_ok=True); os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    try:
        return decide(pid, C, replay, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(pid, C, replay, work):
    log("property", pid, "tier", TIER, "seed", SEED)
    tlc = TLC(work)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], spec_modules=[], models={}, per_operation={})
    viol = []      # (text, case line)
    # ---- finite models first (in the background), cases meanwhile
    pool = cf.ThreadPoolExecutor(8)
    runs = [r for r in C.get("runs", []) if TIER == "thorough" or not r.get("thorough")]
    jobs = [(b, r.get("config", "std"), r["tus"]) for r in runs for b in r.get("backends", ["efx", "gmp", "mpfr"])]
    fbuild = pool.submit(build.build_all, jobs) if jobs else None
    def gen(k):
        r = runs[k]; f = "%s/cases.%d" % (work, k)
        if replay:
            with open(f, "w") as g: g.write("".join(json.loads(l)["case"] + "\n" for l in open(replay)))
            return f
        if "cases" in r:
            shutil.copy(VERIF + "/" + r["cases"], f); return f
        rc, out = tlc.run(r["gen"], "trace.cfg", dict(VERIF_CASES=f, VERIF_CONFIG=r.get("config", "std")), workers=1)
        if rc != 0 or not os.path.exists(f):
            raise RuntimeError("generator %s failed (rc %d):\n%s" % (r["gen"], rc, out[-3000:]))
        return f
    fgen = [pool.submit(gen, k) for k in range(len(runs))]
    exes = fbuild.result() if fbuild else []
    log("built %d recorders" % len(exes))
    j = 0
    allcases = {}
    for k, r in enumerate(runs):
        cases = fgen[k].result()
        for l in open(cases, encoding="latin-1"):
            allcases[(k, l.split("\t", 1)[0])] = l.rstrip("\n")
        outs = []
        for b in r.get("backends", ["efx", "gmp", "mpfr"]):
            o = run_cases(exes[j], b, cases, work); j += 1
            outs += [(b, x) for x in o]
        evf = "%s/events.%d" % (work, k)
        evs = []
        for b, o in outs:
            for line in open(o, encoding="latin-1"):
                try:
                    e = json.loads(line)
                except ValueError:
                    e = dict(id="?", op="?", be=b, x="malformed record", a=[], r=[])
                e["be"] = b
                evs.append(e)
            os.unlink(o)
        with open(evf, "w") as g:
            for e in evs: g.write(json.dumps(e) + "\n")
        log("run %d (%s): %d cases, %d events recorded" % (k, r.get("gen"), len([1 for (a, _) in allcases if a == k]), len(evs)))
        if not evs:
            if replay: continue
            raise RuntimeError("no events")
        rc, out = tlc.run(r["check"], r.get("cfg", "trace.cfg"), dict(VERIF_EVENTS=evf, VERIF_CONFIG=r.get("config", "std")))
        if rc != 0 or "Model checking completed" not in out:
            raise RuntimeError("TLC on %s failed (rc %d):\n%s" % (r["check"], rc, out[-4000:]))
        rej = {int(a): v for a, v in re.findall(r'"REJECT (\d+) ([^\n]*)"', out)}
        gs, ds = states(out)
        log("validated by %s.tla: %d states, %d rejected" % (r["check"], ds, len(rej)))
        cov["states"] += ds; cov["transitions"] += gs; cov["traces_validated_against_impl"] += len(evs) - len(rej)
        cov["spec_modules"].append(r["check"])
        for e in evs:
            key = "%s/%s%s" % (e["be"], e["op"], "" if r.get("config", "std") == "std" else "/" + r["config"])
            cov["per_operation"][key] = cov["per_operation"].get(key, 0) + 1
        for q in range(0, len(evs), max(1, len(evs) // 3)):
            if len(cov["samples"]) < 6: cov["samples"].append({a: evs[q][a] for a in ("id", "op", "be", "a", "r")})
        for q in sorted(rej):
            e = evs[q - 1]
            viol.append(dict(case=allcases.get((k, e["id"]), ""), event=e, verdict=rej[q].strip('\\" '), config=r.get("config", "std"), run=k))
    if not replay:
        for m in C.get("models", []):
            if m.get("thorough") and TIER != "thorough": continue
            rc, out = tlc.run(m["module"], m["cfg"], args=m.get("args", ()))
            gs, ds = states(out)
            cov["models"][m["module"] + "/" + m["cfg"]] = dict(states=ds, transitions=gs)
            cov["states"] += ds; cov["transitions"] += gs
            log("model %s (%s): rc %d, %d distinct states" % (m["module"], m["cfg"], rc, ds))
            if rc != 0 or "Model checking completed. No error" not in out:
                raise RuntimeError("model %s/%s:\n%s" % (m["module"], m["cfg"], out[-4000:]))
            for a in m.get("expect", []):     # actions that must have been taken (no vacuity)
                if not re.search(a, out): raise RuntimeError("model %s: no %s" % (m["module"], a))
    # ---- known findings
    known = []
    kf = VERIF + "/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == pid: known.append(d)
    new, seen = [], {}
    for v in viol:
        hit = next((d for d in known if matches(d, v)), None)
        if hit is None: new.append(v)
        else: seen.setdefault(hit["id"], []).append(v)
    for d in known:
        if replay: continue
        print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]) + (" (seen %d times)" % len(seen[d["id"]]) if d["id"] in seen else ""))
    ev = dict(property=pid, tier=TIER, seed=int(SEED), level=C.get("level", "model_checking"), coverage=cov, wall_s=round(time.time() - T0, 1), violations=len(new),
              assumptions=C.get("assumptions", ["the recorder observes values through the library's own text output and input plus an exact remainder (DESIGN.md, Observation)"]))
    if not replay:
        with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f: json.dump(ev, f, indent=1)
    if new:
        rp = "%s/evidence/replay/%s.jsonl" % (VERIF, pid)
        if replay: rp = replay
        else:
            with open(rp, "w") as f:
                for v in new[:20000]: f.write(json.dumps(v) + "\n")
        for v in new[:8]:
            log("rejected:", v["verdict"], v["event"]["be"], v["config"], v["case"][:300], json.dumps(v["event"]["r"])[:400], v["event"].get("note", ""))
        log("%d events rejected by the specification" % len(new))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    log("held on everything explored")
    if not replay and os.path.exists("%s/evidence/replay/%s.jsonl" % (VERIF, pid)): os.unlink("%s/evidence/replay/%s.jsonl" % (VERIF, pid))
    return 0

def matches(d, v):
    e = v["event"]
    if "op" in d and e["op"] not in d["op"]: return False
    if "be" in d and e["be"] not in d["be"]: return False
    if "config" in d and v["config"] not in d["config"]: return False
    if "case" in d and not re.search(d["case"], v["case"]): return False
    return True

if __name__ == "__main__":
    try:
        rc = main()
    except Exception as ex:
        log("ERROR", type(ex).__name__, ex); rc = 2
    sys.stdout.flush()
    os._exit(rc)
