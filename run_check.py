#!/usr/bin/env python3
"""Solver-based check of one property over /repo's current sources.

  run_check.py <ID> [--tier quick|thorough] [--only HARNESS] [-v]

Every harness of harness/<ID>*.c is compiled with goto-cc together with the real zpl sources,
executed symbolically by CBMC and decided by its SAT back end; a counterexample is replayed
natively (ASan build of the same harness and sources) before it is reported.
"""
import sys, os, re, json, time, glob, subprocess, tempfile, shutil, hashlib, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CPUS = int(os.environ.get("VP_CPUS", "8"))
MEM_KB = int(os.environ.get("VP_MEM_KB", str(7 * 1024 * 1024)))

ap = [a for a in sys.argv[1:]]
def opt(name, default=None):
    if name in ap:
        i = ap.index(name); v = ap[i + 1]; del ap[i:i + 2]; return v
    return default
tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
only = opt("--only")
verbose = "-v" in ap
ap = [a for a in ap if not a.startswith("-")]
SETUP = '--setup' in sys.argv
PID = ap[0] if ap else 'setup'
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
DEADLINE = T0 + float(os.environ.get("VP_DEADLINE", "780" if tier == "quick" else "3300"))
WORK = tempfile.mkdtemp(prefix="vp_%s_" % PID, dir=os.environ.get("VP_TMP", "/tmp"))
lock = threading.Lock()
def log(*a):
    with lock:
        print(*a, flush=True)

# ------------------------------------------------------------------ specs
class H: pass
def parse_cfg(s):
    d = {}
    for kv in s.split(","):
        kv = kv.strip()
        if kv:
            k, _, v = kv.partition("="); d[k] = v or "1"
    return d
def load():
    hs = []
    for f in sorted(glob.glob(os.path.join(HERE, "harness", PID + "*.c"))):
        file_flags = []
        for line in open(f):
            m = re.match(r"//@\s*file\s+(.*)", line)
            if m: file_flags += m.group(1).split()
            m = re.match(r"//@\s*([hx])=(\S+)\s*(.*)", line)
            if m:
                h = H(); h.engine = "cbmc" if m.group(1) == "h" else "vpx"; h.name = m.group(2); h.file = f; h.flags = file_flags
                kv = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(3)))
                kv = {k: v.strip('"') for k, v in kv.items()}
                h.q = [parse_cfg(c) for c in kv.get("q", "U=8,T=120").split(";")]
                h.t = [parse_cfg(c) for c in kv["t"].split(";")] if "t" in kv else h.q
                h.known = kv.get("known"); h.what = kv.get("what", ""); h.cbmc = kv.get("cbmc", "").split()
                h.reach = kv.get("reach", "1") != "0"
                h.tier = kv.get("tier", ""); h.thr = kv.get("threads", "0") != "0"; h.opts = kv.get("opts", "").split(); h.stress = kv.get("stress", "0") != "0"
                h.repl = [r for r in kv.get("repl", "").split(",") if r]
                if h.tier == "thorough" and tier != "thorough": continue
                hs.append(h)
    if only: hs = [h for h in hs if h.name in only.split(",")]
    return hs

# ------------------------------------------------------------------ processes
procs = set()
def on_term(*a):
    for p in list(procs):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    shutil.rmtree(WORK, ignore_errors=True); os._exit(143)
signal.signal(signal.SIGTERM, on_term)
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM_KB * 1024, MEM_KB * 1024))
    os.setsid()
def run(cmd, timeout, mem=True, env=None, outfile=None):
    """-> (rc, stdout, stderr, wall); rc None on timeout"""
    t = time.time()
    of = open(outfile, "wb") if outfile else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=of, stderr=subprocess.PIPE, cwd=WORK, env=env,
                         preexec_fn=limit if mem else os.setsid)
    with lock: procs.add(p)
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate(); rc = None
    finally:
        with lock: procs.discard(p)
        if outfile: of.close()
    return rc, (out or b"").decode("utf8", "replace"), (err or b"").decode("utf8", "replace"), time.time() - t

def base_defs(h, cfg):
    d = ["-DVP_ZPL=\"%s/code/zpl.h\"" % REPO, "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO + "/code"]
    d += ["-D%s=%s" % (k, v) for k, v in cfg.items() if k not in ("U", "T", "S", "J", "PB", "STEPS")]
    d += [f.replace("@LIB@", os.path.join(HERE, "lib")) for f in h.flags]
    return d
cc_lock = {}; cc_done = {}
def cached(key, fn):
    with lock: l = cc_lock.setdefault(key, threading.Lock())
    with l:
        if key not in cc_done: cc_done[key] = fn()
        return cc_done[key]
def compile_goto(h, cfg, reach):
    gb, err = compile_goto0(h, cfg, reach)
    if not gb or not h.repl: return gb, err
    def go():
        # assume/guarantee: calls to a function proved by its own check go to its (ghost-probe) model
        out = gb[:-3] + "_%s.gb" % hashlib.sha1(",".join(h.repl).encode()).hexdigest()[:8]
        cmd = ["goto-instrument"]
        for r in h.repl: cmd += ["--replace-calls", r]
        rc, o, e, w = run(cmd + [gb, out], 120)
        return (out, "") if rc == 0 else (None, o + e)
    return cached((gb, tuple(h.repl)), go)
def compile_goto0(h, cfg, reach):
    defs = base_defs(h, cfg) + ["-DVP_CBMC"] + (["-DVP_REACH"] if reach else [])
    key = ("g", h.file, tuple(defs))
    def go():
        out = os.path.join(WORK, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + ".gb")
        src = h.file
        if any("VP_ASMXLATE" in f for f in h.flags):
            # preprocess and translate the inline assembly of the real sources to C
            pre = out[:-3] + ".i.c"
            rc, o, e, w = run(["gcc", "-E", "-P", "-std=gnu11", "-I" + HERE + "/lib/include"] + defs + [src], 120, outfile=pre)
            if rc != 0: return None, e
            rc, o, e, w = run([sys.executable, os.path.join(HERE, "lib", "asmx.py"), pre, pre], 120)
            if rc != 0: return None, e + o
            rc, o, e, w = run(["goto-cc", "-std=gnu11", "-w", "-o", out, pre], 240)
        else:
            rc, o, e, w = run(["goto-cc", "-std=gnu11", "-w", "-I" + HERE + "/lib/include"] + defs + ["-o", out, src], 240)
        if rc != 0: return None, e + o
        return out, ""
    return cached(key, go)
def compile_native(h, cfg, san=True):
    defs = base_defs(h, cfg) + ["-DVP_ENTRY=" + h.name]
    key = ("n", h.file, tuple(defs), san, tuple(h.repl))
    def go():
        out = os.path.join(WORK, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + ".exe")
        fl = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"] if san else []
        cc = ["clang-18", "-fno-builtin", "-ffp-contract=off", "-ftrivial-auto-var-init=pattern"] if h.engine == "vpx" else ["gcc"]
        if h.engine == "vpx" and h.repl:      # same function replacements as in the symbolic run, done on the bitcode
            b = out[:-4] + ".bc"
            rc, o, e, w = run(cc + ["-std=gnu11", "-g", "-O0", "-w", "-fno-omit-frame-pointer", "-emit-llvm", "-c", "-Xclang", "-disable-llvm-passes"] + fl + defs + ["-o", b, h.file], 240, mem=False)
            if rc == 0: rc, o, e, w = run([vpx_bin(), b, "main", "-emit", b] + sum((["-repl", r] for r in h.repl), []), 60, mem=False)
            if rc == 0: rc, o, e, w = run(["clang-18", "-O0"] + fl + ["-o", out, b, "-lm", "-ldl", "-pthread"], 120, mem=False)
            if rc != 0: return None, e
            return out, ""
        rc, o, e, w = run(cc + ["-std=gnu11", "-g", "-O0", "-w", "-fno-omit-frame-pointer"] + fl + defs + ["-o", out, h.file, "-lm", "-ldl", "-pthread"], 240, mem=False)
        if rc != 0: return None, e
        return out, ""
    return cached(key, go)

# ------------------------------------------------------------------ cbmc
STD = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--no-malloc-may-fail", "--drop-unused-functions",
       "--slice-formula"]
IGNORED = ("pointer_arithmetic", "no-body", "pointer")   # classes that no native run can confirm
def cls(prop):
    p = prop.split(".")
    return p[-2] if len(p) >= 2 else ""
def cbmc(h, gb, cfg, unwind, timeout, extra=(), trace=False, reach=False, prop=None):
    cmd = ["cbmc", gb, "--function", h.name, "--unwind", str(unwind), "--verbosity", "8"]
    if not trace: cmd += ["--json-ui"]
    if reach: cmd += ["--no-standard-checks", "--no-malloc-may-fail", "--drop-unused-functions", "--no-unwinding-assertions"]
    else: cmd += [x for x in STD if not (trace and x == "--slice-formula")] + ["--unwinding-assertions"]
    if trace: cmd += ["--trace"]
    if prop: cmd += ["--property", prop]
    cmd += ["--sat-solver", cfg.get("S", "cadical")] if cfg.get("S", "cadical") not in ("z3", "cvc5", "bitwuzla", "minisat") else (["--" + cfg["S"]] if cfg["S"] != "minisat" else [])
    cmd += h.cbmc + list(extra)
    of = os.path.join(WORK, "o_%s_%d_%d.json" % (h.name, threading.get_ident(), int(time.time() * 1e6) % 10**9))
    rc, _, err, w = run(cmd, timeout, outfile=of)
    R = {"cmd": " ".join(cmd).replace(WORK, "$WORK"), "rc": rc, "wall": w, "status": "error", "fail": [], "unwind_fail": [], "ok": 0, "traces": {}, "msgs": [], "vccs": 0, "steps": 0, "solver_s": 0.0, "vars": 0, "clauses": 0}
    if rc is None:
        R["status"] = "timeout"; os.unlink(of); return R
    if trace:
        txt = open(of, "rb").read().decode("utf8", "replace"); os.unlink(of)
        m = re.search(r"^(Trace for|Counterexample|Violated property)", txt, re.M)
        if "VERIFICATION SUCCESSFUL" in txt: R["status"] = "done"; return R
        if not m: R["msgs"].append("no trace rc=%s %s" % (rc, (txt + err)[-300:])); return R
        R["status"] = "done"
        vals = [int(b.replace(" ", ""), 2) for b in re.findall(r"^\s*INPUT nd: .*\(([01 ]+)\)\s*$", txt, re.M)]
        R["traces"][prop or "?"] = vals
        m = re.search(r"Violated property:\n.*\n\s*(.*)\n", txt)
        if m: R["violated"] = m.group(1)
        return R
    try: data = json.load(open(of, "rb"))
    except Exception as e:
        R["status"] = "error"; R["msgs"].append("unparsable cbmc output rc=%s %s" % (rc, err[-300:]))
        os.unlink(of); return R
    os.unlink(of)
    done = False
    for d in data:
        if "messageText" in d:
            m = d["messageText"]
            g = re.search(r"size of program expression: (\d+) steps", m)
            if g: R["steps"] += int(g.group(1))
            g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if g: R["vccs"] += int(g.group(1)); R["vccs_rem"] = int(g.group(2))
            g = re.search(r"(\d+) variables, (\d+) clauses", m)
            if g: R["vars"] = max(R["vars"], int(g.group(1))); R["clauses"] = max(R["clauses"], int(g.group(2)))
            g = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
            if g: R["solver_s"] += float(g.group(1))
            if d.get("messageType") == "ERROR": R["msgs"].append(m)
            if "ignoring" in m or "no body" in m.lower(): R["msgs"].append(m)
        if "result" in d:
            done = True
            for r in d["result"]:
                st = r["status"]; p = r["property"]; c = cls(p)
                if st == "SUCCESS": R["ok"] += 1
                elif st == "FAILURE":
                    if c in ("unwind", "recursion"): R["unwind_fail"].append((p, r.get("description", "")))
                    elif c in IGNORED: R.setdefault("ignored", []).append(p)
                    else: R["fail"].append((p, r.get("description", "")))
                else:
                    R["msgs"].append("%s: %s" % (p, st)); R["undecided"] = R.get("undecided", 0) + 1
    if done: R["status"] = "done"
    else: R["msgs"].append("rc=%s %s" % (rc, err[-300:]))
    return R
def replay(h, cfg, vals, tag, hang_s=20):
    """-> (verdict, text) verdict in check|crash|hang|assume|clean"""
    exe, err = compile_native(h, cfg)
    if not exe: return "nobuild", err[-800:]
    f = os.path.join(WORK, "in_%s_%s.txt" % (h.name, tag))
    with open(f, "w") as o: o.write("\n".join(map(str, vals)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:max_allocation_size_mb=2048", UBSAN_OPTIONS="print_stacktrace=1")
    d = tempfile.mkdtemp(dir=WORK)
    rc, o, e, w = run(["sh", "-c", "cd '%s' && exec '%s' '%s' </dev/null" % (d, exe, f)], hang_s, mem=False, env=env)
    if rc is None: return "hang", "no termination within %d s" % hang_s
    t = e[-3000:]
    if rc == 77 or "VP-ASSUME-FALSE" in e: return "assume", t
    if rc == 99: return "check", t
    if rc == 0: return "clean", t
    return "crash", "rc=%d\n%s" % (rc, e[:3000])

# ------------------------------------------------------------------ one harness
def known_list():
    ks = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m and m.group(1) == PID: ks[m.group(2)] = m.group(3).strip()
    except OSError: pass
    return ks
KNOWN = known_list()
def left(): return DEADLINE - time.time()

def do_harness(h):
    if h.engine == 'vpx': return do_vpx(h)
    out = {"harness": h.name, "what": h.what, "status": "undecided", "runs": [], "violations": [], "unconfirmed": []}
    ladder = h.q if tier == "quick" else h.t
    for i, cfg in enumerate(ladder):
        if left() < 5: out["note"] = "global deadline"; break
        gb, err = compile_goto(h, cfg, False)
        if not gb:
            out["status"] = "error"; out["note"] = "goto-cc: " + err[-1500:]; break
        U = int(cfg.get("U", 8)); T = float(cfg.get("T", 120)); cap = U * 8; tend = time.time() + T
        tried_unwind = False
        while True:
            budget = min(tend - time.time(), left() - 2)
            if budget < 2: r = {"status": "timeout", "wall": 0}; break
            r = cbmc(h, gb, cfg, U, budget)
            out["runs"].append({k: r.get(k) for k in ("cmd", "status", "wall", "ok", "vccs", "vccs_rem", "steps", "solver_s", "vars", "clauses", "msgs")})
            out["runs"][-1]["unwind"] = U
            if r["status"] != "done": break
            confirmed = False
            if r["fail"]:
                # user assertions first: they are the property itself
                fl = sorted(r["fail"], key=lambda p: (cls(p[0]) != "assertion", p[0]))
                pick = fl[:3] + [p for p in fl[3:] if cls(p[0]) == "assertion"][:2]
                unc = []
                for k, (p, desc) in enumerate(pick):
                    tr = cbmc(h, gb, cfg, U, min(max(60, 3 * r["wall"] + 30), left() - 2), trace=True, prop=p)
                    vals = tr["traces"].get(p)
                    if vals is None: unc.append((p, desc, "no trace (%s)" % tr["status"])); continue
                    v, txt = replay(h, cfg, vals, "%d_%d" % (U, k))
                    if v in ("check", "crash", "hang"):
                        out["violations"].append({"property": p, "desc": desc, "inputs": vals, "replay": v, "text": txt, "cfg": cfg}); confirmed = True
                        break
                    unc.append((p, desc, v + " " + txt[-300:]))
                if not confirmed: out["unconfirmed"] = unc
            if confirmed: break
            if r["unwind_fail"]:
                if not tried_unwind:
                    tried_unwind = True
                    p, desc = r["unwind_fail"][0]
                    tr = cbmc(h, gb, cfg, U, min(max(60, 3 * r["wall"] + 30), left() - 2), trace=True, prop=p)
                    vals = tr["traces"].get(p)
                    if vals is not None:
                        v, txt = replay(h, cfg, vals, "uw%d" % U)
                        if v == "hang" or v in ("check", "crash"):
                            out["violations"].append({"property": p, "desc": desc, "inputs": vals, "replay": v, "text": txt, "cfg": cfg}); confirmed = True; break
                if U * 2 <= cap: U *= 2; continue
                out["partial"] = "loop bound %d not sufficient for: %s" % (U, "; ".join(x[0] for x in r["unwind_fail"][:4]))
            break
        out["cfg"] = cfg; out["unwind"] = U
        if out["violations"]: out["status"] = "violation"; break
        if r["status"] == "done":
            if r["unwind_fail"] and i + 1 < len(ladder): continue     # a smaller bound may be closed
            if out["unconfirmed"]: out["status"] = "unconfirmed"
            elif r["unwind_fail"]: out["status"] = "partial"
            elif r.get("undecided"): out["status"] = "undecided"; out["note"] = "; ".join(r["msgs"][:3]); continue
            else: out["status"] = "holds"
            out["checked"] = r["ok"]
            break
        out["note"] = "%s at %s %s" % (r["status"], cfg, (r.get("msgs") or [""])[:2])
    if verbose: log("  [%6.1fs] %-28s %s cfg=%s U=%s %s" % (time.time() - T0, h.name, out["status"], out.get("cfg"), out.get("unwind"), out.get("note", "") or out.get("partial", "")))
    return out

# ------------------------------------------------------------------ vpx engine
class Tokens:
    def __init__(self, n): self.n = n; self.c = threading.Condition()
    def take(self, k):
        k = min(k, CPUS)
        with self.c:
            while self.n < k: self.c.wait()
            self.n -= k
        return k
    def give(self, k):
        with self.c: self.n += k; self.c.notify_all()
TOK = Tokens(CPUS)
def vpx_bin():
    def go():
        src = os.path.join(HERE, "vpx"); b = os.path.join(HERE, "build"); out = os.path.join(b, "vpx")
        os.makedirs(b, exist_ok=True)
        import fcntl
        with open(os.path.join(b, "lock"), "w") as lf:
            fcntl.flock(lf, fcntl.LOCK_EX)
            dig = hashlib.sha1(b"".join(open(os.path.join(src, f), "rb").read() for f in ("vpx.cpp", "expr.h", "bb.h", "bbfp.h", "real.h", "nf.h"))).hexdigest()
            try:
                if open(out + ".sum").read() == dig and os.path.exists(out): return out
            except OSError: pass
            rc, o, e, w = run(["g++", "-O2", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", os.path.join(src, "vpx.cpp"), "-o", out + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lminisat", "-lgmp"], 300, mem=False)
            if rc != 0: raise RuntimeError("vpx build: " + e[-2000:])
            os.rename(out + ".tmp", out); open(out + ".sum", "w").write(dig)
        return out
    return cached("vpxbin", go)
VCC = ["clang-18", "-std=gnu11", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g1", "-fno-builtin", "-ffp-contract=off", "-fsanitize=bounds", "-fsanitize-trap=bounds"]
def compile_bc(h, cfg):
    defs = base_defs(h, cfg)
    def raw():
        out = os.path.join(WORK, "r" + hashlib.sha1(repr((h.file, defs)).encode()).hexdigest()[:16] + ".bc")
        rc, o, e, w = run(VCC + ["-I" + HERE + "/lib/include", "-DVP_X"] + defs + ["-emit-llvm", "-c", "-o", out, h.file], 240, mem=False)
        return (out, "") if rc == 0 else (None, e + o)
    rb, err = cached(("bc", h.file, tuple(defs)), raw)
    if not rb: return None, err
    def go():
        out = rb[:-3] + "_" + h.name + hashlib.sha1(",".join(h.repl).encode()).hexdigest()[:6] + ".bc"
        rc, o, e, w = run(["opt-18", "-passes=internalize,globaldce,mem2reg,instsimplify,simplifycfg,dce", "-internalize-public-api-list=" + ",".join([h.name] + [x for r in h.repl for x in r.split(":")]), rb, "-o", out], 240, mem=False)
        return (out, "") if rc == 0 else (None, e + o)
    return cached(("bce", rb, h.name), go)
def replay_thr(h, cfg, vals, sched, tag):
    """native replay of a schedule: the same bitcode, instrumented with scheduling points, linked with a coroutine scheduler"""
    bc, err = compile_bc(h, cfg)
    if not bc: return "nobuild", err
    def go():
        ib = bc[:-3] + "_i.bc"; exe = bc[:-3] + "_i.exe"
        rc, o, e, w = run([vpx_bin(), "-instr", ib, bc, h.name], 60, mem=False)
        if rc != 0: return None, e + o
        rc, o, e, w = run(["clang-18", "-O0", "-w", "-g", "-DVP_ENTRY=" + h.name, ib, os.path.join(HERE, "lib", "vpx_rt.c"), "-o", exe, "-lm"], 120, mem=False)
        return (exe, "") if rc == 0 else (None, e)
    exe, err = cached(("bci", bc), go)
    if not exe: return "nobuild", err[-800:]
    f = os.path.join(WORK, "in_%s_%s.txt" % (h.name, tag))
    with open(f, "w") as o: o.write("\n".join(map(str, vals)) + "\n")
    g = f + ".sched"
    with open(g, "w") as o: o.write("\n".join(map(str, sched)) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1")
    rc, o, e, w = run([exe, f, g], 20, mem=False, env=env)
    if rc is None: return "hang", "no termination within 20 s"
    t = e[-3000:]
    if rc == 99: return "check", t
    if rc in (0, 77, 78) and h.stress:      # a preemption inside an inline-assembly block: run the same operations on real threads
        def st():
            exe = bc[:-3] + "_s.exe"
            rc, o, e, w = run(["gcc", "-O1", "-std=gnu11", "-w", "-g", "-pthread", "-I" + HERE + "/lib/include", "-DVP_STRESS", "-DVP_ENTRY=" + h.name] + base_defs(h, cfg) + [h.file, "-o", exe, "-lm", "-ldl"], 120, mem=False)
            return (exe, "") if rc == 0 else (None, e)
        exe, err = cached(("bcs", bc), st)
        if not exe: return "nobuild", err[-800:]
        rc2, o, e, w = run([exe, f], 30, mem=False, env=env)
        if rc2 == 99: return "check", "real threads: " + e[-2000:]
        if rc2 is None: return "hang", "real threads: no termination within 30 s"
    if rc == 77: return "assume", t
    if rc == 78: return "mismatch", t
    if rc == 0: return "clean", t
    return "crash", "rc=%d\n%s" % (rc, e[:3000])
def do_vpx(h):
    out = {"harness": h.name, "what": h.what, "status": "undecided", "runs": [], "violations": [], "unconfirmed": [], "reach": {"harness": h.name, "reach": "skipped"}, "functions": []}
    for i, cfg in enumerate(h.q if tier == "quick" else h.t):
        if left() < 5: out["note"] = "global deadline"; break
        J = int(cfg.get("J", 4)); k = TOK.take(J)
        try:
            bc, err = compile_bc(h, cfg)
            if not bc: out["status"] = "error"; out["note"] = "clang: " + err[-1500:]; break
            T = min(float(cfg.get("T", 60)), max(2, left() - 5))
            of = os.path.join(WORK, "v_%s_%d.jsonl" % (h.name, i))
            cmd = [vpx_bin(), bc, h.name, "-j", str(k), "-t", str(T), "-o", of, "-zms", str(int(T * 700))]
            if "PB" in cfg: cmd += ["-pb", cfg["PB"]]
            if "STEPS" in cfg: cmd += ["-steps", cfg["STEPS"]]
            for r in h.repl: cmd += ["-repl", r]
            cmd += h.opts
            rc, o, e, w = run(cmd, T * 1.5 + 30, mem=False)
        finally: TOK.give(k)
        recs = []
        try:
            for l in open(of):
                try: recs.append(json.loads(l))
                except ValueError: pass
        except OSError: pass
        sm = next((r for r in recs if r["kind"] == "summary"), {})
        fns = sorted(set(r["name"] for r in recs if r["kind"] == "fn" and r["name"].startswith("zpl")))
        errs = [r for r in recs if r["kind"] in ("check", "memory", "steps", "deadlock")]
        uns = [r for r in recs if r["kind"] == "unsupported"]
        out["cfg"] = cfg; out["unwind"] = None; out["functions"] = fns or out["functions"]
        out["runs"].append({"cmd": " ".join(cmd).replace(WORK, "$WORK"), "status": "complete" if sm.get("complete") else "incomplete", "wall": round(w, 2), "solver_s": sm.get("solver_s", 0), "vccs": sm.get("asserts", 0), "steps": sm.get("steps", 0), "msgs": [u["msg"] + " @ " + u.get("where", "") for u in uns][:3] + ([e[-300:]] if rc else []), **{x: sm.get(x) for x in ("paths", "queries", "sat", "unsat", "domain_decisions", "symbolic_asserts", "forks", "schedules", "merged", "states", "assume_killed", "z3_queries")}})
        confirmed = False
        for n, r in enumerate(errs[:4]):
            if h.thr: v, txt = replay_thr(h, cfg, r["inputs"], r["sched"], "%d_%d" % (i, n))
            else: v, txt = replay(h, cfg, r["inputs"], "%d_%d" % (i, n))
            if v in ("check", "crash", "hang"):
                out["violations"].append({"property": r["kind"] + " " + r["msg"], "desc": "at " + r["where"], "inputs": r["inputs"], "sched": r["sched"], "replay": v, "text": txt, "cfg": cfg}); confirmed = True; break
            out["unconfirmed"].append((r["msg"], r["where"], v + " " + txt[-400:], r["inputs"][:40]))
        if confirmed: out["status"] = "violation"; break
        if errs: out["status"] = "unconfirmed"; break
        if not sm.get("reached") and sm.get("complete"): out["reach"]["reach"] = "VACUOUS"
        wit = [r for r in recs if r["kind"] == "witness"]
        if wit:
            out["reach"].update({"reach": "reached", "witness": wit[-1]["inputs"][:64]})
            if h.reach and not h.known:
                r = wit[-1]
                v, txt = (replay_thr(h, cfg, r["inputs"], r["sched"], "w%d" % i) if h.thr else replay(h, cfg, r["inputs"], "w%d" % i))
                out["reach"]["replay"] = v; out["reach"]["validated"] = v == "clean" and "VP-REACHED" in txt
                if v in ("check", "crash", "hang"): out["reach"].update({"text": txt, "inputs": r["inputs"], "cfg": cfg})
                elif v != "clean": out["note"] = "witness replay: " + v + " " + txt[-300:]
        if sm.get("complete"):
            out["status"] = "holds"; out["checked"] = sm.get("asserts", 0); break
        out["note"] = "incomplete at %s: paths=%s %s" % (cfg, sm.get("paths"), out["runs"][-1]["msgs"])
    if verbose: log("  [%6.1fs] %-28s %s cfg=%s %s %s" % (time.time() - T0, h.name, out["status"], out.get("cfg"), out["runs"] and {x: out["runs"][-1].get(x) for x in ("wall", "paths", "queries", "domain_decisions", "symbolic_asserts")}, out.get("note", "")))
    return out

def do_reach(h, o):
    if h.engine == 'vpx': return o['reach']
    cfg = o.get("cfg"); res = {"harness": h.name, "reach": "skipped"}
    if not cfg or left() < 8 or o["status"] in ("violation",): return res
    gb, err = compile_goto(h, cfg, True)
    if not gb: return res
    r = cbmc(h, gb, cfg, o.get("unwind", 8), min(float(cfg.get("T", 120)), left() - 3), trace=True, reach=True, extra=("--stop-on-fail",))
    res["wall"] = r["wall"]
    if r["status"] != "done": res["reach"] = r["status"]; return res
    tr = [(p, v) for p, v in r["traces"].items()]
    if not tr: res["reach"] = "VACUOUS"; return res
    vals = tr[0][1]; res["reach"] = "reached"; res["witness"] = vals[:64]
    v, txt = replay(h, cfg, vals, "reach")
    res["replay"] = v
    if v in ("check", "crash", "hang"): res["text"] = txt; res["inputs"] = vals; res["cfg"] = cfg
    elif v == "clean": res["validated"] = "VP-REACHED" in txt
    return res

def functions_of(h, cfg):
    """names of /repo functions reachable from the harness in the encoded program"""
    if h.engine == "vpx": return None
    gb, _ = compile_goto(h, cfg, False)
    rc, o, e, w = run(["goto-instrument", "--reachable-call-graph", gb, "--verbosity", "4"], 60)
    if rc != 0 or not o: rc, o, e, w = run(["goto-instrument", "--call-graph", gb], 60)
    succ = {}
    for a, b in re.findall(r"^(\S+) -> (\S+)\s*$", o, re.M): succ.setdefault(a, set()).add(b)
    seen = set(); st = [h.name]
    while st:
        f = st.pop()
        if f in seen: continue
        seen.add(f); st += succ.get(f, ())
    return sorted(f for f in seen if f.startswith("zpl"))

def write_replay(h, v):
    d = os.path.join(HERE, "evidence", "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%s.txt" % (PID, h.name))
    exe_cmd = ("clang-18 -fno-builtin -ffp-contract=off" if h.engine == "vpx" else "gcc") + " -std=gnu11 -g -O0 -w -fsanitize=address,bounds -fno-sanitize-recover=bounds %s -DVP_ENTRY=%s -o /tmp/vp_replay %s -lm -ldl -pthread" % (
        " ".join("'%s'" % x for x in base_defs(h, v["cfg"])), h.name, h.file)
    with open(p, "w") as o:
        o.write("# property %s, harness %s: %s\n# failed: %s: %s\n# native replay: %s\n# rebuild: %s && /tmp/vp_replay <this file without # lines>\n" % (
            PID, h.name, h.what, v["property"], v["desc"], v["replay"], exe_cmd))
        for l in v["text"].splitlines()[:60]: o.write("# | " + l + "\n")
        if v.get("sched"): o.write("# schedule (thread chosen at each scheduling decision): %s\n" % " ".join(map(str, v["sched"])))
        o.write("\n".join(map(str, v["inputs"])) + "\n")
    return p

def main():
    hs = load()
    if not hs: print("no harness for", PID); return 2
    extra = None
    outs = {}; reach = {}
    with ThreadPoolExecutor(CPUS) as ex:
        futs = {h.name: ex.submit(do_harness, h) for h in hs}
        rf = {}
        def later(h):
            o = futs[h.name].result()
            return do_reach(h, o) if (h.reach and not h.known) or h.engine == 'vpx' else {"harness": h.name, "reach": "n/a"}
        for h in hs: rf[h.name] = ex.submit(later, h)
        ff = {h.name: ex.submit(lambda h=h: functions_of(h, futs[h.name].result().get("cfg") or h.q[-1])) for h in hs}
        for h in hs: outs[h.name] = futs[h.name].result()
        for h in hs: reach[h.name] = rf[h.name].result()
        funcs = {}
        for h in hs:
            try: funcs[h.name] = ff[h.name].result()
            except Exception: funcs[h.name] = []
            if funcs[h.name] is None: funcs[h.name] = outs[h.name].get('functions', [])
    nviol = 0; bad = []
    lines = []
    for h in hs:
        o = outs[h.name]; r = reach[h.name]
        if not o["violations"] and r.get("replay") in ("check", "crash", "hang"):
            o["violations"].append({"property": h.name + ".witness", "desc": "solver-built witness run fails on the real build", "inputs": r["inputs"], "replay": r["replay"], "text": r["text"], "cfg": r["cfg"]}); o["status"] = "violation"
        if h.known:
            if o["status"] == "violation":
                if h.known in KNOWN:
                    lines.append("KNOWN-FINDING: property=%s %s" % (PID, KNOWN[h.known])); o["status"] = "known"; continue
            elif o["status"] in ("holds", "partial"): continue
        if o["status"] == "violation":
            nviol += 1
            v = o["violations"][0]
            p = write_replay(h, v)
            lines.append("  %s: %s: %s (%s)" % (h.name, v["property"], v["desc"], v["replay"]))
            lines.append("VIOLATION property=%s replay=%s" % (PID, p))
        elif o["status"] in ("holds",): pass
        elif o["status"] == "partial": lines.append("  note: %s explored only up to the loop bound: %s" % (h.name, o.get("partial")))
        else: bad.append("%s: %s %s %s" % (h.name, o["status"], o.get("note", ""), o.get("unconfirmed", "")))
        if r.get("reach") == "VACUOUS": bad.append("%s: vacuous (end not reachable)" % h.name)
    tot = {"paths": 0, "domain": 0, "sym": 0, "queries": 0, "solver_s": 0.0, "steps": 0, "vccs": 0, "asserts": 0}
    for o in outs.values():
        for r in o["runs"]:
            tot["queries"] += r["queries"] if r.get("queries") is not None else 1; tot["paths"] += r.get("paths") or 0; tot["domain"] += r.get("domain_decisions") or 0; tot["sym"] += r.get("symbolic_asserts") or 0; tot["solver_s"] += r.get("solver_s") or 0; tot["steps"] += r.get("steps") or 0; tot["vccs"] += r.get("vccs") or 0
        tot["asserts"] += o.get("checked", 0)
    samples = [{"harness": n, "solver_witness_inputs": r.get("witness")} for n, r in reach.items() if r.get("witness") is not None][:6]
    allf = sorted(set(f for fs in funcs.values() for f in fs))
    meta = {}
    try: meta = json.load(open(os.path.join(HERE, "lib", "assumptions.json"))).get(PID, {})
    except Exception: pass
    ev = {"property": PID, "tier": tier, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": nviol,
          "assumptions": (["CBMC 6.11 front end, memory model and C library models"] if any(h.engine == "cbmc" for h in hs) else []) + (["clang-18 front end; vpx (own path-forking executor for LLVM IR: minisat/Z3 decide, unsat answers sampled against Z3)"] if any(h.engine == "vpx" for h in hs) else []) + ["x86-64 LP64, gcc-like semantics",
                          "bounds as listed per harness; nothing is claimed beyond them", "allocation does not fail unless the harness injects failure"] + meta.get("assumptions", []),
          "coverage": {"states": tot["steps"], "transitions": tot["vccs"],
             "traces_validated_against_impl": sum(1 for r in reach.values() if r.get("validated")),
             "samples": samples or ["no witness in this run"],
             "explanation": "bounded symbolic checking of the real sources: states = SSA steps (CBMC) and IR instructions executed symbolically (vpx), transitions = verification conditions generated, traces_validated = solver-built witness inputs replayed natively on the real build",
             "solver_queries": tot["queries"], "paths_explored": tot["paths"], "finite_domain_decisions": tot["domain"], "symbolic_assertions": tot["sym"], "solver_seconds": round(tot["solver_s"], 2), "assertions_discharged": tot["asserts"],
             "functions_encoded": allf,
             "harnesses": [{"name": h.name, "what": h.what, "status": outs[h.name]["status"], "bounds": outs[h.name].get("cfg"), "unwind": outs[h.name].get("unwind"),
                            "partial": outs[h.name].get("partial"), "note": outs[h.name].get("note"), "checked": outs[h.name].get("checked"), "reach": reach[h.name].get("reach"),
                            "witness_replay": reach[h.name].get("replay"),
                            "runs": [{k: r.get(k) for k in ("status", "unwind", "wall", "solver_s", "vccs", "vccs_rem", "vars", "clauses", "paths", "queries", "sat", "unsat", "domain_decisions", "symbolic_asserts", "schedules") if r.get(k) is not None} for r in outs[h.name]["runs"]]} for h in hs],
             "inconclusive": bad}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", PID + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    for b in bad: print("INCONCLUSIVE", b)
    nh = sum(1 for o in outs.values() if o["status"] == "holds")
    print("%s %s: %d/%d harnesses hold, %d violations, %d queries, %.1fs solver, %.1fs wall" % (PID, tier, nh, len(hs), nviol, tot["queries"], tot["solver_s"], time.time() - T0))
    if nviol: return 1
    # exit 0: the property held on everything explored; INCONCLUSIVE lines and the evidence name what was not
    return 2 if (nh == 0 or any(o["status"] == "error" for o in outs.values()) or any("vacuous" in b for b in bad)) and not all(h.known for h in hs) else 0

rc = 3
try: rc = main() if not SETUP else (print(vpx_bin()), 0)[1]
finally:
    for p in list(procs):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    if not os.environ.get("VP_KEEP"): shutil.rmtree(WORK, ignore_errors=True)
sys.exit(rc)
