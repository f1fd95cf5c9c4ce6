#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--cases N] [--only SUB] [--keep]

Compiles the property's harness against /repo/include (current working tree), runs the generated-input
search with VERIF_SEED, writes evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION
line(s) printed; 2: the check itself could not run (compile error, tool missing, time budget hit)."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from table import TABLE, COMPILERS  # noqa
REPO = os.environ.get("VERIF_REPO", "/repo")

def include_flags():
    fl = ["-I" + REPO + "/include"]
    # Boost's other headers: prefer the sandbox's curated include set (its guard makes sure that the
    # system copy of Boost.Interval is never picked up), else the system Boost.
    for d in ("/opt/vp/boost-root/vp-include", "/opt/vp/boost-root/vp-guard"):
        if os.path.isdir(d): fl += ["-isystem", d]
    return fl

def known_entries(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known: "): continue
            f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
            if f.get("property") == pid:
                out.append((f["key"], line[7:].split(" ", 2)[2]))
    return out

def split_top(t, seps):
    """split t at the characters of seps outside strings and brackets"""
    out = [""]; depth = 0; i = 0
    while i < len(t):
        c = t[i]
        if c in "\"'":
            j = i + 1
            while t[j] != c: j += 2 if t[j] == "\\" else 1
            out[-1] += t[i:j+1]; i = j + 1; continue
        if c in "([{": depth += 1
        if c in ")]}": depth -= 1
        if c in seps and depth == 0: out.append("")
        else: out[-1] += c
        i += 1
    return out

def emulate_asm(text):
    """rewrite GNU extended inline assembly into calls of harness/backend.hpp's emulator"""
    out = ""; i = 0
    pat = re.compile(r"\b(?:__asm__|__asm|asm)\b\s*(?:(?:__volatile__|volatile)\s*)?\(")
    while True:
        m = pat.search(text, i)
        if not m: return out + text[i:]
        j = m.end(); depth = 1; k = j
        while depth:
            c = text[k]
            if c in "\"'":
                k += 1
                while text[k] != c: k += 2 if text[k] == "\\" else 1
            elif c == "(": depth += 1
            elif c == ")": depth -= 1
            k += 1
        parts = split_top(text[j:k-1], ":")
        args = []
        for n, kind in ((1, "out"), (2, "in")):
            for o in split_top(parts[n], ",") if len(parts) > n and parts[n].strip() else []:
                om = re.match(r'\s*(?:\[\s*(\w+)\s*\]\s*)?("[^"]*")\s*\((.*)\)\s*$', o, re.S)
                if not om: return text      # not understood: left to the compiler
                if om.group(1): parts[0] = parts[0].replace("%[" + om.group(1) + "]", "%" + str(len(args)))
                args.append(f"::emu::{kind}({om.group(2)}, {om.group(3)})")
        out += text[i:m.start()] + "::emu::run(" + parts[0].strip() + ", {" + ", ".join(args) + "})"
        i = k

def asm_overlay(dest):
    """copies of the library's headers that contain inline assembly, with the assembly emulated"""
    src = os.path.join(REPO, "include")
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f); t = open(p, errors="replace").read()
            if "x86" in f or not re.search(r"\b(__asm__|asm)\b", t): continue
            q = os.path.join(dest, os.path.relpath(p, src)); os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write(emulate_asm(t))
    return dest

def compile_one(job):
    name, cmd = job
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    return name, r.returncode, r.stdout + r.stderr, time.time() - t

def main():
    a = sys.argv[1:]
    pid = a[0]; tier = "quick"; replay = None; cases = None; only = None; keep = False; onlyvar = None; fuzz_only = False; fuzz_runs = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i+1]; i += 2
        elif a[i] == "--replay": replay = a[i+1]; i += 2
        elif a[i] == "--cases": cases = int(a[i+1]); i += 2
        elif a[i] == "--only": only = a[i+1]; i += 2
        elif a[i] == "--variant": onlyvar = a[i+1]; i += 2
        elif a[i] == "--keep": keep = True; i += 1
        elif a[i] == "--fuzz-only": fuzz_only = True; i += 1     # skip the random search (to try the fuzzing path alone)
        elif a[i] == "--fuzz-runs": fuzz_runs = int(a[i+1]); i += 2
        else: print("bad argument", a[i]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = TABLE[pid]
    build = os.path.join(ROOT, "build", pid + "-" + tier)
    shutil.rmtree(build, ignore_errors=True); os.makedirs(build)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if spec.get("compose"):
        import compose
        viol, cov, err = compose.check(pid, spec, tier, seed, replay, cases, build, include_flags(), ROOT, [k for k, _ in known_entries(pid)])
        if not keep: shutil.rmtree(build, ignore_errors=True)
        for k, text in known_entries(pid):
            if not err and not replay: print(f"KNOWN-FINDING: property={pid} {text}" if cov.get("known_finding_hits", {}).get(k) else f"note: listed finding not observed: {k}")
        for path, f in viol: print(f"VIOLATION property={pid} replay={path}\n  {f['key']}: {f['msg']}\n  case: {f['desc']}")
        if err: print("ERROR:", err); return 2
        if replay: return 1 if viol else 0
        json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol)), open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        if not viol: print(f"OK property={pid} tier={tier} seed={seed} evaluations={cov['evaluations']} distinct_nontrivial={cov['distinct_nontrivial']} wall={round(time.time() - t0, 1)}s")
        return 1 if viol else 0
    variants = [v for v in spec["variants"] if tier == "thorough" or not v.get("thorough_only")]
    if replay:
        meta = dict(l.rstrip("\n").split("=", 1) for l in open(replay) if "=" in l)
        if "probe" in meta: pass   # a configuration that does not compile: probed again below
        else: variants = [v for v in spec["variants"] if v["name"] == meta["variant"]]
    if onlyvar: variants = [v for v in variants if onlyvar in v["name"]]
    jobs = []
    overlay = asm_overlay(os.path.join(build, "overlay")) if spec.get("overlay") else None
    pre = (["-I" + overlay, "-I" + ROOT + "/harness/shim"] if overlay else []) + ["-I" + ROOT + "/lib"]
    def cmd_for(v, extra=(), out=None):
        comp = COMPILERS[v["cc"]]
        return comp + list(v.get("flags", [])) + list(extra) + pre + include_flags() + \
            [os.path.join(ROOT, "harness", v.get("src", spec["src"])), "-o", out or os.path.join(build, v["name"]), "-lmpfr", "-lgmpxx", "-lgmp"] + list(v.get("libs", []))
    for v in variants: jobs.append((v["name"], cmd_for(v)))
    fuzz = []
    if tier == "thorough" and not replay and spec.get("fuzz", True) and not onlyvar:
        for v in variants:
            if v.get("fuzz"):
                fl = ["clang++", "-std=c++17", "-O0", "-g1", "-w", "-frounding-math", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=undefined", "-DPBT_LIBFUZZER"]
                n = "fuzz-" + v["name"]
                comp = fl + list(v.get("flags", [])) + pre + include_flags() + [os.path.join(ROOT, "harness", v.get("src", spec["src"])), "-o", os.path.join(build, n), "-lmpfr", "-lgmpxx", "-lgmp"] + list(v.get("libs", []))
                jobs.append((n, comp)); fuzz.append((n, v))
    ctimes = {}; viol = []
    if spec.get("probes") and not onlyvar and (not replay or "probe" in meta):
        def probe(pr):
            cmd = pr[1][:1] + pr[1][1:-1] + pre + include_flags() + pr[1][-1:]
            r = subprocess.run(cmd, capture_output=True, text=True); return pr[0], cmd, r.returncode, r.stderr
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for name, cmd, rc, err in ex.map(probe, [p for p in spec["probes"] if not replay or p[0] == meta["probe"]]):
                first = next((l for l in err.splitlines() if " error: " in l), "")
                if rc and "boost/numeric/interval" not in first.split(" error: ")[0]:
                    print(f"ERROR: {pid}: probe {name} cannot be compiled\n" + err[-3000:]); return 2
                if rc:
                    path = os.path.join("replays", f"{pid}-probe-{name}.replay")
                    open(os.path.join(ROOT, path), "w").write("# the library's headers do not compile in this configuration\nproperty=%s\nprobe=%s\ncommand=%s\nmessage=%s\n" % (pid, name, " ".join(cmd).replace(build, "build"), first))
                    viol.append((path, dict(key="compiles|" + name, msg=first, desc="headers compiled as " + name)))
        if replay:
            for path, f in viol: print(f"VIOLATION property={pid} replay={replay}\n  {f['key']}: {f['msg']}")
            return 1 if viol else 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, rc, out, dt in ex.map(compile_one, jobs):
            ctimes[name] = round(dt, 1)
            if rc != 0:
                for path, f in viol: print(f"VIOLATION property={pid} replay={path}\n  {f['key']}: {f['msg']}")
                if viol: return 1
                print(f"ERROR: {pid}: harness variant {name} does not compile against {REPO}/include\n" + out[-4000:])
                return 2
    if replay:
        v = variants[0]
        r = subprocess.run([os.path.join(build, v["name"]), "--replay", replay, "--variant", v["name"]])
        return r.returncode
    known = known_entries(pid)
    total = cases or spec["cases"][0 if tier == "quick" else 1]
    nv = len(variants)
    # share of cases per variant by weight
    wsum = sum(v.get("weight", 1) for v in variants)
    par = max(1, min(8, 8 // nv + (1 if 8 % nv else 0)))
    deadline = t0 + (780 if tier == "quick" else 5400)
    def run_variant(v):
        out = os.path.join(build, v["name"] + ".json")
        c = [os.path.join(build, v["name"]), "--cases", str(max(1, int(total * v.get("weight", 1) / wsum))), "--seed", str(seed), "--jobs", str(par),
             "--out", out, "--variant", v["name"], "--workdir", build]
        if v.get("cpu"): c += ["--cpu", str(v["cpu"])]
        if only: c += ["--only", only]
        for k, _ in known: c += ["--known", k]
        env = dict(os.environ); env.setdefault("UBSAN_OPTIONS", "print_stacktrace=0"); env.setdefault("ASAN_OPTIONS", "detect_leaks=0")
        env.update(v.get("env", {}))
        t = time.time()
        try: r = subprocess.run(c, env=env, capture_output=True, text=True, timeout=max(10, deadline - time.time()))
        except subprocess.TimeoutExpired: return v, None, "time budget hit", time.time() - t
        res = json.load(open(out)) if os.path.exists(out) else None
        return v, res, (r.stdout + r.stderr)[-3000:], time.time() - t
    results = []; bad = None
    if fuzz_only: results = [(v, dict(failures=[], evaluations=0, discarded=0, distinct_nontrivial=0, unreproducible=0, labels={}, subs={}, known_hits={}, samples=[], wall=0)) for v in variants]
    else:
     with concurrent.futures.ThreadPoolExecutor(nv) as ex:
        for v, res, log, dt in ex.map(run_variant, variants):
            if res is None: bad = f"variant {v['name']}: {log}"
            else:
                res["wall"] = round(dt, 1); results.append((v, res))
                if log.strip(): sys.stderr.write(f"[{v['name']}] {log}\n")
    fuzzinfo = []
    if fuzz and not bad and not any(r["failures"] for _, r in results):
        runs = fuzz_runs or spec.get("fuzz_runs", 400000)
        def run_fuzz(nv_):
            n, v = nv_
            corpus = os.path.join(build, n + ".corpus"); os.makedirs(corpus, exist_ok=True)
            art = os.path.join(build, n + ".crash-")
            env = dict(os.environ); env["PBT_KNOWN"] = "\n".join(k for k, _ in known); env["ASAN_OPTIONS"] = "detect_leaks=0"
            c = [os.path.join(build, n), corpus, f"-runs={runs}", f"-seed={seed if seed else 1}", "-max_len=600", "-len_control=0", f"-artifact_prefix={art}", "-timeout=60", "-print_final_stats=1", "-rss_limit_mb=4096"]
            try: r = subprocess.run(c, env=env, capture_output=True, text=True, timeout=max(10, deadline - time.time()))
            except subprocess.TimeoutExpired: return n, v, None, 0, []
            execs = 0; cov = 0
            for l in r.stderr.splitlines():
                if "stat::number_of_executed_units" in l: execs = int(l.split()[-1])
                if " cov: " in l: cov = int(l.split(" cov: ")[1].split()[0])
            arts = [os.path.join(build, f) for f in os.listdir(build) if f.startswith(n + ".crash-")]
            return n, v, execs, cov, arts
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for n, v, execs, cov, arts in ex.map(run_fuzz, fuzz):
                if execs is None: continue   # budget hit: inconclusive extra search
                fuzzinfo.append(dict(target=n, executions=execs, coverage_points=cov, artifacts=len(arts)))
                for art in arts[:2]:
                    out = art + ".json"
                    c = [os.path.join(build, v["name"]), "--from-bytes", art, "--out", out, "--variant", v["name"], "--workdir", build]
                    for k, _ in known: c += ["--known", k]
                    subprocess.run(c, capture_output=True, text=True)
                    if os.path.exists(out):
                        res = json.load(open(out))
                        for vv, rr in results:
                            if vv is v: rr["failures"] += res["failures"]
    # gather
    for v, res in results:
        for k, f in enumerate(res["failures"]):
            path = os.path.join("replays", f"{pid}-{v['name']}-{k}.replay")
            with open(os.path.join(ROOT, path), "w") as fh:
                fh.write(f"property={pid}\nvariant={v['name']}\n" + "".join("before=" + b["sub"] + "".join(f" {t}" for t in b["tape"]) + "\n" for b in f.get("before", [])) + f"sub={f['sub']}\ntape={' '.join(map(str, f['tape']))}\nkey={f['key']}\ncase={f['desc']}\nmessage={f['msg']}\n")
                fh.write(f"# reproduce: python3 tools/check.py {pid} --replay {path}\n")
            viol.append((path, f))
    labels = {}; subs = {}; khits = {}; samples = []; ev = disc = dis = 0; unrep = 0
    for v, r in results:
        ev += r["evaluations"]; disc += r["discarded"]; dis += r["distinct_nontrivial"]; unrep += r["unreproducible"]
        for k, n in r["labels"].items(): labels[k] = labels.get(k, 0) + n
        for k, n in r["subs"].items(): subs[k] = subs.get(k, 0) + n
        for k, n in r["known_hits"].items(): khits[k] = khits.get(k, 0) + n
        samples += r["samples"][:max(2, 14 // nv)]
    cov = dict(evaluations=ev, distinct_nontrivial=dis, rule=spec["rule"] + " Cases are a pure function of VERIF_SEED, variant, sub-property and case index; distinct = distinct hash of the generated operands per variant.",
               samples=samples[:24], discarded=disc, cases_per_subproperty=subs, class_counts=dict(sorted(labels.items())), per_variant={v["name"]: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"], wall_s=r["wall"]) for v, r in results},
               compile_s=ctimes, unreproducible_failures=unrep, known_finding_hits=khits)
    if fuzzinfo: cov["coverage_guided_fuzzing"] = fuzzinfo
    evd = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(evd, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if not keep: shutil.rmtree(build, ignore_errors=True)
    for k, text in known:
        if khits.get(k): print(f"KNOWN-FINDING: property={pid} {text}")
    if viol:
        for path, f in viol[:4]:
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {f['key']}: {f['msg']}\n  case: {f['desc']}" + (f" (after {len(f['before'])} earlier case(s), see the replay file)" if f.get("before") else ""))
        return 1
    if bad:
        print("ERROR:", bad); return 2
    for k, text in known:
        if not khits.get(k): print(f"note: listed finding not observed: {k}")
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={ev} distinct_nontrivial={dis} wall={evd['wall_s']}s")
    return 0

sys.exit(main())
