#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--keep]

Decides one property by discharging its contracts on /repo's current source.

1. kani contracts: `cargo kani` compiles /repo's crates together with the contract harnesses and
   discharges every generated obligation for all inputs (CBMC + SAT).
2. native contracts (labelled bounded): the same kind of contract executed on generated inputs, for
   functions outside the verifier's reach; also run for every kani contract, so that an undecided
   proof still has its bounded stand-in and a failing proof a concrete input.

Exit 0: nothing failed.  Exit 1 + VIOLATION line: a contract is broken.  Exit 2: /repo or the
machinery does not build.
"""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
T0 = time.time()
prop = sys.argv[1]
mod = prop.lower()
tier = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
only = re.compile(sys.argv[sys.argv.index("--only") + 1]) if "--only" in sys.argv else None
seed = int(os.environ.get("VERIF_SEED", "1"))
BUDGET = 600 if tier == "quick" else 840         # seconds for everything
HARNESS_TIMEOUT = 240 if tier == "quick" else 600
JOBS = 7
MEM = 9 << 30                                     # address space of one solver process
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
os.makedirs(REPLAY, exist_ok=True); os.makedirs(BUILD, exist_ok=True)

env = dict(os.environ)
env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
           RUST_BACKTRACE="0")
env.pop("RUSTUP_TOOLCHAIN", None)
HOOK = "--cfg ssbh_verif"

def log(*a): print(*a, flush=True)
def left(): return BUDGET - (time.time() - T0)

procs = []
def run(cmd, cwd, timeout, env=env, mem=None):
    """Runs cmd in its own process group; on timeout the whole group is ended."""
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=pre)
    procs.append(p)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

def cleanup():
    for p in procs:
        if p.poll() is None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass

# ---------------------------------------------------------------- contract texts
src = open(os.path.join(VERIF, "harness/src", mod + ".rs")).read()
docs = {}
fieldsens = re.search(r"//! @fs=(\d+)", src)   # longer buffers keep constant bytes apart in the solver
for m in re.finditer(r"((?:[ \t]*///[^\n]*\n)*)((?:[ \t]*#\[[^\n]*\n)*)[ \t]*fn (\w+)\(\) *\{", src):
    text = " ".join(l.strip()[3:].strip() for l in m.group(1).strip().split("\n") if l.strip())
    opts = dict(re.findall(r"@(\w+)=(\S+)", text))
    docs[m.group(3)] = (re.sub(r"@\w+=\S+\s*", "", text).strip(), opts)
def doc(name): return docs.get(name.split("::")[-1], ("", {}))

def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout
before = git("status", "--porcelain")

# ---------------------------------------------------------------- builds
def build_native(hooks):
    e = dict(env, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS=HOOK if hooks else "")
    feats = mod + (" hooks" if hooks else "")
    return run(["cargo", "build", "--offline", "-q", "--bin", "native", "--features", feats, "--target-dir", os.path.join(BUILD, "native-" + mod)],
               os.path.join(VERIF, "harness"), 500, e)

# command line tools of /repo that a module's contracts run (`//! @bins=a,b`)
bins = re.search(r"//! @bins=(\S+)", src)
def build_bins():
    if not bins: return
    d = os.path.join(BUILD, "bins-" + mod)
    e = dict(env, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="")
    for b in bins.group(1).split(","):
        rc, out = run(["cargo", "build", "--offline", "-q", "--manifest-path", f"/repo/{b}/Cargo.toml", "--target-dir", d], "/repo", 300, e)
        if rc: log(f"NOTE the tool {b} does not build: {out[-600:]}")
    env["VERIF_BINS"] = os.path.join(d, "debug")

hooks = True
vendor = os.path.join(BUILD, "vendor")
with_vendor = True
try:
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/vendor_binrw.py"), vendor], capture_output=True, text=True)
    if r.returncode: log(r.stdout, r.stderr); with_vendor = False
except Exception as ex:
    log("vendor:", ex); with_vendor = False

def kani_cmd(names, out, hooks, jobs=JOBS, timeout=HARNESS_TIMEOUT, extra=()):
    feats = mod + (" hooks" if hooks else "")
    c = ["cargo", "kani", "--features", feats, "--no-overflow-checks", "--no-assertion-reach-checks", "--target-dir", os.path.join(BUILD, "kani-" + mod),
         "-Z", "unstable-options", "-Z", "stubbing", "-Z", "function-contracts", "--harness-timeout", f"{timeout}s", "--exact"]
    if jobs: c += ["-j", str(jobs), "--output-format", "terse"]
    for n in names: c += ["--harness", n]
    if out: c += ["--export-json", out]
    c += list(extra)
    if fieldsens: c += ["--cbmc-args", "--max-field-sensitivity-array-size", fieldsens.group(1)]
    return c
def kani_env(hooks): return dict(env, RUSTFLAGS=HOOK if hooks else "")

def fail(msg, code=2):
    log(msg); cleanup(); sys.exit(code)

def section(kind):
    """names of the contracts declared in the module's `kind { .. }` section"""
    m = re.search(r"contracts! *\{(.*)\Z", src, re.S)
    body = m.group(1)
    k, n = body.split("\n} native {", 1)
    part = k if kind == "kani" else n
    names = []
    cfgs = re.finditer(r"((?:[ \t]*(?:///|#\[)[^\n]*\n)*)[ \t]*fn (\w+)\(\) *\{", part)
    for c in cfgs: names.append((c.group(2), 'feature = "hooks"' in c.group(1)))
    return names

ex = concurrent.futures.ThreadPoolExecutor(4)
t_build = time.time()
nf = ex.submit(build_native, True)
bf = ex.submit(build_bins)

def select(kind, hooks, proof=False):
    out = []
    for n, needs in section(kind):
        if needs and not hooks: continue
        o = doc(n)[1]
        if proof and tier == "quick" and "thorough" in o.get("tier", ""): continue
        if only and not only.search(n): continue
        out.append(mod + "::" + n)
    return out

kjson = os.path.join(BUILD, f"kani-{mod}.json")
kani_out = ""
def run_kani(hooks):
    names = select("kani", hooks, True)
    if not names or not with_vendor: return 0, ""
    if os.path.exists(kjson): os.remove(kjson)
    return run(kani_cmd(names, kjson, hooks), os.path.join(VERIF, "kani"), max(60, left() - 60), kani_env(hooks), MEM)
kf = ex.submit(run_kani, True)

rc, out = nf.result()
if rc != 0:
    log(out[-6000:])
    log("native build with hooks failed; trying without them")
    hooks = False
    cleanup(); kf.result()
    rc, out = build_native(False)
    if rc != 0: fail("BUILD FAILED\n" + out[-4000:])
    kf = ex.submit(run_kani, False)
log(f"native build {time.time()-t_build:.1f}s")
exe = os.path.join(BUILD, "native-" + mod, "debug", "native")
bf.result()

# ---------------------------------------------------------------- known findings
known = {}
kp = os.path.join(VERIF, "known_findings.json")
if os.path.exists(kp):
    for k in json.load(open(kp)):
        if k["property"] == prop and k.get("status") == "known": known[k["contract"]] = k["what"]

violations = []   # (contract, detail, replay path, has_input)
def write_replay(name, detail, inp, more=""):
    path = os.path.join(REPLAY, f"{prop}_{name.replace('::', '_')}.txt")
    with open(path, "w") as f:
        f.write(f"property {prop}\ncontract {name}\n{doc(name)[0]}\n\nfailed: {detail}\n")
        if inp is not None:
            f.write("\nConcrete input (one word per drawn value, little endian bytes):\n"
                    f"INPUT {inp}\nReplay on the real code (from /verif, after a check run built it):\n"
                    f"  cd harness && RUSTFLAGS='{HOOK}' cargo +stable run --offline --features '{mod} hooks' --bin native -- replay {name} {path}\n")
        f.write("\n" + more)
    return path

# ---------------------------------------------------------------- bounded native executions
scale = 1 if tier == "quick" else 8
def sample(name, kind):
    o = doc(name)[1]
    dcases, dms = (2000, 1500) if kind == "kani" else (40000, 12000)
    cases = int(o.get("cases", dcases)) * scale
    ms = int(o.get("ms", dms)) * scale
    rc, out = run([exe, "sample", name, str(cases), str(seed), str(ms)], VERIF, ms / 1000 + 150)
    return name, kind, rc, out

rc, listing = run([exe, "list"], VERIF, 30)
assert rc == 0, listing
all_native = [(l.split()[0], l.split()[1]) for l in listing.split("\n") if l.strip()]
sel = {n for n in select("native", hooks)} | {n for n in select("kani", hooks)}
jobs = [(k, n) for k, n in all_native if n in sel and doc(n)[1].get("nosample") is None]
jobs.sort(key=lambda j: -int(doc(j[1])[1].get("ms", 1500 if j[0] == "kani" else 12000)))
native_res = {}
with concurrent.futures.ThreadPoolExecutor(4) as pool:
    for name, kind, rc, out in pool.map(lambda j: sample(j[1], j[0]), jobs):
        m = re.search(r"OK cases=(\d+) discarded=(\d+) distinct=(\d+) first=(.*)", out)
        if rc == 0 and m:
            native_res[name] = dict(kind=kind, cases=int(m.group(1)), discarded=int(m.group(2)), distinct=int(m.group(3)), first=m.group(4))
            if int(m.group(1)) == 0: log(f"NOTE {name}: no generated input satisfied the precondition")
        elif rc is None:
            log(f"UNDECIDED {name}: bounded execution did not finish in time"); native_res[name] = dict(kind=kind, cases=0, discarded=0, distinct=0, first="", undecided=True)
        else:
            d = re.search(r"FAIL (.*)", out); i = re.search(r"INPUT (.*)", out)
            detail = d.group(1) if d else f"the execution ended with status {rc}: {out[-400:]}"
            native_res[name] = dict(kind=kind, cases=1, discarded=0, distinct=1, first="", failed=detail)
            violations.append((name, detail, write_replay(name, detail, i.group(1) if i else None, out[-4000:]), True))
            log(f"FAILED {name}: {detail}")

# ---------------------------------------------------------------- the verifier
t_k = time.time()
krc, kout = kf.result()
names = select("kani", hooks, True)
obl = disc = 0
kres = {}
func_obl = {}
undecided = []
cmd_text = " ".join(kani_cmd(names[:1], None, hooks)).replace(VERIF + "/", "") if names else ""
if names and with_vendor:
    data = None
    if os.path.exists(kjson):
        try: data = json.load(open(kjson))
        except Exception as e: log("kani json:", e)
    if data is None:
        if "error" in kout and re.search(r"could not compile|error\[E|error: ", kout) and krc != 0:
            log(kout[-5000:])
            log("the verifier could not build the contracts; only the bounded executions decide this run")
        undecided = [(n, "no verdict") for n in names]
    else:
        stats = {s["harness_id"]: s.get("cbmc_stats", {}) for s in (c for c in data.get("cbmc", []) if isinstance(c, dict) and "harness_id" in c)} if isinstance(data.get("cbmc"), list) else {}
        for s in data.get("cbmc", []):
            md = s.get("cbmc_metadata", {}); stats[s["harness_id"]] = s.get("cbmc_stats") or md.get("cbmc_stats") or {}
        seen = set()
        for r in data["verification_results"]["results"]:
            n = r["harness_id"]; seen.add(n)
            checks = r.get("checks", [])
            covers = [c for c in checks if c.get("category") == "cover"]
            others = [c for c in checks if c.get("category") != "cover"]
            bad = [c for c in others if c["status"] in ("Failure", "FAILURE")]
            und = [c for c in others if c["status"] not in ("Success", "Unreachable", "SUCCESS", "UNREACHABLE", "Failure", "FAILURE")]
            tool = [c for c in bad if c.get("category") in ("unwind", "unsupported_construct", "missing_function") or re.search(r"unwinding assertion|not currently supported|recursion", c.get("description", ""))]
            real = [c for c in bad if c not in tool]
            ok = r["status"] == "Success" and not bad and len(others) > 0
            miss = [c for c in covers if c["status"] not in ("Satisfied", "SATISFIED")]
            kres[n] = dict(status="proved" if ok and not miss else "?", time=r.get("duration_ms", 0) / 1000, obligations=len(others), covers=len(covers),
                           solver_s=stats.get(n, {}).get("runtime_decision_procedure_s"))
            if ok and miss:
                undecided.append((n, "vacuous: not reachable: " + "; ".join(c["description"] for c in miss))); kres[n]["status"] = "vacuous"
            elif ok:
                obl += len(others); disc += len(others)
                for c in others:
                    f = c.get("location", {}).get("file", "")
                    if "/repo/" in f:
                        fn = re.sub(r"::<.*", "", c["function"]); func_obl[fn] = func_obl.get(fn, 0) + 1
            elif real and not tool:
                kres[n]["status"] = "failed"; kres[n]["bad"] = real
            elif real:
                kres[n]["status"] = "failed"; kres[n]["bad"] = real  # a reached failure holds whatever the unwinding
            else:
                why = "; ".join(sorted({c["description"][:80] for c in tool}))[:300] or ("solver gave no verdict" if not und else "undetermined")
                kres[n]["status"] = "undecided"; undecided.append((n, why)); obl += len(others)
        for n in names:
            if n not in seen: undecided.append((n, "no verdict within the limit")); kres[n] = dict(status="undecided", time=None, obligations=0, covers=0)

for n, k in kres.items():
    if k["status"] != "failed": continue
    why = "; ".join(sorted({f"{c['description']} [{c['function']} {c.get('location', {}).get('file', '')}:{c.get('location', {}).get('line', '')}]" for c in k["bad"]}))[:1500]
    if any(v[0] == n for v in violations):
        log(f"FAILED OBLIGATION {n}: {why}"); continue
    # the verifier's counterexample, replayed on the real code (unmodified dependencies)
    has_input = False; inp = None; more = ""
    if left() > 45:
        rc, out = run(kani_cmd([n], None, hooks, jobs=0, timeout=int(min(300, left() - 20)), extra=["-Z", "concrete-playback", "--concrete-playback=print"]),
                      os.path.join(VERIF, "kani"), min(320, left() - 15), kani_env(hooks), MEM)
        more = out[-6000:]
        for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
            vals = [bytes(int(x) for x in v.replace(" ", "").split(",") if x).hex() for v in re.findall(r"vec!\[([\d, ]*)\]", blk)]
            path = write_replay(n, why, " ".join(vals), more)
            rc2, out2 = run([exe, "replay", n, path], VERIF, 120)
            if rc2 == 1:
                has_input = True; inp = " ".join(vals); more = out2 + "\n" + more; break
    violations.append((n, why, write_replay(n, why, inp, more), has_input))
    log(f"FAILED OBLIGATION {n}: {why}")

for n, w in undecided: log(f"UNDECIDED {n}: {w}")

# ---------------------------------------------------------------- report
kf_lines = []
real_v = []
for v in violations:
    s = v[0].split("::")[-1]
    if s in known: kf_lines.append(f"KNOWN-FINDING: property={prop} {known[s]}")
    else: real_v.append(v)

desc = lambda n: doc(n)[0] or n
proved = [n for n, k in kres.items() if k["status"] == "proved"]
full = [n for n in proved if "[bounded" not in desc(n)]
bnd = [n for n in proved if "[bounded" in desc(n)]
nat = [n for n, r in native_res.items() if r["kind"] == "native"]
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
o_full = sum(kres[n]["obligations"] for n in full)
wall = time.time() - T0
solver = sum((kres[n].get("solver_s") or 0) for n in proved)
evidence = dict(
    property=prop, tier=tier, seed=seed, level=level,
    coverage=dict(
        obligations=obl, discharged=disc, checker_cmd=cmd_text,
        trusted_base=["Kani 0.68.0 / CBMC 6.11.0 (--no-overflow-checks drops only CBMC's own NaN/float checks; Rust's overflow assertions stay)", "CaDiCaL or the SAT solver named by the harness", "rustc MIR", "binrw with error diagnostics and error destructors removed (tools/vendor_binrw.py)", "mock Read/Write/Seek and element types of harness/src/env.rs standing for their trait contracts"],
        back_end="cbmc (kani)", solver_s=round(solver, 1), verifier_s=round(sum((kres[n]["time"] or 0) for n in proved), 1),
        contracts_proved_unbounded=len(full), obligations_of_unbounded_contracts=o_full,
        contracts_proved_bounded=len(bnd), contracts_executed_only=len(nat),
        evaluations=sum(r["cases"] for r in native_res.values()), distinct_nontrivial=sum(r["distinct"] for r in native_res.values()),
        rule="one evaluation = one execution of a contract on generated inputs satisfying its precondition; distinct = different drawn inputs",
        samples=[dict(contract=n, input=r["first"]) for n, r in list(native_res.items())[:6]],
        functions_under_contract=dict(sorted(func_obl.items(), key=lambda x: -x[1])[:60]),
        proved={n: dict(what=desc(n), obligations=kres[n]["obligations"], covers=kres[n]["covers"], seconds=kres[n]["time"]) for n in full},
        proved_bounded={n: dict(what=desc(n), obligations=kres[n]["obligations"], covers=kres[n]["covers"], seconds=kres[n]["time"]) for n in bnd},
        executed_bounded={n: dict(what=desc(n), cases=native_res[n]["cases"], discarded=native_res[n]["discarded"], distinct=native_res[n]["distinct"]) for n in nat},
        undecided=[dict(contract=n, why=w) for n, w in undecided],
        hooks=hooks,
        explanation="Contracts proved by the verifier for all inputs are listed under `proved`; those proved only for a stated input shape under `proved_bounded`; those only executed on generated inputs under `executed_bounded` (never counted as proved)."),
    assumptions=["contracts marked [bounded ...] hold only within the stated bound", "functions of binrw, bitvec, half, glam and std are verified as compiled in, not against their own specification", "file positions below 2^40 where a contract says so"],
    wall_s=round(wall, 1), violations=len(real_v))
json.dump(evidence, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)

after = git("status", "--porcelain")
if before != after: log("NOTE: git status of /repo changed during the check")
if "--keep" not in sys.argv and os.environ.get("VERIF_KEEP") is None:
    shutil.rmtree(os.path.join(BUILD, "bins-" + mod), ignore_errors=True); shutil.rmtree(os.path.join(BUILD, "kani-" + mod), ignore_errors=True); shutil.rmtree(os.path.join(BUILD, "native-" + mod), ignore_errors=True)

if names:
    slow = sorted(((k["time"] or 0, n) for n, k in kres.items()), reverse=True)[:5]
    log("slowest proofs:", ", ".join(f"{n.split('::')[-1]} {t:.0f}s" for t, n in slow))
log(f"{prop}: {len(full)} contracts proved ({o_full} obligations), {len(bnd)} proved for bounded shapes ({disc - o_full} obligations), "
    f"{len(nat)} executed within bounds ({sum(r['cases'] for r in native_res.values())} executions), {len(undecided)} undecided, {len(violations)} failed; {wall:.0f}s")
cleanup()
for l in sorted(set(kf_lines)): print(l)
if not real_v and not native_res and not proved: fail("nothing was checked")
for n, d, path, has in real_v:
    print(f"VIOLATION property={prop} replay={path}" + ("" if has else " no-failing-input-found"))
sys.exit(1 if real_v else 0)
