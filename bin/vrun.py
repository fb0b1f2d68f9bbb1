#!/usr/bin/env python3
"""Decide one property: discharge the contracts of its harness module against
the current source of /repo with Kani (CBMC), replay counterexamples natively.

usage: vrun.py <property id> [--only harness] [--keep]
exit 0: every obligation discharged; 1: VIOLATION line printed; 2: undecided.
"""
import argparse, glob, json, os, re, resource, shutil, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HSRC = os.path.join(VERIF, "kani", "h")
CRATES = ["codec", "spdmlib", "mctp_transport", "pcidoe_transport", "sys_time"]
BUDGET = float(os.environ.get("VERIF_BUDGET", "860"))
T0 = time.time()


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- harnesses
class H:
    pass


def parse_module(mod):
    """Read the harness list and its tags from the module's doc comments."""
    src = open(os.path.join(HSRC, "src", mod + ".rs")).read()
    out = []
    for m in re.finditer(
            r"((?:^[ \t]*///.*\n)*)((?:^[ \t]*#\[stub.*\n)*)^[ \t]*#\[unwind\((\d+)\)\]\s*\n\s*fn (\w+)\(\)", src, re.M):
        doc = [l.strip()[3:].strip() for l in m.group(1).splitlines()]
        h = H()
        h.name, h.unwind, h.full = m.group(4), int(m.group(3)), mod + "::" + m.group(4)
        h.stubs = re.findall(r"#\[stub\((.*)\)\]", m.group(2)) + ["set " + s for s in re.findall(r"#\[stubs\((.*)\)\]", m.group(2))]
        h.tags, h.doc = {}, []
        for l in doc:
            t = re.match(r"@(\w+):?\s*(.*)", l)
            if t:
                k = t.group(1)
                h.tags[k] = (h.tags[k] + " " if k in h.tags else "") + t.group(2)
            else:
                h.doc.append(l)
        h.cfg = h.tags.get("cfg", "default")
        h.args = tuple(h.tags.get("cbmc", "").split())
        h.bound = h.tags.get("bound", "")
        h.tier = h.tags.get("tier", "quick")
        h.known = h.tags.get("known", "")
        h.fns = [f.strip() for f in h.tags.get("fns", "").split(",") if f.strip()]
        h.assumes = h.tags.get("assume", "")
        out.append(h)
    hdr = {}
    for l in src.splitlines():
        t = re.match(r"//!\s*@(\w+):?\s*(.*)", l)
        if t:
            hdr.setdefault(t.group(1), []).append(t.group(2))
        elif not l.startswith("//!"):
            break
    return out, hdr, src


# ---------------------------------------------------------------- work tree
def link_tree(dst):
    """dst/<crate>: symbolic links to every file of /repo/<crate> as it is now."""
    for c in CRATES:
        base = os.path.join(REPO, c)
        for d, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            rel = os.path.relpath(d, REPO)
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            for f in fs:
                if os.path.join(rel, f) == "spdmlib/src/config.rs" or f == "Cargo.lock":
                    continue
                os.symlink(os.path.join(d, f), os.path.join(dst, rel, f))


def instantiate(cfg, feature, native=False, slot=0):
    """A tree of its own for every worker: spdmlib's build script writes into the source tree."""
    w = os.path.join(WORK, cfg + ("-native" if native else "-%d" % slot if slot else ""))
    if os.path.isdir(w):
        return w
    os.makedirs(w)
    link_tree(os.path.join(w, "src"))
    h = os.path.join(w, "h")
    shutil.copytree(HSRC, h)
    t = open(os.path.join(h, "Cargo.toml")).read()
    t = t.replace("/repo/", os.path.join(w, "src") + "/")
    patch = "" if native else "[patch.crates-io]\n" + "".join(
        '%s = { path = "%s/kani/shim/%s" }\n' % (s, VERIF, s)
        for s in ("zeroize", "log", "conquer-once"))
    t = t.replace("#PATCH#", patch)
    open(os.path.join(h, "Cargo.toml"), "w").write(t)
    p = os.path.join(h, "src", FEATURE + ".rs")
    t = open(p).read()
    for name, n in RAISED.items():
        t = raised(t, name, n)
    open(p, "w").write(t)
    if native:
        shutil.copy("/opt/vp/ws/Cargo.lock", os.path.join(h, "Cargo.lock"))
    return w


RAISED = {}
MALLOC = None


def raised(t, name, n):
    return re.sub(r"#\[unwind\(\d+\)\](\s*\n\s*fn %s\(\))" % name, r"#[unwind(%d)]\1" % n, t)


def set_unwind(h, n):
    RAISED[h.name] = n
    for w in os.listdir(WORK):
        p = os.path.join(WORK, w, "h", "src", FEATURE + ".rs")
        if os.path.exists(p):
            t = raised(open(p).read(), h.name, n)
            open(p, "w").write(t)


def safe_source():
    """Every crate forbids unsafe code: rustc itself rules out memory errors, so
    CBMC need not re-prove them (panics, bounds and overflows stay obligations)."""
    return all("#![forbid(unsafe_code)]" in open(os.path.join(REPO, c, "src", "lib.rs")).read()
               for c in ("codec", "spdmlib", "mctp_transport", "pcidoe_transport"))


def allocator():
    """The verifier spends a third of its time in malloc: run it on the jemalloc that comes with the nightly
    compiler (LLVM bitcode in an rlib). Without it everything works the same, only slower."""
    try:
        top = os.path.expanduser(os.environ.get("RUSTUP_HOME", "~/.rustup") + "/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu")
        rlib = glob.glob(top + "/lib/libtikv_jemalloc_sys-*.rlib")[0]
        d = os.path.join(WORK, "malloc")
        os.makedirs(d)
        run = lambda c: subprocess.run(c, shell=True, cwd=d, check=True, timeout=60, capture_output=True)
        run("ar x %s && ls *.pic.o | xargs -P8 -I{} %s/bin/llc -O2 -relocation-model=pic -filetype=obj {} -o n_{}" % (rlib, top))
        run("gcc -shared -o m.so n_*.o -lpthread -ldl -lm")
        so = os.path.join(d, "m.so")
        p = subprocess.run(["cbmc", "--version"], env=dict(os.environ, LD_PRELOAD=so), capture_output=True, timeout=60)
        return so if p.returncode == 0 and not p.stderr else None
    except Exception as e:
        log("system malloc:", e)
        return None


def env_for(cfg):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "SPDM_CONFIG", "RUSTC",
              "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if MALLOC:
        e["LD_PRELOAD"] = MALLOC
    if cfg != "default":
        e["SPDM_CONFIG"] = os.path.join(VERIF, "cfg", cfg + ".json")
    return e


WORKERS = int(os.environ.get("VERIF_WORKERS", "5"))
CHUNK = 6
KANI_EXTRA = ["--no-assertion-reach-checks", "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "stubbing",
              "-Z", "mem-predicates"]


def kani(cfg, args, harnesses, tag, extra=(), timeout=600, jobs=8, slot=0):
    w = instantiate(cfg, FEATURE, slot=slot)
    js = os.path.join(WORK, tag + ".json")
    cmd = ["cargo", "kani", "--features", FEATURE, "--lib", "--target-dir", os.path.join(w, "target"),
           "--output-format", "terse", "--harness-timeout", "%ds" % timeout] + KANI_EXTRA
    if safe_source():
        cmd += ["--no-memory-safety-checks", "--no-undefined-function-checks"]
    if not any(x.startswith("--concrete-playback") for x in extra):
        cmd += ["--export-json", js, "-j", str(jobs)]
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += ["--exact"] + list(extra)
    if args:
        cmd += ["--cbmc-args"] + list(args)
    out = os.path.join(WORK, tag + ".out")
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=os.path.join(w, "h"), env=env_for(cfg), stdout=f,
                                preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)),
                                stderr=subprocess.STDOUT, timeout=max(10, left())).returncode
        except subprocess.TimeoutExpired:
            rc = -9
    res = {}
    if os.path.exists(js):
        d = json.load(open(js))
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
        for r in d["verification_results"]["results"]:
            r["stats"] = stats.get(r["harness_id"], {})
            res[r["harness_id"]] = r
    return rc, res, open(out, errors="replace").read(), " ".join(cmd)


def native_bin(cfg):
    """The replay binary: the same harnesses, the real dependencies, the pinned compiler."""
    with NATIVE_LOCK:
        w = instantiate(cfg, FEATURE, native=True)
        exe = os.path.join(w, "target", "debug", "replay")
        if not os.path.exists(exe):
            e = env_for(cfg)
            e.pop("LD_PRELOAD", None)
            home = e.get("RUSTUP_HOME", "/root/.rustup")
            e["RUSTUP_TOOLCHAIN"] = "nightly-2023-06-20"
            e["RUSTC"] = home + "/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin/rustc"
            p = subprocess.run(["cargo", "build", "--offline", "--features", FEATURE, "--bin", "replay",
                                "--target-dir", os.path.join(w, "target")],
                               cwd=os.path.join(w, "h"), env=e, capture_output=True, text=True)
            if p.returncode:
                log("native build failed:\n" + p.stderr[-3000:])
                return None
        return exe


def parse_playback(txt):
    """[(check description, hex stream)] of the generated playback tests."""
    out = []
    for m in re.finditer(r"/// Check for `(?!cover)[^`]*`: \"([^\n]*)\"\s*\n((?:(?!/// Check for).)*?)kani::concrete_playback_run", txt, re.S):
        vals = re.findall(r"^\s*vec!\[([\d, ]*)\],?$", m.group(2), re.M)
        bs = [int(x) for v in vals for x in v.split(",") if x.strip()]
        out.append((m.group(1), "".join("%02x" % b for b in bs)))
    return out


def replay(cfg, full, hexs):
    exe = native_bin(cfg)
    if not exe:
        return None, "native replay binary could not be built"
    try:
        p = subprocess.run([exe, full, hexs], capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return None, "native replay timed out"
    return p.returncode, (p.stdout + p.stderr)[-4000:]


def failed(r):
    """(candidate failures, unwinding failures, unsupported) of one result."""
    c, u, x = [], [], []
    for k in r.get("checks", []):
        if k["status"] != "Failure":
            continue
        cat = k.get("category", "")
        if cat == "unwind" or "unwinding assertion" in k["description"] or cat == "recursion":
            u.append(k)
        elif "unsupported" in cat or "not currently supported" in k["description"]:
            x.append(k)
        else:
            c.append(k)
    return c, u, x


def loc(k):
    l = k.get("location", {})
    return "%s:%s" % (re.sub(r"^.*/(src|h)/(?=(codec|spdmlib|mctp|pcidoe|src)/?)", "", l.get("file", "?")), l.get("line", "?"))


def main():
    global WORK, FEATURE, NATIVE_LOCK, MALLOC
    NATIVE_LOCK = threading.Lock()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    pid = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    FEATURE = pid.lower()
    WORK = os.path.join(VERIF, ".work", pid + "-%d" % os.getpid())
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    MALLOC = allocator()
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    try:
        rc = decide(pid, tier, seed, a)
    finally:
        if not a.keep:
            shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, a):
    hs, hdr, src = parse_module(FEATURE)
    if not hs:
        log("no harness in", FEATURE)
        return 2
    todo = [h for h in hs if (h.tier == "quick" or tier == "thorough") and (not a.only or re.fullmatch(a.only, h.name))]
    known = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    for l in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) check=\"(.*?)\" (.*)", l)
        if m:
            known[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    groups = {}
    for h in todo:
        groups.setdefault((h.cfg, h.args), []).append(h)
    results, cmds, texts = {}, [], {}
    def run_all(groups, tag):
        """Every group cut into chunks of a few harnesses, the chunks shared out to workers that each have
        their own tree and target directory: compiling and linking are serial within one cargo kani."""
        total = sum(len(m) for m in groups.values())
        size = max(CHUNK, -(-total // (3 * WORKERS)))
        chunks = []
        for key, members in sorted(groups.items()):
            n = -(-len(members) // size)
            chunks += [(key, members[i::n]) for i in range(n)]
        chunks.sort(key=lambda c: -len(c[1]))
        workers = min(WORKERS, len(chunks))
        jobs = max(2, -(-a.jobs // workers)) if workers > 1 else a.jobs
        lock = threading.Lock()

        def work(slot):
            mine = None
            while True:
                with lock:
                    if not chunks:
                        return
                    # stay with the configuration this worker has compiled already
                    i = next((i for i, c in enumerate(chunks) if c[0][0] == mine), 0)
                    no = len(chunks)
                    key, members = chunks.pop(i)
                mine = key[0]
                rc, res, out, cmd = kani(key[0], key[1], [m.full for m in members], "%s%d" % (tag, no),
                                         timeout=int(max(30, min(700, left() - 60))), jobs=jobs, slot=slot)
                with lock:
                    cmds.append(cmd)
                    for m in members:
                        texts[m.full] = out
                    results.update(res)

        ths = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
        [t.start() for t in ths]
        [t.join() for t in ths]

    run_all(groups, "g")

    # loops that need more iterations than the harness unwinds: raise the bound, all such harnesses at once
    unwinds, lost = {h.full: h.unwind for h in todo}, set()
    for rnd in range(3):
        short = {}
        for h in todo:
            r = results.get(h.full)
            if r is not None and left() > 60:
                c, u, x = failed(r)
                if u and not c and not x:
                    short.setdefault((h.cfg, h.args), []).append(h)
        if not short:
            break
        for hs_ in short.values():
            for h in hs_:
                unwinds[h.full] = unwinds[h.full] * 2 + 4
                set_unwind(h, unwinds[h.full])
                log(h.full, "unwinding bound too small, retry with", unwinds[h.full])
        again = [h.full for hs_ in short.values() for h in hs_]
        for f in again:
            del results[f]
        run_all(short, "u%d-" % rnd)
        lost |= {f for f in again if f not in results}

    violations, undecided, known_hits = [], [], []
    ev = dict(complete=[], bounded=[])
    obligations = discharged = 0
    bob = bdis = 0
    covers = 0
    solver_s = 0.0
    failing = []
    for h in todo:
        r = results.get(h.full)
        key = (h.cfg, h.args)
        unw = unwinds[h.full]
        if r is None:
            undecided.append((h, "no result (compile error, crash or lost harness):\n" + texts.get(h.full, "")[-3000:]))
            continue
        c, u, x = failed(r)
        if h.full in lost:
            undecided.append((h, "no result after raising the unwinding bound"))
            continue
        c, u, x = failed(r)
        checks = [k for k in r.get("checks", []) if k.get("category") != "cover"]
        cov = [k for k in r.get("checks", []) if k.get("category") == "cover"]
        if h.known:
            # the harness demonstrates a recorded defect: it is expected to fail there and only there
            pass
        if c:
            log(h.full, "FAILED:", "; ".join("%s (%s)" % (k["description"], loc(k)) for k in c[:6]))
            hit = [k for k in c if (pid, h.name, k["description"].strip('"')) in known]
            if len(hit) == len(c):
                for k in hit:
                    known_hits.append((h, k, known[(pid, h.name, k["description"].strip('"'))]))
                continue
            failing.append((r.get("duration_ms", 0), h, c, u, unw, key))
            continue
        if x:
            undecided.append((h, "unsupported construct: " + x[0]["description"]))
            continue
        if u or r["status"] != "Success":
            undecided.append((h, "status %s %s" % (r["status"], [k["description"] for k in u][:3])))
            continue
        bad = [k for k in cov if k["status"] != "Satisfied"]
        if bad:
            undecided.append((h, "vacuous: cover not satisfied: " + ", ".join(k["description"] for k in bad)))
            continue
        if not checks:
            undecided.append((h, "no obligation generated"))
            continue
        covers += len(cov)
        ok = [k for k in checks if k["status"] in ("Success", "Unreachable")]
        if h.bound:
            bob += len(checks)
            bdis += len(ok)
        else:
            obligations += len(checks)
            discharged += len(ok)
        s = r.get("stats", {})
        solver_s += s.get("runtime_decision_procedure_s", 0) or 0
        ev["bounded" if h.bound else "complete"].append(dict(
            harness=h.full, obligations=len(checks), discharged=len(ok), covers=[k["description"] for k in cov],
            unwind=unw, functions=h.fns, wall_s=round(r.get("duration_ms", 0) / 1000, 2),
            states=" ".join(h.doc), **({"callee_contracts": h.stubs} if h.stubs else {}), **({"bound": h.bound} if h.bound else {}),
            **({"config": h.cfg} if h.cfg != "default" else {})))
    # counterexamples: cheapest failing obligation first, until one is replayed
    stop = time.time() + min(DIAG, max(30, left() - 30))
    for _, h, c, u, unw, key in sorted(failing, key=lambda t: (bool(t[3]), t[0])):
        if any(v["replayed"] for _, v in violations):
            v = verdict(pid, h, c)
            v["verifier_output"] = texts.get(h.full, "")[-6000:]
        else:
            v = diagnose(pid, h, c, unw, key, max(20, stop - time.time()))
        if v["replayed"] or not u:
            violations.append((h, v))
        else:
            undecided.append((h, "failed below the unwinding bound only"))
    # mechanical scan for what is assumed
    scan = sorted({m.group(0).strip() for m in re.finditer(r"(?:nd::)?assume\([^;]*;", src)})
    fns = sorted({f for h in todo for f in h.fns})
    n_c, n_b = len(ev["complete"]), len(ev["bounded"])
    level = "proof" if obligations >= 1 and not violations else "other"
    rec = dict(
        property=pid, tier=tier, seed=seed, level=LEVELS.get(pid, "proof"),
        coverage=dict(
            obligations=obligations, discharged=discharged,
            bounded_obligations=bob, bounded_discharged=bdis,
            explanation="%d complete and %d bounded contract harnesses; %d reachability covers satisfied" % (n_c, n_b, covers),
            checker_cmd=cmds[0].replace(WORK, "$WORK") if cmds else "",
            back_end="Kani 0.68 / CBMC 6.11 / CaDiCaL", solver_s=round(solver_s, 2),
            functions_under_contract=fns, complete=ev["complete"], bounded=ev["bounded"],
            undecided=[(h.full, w[:300]) for h, w in undecided],
            known_findings=["%s: %s" % (h.full, t) for h, k, t in known_hits],
            trusted_base=TRUSTED + hdr.get("trusted", []),
        ),
        assumptions=hdr.get("assume", []) + ["precondition in harness: " + s for s in scan],
        wall_s=round(time.time() - T0, 2), violations=len(violations))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1)
    for h, k, t in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    # one line per replayed violation; without any, one per failed obligation
    shown = [x for x in violations if x[1]["replayed"]] or violations
    for h, v in shown:
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s.json" % (pid, h.name))
        v["also_failing"] = [verdict(pid, g, [])["harness"] for g, w in violations if w is not v]
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v["replayed"] else " no-failing-input-found"))
    for h, w in undecided:
        log("UNDECIDED", h.full, w)
    log("peak memory of one process: %d MB" % (resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss >> 10))
    log("%s: %d/%d obligations (+%d/%d bounded), %d violations, %d undecided, %d known" % (
        pid, discharged, obligations, bdis, bob, len(violations), len(undecided), len(known_hits)))
    if violations:
        return 1
    return 2 if undecided else 0


DIAG = 240


def verdict(pid, h, c):
    return dict(property=pid, harness=h.full, states=" ".join(h.doc),
                failed_obligations=[dict(description=k["description"], function=k.get("function"), at=loc(k)) for k in c],
                replayed=False, counterexamples=[])


def diagnose(pid, h, c, unw, key, limit):
    v = verdict(pid, h, c)
    if any(not re.search(r",\s*crate::contracts::", s) for s in h.stubs):
        # a callee is replaced by a recorder that exists only under the verifier: the failed obligation
        # is about the caller against that contract, and a native run of the harness would show something else
        v["verifier_output"] = "not replayed: checked against callee contracts " + "; ".join(h.stubs)
        return v
    th = threading.Thread(target=native_bin, args=(h.cfg,))
    th.start()
    _, _, out, _ = kani(h.cfg, h.args, [h.full], "p-" + h.name,
                        extra=["-Z", "concrete-playback", "--concrete-playback=print", "--unwind", str(unw)],
                        timeout=int(limit))
    th.join()
    for desc, hx in parse_playback(out):
        rc, txt = replay(h.cfg, h.full, hx)
        v["counterexamples"].append(dict(check=desc, stream=hx, native_exit=rc, native_output=txt))
        if rc in (1, -6, -11, 101, 134):
            v["replayed"] = True
    if not v["replayed"]:
        v["verifier_output"] = re.sub(r"```.*?```", "", out, flags=re.S)[-6000:]
    log(h.full, "native replay:", [(x["check"], x["native_exit"]) for x in v["counterexamples"]])
    return v


TRUSTED = [
    "Kani 0.68, CBMC 6.11 and CaDiCaL; Kani's model of the Rust core/alloc libraries",
    "kani/shim: stand-ins for the crates zeroize (same effect, no volatile loops), log (off) and conquer-once (single-threaded cell)",
    "memory safety of the four crates: #![forbid(unsafe_code)], checked on every run; if a crate drops it, CBMC's own memory checks are switched on",
    "cfg(kani) impl of core::ops::Residual for SpdmStatus (newer compiler needs it)",
]
LEVELS = {}
if __name__ == "__main__":
    main()
