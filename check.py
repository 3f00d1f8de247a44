#!/usr/bin/env python3
"""check.py ID              run the check of property ID (VERIF_SEED, VERIF_TIER)
   check.py ID --replay F    rebuild and re-run one replay file
   check.py --setup          compile the engine once and validate the reference models
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 8
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8", CCACHE_DISABLE="1")

# ----------------------------------------------------------------- modules
A, G, S = "BlockCiphers/AES/", "StreamCiphers/AEGIS/", "StreamCiphers/"
HCSRC = "StreamCiphers/HC-128/hc128.cpp"
X86 = ["-Dx86_INTRINSICS", "-maes", "-msse4.1"]
ARM = ["-DARM_INTRINSICS", "-march=armv8-a+crypto"]
# name: (directory, extra flags, shim, extra sources, where: any / x86 / arm)
MODULES = {}
for short, d, shim in (("ctr", "AES_CTR", "aes_ctr"), ("cfb", None, "aes_cfb")):
    for impl in ("AES", "AES_x86", "AES_ARM"):
        path = A + impl + "/" + (d or ("AES_CFB" if impl == "AES" else "AES_CFB_Carry-Over"))
        n = {"AES": "tab", "AES_x86": "x86", "AES_ARM": "arm"}[impl]
        MODULES[f"{short}_{n}"] = (path, [], shim, [], "any")
        if n == "x86":
            MODULES[f"{short}_x86i"] = (path, X86, shim, [], "x86")
        if n == "arm":
            MODULES[f"{short}_armi"] = (path, ARM, shim, [], "arm")
MODULES["cfb_r6"] = (A + "AES/AES_CFB", ["-DROUND_REDUCED"], "aes_cfb", [], "any")
MODULES["cfb_r6x"] = (A + "AES_x86/AES_CFB_Carry-Over", ["-DROUND_REDUCED"], "aes_cfb", [], "any")
MODULES["cfb_r6a"] = (A + "AES_ARM/AES_CFB_Carry-Over", ["-DROUND_REDUCED"], "aes_cfb", [], "any")
for impl, n in (("AES", ""), ("AES_x86", "x"), ("AES_ARM", "a")):
    MODULES["ctr_r6" + n] = (A + impl + "/AES_CTR", ["-DROUND_REDUCED"], "aes_ctr", [], "any")
for impl, n in (("AEGIS", "tab"), ("AEGIS_x86", "x86"), ("AEGIS_ARM", "arm")):
    MODULES[f"aegis_{n}"] = (G + impl, [], "aegis", [], "any")
MODULES["aegis_x86i"] = (G + "AEGIS_x86", X86, "aegis", [], "x86")
MODULES["aegis_armi"] = (G + "AEGIS_ARM", ARM, "aegis", [], "arm")
MODULES["chacha20"] = (S + "ChaCha", [], "chacha", [], "any")
MODULES["chacha12"] = (S + "ChaCha", ["-DTWELVE_ROUNDS"], "chacha", [], "any")
MODULES["chacha8"] = (S + "ChaCha", ["-DEIGHT_ROUNDS"], "chacha", [], "any")
MODULES["hc128"] = (S + "HC-128", [], "hc128", [], "any")
MODULES["rabbit"] = (S + "Rabbit", [], "rabbit", [], "any")
MODULES["sosemanuk"] = (S + "Sosemanuk", [], "sosemanuk", [], "any")
MODULES["serpent"] = ("BlockCiphers/Serpent", [], "serpent", [], "any")
MODULES["serpent_s"] = (S + "Sosemanuk", [], "serpent", [], "any")
MODULES["sha"] = ("Hash/SHA/SHA-2/SHA-256", [], "sha", [], "any")
MODULES["sha_h"] = ("Authentication/HMAC-SHA-256", [], "sha", [], "any")
MODULES["hmac"] = ("Authentication/HMAC-SHA-256", [], "hmac", [], "any")
MODULES["md5"] = ("Legacy/MD5", [], "md5", [], "any")
MODULES["des"] = ("Legacy/DES", [], "des", [], "any")
MODULES["hex"] = ("Encoders/Hex", [], "hex", [], "any")
JL = "AsymmetricCryptography/Joye_libert"
LHE = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE"
# linked as they are (one build only): name: (directory, flags, None, extra sources, where)
MODULES["jl"] = (JL, [], None, [], "native")
MODULES["lhe"] = (LHE, [], None, [JL, S + "HC-128"], "native")
# its include lines name directories that are not there: shims/mu/ forwards them to the real headers
MODULES["mulhe"] = (LHE.replace("LabeledHE", "muLabeledHE"), ["-I" + VERIF + "/shims/mu/inc", "-I" + REPO], None, [JL, S + "HC-128"], "native")
# the same behind tables of function pointers (both variants in one program)
MODULES["he"] = (LHE, ["-I" + REPO], "he", [JL, S + "HC-128"], "native")
MODULES["muhe"] = (MODULES["mulhe"][0], MODULES["mulhe"][1] + ["-DMU"], "he", [JL, S + "HC-128"], "native")
SKIP = {"test_rf.cpp", "poly1305.cpp"}
MAIN = re.compile(r"^\s*(int|auto)\s+main\s*\(", re.M)

def cpu_has_aes():
    try:
        t = open("/proc/cpuinfo").read()
        return " aes" in t and "sse4_1" in t
    except OSError:
        return False
HAVE_AESNI = cpu_has_aes()

# ----------------------------------------------------------------- configs
SAN = "-fsanitize=address,bounds,vla-bound,null,return,unreachable"
NOREC = "-fno-sanitize-recover=bounds,vla-bound,null,return,unreachable"
# How code may pun types is not what most properties are about: only C11 and C29 also run plain -O2 builds (o2s, c2s).
PUN = ["-fno-strict-aliasing", "-fwrapv"]
CONFIGS = {
    # compiler, flags for library and harness alike, link flags, runner, objcopy, ld
    "asan": ("clang++", ["-O1", *PUN, "-g", "-fno-omit-frame-pointer", SAN, NOREC, "-fsanitize=fuzzer-no-link"], [SAN], []),
    "o0": ("g++", ["-g", "-O0"], [], []),
    "o2": ("g++", ["-O2", "-U_FORTIFY_SOURCE", *PUN], [], []),
    "ub": ("clang++", ["-O1", "-g", "-fsanitize=signed-integer-overflow", "-fno-sanitize-recover=all"], ["-fsanitize=signed-integer-overflow"], []),
    "o2s": ("g++", ["-O2", "-U_FORTIFY_SOURCE"], [], []),
    "o3s": ("g++", ["-O3", "-U_FORTIFY_SOURCE"], [], []),
    "c2s": ("clang++", ["-O2"], [], []),
    "c0": ("clang++", ["-O0"], [], []),
    "arm": ("aarch64-linux-gnu-g++", ["-O1", *PUN], ["-static"], ["/usr/bin/qemu-aarch64"]),
    "arm0": ("aarch64-linux-gnu-g++", ["-O0", "-g"], ["-static"], ["/usr/bin/qemu-aarch64"]),
    "tsan": ("clang++", ["-O1", "-g", *PUN, "-fsanitize=thread"], ["-fsanitize=thread"], []),
}
HARNESS = ["-std=c++17", "-w", "-I" + VERIF + "/engine", "-I" + VERIF + "/ref", "-I" + VERIF + "/shims", "-I" + VERIF + "/props", "-I" + VERIF + "/shims/mu/inc"]
LIBFLAGS = ["-w", "-Wno-narrowing", "-Wno-error"]
def tool(cfg, name):
    return "/usr/bin/aarch64-linux-gnu-" + name if cfg.startswith("arm") else "/usr/bin/" + name
def compiler(cfg):
    return "/usr/bin/" + CONFIGS[cfg][0]

class BuildError(Exception):
    pass
def sh(cmd, **kw):
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-3000:])
    return p.stdout.decode(errors="replace")

def lib_sources(directory):
    d = os.path.join(REPO, directory)
    out = []
    for root, dirs, files in os.walk(d):
        if root != d:
            continue
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")) and f not in SKIP:
                p = os.path.join(root, f)
                if not MAIN.search(open(p, encoding="utf-8", errors="replace").read()):
                    out.append(p)
    return out

def wanted(mod, cfg):
    where = MODULES[mod][4]
    if where == "x86":
        return not cfg.startswith("arm") and HAVE_AESNI
    if where == "arm":
        return cfg.startswith("arm")
    if where == "native":
        return not cfg.startswith("arm")
    return True

class Builder:
    """Compiles everything a check needs, in parallel, each object once."""
    def __init__(self, bdir):
        self.dir = bdir
        os.makedirs(bdir, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.jobs = {}
    def once(self, key, fn):
        if key not in self.jobs:
            self.jobs[key] = self.pool.submit(fn)
        return self.jobs[key]
    def obj(self, cfg, src, flags, tag):
        o = f"{self.dir}/{cfg}/{tag}.o"
        def go():
            os.makedirs(os.path.dirname(o), exist_ok=True)
            sh([compiler(cfg), *CONFIGS[cfg][1], *flags, "-c", src, "-o", o])
            return o
        return self.once(o, go)
    def harness(self, cfg, src, defs=()):
        name = os.path.basename(src)[:-4]
        fl = list(HARNESS) + list(defs)
        if cfg == "asan" and src.startswith((VERIF + "/ref", VERIF + "/engine")):
            pass
        opt = ["-O1"] if cfg in ("o0", "arm0", "c0") else []
        return self.obj(cfg, src, fl + opt + ["-I" + REPO], "h_" + name + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6])
    def module(self, cfg, mod):
        d, flags, shim, extra, _ = MODULES[mod]
        objs = []
        srcs = lib_sources(d)
        for e in extra:
            srcs += lib_sources(e)
        for i, s in enumerate(srcs):
            objs.append(self.obj(cfg, s, LIBFLAGS + flags, f"m_{mod}_{i}"))
        if not shim:
            return objs
        objs.append(self.obj(cfg, f"{VERIF}/shims/{shim}.cpp", ["-std=c++17", "-w", *flags, "-I" + os.path.join(REPO, d), "-I" + VERIF + "/shims", "-DMOD=mod_" + mod], f"s_{mod}"))
        return objs
    def join(self, cfg, mod, objs):
        o = f"{self.dir}/{cfg}/mod_{mod}.o"
        sh([tool(cfg, "ld"), "-r", "--force-group-allocation", *objs, "-o", o + ".r"])
        sh([tool(cfg, "objcopy"), "--keep-global-symbol=mod_" + mod, o + ".r", o])
        os.unlink(o + ".r")
        return o
    def binary(self, cfg, srcs, mods, libs=(), fuzz=False):
        mods = [m for m in mods if wanted(m, cfg)]
        defs = ["-DHAVE_" + m for m in mods]
        h = [self.harness(cfg, f"{VERIF}/engine/pbt.cpp"), self.harness(cfg, f"{VERIF}/engine/{'fuzz' if fuzz else 'main'}.cpp")]
        h += [self.harness(cfg, f"{VERIF}/ref/{r}.cpp") for r in ("ref_aes", "ref_stream", "ref_hash")]
        h += [self.harness(cfg, f"{VERIF}/props/{s}", tuple(defs)) for s in srcs]
        ms = {m: self.module(cfg, m) for m in mods}
        def link():
            direct, joined = [], []
            for m, objs in ms.items():
                fs = [o.result() for o in objs]
                if MODULES[m][2]:
                    joined.append(self.join_once(cfg, m, fs))
                else:
                    direct += fs
            out = f"{self.dir}/{cfg}/{'fuzz' if fuzz else 'pbt'}"
            extra = ["-fsanitize=fuzzer"] if fuzz else []
            sh([compiler(cfg), *CONFIGS[cfg][1], *CONFIGS[cfg][2], *extra, *[x.result() for x in h], *joined, *direct, "-lpthread", *([] if cfg.startswith("arm") else libs), "-o", out])
            return out
        return link
    def join_once(self, cfg, m, fs):
        key = ("j", cfg, m)
        if key not in self.jobs:
            self.jobs[key] = self.join(cfg, m, fs)
        return self.jobs[key]

# ----------------------------------------------------------------- checks
from checks import CHECKS, KNOWN_FILE  # noqa: E402

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, KNOWN_FILE)
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        b = f"{VERIF}/build/setup"
        os.makedirs(b, exist_ok=True)
        sh(["/usr/bin/g++", "-O2", "-std=c++17", "-w", "-I" + VERIF + "/ref", *[f"{VERIF}/ref/{f}.cpp" for f in ("selftest", "ref_aes", "ref_stream", "ref_hash")], "-o", b + "/selftest"])
        print(sh([b + "/selftest"]))
        shutil.rmtree(b)
        return 0
    pid = sys.argv[1]
    chk = CHECKS[pid]
    t0 = time.time()
    bdir = f"{VERIF}/build/{pid}"
    if os.path.isdir(bdir):
        shutil.rmtree(bdir)
    B = Builder(bdir)
    out_dir = f"{VERIF}/replays"
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    mods, srcs, libs = chk["mods"], chk["src"], chk.get("libs", [])
    stages = [s for s in chk["stages"] if THOROUGH or not s.get("thorough_only")]
    cfgs = []
    for s in stages:
        if s["cfg"] not in cfgs:
            cfgs.append(s["cfg"])
    notes, assumptions = [], list(chk.get("assumptions", []))
    if not HAVE_AESNI and any(MODULES[m][4] == "x86" for m in mods):
        notes.append("this CPU has no AES-NI: the x86 intrinsics builds were skipped")
    for c in list(cfgs):
        if not os.path.exists(compiler(c)) or (CONFIGS[c][3] and not os.path.exists(CONFIGS[c][3][0])):
            notes.append(f"configuration {c} skipped: compiler or runner missing")
            cfgs.remove(c)
    stages = [s for s in stages if s["cfg"] in cfgs]
    only_replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        only_replay = sys.argv[3]
    # binaries; a configuration that does not build with clang is replaced by nothing (noted), gcc must build
    bins, errors = {}, {}
    links = {c: B.binary(c, srcs, mods, libs) for c in cfgs}
    fuzz_links = {}
    fz = chk.get("fuzz")
    if fz and "asan" in cfgs and not only_replay:
        fuzz_links["asan"] = B.binary("asan", srcs, mods, libs, fuzz=True)
    for c, l in links.items():
        try:
            bins[c] = l()
        except BuildError as e:
            errors[c] = str(e)
    fuzz_bin = None
    for c, l in fuzz_links.items():
        try:
            fuzz_bin = l()
        except BuildError as e:
            errors["fuzz"] = str(e)
    for c, e in errors.items():
        sys.stderr.write(f"[build {c}] {e}\n")
        notes.append(f"configuration {c} did not build and was skipped: {e.strip().splitlines()[-1][:200] if e.strip() else ''}")
    if not bins:
        print("ERROR: nothing could be built", file=sys.stderr)
        return 2
    if only_replay:
        cfg = None
        for line in open(only_replay):
            m = re.match(r"exe (\S+)", line)
            if m:
                cfg = m.group(1)
        cfg = cfg or cfgs[0]
        p = subprocess.run(CONFIGS[cfg][3] + [bins[cfg], "replay", only_replay, "--work", bdir], env=ENV)
        return 1 if p.returncode == 1 else 0
    tb = time.time() - t0
    total = dict(evaluations=0, nontrivial=0, distinct=0, known=0)
    classes, samples, per, known_hit, inconclusive = {}, [], [], set(), []
    violation = None
    def add_exe(path, cfg):
        t = open(path).read()
        with open(path, "w") as f:
            f.write(f"exe {cfg}\n" + t)
    def replay3(path, cfg, cpu=120, heavy=False):
        ps = []
        for k in range(2 if heavy else 3):            # heavy: gigabytes of memory each, so one after the other
            w = f"{bdir}/replay{k}"
            os.makedirs(w, exist_ok=True)
            ps.append(subprocess.Popen(CONFIGS[cfg][3] + [bins[cfg], "replay", path, "--work", w, "--cpu", str(cpu)], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            if heavy:
                ps[-1].wait()
        return all(p.wait() == 1 for p in ps)
    # corpus files committed with the framework: replayed first
    budget_scale = float(os.environ.get("VERIF_SCALE", "1"))
    for i, s in enumerate(stages):
        if s["cfg"] not in bins or violation:
            continue
        cfg = s["cfg"]
        cases = int((s["thorough"] if THOROUGH and "thorough" in s else s["cases"] * (s.get("mult", 12) if THOROUGH else 1)) * budget_scale) or 1
        tmax = s.get("time", 40) * (12 if THOROUGH else 1)
        cpu = s.get("cpu", 90 if s.get("only") or cfg.startswith("arm") else 30)
        rp = f"{out_dir}/{pid}-{cfg}-{i}.txt"
        st = f"{bdir}/stats{i}.json"
        cmd = CONFIGS[cfg][3] + [bins[cfg], "run", "--seed", str(SEED), "--stream", str(i + 1), "--cases", str(cases), "--workers", str(s.get("workers", NCPU)), "--time", str(tmax), "--work", bdir, "--replay", rp, "--stats", st, "--cpu", str(cpu)]
        if s.get("only"):
            cmd += ["--only", s["only"]]
        env = dict(ENV, **s.get("env", {}))
        if os.path.exists(rp):
            os.unlink(rp)
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(st):
            inconclusive.append(f"stage {i} ({cfg}) harness error {p.returncode}: {p.stdout.decode(errors='replace')[-300:]}")
            continue
        d = json.load(open(st))
        total["evaluations"] += d["evaluations"]; total["nontrivial"] += d["nontrivial"]; total["distinct"] += d["distinct_nontrivial"]; total["known"] += d["known"]
        if d["known_id"]:
            known_hit.add(d["known_id"])
        for k, v in d["classes"].items():
            classes[k] = classes.get(k, 0) + v
        samples += [f"[{cfg}] {x}" for x in d["samples"][:3]]
        per.append(dict(kind="pbt", config=cfg, only=s.get("only", ""), cases=d["evaluations"], planned=d["planned"], wall_s=round(d["wall"], 1), by_property=d["props"]))
        if d["inconclusive"]:
            inconclusive.append(f"stage {i} ({cfg}): {d['inconclusive']}")
        if d["rc"] == 1 and os.path.exists(rp):
            add_exe(rp, cfg)
            if replay3(rp, cfg, cpu, s.get("heavy", False)):
                violation = (rp, d["msg"])
            else:
                inconclusive.append(f"stage {i} ({cfg}): failure did not replay: {d['msg']}")
        elif d["rc"] == 4:
            inconclusive.append(f"stage {i} ({cfg}): {d['msg']}")
    # coverage-guided search with the same decoder and oracle
    if fuzz_bin and not violation and "asan" in bins:
        secs, runs = (fz.get("thorough_s", 600), 0) if THOROUGH else (fz.get("s", 12), fz.get("runs", 200000))
        corp = f"{bdir}/corpus"
        os.makedirs(corp, exist_ok=True)
        subprocess.run([bins["asan"], "corpus", "--seed", str(SEED), "--n", "96", "--out", corp], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs = []
        for k in range(NCPU):
            own = f"{bdir}/own{k}"; art = f"{bdir}/art{k}"
            os.makedirs(own, exist_ok=True); os.makedirs(art, exist_ok=True)
            cmd = [fuzz_bin, f"-seed={SEED * 1000 + k + 1}", f"-max_total_time={secs}", "-max_len=4096", "-timeout=40", "-rss_limit_mb=3000", "-malloc_limit_mb=2500", f"-use_value_profile={k % 2}", f"-artifact_prefix={art}/", "-print_final_stats=1", "-detect_leaks=0", "-reload=0", "-len_control=20", own]
            if runs:
                cmd.insert(1, f"-runs={runs}")
            if k % 4 != 3:
                cmd.append(corp)
            procs.append((k, subprocess.Popen(["/usr/bin/timeout", "-k", "5", str(secs + 150)] + cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=open(f"{bdir}/fuzz{k}.log", "wb"))))
        execs, cov = 0, 0
        for k, p in procs:
            p.wait()
            log = open(f"{bdir}/fuzz{k}.log", errors="replace").read()
            m = re.search(r"number_of_executed_units:\s*(\d+)", log)
            e = int(m.group(1)) if m else max([int(x) for x in re.findall(r"^#(\d+)\s", log, re.M)] or [0])
            execs += e
            cov = max([cov] + [int(x) for x in re.findall(r"cov: (\d+)", log)])
        total["evaluations"] += execs
        per.append(dict(kind="libFuzzer", config="asan", cases=execs, edges=cov, processes=NCPU, seconds=secs))
        for k, _ in procs:
            for f in sorted(os.listdir(f"{bdir}/art{k}")):
                if violation or not f.startswith(("crash-", "timeout-")):
                    if f.startswith("oom-"):
                        inconclusive.append(f"libFuzzer process {k}: {f}")
                    continue
                rp = f"{out_dir}/{pid}-fuzz.txt"
                p = subprocess.run([bins["asan"], "fuzzcase", f"{bdir}/art{k}/{f}", "--out", rp, "--work", bdir, "--cpu", "30"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 1:
                    add_exe(rp, "asan")
                    if replay3(rp, "asan", 30):
                        violation = (rp, p.stdout.decode(errors="replace").strip())
                        continue
                inconclusive.append(f"libFuzzer process {k}: {f} did not reproduce outside the fuzzer")
    listed = dict(known_findings(pid))
    for k in sorted(known_hit):
        if k not in listed and not violation:
            violation = (None, f"known finding {k} is not listed")
    for k, text in listed.items():
        if k in known_hit:
            print(f"KNOWN-FINDING: property={pid} {text}")
    ev = dict(property=pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"], rule=chk["rule"], samples=samples[:16] or ["(no case was described: a violation was found first)"], nontrivial=total["nontrivial"],
                            classes=classes, stages=per, configurations=sorted(bins), known_finding_cases=total["known"], inconclusive=inconclusive, notes=notes),
              assumptions=assumptions + ["distinct_nontrivial counts only the random stages (libFuzzer executions are in evaluations)"],
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    sys.stderr.write(f"{pid}: {total['evaluations']} cases, {total['distinct']} distinct non-trivial, build {tb:.1f}s, total {time.time()-t0:.1f}s\n")
    for x in inconclusive:
        sys.stderr.write("inconclusive: " + x + "\n")
    if os.environ.get("VERIF_KEEP") != "1":
        shutil.rmtree(bdir, ignore_errors=True)
    if violation:
        rp, msg = violation
        print(msg)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
