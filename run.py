#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py check <PROPERTY> [--tier quick|thorough]     decide one property for the current /repo
  run.py setup                                         compile the engine (optional; checks do it themselves)
  run.py replay <file>                                 replay one recorded case natively
  run.py list

For a check: compiles the real sources of /repo twice (clang + SymPass = symbolic, g++ = native), lets the symbolic build
explore every path of the property's harnesses within the stated bounds (z3 decides every branch and every obligation),
replays every counterexample and a sample of path witnesses on the native build, and writes evidence/<PROPERTY>.json.
Exit: 0 held, 1 violation reproduced natively (VIOLATION line), 2 no verdict.
"""
import concurrent.futures as cf
import hashlib, json, math, os, re, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
ENGINE = os.path.join(HERE, "engine")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
NCPU = os.cpu_count() or 4


def z3dir():
    for d in ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"]:
        if os.path.exists(os.path.join(d, "lib", "libz3.so")):
            return d
    return None


Z3 = z3dir()

MODULES = {
    "common": "trajopt_common",
    "ifopt": "trajopt_ifopt",
    "sco": "trajopt_sco",
    "sqp": "trajopt_optimizers/trajopt_sqp",
    "trajopt": "trajopt",
    "vhacd": "trajopt_ext/vhacd",
}


def includes():
    inc = [os.path.join(REPO, m, "include") for m in MODULES.values()]
    out = []
    for i in inc:
        out += ["-I" + i]
    out += ["-I" + ENGINE, "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(HERE, "stubs")]
    out += ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/jsoncpp", "-isystem", "/usr/include/bullet"]
    return out


COMMON = ["-std=c++17", "-w", "-ffunction-sections", "-fdata-sections", "-DHAVE_BPMPD=ON",
          '-DBPMPD_CALLER="/repo/_build/bpmpd/bpmpd_caller"', "-D_GLIBCXX_ASSERTIONS"]
SYMFLAGS = ["-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-DEIGEN_DONT_VECTORIZE", "-ffp-contract=off",
            "-ftrivial-auto-var-init=pattern"]
NATFLAGS = ["-O0", "-g0"]


class Fatal(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def must(cmd, what):
    r = sh(cmd)
    if r.returncode != 0:
        raise Fatal(f"{what} failed: {' '.join(cmd)}\n{r.stdout[-6000:]}")
    return r.stdout


def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def atomic(cmd, out, what):
    tmp = out + f".tmp{os.getpid()}.{time.monotonic_ns()}"
    must(cmd + ["-o", tmp], what)
    os.replace(tmp, out)


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.futs = {}

    def once(self, key, fn):
        if key not in self.futs:
            self.futs[key] = self.pool.submit(fn)
        return self.futs[key]

    # --- engine ---------------------------------------------------------------------------------------------------
    def plugin(self):
        src = os.path.join(ENGINE, "SymPass.cpp")
        out = os.path.join(BUILD, f"SymPass-{filehash(src)}.so")

        def go():
            if not os.path.exists(out):
                flags = must(["llvm-config-18", "--cxxflags"], "llvm-config").split()
                flags = [f for f in flags if f != "-DNDEBUG"]
                atomic(["clang++-18"] + flags + ["-O1", "-fPIC", "-shared", "-w", src], out, "SymPass")
            return out
        return self.once(out, go)

    def runtime(self):
        src = os.path.join(ENGINE, "runtime.cpp")
        out = os.path.join(BUILD, f"runtime-{filehash(src, os.path.join(ENGINE, 'sym.h'))}.o")

        def go():
            if not os.path.exists(out):
                atomic(["g++", "-std=c++17", "-O1", "-w", "-I" + Z3 + "/include", "-c", src], out, "runtime")
            return out
        return self.once(out, go)

    def nativert(self):
        src = os.path.join(ENGINE, "native.cpp")
        out = os.path.join(BUILD, f"native-{filehash(src, os.path.join(ENGINE, 'sym.h'))}.o")

        def go():
            if not os.path.exists(out):
                atomic(["g++", "-std=c++17", "-O1", "-w", "-c", src], out, "native runtime")
            return out
        return self.once(out, go)

    # --- code under test --------------------------------------------------------------------------------------------
    def unit(self, src, kind, extra=()):
        """compiles one translation unit; the object is keyed by the preprocessed text, so it always is the current code"""
        def go():
            base = (["clang++-18"] + SYMFLAGS if kind == "sym" else ["g++"] + NATFLAGS) + COMMON + list(extra) + includes()
            pre = subprocess.run(base + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if pre.returncode != 0:
                raise Fatal(f"preprocessing {src} failed\n" + pre.stderr.decode()[-4000:])
            h = hashlib.sha256(pre.stdout)
            h.update(" ".join(base).encode())
            if kind == "sym":
                h.update(filehash(os.path.join(ENGINE, "SymPass.cpp")).encode())
            out = os.path.join(BUILD, f"{os.path.basename(src)}-{kind}-{h.hexdigest()[:20]}.o")
            if not os.path.exists(out):
                cmd = list(base)
                if kind == "sym":
                    cmd += ["-fpass-plugin=" + self.plug]
                atomic(cmd + ["-c", src], out, f"compiling {src} ({kind})")
            return out
        return self.once((src, kind, tuple(extra)), go)

    def program(self, harness, kind):
        src = os.path.join(HERE, "harness", harness)
        units, extra = directives(src)
        if kind == "sym":
            self.plug = self.plugin().result()
        futs = [self.unit(src, kind, extra)] + [self.unit(u, kind, extra) for u in units]
        rt = (self.runtime() if kind == "sym" else self.nativert()).result()
        objs = [f.result() for f in futs]
        name = hashlib.sha256(" ".join(objs + [rt]).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, f"{os.path.splitext(harness)[0]}-{kind}-{name}")
        if os.path.exists(out):
            return out
        link = ["-Wl,--gc-sections", "-Wl,--wrap=malloc", "-fopenmp", "-ljsoncpp", "-lconsole_bridge",
                "-lboost_program_options", "-ldl", "-lpthread"]
        if kind == "sym":
            link += ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"]
        tmp = out + f".tmp{os.getpid()}"
        r = sh(["g++"] + objs + [rt] + link + ["-o", tmp])
        if r.returncode != 0 and "undefined reference" in r.stdout:
            # code moved between files of a module: add the module's other sources
            more = []
            mods = {m for m in MODULES.values() for u in units if u.startswith(os.path.join(REPO, m, "src"))}
            for m in mods:
                for d, _, fs in os.walk(os.path.join(REPO, m, "src")):
                    more += [os.path.join(d, f) for f in fs if f.endswith(".cpp") and os.path.join(d, f) not in units]
            extraobjs = []
            for f in [self.unit(u, kind, extra) for u in more]:
                try:
                    extraobjs.append(f.result())
                except Fatal:
                    pass
            ar = os.path.join(BUILD, f"extra-{kind}-{name}-{os.getpid()}.a")
            must(["ar", "rcs", ar] + extraobjs, "ar")
            r2 = sh(["g++"] + objs + [rt, ar] + link + ["-o", tmp])
            os.unlink(ar)
            if r2.returncode == 0:
                r = r2
        if r.returncode != 0:
            raise Fatal(f"linking {harness} ({kind}) failed\n{r.stdout[-5000:]}")
        os.replace(tmp, out)
        return out


def directives(src):
    units, extra = [], []
    for line in open(src):
        m = re.match(r"//\s*@unit\s+(\S+)", line)
        if m:
            units.append(os.path.join(REPO, m.group(1)))
        m = re.match(r"//\s*@flag\s+(.*)", line)
        if m:
            extra += m.group(1).replace("${HERE}", HERE).split()
    return units, extra


# ---- running one harness ----------------------------------------------------------------------------------------------
def run_harness(prog, name, mode, tier, timeout, jobs, samples, opts=()):
    fd, out = tempfile.mkstemp(prefix="sym", dir=BUILD)
    os.close(fd)
    cmd = [prog, "--harness", name, "--out", out, "--jobs", str(jobs), "--timeout", str(timeout), "--samples", str(samples)]
    if mode == "fp":
        cmd.append("--fp")
    if tier == "thorough":
        cmd.append("--thorough")
    cmd += list(opts)
    errf = open(out + ".err", "w")
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=errf, timeout=timeout + 60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -99
    errf.close()
    recs = []
    for line in open(out, errors="replace"):
        line = line.strip()
        if line:
            try:
                recs.append(json.loads(line))
            except ValueError:
                recs.append({"type": "garbled", "text": line[:200]})
    err = open(out + ".err", errors="replace").read(3000)
    os.unlink(out)
    os.unlink(out + ".err")
    return {"name": name, "mode": mode, "rc": rc, "recs": recs, "err": err, "wall": time.time() - t0}


def case_text(rec, prop, harness_file, mode, tier):
    lines = [f"# property={prop} file={harness_file} harness={rec['harness']} mode={mode} tier={tier} label={rec['label']}",
             f"# {rec.get('msg', '')}"]
    for n, v in rec["choices"]:
        lines.append(f"ch {v} {n}")
    for n, v in rec["inputs"]:
        lines.append(f"in {v} {n}")
    return "\n".join(lines) + "\n"


def replay(prog, path, harness, mode, tier, obs=False):
    cmd = [prog, "--harness", harness, "--replay", path]
    if mode == "fp":
        cmd.append("--fp")
    if tier == "thorough":
        cmd.append("--thorough")
    if obs:
        cmd.append("--obs")
    with tempfile.TemporaryDirectory(prefix="vreplay") as d:
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60, cwd=d, errors="replace")
        except subprocess.TimeoutExpired:
            return ["REPLAY-FAIL hang | the real code did not finish within 60 s"], -1
    return r.stdout.splitlines(), r.returncode


def fnum(s):
    if s == "nan":
        return math.nan
    return float.fromhex(s) if "x" in s.lower() else float(s)


def compare_obs(rec, lines):
    got = [l[4:].rsplit("\t", 1) for l in lines if l.startswith("OBS ")]
    exp = rec.get("observed", [])
    if len(got) < len(exp):
        return f"{len(got)} observations natively, {len(exp)} in the model"
    for (n, v), g in zip(exp, got):
        if n != g[0]:
            return f"observation order differs: {n} vs {g[0]}"
        a, b = fnum(v), float(g[1])
        if math.isnan(a) and math.isnan(b):
            continue
        if a == b:
            continue
        if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)):
            continue
        return f"{n}: model {a!r} native {b!r}"
    return None


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("status") == "known"]


def check(prop, tier):
    from props import PROPS
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = PROPS[prop]
    deadline = t0 + (800 if tier == "quick" else 6 * 3600)
    b = Builder()
    items = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    errors, violations, knowns = [], [], []
    runs = []
    try:
        b.plugin(); b.runtime(); b.nativert()
        files = sorted({h["file"] for h in items})
        progs = {}
        b.plug = b.plugin().result()
        with cf.ThreadPoolExecutor(max(4, len(files) * 2)) as ex:
            fs = {(f, k): ex.submit(b.program, f, k) for f in files for k in ("sym", "nat")}
            for k, f in fs.items():
                progs[k] = f.result()
    except Fatal as e:
        print(f"ERROR property={prop} build: {e}")
        return 2
    tbuild = time.time() - t0
    par = min(4, len(items))
    jobs = max(2, NCPU // par)

    def one(h):
        left = max(20, deadline - time.time())
        return h, run_harness(progs[(h["file"], "sym")], h["name"], h.get("mode", "real"), tier,
                              min(left, h.get("timeout", 700 if tier == "quick" else 5 * 3600)), jobs, h.get("samples", 4),
                              h.get("opts", ()))

    with cf.ThreadPoolExecutor(par) as ex:
        for h, r in ex.map(one, items):
            runs.append((h, r))

    repdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    known = known_findings()
    tot = dict(paths=0, decisions=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, external=0, solver_s=0.0)
    checks_ev, funcs, bounds, samples, validated, mismatches = [], set(), [], [], 0, []
    for h, r in runs:
        mode = h.get("mode", "real")
        nat = progs[(h["file"], "nat")]
        tag = f"{h['file']}:{h['name']}"
        summ = [x for x in r["recs"] if x.get("type") == "summary"]
        if not summ:
            errors.append(f"{tag}: no summary (rc {r['rc']}): {r['err'][-500:]}")
            continue
        s = summ[-1]
        for k in tot:
            tot[k] += s.get(k, 0)
        for k, v in (("timedout", "time budget exhausted"), ("unsupported", "operation the executor cannot encode: " + s.get("unsupported_msg", "")),
                     ("boundexceeded", "path bound exceeded"), ("engineerror", "engine error " + r["err"][:300]), ("killed", "a worker was killed")):
            if s.get(k):
                errors.append(f"{tag}: {v}")
        funcs |= set(s.get("functions", []))
        bounds += [x for x in s.get("bounds", []) if x not in bounds]
        for x in r["recs"]:
            if x.get("type") == "garbled":
                errors.append(f"{tag}: garbled record {x['text']}")
            if x.get("type") == "inconclusive":
                errors.append(f"{tag}: inconclusive {x.get('label')}: {x.get('msg')}")
        for c in s.get("cover", []):
            if not c["reached"]:
                errors.append(f"{tag}: vacuous, nothing reaches '{c['label']}'")
        seen = {c["label"]: c for c in s["checks"]}
        for lab in h.get("labels", []):
            if not seen.get(lab, {}).get("reached"):
                errors.append(f"{tag}: vacuous, check '{lab}' is never reached")
        if not s["checks"]:
            errors.append(f"{tag}: vacuous, no check reached")
        checks_ev.append({"harness": tag, "mode": mode, "paths": s["paths"], "queries": s["queries"], "solver_s": round(s["solver_s"], 3),
                          "wall_s": round(s["wall_s"], 2),
                          "obligations": [{k: c[k] for k in ("label", "reached", "trivial", "solver", "violated")} for c in s["checks"]],
                          "cover": {c["label"]: c["reached"] for c in s.get("cover", [])}})
        # counterexamples, replayed on the native build
        bylabel = {}
        for x in r["recs"]:
            if x.get("type") == "violation":
                bylabel.setdefault(x["label"], []).append(x)
        for label, cases in bylabel.items():
            reproduced = None
            for i, x in enumerate(cases):
                slug = re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}_{h['name']}_{label}")[:100]
                path = os.path.join(repdir, f"{slug}_{i}.case")
                open(path, "w").write(case_text(x, prop, h["file"], mode, tier))
                lines, rc = replay(nat, path, x["harness"], mode, tier)
                fails = [l for l in lines if l.startswith("REPLAY-FAIL")]
                if fails:
                    reproduced = (path, fails)
                    if any(l.startswith(f"REPLAY-FAIL {label} ") for l in fails):
                        break
            if reproduced is None:
                errors.append(f"{tag}: counterexample for '{label}' does not reproduce on the real code ({path})")
                continue
            k = [f for f in known if f["property"] == prop and f["harness"] == h["name"] and f["label"] == label]
            if k:
                knowns.append((k[0], reproduced))
            else:
                violations.append((h, label, reproduced))
        # path witnesses, replayed on the native build
        for i, x in enumerate([x for x in r["recs"] if x.get("type") == "sample"]):
            path = os.path.join(repdir, f"{prop}_{h['name']}_sample{i}.case")
            open(path, "w").write(case_text(x, prop, h["file"], mode, tier))
            lines, rc = replay(nat, path, x["harness"], mode, tier, obs=True)
            os.unlink(path)
            fails = [l for l in lines if l.startswith("REPLAY-FAIL")]
            labs = {l.split(" ", 1)[1].split(" | ")[0] for l in fails}
            if fails and not labs <= set(bylabel):
                mismatches.append(f"{tag}: witness passes in the model but fails natively: {fails[0]}")
                continue
            bad = None if mode == "fp" or any(l.startswith("REPLAY-ASSUME") for l in lines) else compare_obs(x, lines)
            if bad:
                mismatches.append(f"{tag}: {bad}")
            else:
                validated += 1
                if len(samples) < 6:
                    samples.append({"harness": tag, "choices": x["choices"][:20], "inputs": x["inputs"][:30],
                                    "observed": x.get("observed", [])[:8]})
    if len(mismatches) > max(1, validated):
        errors.append("model and native build disagree: " + mismatches[0])
    rc = 0
    for k, rep in knowns:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for h, label, rep in violations:
        print(f"VIOLATION property={prop} replay={rep[0]}")
        print(f"  harness {h['file']}:{h['name']}, check '{label}': {rep[1][0]}")
        rc = 1
    for e in errors[:20]:
        print(f"INCONCLUSIVE property={prop} {e}")
    if errors and rc == 0:
        rc = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"] + tot["forks"],
            "traces_validated_against_impl": validated, "samples": samples or [{"note": "no witness"}],
            "engine": "symbolic execution of the real LLVM code (SymPass + runtime), z3 " + ("%s" % z3version()),
            "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"],
            "queries_external": tot["external"], "solver_s": round(tot["solver_s"], 2), "build_s": round(tbuild, 1),
            "harnesses": checks_ev, "functions_encoded": demangle(sorted(funcs)), "bounds": bounds,
            "model_native_mismatches": mismatches, "errors": errors,
            "known_findings": [k["what"] for k, _ in knowns],
        },
        "assumptions": spec.get("assumptions", []) + [
            "real mode: doubles are exact reals, so rounding, overflow and NaN arithmetic are outside the claim (fp mode: exact IEEE semantics)",
            "nothing is claimed beyond the stated bounds"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"property={prop} tier={tier} exit={rc} paths={tot['paths']} queries={tot['queries']} solver={tot['solver_s']:.1f}s "
          f"build={tbuild:.1f}s wall={time.time() - t0:.1f}s validated={validated} mismatches={len(mismatches)}")
    return rc


def z3version():
    try:
        return sh(["z3-new", "--version"]).stdout.split()[2]
    except Exception:
        return "?"


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[0] == "setup":
        b = Builder()
        for f in [b.plugin(), b.runtime(), b.nativert()]:
            f.result()
        print("engine built")
        return 0
    if a[0] == "list":
        from props import PROPS
        print("\n".join(PROPS))
        return 0
    if a[0] == "check":
        return check(a[1], tier)
    if a[0] == "replay":
        head = open(a[1]).readline()
        kv = dict(x.split("=", 1) for x in head[2:].split() if "=" in x)
        b = Builder()
        p = b.program(kv["file"], "nat")
        lines, rc = replay(p, os.path.abspath(a[1]), kv["harness"], kv["mode"], kv["tier"], obs=True)
        print("\n".join(lines))
        return rc
    return 3


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
