"""Runs one property's check: Verus on mechanically extracted functions, Kani on the compiled
crates, and the native evaluation of the same contracts (bounded stand-in + replay)."""
import json, os, re, shutil, subprocess, sys, time, threading, signal
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(ROOT, ".work")
sys.path.insert(0, os.path.join(ROOT, "lib"))
import vextract
from props import PROPS

T0 = time.time()
BUDGET = 840.0  # a check gets 900 s


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def sh(cmd, cwd=None, env=None, timeout=None):
    """(rc, output, timed_out); kills the whole process group on timeout"""
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "HOME": "/root",
              "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"})
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out, True


# ------------------------------------------------------------------ preparing the source trees
GIT_MEMBERS = {"openvm", "openvm-riscv", "cli-openvm-riscv", "sp1-benchmarks",
               "openvm-riscv/extensions/hints-guest", "openvm-riscv/extensions/hints-transpiler",
               "openvm-riscv/extensions/hints-circuit"}
CRATES = ["number", "constraint-solver", "expression", "riscv-elf", "riscv-types", "isa-utils", "syscalls",
          "autoprecompiles", "openvm-bus-interaction-handler"]


def shadow_manifest(dst):
    text = open(f"{REPO}/Cargo.toml").read()

    def members(m):
        items = [i for i in re.findall(r'"([^"]+)"', m.group(2)) if i not in GIT_MEMBERS]
        return m.group(1) + "[\n" + "".join(f'  "{i}",\n' for i in items) + "]"
    text = re.sub(r'(?ms)^(members\s*=\s*)\[(.*?)\]', members, text, count=1)
    write(f"{dst}/Cargo.toml", text)


def write(path, text):
    # never through a symlink, never outside .work: /repo is read-only for every check
    if os.path.realpath(path) != os.path.join(os.path.realpath(WORK), os.path.relpath(path, WORK)):
        raise SystemExit(f"refusing to write {path}: it resolves to {os.path.realpath(path)}")
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def widen(src):
    """Visibility widening: the only difference between the crates evaluated natively and /repo's.
    Items, inherent methods and struct fields become `pub`; nothing else is touched."""
    cut = src.find("#[cfg(test)]\nmod ")
    head, tail = (src, "") if cut < 0 else (src[:cut], src[cut:])
    head = re.sub(r"(?m)^mod (\w+);", r"pub mod \1;", head)
    head = re.sub(r"(?m)^((?:const |unsafe )*fn )", r"pub \1", head)
    head = re.sub(r"(?m)^(struct |enum |trait |type )", r"pub \1", head)
    head = re.sub(r"(?m)^( *)pub\((?:crate|super)\) ", r"\1pub ", head)
    head = re.sub(r"(?m)^(pub struct \w+(?:<[^<>]*>)?\()(?!pub\b)(?=(?:[^,<>()]|<[^<>()]*>)*\);$)", r"\1pub ", head)
    out, mode, hdr = [], None, ""
    for l in head.split("\n"):
        if mode is None and re.match(r"(unsafe )?impl\b|pub struct \w+", l):
            mode, hdr = "hdr", ""
        if mode == "hdr":
            hdr += " " + l
            if l.rstrip().endswith((";", "}")):
                mode = None
            elif l.rstrip().endswith("{"):
                flat = hdr
                while re.search(r"<[^<>]*>", flat):
                    flat = re.sub(r"<[^<>]*>", "", flat.replace("->", ""))
                mode = "fields" if re.search(r"\bstruct\b", hdr.split("{")[0]) else "skip" if re.search(r"\bfor\b", flat) else "methods"
        elif mode and l == "}":
            mode = None
        elif mode == "fields":
            l = re.sub(r"^    (?!pub\b)(\w+:)", r"    pub \1", l)
        elif mode == "methods":
            l = re.sub(r"^    ((?:const |unsafe )*fn )", r"    pub \1", l)
        out.append(l)
    return "\n".join(out) + tail


def portable(src):
    """For Kani: select the portable (non-assembly) variants."""
    return re.sub(r'target_arch = "x86_64"', 'target_arch = "none"', src)


def copy_tree(dst, transform):
    os.makedirs(dst, exist_ok=True)
    for e in os.listdir(dst):
        if os.path.islink(f"{dst}/{e}"):
            os.unlink(f"{dst}/{e}")
    shadow_manifest(dst)
    for c in CRATES:
        seen = set()
        for d, ds, fs in os.walk(f"{REPO}/{c}"):
            ds[:] = [q for q in ds if q not in ("target", "tests", "testdata", "benches")]
            for f in fs:
                if not (f.endswith(".rs") or f == "Cargo.toml"):
                    continue
                rel = os.path.relpath(os.path.join(d, f), REPO)
                t = open(os.path.join(d, f), errors="replace").read()
                if f.endswith(".rs") and "/src/" in "/" + rel:
                    t = transform(t)
                if f == "Cargo.toml":  # drop [[bench]]/[[test]] targets whose files are not extracted
                    t = re.sub(r"(?ms)^\[\[(bench|test|example)\]\].*?(?=^\[|\Z)", "", t)
                write(f"{dst}/{rel}", t)
                seen.add(rel)
        for d, ds, fs in os.walk(f"{dst}/{c}"):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), dst)
                if rel not in seen and f != "Cargo.lock":
                    os.unlink(os.path.join(d, f))


def prepare():
    """.work/n: /repo's crates with private items made visible (native); .work/x: the same with
    the portable variants selected (Kani)."""
    copy_tree(f"{WORK}/n", widen)
    copy_tree(f"{WORK}/x", lambda t: portable(widen(t)))


# ------------------------------------------------------------------ back ends
def run_verus(prop, spec):
    """-> dict(status = verified|failed|inconclusive, ...)"""
    res = {"template": spec, "functions": [], "verified": 0, "errors": 0, "status": "inconclusive", "reason": "", "output": ""}
    t = time.time()
    try:
        text, fns = vextract.expand(f"{ROOT}/verus/{spec}", REPO)
    except (vextract.LostAnchor, ValueError, KeyError, IndexError) as e:
        res["reason"] = f"lost anchor: {e}"
        return res
    res["functions"] = fns
    d = f"{WORK}/verus-{prop}"
    os.makedirs(d, exist_ok=True)
    f = f"{d}/{spec.replace('.vspec', '.rs')}"
    open(f, "w").write(text)
    rc, out, to = sh(["verus", f, "--multiple-errors", "20"], cwd=d, timeout=300)
    res["wall_s"] = round(time.time() - t, 1)
    res["output"] = out[-6000:]
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    if to or not m:
        res["reason"] = "timeout" if to else "the extracted text is outside the Verus dialect"
        return res
    res["verified"], res["errors"] = int(m.group(1)), int(m.group(2))
    if res["errors"] == 0 and rc == 0:
        res["status"] = "verified"
    else:
        real = re.findall(r"(?m)^error: (?!aborting)(.*)$", out)
        soft = [e for e in real if "Resource limit" in e or "rlimit" in e]
        if real and len(soft) < len(real):
            res["status"] = "failed"
            res["reason"] = "; ".join(e for e in real if e not in soft)[:600]
        else:
            res["reason"] = "resource limit"
    for bad in ("assume(", "admit(", "external_body"):
        n = text.count(bad)
        if n:
            res.setdefault("trusted", {})[bad] = n
    return res


def parse_kani(out):
    res = {}
    cur = {}
    name = None
    for line in out.split("\n"):
        m = re.match(r"(?:Thread (\d+): )?Checking harness ([\w:]+)\.\.\.", line)
        t = re.match(r"(?:Thread (\d+): )", line)
        if m:
            cur[m.group(1)] = m.group(2)
            res[m.group(2)] = {"status": "none", "obligations": 0, "failed": [], "time": None}
            name = m.group(2)
            continue
        if t:
            name = cur.get(t.group(1), name)
        if name is None:
            continue
        r = res[name]
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            r["obligations"], r["nfailed"] = int(m.group(2)), int(m.group(1))
        m = re.search(r"Failed Checks: (.*)", line)
        if m:
            r["failed"].append(m.group(1).strip())
        m = re.search(r"VERIFICATION:- (\w+)", line)
        if m:
            r["status"] = m.group(1)
        m = re.search(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["time"] = float(m.group(1))
        if "timed out" in line or "CBMC failed" in line or "CBMC timed out" in line:
            r["failed"].append("__tool__ " + line.strip())
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["cover"] = (int(m.group(1)), int(m.group(2)))
    return res


SOFT = ("unwinding assertion", "__tool__", "is not currently supported", "unsupported", "recursion unwinding", "reachability check", "beyond 128 bits", "stand-in")


def kani_cmd(feat, harnesses, timeout, extra=()):
    cmd = ["cargo", "kani", "--features", feat, "--target-dir", f"{WORK}/target-k", "--output-format", "terse",
           "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", f"{int(timeout)}s", "--exact"]
    for h in harnesses:
        cmd += ["--harness", h]
    return cmd + list(extra)


def run_kani(prop, cfg, tier):
    feat = cfg["features"]
    hs = list(cfg["harnesses"]) + (cfg.get("thorough", []) if tier == "thorough" else [])
    lim = cfg.get("timeout", 300)
    if tier == "quick":
        lim = min(lim, 420)
    t = time.time()
    rc, out, to = sh(kani_cmd(feat, hs, lim, ["-j", str(cfg.get("jobs", 6))]), cwd=f"{ROOT}/harness", timeout=max(60, min(left() - 120, cfg.get("total", 700) if tier == "quick" else 1e9)))
    r = {"wall_s": round(time.time() - t, 1), "harnesses": parse_kani(out), "compiled": True, "output": out[-3000:]}
    if not r["harnesses"]:
        r["compiled"] = False
        r["reason"] = "timeout" if to else "the harness does not compile against the extracted crates (lost anchor)"
        errs = re.findall(r"(?m)^error.*(?:\n.*){0,6}", out)
        r["output"] = "\n".join(errs)[-3000:] or out[-2000:]
    for h in hs:
        r["harnesses"].setdefault(h, {"status": "none", "obligations": 0, "failed": ["__tool__ not run to completion"], "time": None})
    return r


def kani_counterexample(feat, h):
    rc, out, to = sh(kani_cmd(feat, [h], 300, ["-Z", "concrete-playback", "--concrete-playback=print"]), cwd=f"{ROOT}/harness", timeout=max(30, min(300, left() - 60)))
    m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)
    if not m:
        return None, out[-3000:]
    vals = []
    for v in re.findall(r"(?m)^\s*vec!\[([\d,\s]*)\]", m.group(1)):
        b = bytes(int(q) for q in v.split(",") if q.strip())
        vals.append(int.from_bytes(b, "little"))
    return vals, out[-3000:]


def native_env():
    return {"RUSTUP_TOOLCHAIN": "nightly-2025-10-01", "RUSTUP_AUTO_INSTALL": "0", "CARGO_TARGET_DIR": f"{WORK}/target-n"}


def build_native(feat):
    t = time.time()
    rc, out, to = sh(["cargo", "build", "--offline", "--features", feat], cwd=f"{ROOT}/native", env=native_env(), timeout=600)
    return rc == 0, out, round(time.time() - t, 1)


VH = f"{WORK}/target-n/debug/vh"


def run_contract(job):
    name, mode, secs, seed, maxe = job
    cmd = [VH, "run", name, mode, str(secs), str(seed)] + ([str(maxe)] if maxe else [])
    rc, out, to = sh(cmd, timeout=secs + 120)
    try:
        return json.loads(out.strip().split("\n")[-1])
    except Exception:
        return {"contract": name, "mode": mode, "evaluations": 0, "met": 0, "complete": False, "fail": None,
                "error": f"rc={rc} timeout={to} " + out[-400:]}


def replay(name, vals):
    rc, out, to = sh([VH, "replay", name, ",".join(map(str, vals))], timeout=60)
    try:
        return json.loads(out.strip().split("\n")[-1])
    except Exception:
        return {"result": "error", "message": out[-300:] + (" (timeout)" if to else "")}


def load_findings(prop):
    f = f"{ROOT}/known_findings.json"
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("status") == "known"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    global BUDGET
    if tier == "thorough":
        BUDGET = 6 * 3600.0
    cfg = PROPS[prop]
    prepare()
    pool = ThreadPoolExecutor(8)
    os.makedirs(f"{ROOT}/replays", exist_ok=True)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)

    feat = cfg["features"]
    # native build first (fast), then Kani, Verus and the native evaluation side by side
    # (contracts that name private items sit behind the feature `private`; if a private item has
    # moved, the contracts over public items still decide)
    ok, bout, bt = build_native(feat + (",private" if cfg.get("private") else ""))
    if not ok:
        log("native build with private items failed, retrying with the public interface only\n" + bout[-2500:])
        copy_tree(f"{WORK}/n", lambda t: t)
        ok, bout, bt = build_native(feat)
        cfg["native"] = [c for c in cfg["native"] if c[0] not in cfg.get("private", ())]
    if not ok:
        log("native build failed\n" + bout[-4000:])
        print(f"ERROR property={prop} the contracts do not compile against /repo", flush=True)
        sys.exit(2)
    log(f"native contracts built in {bt}s")
    f_verus = [pool.submit(run_verus, prop, s) for s in cfg.get("verus", [])]
    f_kani = pool.submit(run_kani, prop, dict(cfg["kani"], features=feat), tier) if cfg.get("kani") else None
    scale = 1 if tier == "quick" else 12
    jobs = []
    for c in cfg.get("native", []):
        name, mode, secs = c[0], c[1], c[2]
        maxe = c[3] if len(c) > 3 else None
        n = c[4] if len(c) > 4 else 1
        for i in range(n if mode == "sample" else 1):
            jobs.append((name, mode, secs * scale, seed + 7919 * i, maxe))
    with ThreadPoolExecutor(cfg.get("native_jobs", 5)) as np:
        native = list(np.map(run_contract, jobs))
    verus = [f.result() for f in f_verus]
    kani = f_kani.result() if f_kani else None
    findings = load_findings(prop)

    violations, notes = [], []

    def violation(kind, ident, message, extra, concrete):
        for k in findings:
            if k.get("match") and re.search(k["match"], f"{ident} {message}"):
                print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
                return
        path = f"{ROOT}/replays/{prop}-{len(violations)}.json"
        json.dump({"property": prop, "kind": kind, "obligation": ident, "message": message, **extra,
                   "how_to_replay": (f"{VH} replay {ident} {','.join(map(str, extra.get('trace', [])))}" if concrete else "none: the verifier gave no failing input")},
                  open(path, "w"), indent=1)
        violations.append((path, concrete))
        print(f"VIOLATION property={prop} replay={path}" + ("" if concrete else " no-failing-input-found"), flush=True)

    # 1. native failures: concrete
    for r in native:
        if r.get("error"):
            notes.append(f"native {r['contract']}: {r['error']}")
        if r.get("fail"):
            log("contract violated:", r["contract"], r["fail"]["message"])
            violation("contract evaluated on the real code", r["contract"], r["fail"]["message"], {"trace": r["fail"]["trace"], "mode": r["mode"]}, True)
    # 2. Kani
    nob = ndis = 0
    kani_t = 0.0
    kfuncs = []
    if kani:
        if not kani["compiled"]:
            notes.append("kani: " + kani["reason"] + "\n" + kani["output"][-1500:])
            log("kani inconclusive:", kani["reason"])
        for h, r in sorted(kani["harnesses"].items()):
            if r["status"] == "SUCCESSFUL":
                nob += r["obligations"]; ndis += r["obligations"]; kani_t += r["time"] or 0
                kfuncs.append(h)
                if r.get("cover") and r["cover"][0] < r["cover"][1]:
                    notes.append(f"kani {h}: a precondition cover is unreachable (vacuity)")
                continue
            hard = [f for f in r["failed"] if not any(s in f for s in SOFT)]
            if r["status"] == "FAILED" and hard and not any("__tool__" in f for f in r["failed"]):
                nob += r["obligations"]
                ndis += r["obligations"] - r.get("nfailed", 1)
                log("kani obligation failed:", h, hard[:3])
                cname = h.split("::")[-1]
                vals, kout = kani_counterexample(feat, h)
                rep = replay(cname, vals) if vals is not None else {"result": "none"}
                log("  counterexample", vals, "replayed natively:", rep)
                if rep.get("result") == "fails":
                    violation("Kani counterexample replayed on the real code", cname, rep.get("message", ""), {"trace": vals, "kani": hard}, True)
                elif any(v[1] for v in violations):
                    notes.append(f"kani {h}: {hard[:2]} (a concrete violation is already reported)")
                else:
                    violation("Kani obligation refuted", cname, "; ".join(hard), {"trace": vals or [], "native_replay": rep, "kani_output": kout}, False)
            else:
                notes.append(f"kani {h}: undecided ({'; '.join(r['failed'])[:200] or r['status']}); bounded stand-in decides")
                log("kani undecided:", h, r["failed"][:2])
    # before a failed obligation is reported without an input: search for one with other seeds
    def search_more():
        if any(c for _, c in violations):
            return
        end = time.time() + min(240, left() - 150)
        k = 1
        while time.time() < end and not any(c for _, c in violations):
            more = [(n, m, min(secs, 20), sd + 104729 * k, mx) for n, m, secs, sd, mx in jobs if m == "sample"]
            if not more:
                return
            with ThreadPoolExecutor(7) as np:
                for r in np.map(run_contract, more):
                    native.append(r)
                    if r.get("fail") and not any(c for _, c in violations):
                        log("contract violated (extended search):", r["contract"], r["fail"]["message"])
                        violation("contract evaluated on the real code", r["contract"], r["fail"]["message"], {"trace": r["fail"]["trace"], "mode": r["mode"]}, True)
            k += 1

    # 3. Verus
    vt = 0.0
    vfuncs = []
    for v in verus:
        vt += v.get("wall_s", 0)
        if v["status"] == "verified":
            nob += v["verified"]; ndis += v["verified"]; vfuncs += v["functions"]
            log(f"verus {v['template']}: {v['verified']} obligations discharged")
        elif v["status"] == "failed":
            nob += v["verified"] + v["errors"]; ndis += v["verified"]
            log(f"verus {v['template']}: FAILED {v['reason']}")
            search_more()
            if not any(c for _, c in violations):
                violation("Verus obligation refuted on the extracted source", v["template"], v["reason"], {"verus_output": v["output"], "functions": v["functions"]}, False)
            else:
                notes.append("verus: " + v["reason"])
        else:
            notes.append(f"verus {v['template']}: undecided, {v['reason']}; bounded stand-in decides")
            log(f"verus {v['template']} undecided: {v['reason']}\n{v['output'][-1500:]}")

    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "wall_s": round(time.time() - T0, 1),
          "violations": len(violations),
          "assumptions": cfg.get("assumptions", []) + COMMON,
          "coverage": {
              "obligations": nob, "discharged": ndis,
              "checker_cmd": f"./check {prop} {tier}",
              "trusted_base": cfg.get("trusted", []) + TRUSTED,
              "functions_under_contract": sorted(set(cfg.get("functions", []) + vfuncs)),
              "proved_by_verus": [{"template": v["template"], "status": v["status"], "obligations": v["verified"], "functions": v["functions"], "solver": "z3 (Verus)", "wall_s": v.get("wall_s")} for v in verus],
              "proved_by_kani": {h: {"status": r["status"], "obligations": r["obligations"], "solver_s": r["time"]} for h, r in sorted(kani["harnesses"].items())} if kani else {},
              "solver_time_s": round(kani_t + vt, 1),
              "bounded_stand_ins": [{k: r.get(k) for k in ("contract", "mode", "evaluations", "met", "complete", "wall_s")} for r in native],
              "evaluations": sum(r["evaluations"] for r in native),
              "distinct_nontrivial": sum(r["met"] for r in native if r["mode"] == "exhaustive") if native else 0,
              "rule": "bounded stand-ins: every choice sequence of the contract's input generator in depth-first order (exhaustive), or seeded samples; non-trivial = precondition met; only the exhaustive ones, which never repeat a sequence, are counted as distinct",
              "samples": [{"contract": r["contract"], "choices": s} for r in native for s in r.get("samples", [])[:1]][:12],
              "notes": notes,
              "bound": cfg.get("bound", ""),
          }}
    json.dump(ev, open(f"{ROOT}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop}: {ndis}/{nob} obligations, {ev['coverage']['evaluations']} native evaluations, {len(violations)} violations")
    for n in notes:
        log("note:", n[:600])
    if violations:
        sys.exit(1)
    # vacuity: a run that decided nothing is an error, not a pass
    if nob == 0 and ev["coverage"]["evaluations"] == 0:
        print(f"ERROR property={prop} nothing was checked", flush=True)
        sys.exit(2)
    sys.exit(0)


TRUSTED = ["rustc and its code generation", "Kani 0.68 / CBMC 6.11 with its SAT back end (where harnesses are listed)", "Verus / z3 (where templates are listed)",
           "the extractor lib/vextract.py and the visibility widening in lib/runner.py", "the harness generators and oracles under harness/src"]
COMMON = ["Under Kani the dependency ibig is replaced by its contract (exact integer arithmetic, checked 128-bit stand-in in stubs/ibig); native evaluation uses the real ibig.",
          "Under Kani and Verus the portable variants of functions with inline assembly are verified; the assembly variants are only evaluated natively."]

if __name__ == "__main__":
    main()
