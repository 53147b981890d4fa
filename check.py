#!/usr/bin/env python3
"""Decides one property of mdarray: python3 check.py <ID> [quick|thorough]

Runs the contract harnesses of the property with Kani on the crate in /repo (rebuilt from its
working tree), and, where the property has one, the Verus layer on functions extracted from
/repo's sources. Exit 0: every obligation discharged. Exit 1 and a VIOLATION line: an obligation
failed. Exit 2: no answer (the contracts could not be built against this tree).
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent
KANI = ROOT / "kani"
EVID = ROOT / "evidence"
REPLAY = ROOT / "replays"
TARGET = KANI / "target"
JOBS = os.cpu_count() or 8
UNWIND = "56"  # where a loop needs more than the bound of its harness

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTUP_TOOLCHAIN", None)
NATIVE_ENV = dict(ENV, RUSTUP_TOOLCHAIN="stable")


def sh(cmd, timeout=None, env=ENV, cwd=KANI):
    """Runs a command in its own process group, so that a timeout ends the solvers too."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def features(pid, tier):
    return ["--features", pid.lower() + (" thorough" if tier == "thorough" else "")]


def kani_cmd(extra, pid, tier):
    return ["cargo", "kani", "--target-dir", str(TARGET), "--no-assertion-reach-checks",
            "-Z", "unstable-options", "-Z", "stubbing"] + features(pid, tier) + extra


def touch_repo_fingerprint():
    """Cargo decides by mtime: forget the crate's fingerprint so that the current text is built."""
    for base in (TARGET / "kani", TARGET / "debug"):
        if base.is_dir():
            for p in base.rglob(".fingerprint/mdarray-*"):
                shutil.rmtree(p, ignore_errors=True)
            for p in base.rglob("build/mdarray"):
                shutil.rmtree(p, ignore_errors=True)


def build_native(pid, tier):
    rc, out = sh(["cargo", "build", "--offline", "--target-dir", str(TARGET)] + features(pid, tier), 600, NATIVE_ENV)
    return rc == 0, out


def classify(check):
    """'bad' for a failed obligation, otherwise the tool limit that left it undecided."""
    d, c = check["description"].lower(), check.get("category", "")
    if "unwind" in c or "unwinding assertion" in d:
        return "unwind"
    if "unsupported" in c or "not currently supported" in d or "unsupported" in d:
        return "unsupported"
    return "bad"


def run_kani(pid, tier, extra, timeout, name):
    """Runs harnesses; returns ({harness: result}, solver seconds, VCCs, log)."""
    exp = REPLAY / f"{pid}.{name}.json"
    exp.unlink(missing_ok=True)
    cmd = kani_cmd(extra + ["-j", str(JOBS), "--output-format", "terse", "--export-json", str(exp)], pid, tier)
    rc, log = sh(cmd, timeout)
    results, solver_s, vccs = {}, 0.0, 0
    if exp.exists():
        data = json.loads(exp.read_text())
        for r in data["verification_results"]["results"]:
            results[r["harness_id"]] = r
        for c in data.get("cbmc", []):
            st = c.get("cbmc_stats") or {}
            solver_s += st.get("runtime_decision_procedure_s") or 0
            vccs += st.get("vccs_generated") or 0
        exp.unlink()
    else:
        # interrupted: recover the verdicts printed so far
        cur, last = {}, None
        for l in log.split("\n"):
            m = re.match(r"Thread (\d+): Checking harness (\S+)\.\.\.", l)
            if m:
                cur[m[1]] = m[2]
                continue
            m = re.match(r"Thread (\d+):", l)
            if m:
                last = m[1]
            if "VERIFICATION:- SUCCESSFUL" in l and cur.get(last):
                results[cur[last]] = {"status": "Success", "checks": [], "recovered": True}
    return results, solver_s, vccs, log, cmd


def verdict(h, r):
    """('ok' | 'vacuous' | 'failing' | 'undecided', failed checks or reason)"""
    if r is None:
        return "undecided", "no verdict (time limit)"
    status = r["status"].lower()
    checks = r["checks"]
    bad = [c for c in checks if c["status"].lower() in ("failure", "failed")]
    if h.endswith("_panics") or h.endswith("_partial"):
        panicked = [c for c in bad if c.get("category") == "assertion" and classify(c) == "bad"]
        bad = [c for c in bad if c not in panicked]
        if not bad and checks and (panicked or h.endswith("_partial")):
            over = any("with overflow" in c["description"] for c in panicked)
            return "ok", "overflow" if over else None
    if status == "success":
        cov = [c for c in checks if c.get("category") == "cover"]
        if h.endswith("_panics") or h.endswith("_partial") or not cov or any(c["status"].lower() == "satisfied" for c in cov):
            return "ok", None
        return "vacuous", None
    real = [c for c in bad if classify(c) == "bad"]
    if real:
        return "failing", real
    if bad:
        return "undecided", "/".join(sorted({classify(c) for c in bad}))
    if not checks:
        return "undecided", "time limit, out of memory or solver error"
    return "failing", []


def playback(harness, pid, tier, timeout, extra=()):
    """The verifier's counterexamples for a failed harness, one list of byte vectors each."""
    rc, out = sh(kani_cmd(["--harness", harness, "--exact", "-Z", "concrete-playback",
                           "--concrete-playback=print", "--output-format", "regular", *extra], pid, tier), timeout)
    tests = []
    for m in re.finditer(r"/// Check for `([^`]*)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                         out, re.S):
        if m.group(1) == "cover":
            continue
        vals = [[int(x) for x in re.findall(r"\d+", v)] for v in re.findall(r"^\s*vec!\[(.*?)\],?$", m.group(3), re.M)]
        tests.append((m.group(1) + ": " + m.group(2).strip(), vals))
    return tests, out


CRASHED = (101, 134, 139)


def replay_native(harness, vals, tag):
    f = REPLAY / f"{tag}.vals"
    f.write_text("".join(" ".join(map(str, v)) + "\n" for v in vals))
    rc, out = sh([str(TARGET / "debug" / "replay"), "run", harness, str(f)], 60, NATIVE_ENV)
    # 10: obligation failed; None: does not end; negative or CRASHED: crashed in the real code; 20: rejected
    return rc is None or rc == 10 or rc < 0 or rc in CRASHED, rc, out


def replay_miri(harness, tag, pid, tier, timeout):
    """Replays the values under Miri, which reports undefined behaviour in the real code."""
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance")
    rc, out = sh(["cargo", "miri", "run", "--offline", "--target-dir", str(TARGET / "miri")] + features(pid, tier) +
                 ["--bin", "replay", "--", "run", harness, str(REPLAY / f"{tag}.vals")], timeout, env)
    return rc == 10 or "Undefined Behavior" in out, rc, out[-5000:]


def search_native(harness, seed, secs):
    rc, out = sh([str(TARGET / "debug" / "replay"), "search", harness, str(seed), str(secs)], secs + 60, NATIVE_ENV)
    return rc is None or rc == 10 or rc < 0 or rc in CRASHED, rc, out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    EVID.mkdir(exist_ok=True)
    REPLAY.mkdir(exist_ok=True)
    meta = json.loads((ROOT / "meta.json").read_text())[pid]
    mod = pid.lower()
    if meta.get("release"):
        # Only what a release build checks counts.
        for env in (ENV, NATIVE_ENV):
            env.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false")
    budget = 560 if tier == "quick" else 6 * 3600
    hto = 240 if tier == "quick" else 3 * 3600
    left = lambda: (850 if tier == "quick" else 24 * 3600) - (time.time() - t0)

    touch_repo_fingerprint()
    ok, out = build_native(pid, tier)
    if not ok:
        print(out[-4000:])
        print(f"ERROR property={pid}: the contracts do not compile against this tree")
        return 2
    rc, out = sh([str(TARGET / "debug" / "replay"), "list"], 60, NATIVE_ENV)
    want = [l.split()[0] for l in out.split("\n") if l.startswith(mod + "::")]

    results, solver_s, vccs, log, cmd = run_kani(
        pid, tier, ["--harness", mod + "::", "--harness-timeout", f"{hto}s"], budget, "kani")
    (REPLAY / f"{pid}.kani.log").write_text(log)
    if not results and "error: could not compile" in log:
        print(log[-4000:])
        print(f"ERROR property={pid}: the contracts do not compile against this tree")
        return 2

    # The unwinding bounds fit the current loops: raise them where a loop now needs more.
    again = [h for h in want if verdict(h, results.get(h)) == ("undecided", "unwind")]
    if again and left() > 300:
        extra = [x for h in again for x in ("--harness", h)] + ["--exact", "--unwind", UNWIND, "--harness-timeout", "100s"]
        more, s2, v2, log2, _ = run_kani(pid, tier, extra, left() - 200, "again")
        results.update(more); solver_s += s2; vccs += v2

    obligations = discharged = b_obl = b_dis = 0
    failing, undecided, vacuous, overflows = [], [], [], []
    for h in want:
        r = results.get(h)
        v, detail = verdict(h, r)
        n = max(1, len(r["checks"])) if r else 1
        n_ok = n if v == "ok" else sum(c["status"].lower() in ("success", "satisfied", "unreachable")
                                       for c in (r["checks"] if r else []))
        if h.split("::")[1].startswith("b_"):
            b_obl += n; b_dis += n_ok
        else:
            obligations += n; discharged += n_ok
        if v == "ok" and detail == "overflow" and meta.get("release"):
            # Kani always checks for overflow: what a release build does instead is run natively.
            overflows.append((h, "panics by arithmetic overflow in the verified build"))
        if v == "failing":
            failing.append((h, detail))
        elif v == "undecided":
            undecided.append((h, detail))
        elif v == "vacuous":
            vacuous.append(h)

    # Failed obligations: replay the verifier's counterexample on the real code.
    violations = []
    for i, (h, bad) in enumerate(failing[:8]):
        tag = f"{pid}.{i}"
        tests, plog = ([], "")
        if i < 3 and left() > 150 and not any(v[2] for v in violations):
            tests, plog = playback(h, pid, tier, min(left() - 100, 300), ["--unwind", UNWIND] if h in again else [])
        lines = [f"property: {pid}", f"harness (contract): {h}", "failed obligations:"]
        for c in bad[:12]:
            loc = c.get("location") or {}
            lines.append(f"  - {c['description']} [{c.get('category')}] at {loc.get('file')}:{loc.get('line')} in {c.get('function')}")
        reproduced = None
        for k, (what, vals) in enumerate(tests[:6]):
            failed, rrc, rout = replay_native(h, vals, f"{tag}.{k}")
            lines += [f"counterexample {k} for {what}", rout.strip(), f"(replay exit code {rrc})"]
            if failed:
                reproduced = k
                break
        if reproduced is None:
            failed, rrc, rout = search_native(h, seed, 8)
            if failed:
                lines += ["failing input found natively:", rout.strip(), f"(exit code {rrc})"]
                reproduced = "search"
        memory = any(c.get("category") != "assertion" for c in bad)
        if reproduced is None and memory and tests and left() > 120:
            failed, rrc, rout = replay_miri(h, f"{tag}.0", pid, tier, left() - 60)
            lines += ["counterexample 0 under Miri:", rout.strip(), f"(exit code {rrc})"]
            if failed:
                reproduced = "miri"
        if reproduced is None:
            lines.append("no failing input found: the verifier's counterexample does not fail when run")
        lines += ["", "verifier output:", plog[-6000:] if plog else log[-3000:]]
        path = REPLAY / f"{tag}.txt"
        path.write_text("\n".join(lines) + "\n")
        violations.append((h, path, reproduced is not None))

    # Undecided obligations (tool limits): a native search stands in, reported as undecided.
    stood_in, overflowing = [], []
    secs = max(2, min(10, int(left() / 2 / max(1, len(undecided + overflows) / JOBS))))
    with ThreadPoolExecutor(JOBS) as pool:
        found = list(pool.map(lambda u: search_native(u[0], seed, secs), undecided + overflows))
    for (h, why), (failed, rrc, rout) in zip(undecided + overflows, found):
        if failed:
            path = REPLAY / f"{pid}.u.{h.replace('::', '.')}.txt"
            path.write_text(f"property: {pid}\nharness (contract): {h}\nverifier: {why}\nfailing input found natively:\n{rout}\n")
            violations.append((h, path, True))
        elif (h, why) in overflows:
            overflowing.append(f"{h}: native search without overflow checks: {rout.strip()[-80:]}")
        else:
            stood_in.append(f"{h}: {why}; native search: {rout.strip()[-80:]}")

    verus = None
    if meta.get("verus"):
        sys.path.insert(0, str(ROOT / "verus"))
        import vlayer
        verus = vlayer.run(pid, meta["verus"], tier, REPLAY)
        obligations += verus["obligations"]; discharged += verus["discharged"]
        for f in verus["failed"]:
            violations.append((f["name"], Path(f["path"]), False))

    coverage = {
        "obligations": obligations,
        "discharged": discharged,
        "bounded_obligations_not_counted_as_proved": b_obl,
        "bounded_discharged": b_dis,
        "harnesses_complete": [h for h in want if not h.split("::")[1].startswith("b_")],
        "harnesses_bounded": [h for h in want if h.split("::")[1].startswith("b_")],
        "functions_under_contract": meta["functions"],
        "bounds": meta.get("bounds", ""),
        "vccs_generated": vccs,
        "solver_time_s": round(solver_s, 2),
        "back_end": "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL" + ("; Verus / Z3" if meta.get("verus") else ""),
        "checker_cmd": " ".join(cmd),
        "trusted_base": meta.get("trusted", []) + TRUSTED,
        "undecided": stood_in,
        "panics_by_overflow_in_the_verified_build": overflowing,
        "vacuous": vacuous,
    }
    if verus:
        coverage["verus"] = {k: v for k, v in verus.items() if k not in ("failed",)}
    if meta["level"] == "other":
        coverage["explanation"] = meta.get("explanation", meta["functions"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": coverage,
          "assumptions": meta.get("assumptions", []) + ASSUMPTIONS +
          ["release build: debug assertions are off" if meta.get("release") else
           "debug build: overflow checks and debug assertions are on"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")

    if any(v[2] for v in violations):
        violations = [v for v in violations if v[2]]
    for h, path, concrete in violations:
        print(f"failed contract: {h}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if concrete else " no-failing-input-found"))
    if violations:
        return 1
    if vacuous or not want or not results:
        print(f"ERROR property={pid}: vacuous={vacuous} undecided={undecided[:5]} harnesses={len(want)}")
        return 2
    print(f"OK property={pid} harnesses={len(want)} obligations={obligations} discharged={discharged} "
          f"bounded={b_obl}/{b_dis} undecided={undecided} wall={ev['wall_s']}s")
    return 0


TRUSTED = ["rustc, Kani 0.68.0 code generation, CBMC 6.11.0 and CaDiCaL",
           "Rust standard library (verified as executed by Kani, not against its own contracts)",
           "the specification functions in kani/src/model.rs"]
ASSUMPTIONS = ["panic = abort semantics in Kani: unwinding paths are not explored",
               "feature \"nightly\" is off (stable build)",
               "allocation never fails"]

if __name__ == "__main__":
    sys.exit(main())
