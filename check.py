#!/usr/bin/env python3
"""Decide one property: python3 check.py <property id> [quick|thorough]

Proves the contract harnesses of the property (kani/src, see props.py) over /repo's current source.

exit 0  every obligation discharged (no VIOLATION line)
exit 1  some obligation failed:      VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  no verdict (the code does not build, a contract lost its anchor, the verifier gave up)
"""
import fcntl, json, os, re, shutil, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import engine  # noqa: E402
from engine import KANI, TARGET, RUN  # noqa: E402
from props import PROPS, TRUSTED  # noqa: E402

EVID = os.path.join(VERIF, "evidence")
BUDGET = {"quick": 800, "thorough": 6 * 3600}


def counterexample(name, res, left):
    """Concrete values of the harness's inputs, in drawing order, that make an obligation fail."""
    log = ""
    for feat in (("cex",), ()):
        if left() < 60:
            break
        # with preferences for replayable inputs first
        found, clog, rc = engine.codegen([name], min(200, left()), feat)
        h = found.get(name)
        if not h:
            log += clog[-1000:]
            continue
        goto, clog = engine.link(h, 100)
        if not goto:
            log += clog[-1000:]
            continue
        descs = {c[1] for c in res["failed"]}
        if res.get("terms"):
            want = [c for c in res["failed"] if c[1] in res["terms"]]
            vals = engine.terms_model(h, goto, res["flags"], want[0][0], min(100, left())) if want else None
            if vals is not None:
                return vals, log + "z3 model of the negation of: %s\n" % want[0][1]
        cmd = [c for c in engine.cbmc_cmd(h, goto, res["flags"]) if c != "--slice-formula"]
        want = [x for p, d in engine.properties(cmd, 100) if d in descs and ".cover." not in p
                for x in ("--property", p)]
        if not want:
            log += "no matching obligation\n"
            continue
        tr, _ = RUN.run(cmd + want + ["--stop-on-fail", "--compact-trace"], max(30, min(240, left() - 60)))
        if "VERIFICATION FAILED" not in tr:
            log += "no counterexample with%s preferences\n" % ("" if feat else "out")
            continue
        vals = []
        for vm in re.finditer(r"goto_symex\$\$return_value\$\$\S*any_raw_internal\S*=\S* \(([01 ]+)\)", tr):
            bits = vm[1].replace(" ", "")
            n = int(bits, 2)
            vals.append([str(n >> (8 * i) & 255) for i in range(max(1, len(bits) // 8))])
        i = tr.find("Violated property")
        return vals, log + (tr[i:i + 600] if i >= 0 else "")
    return None, log


def replay_native(name, vals, left):
    """Run the harness, unstubbed, on the counterexample: real carron code only.
    -> reproduced?, log"""
    d = os.path.join(TARGET, "replay")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "replay"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n'
                'carron-contracts = { path = "%s" }\n[workspace]\n[profile.dev]\n'
                'overflow-checks = false\n' % KANI)
    shutil.copy(os.path.join(KANI, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write('fn main() {\n    let a = std::env::args().nth(1).unwrap();\n'
                '    carron_contracts::start(&std::fs::read_to_string(a).unwrap());\n'
                '    carron_contracts::%s();\n    println!("REPLAY-HELD");\n}\n' % name)
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e.update(RUSTFLAGS="--cfg carron_verif", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=os.path.join(d, "target"))
    out, rc = RUN.run(["cargo", "build", "--offline", "-q"], max(60, min(240, left())), cwd=d, environ=e)
    if rc != 0:
        return False, "replay build failed:\n" + out[-2000:]
    path = os.path.join(d, "values.txt")
    with open(path, "w") as f:
        f.write("\n".join(" ".join(v) for v in vals) + "\n")
    out, rc = RUN.run([os.path.join(d, "target", "debug", "replay"), path], 60, cwd=d, environ=e)
    return rc == 101, out[-3000:] + "\n[exit %s]\n" % rc


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    engine.FFI = bool(prop.get("ffi"))
    t0 = time.time()
    left = lambda: BUDGET[tier] - (time.time() - t0)  # noqa: E731
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    problems, results, replaced = [], {}, []

    groups = list(prop["groups"])
    if tier == "thorough":
        groups += prop.get("thorough", [])
    patterns = sorted({p for g in groups for p in g["harness"]})
    found, log, rc = engine.codegen(patterns, min(400, left()))
    if rc != 0 or not found:
        print("\n".join([l for l in log.splitlines() if l.strip()][-60:]))
        problems.append("the code under contract does not compile for the verifier (exit %s)" % rc)
    for g in groups if not problems else []:
        mine = {n: h for n, h in found.items()
                if any(p in n for p in g["harness"]) and n not in results}
        for p in g["harness"]:
            if not any(p in n for n in found):
                problems.append("contract %s not found" % p)
        got = engine.prove_all(mine, g.get("flags", []), g.get("timeout", 700), g.get("jobs", 8),
                               t0 + BUDGET[tier], g.get("solver"), g.get("terms"))
        for n, r in got.items():
            r["bounded"] = g.get("bounded")
            r["optional"] = g.get("optional", False)
            results[n] = r
        # an undecided contract may have an equivalent statement, and at last a bounded stand-in
        for other, bound in g.get("instead", []):
            open_ = {other + n.split("::")[-1]: n for n, r in got.items()
                     if r["verdict"] in ("UNDECIDED", "NONE") and "replaced" not in r}
            if not open_ or left() < 60:
                continue
            more, log, rc = engine.codegen(sorted(open_), min(200, left()))
            more = {n: h for n, h in more.items() if n in open_}
            again = engine.prove_all(more, g.get("flags", []), 250, 8, t0 + BUDGET[tier], None,
                                     None if bound else g.get("terms"))
            for n, r in again.items():
                if r["verdict"] in ("SUCCESSFUL", "FAILED"):
                    r["bounded"], r["optional"] = bound, False
                    results[n] = r
                    results.pop(open_[n])
                    got[open_[n]]["replaced"] = n
                    replaced.append("%s: undecided (%s), %s %s instead" % (
                        open_[n], got[open_[n]]["log"][:60].split("\n")[0], "bounded check" if bound else "contract", n))

    lemmas = {}
    for f in prop.get("verus", []):
        out, rc = engine.RUN.run(["verus", os.path.join(VERIF, "verus", f)], min(200, left()), cwd=TARGET)
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
        lemmas[f] = {"verified": int(m[1]) if m else 0, "back_end": "Verus / z3"}
        if not m or m[2] != "0" or rc != 0:
            problems.append("lemmas of verus/%s: %s" % (f, out[-300:]))

    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) contract=(\S+) obligation=\"([^\"]*)\" (.*)", l)
            if m and m[1] == pid:
                known.append((m[2], m[3], m[4].strip()))

    violations, known_hit, alternatives = [], [], {}
    for n, r in sorted(results.items()):
        rest = []
        for c in r["failed"]:
            k = [x for x in known if x[0] == n and x[1] == c[1]]
            if k:
                known_hit.append(k[0][2])
            else:
                rest.append(c)
        unreached = [c for c in r["covers"] if c[3] != "FAILURE"]
        if rest:
            violations.append((n, r, rest))
        elif r["verdict"] in ("NONE", "UNDECIDED"):
            why = "; ".join(sorted({c[1] for c in r["undecided"]})) or (r["log"].splitlines() or [""])[0][:200]
            if r["optional"]:
                r["why"] = why
            else:
                problems.append("%s: %s" % (n, why))
        elif r["verdict"] == "SUCCESSFUL" and unreached and r["optional"]:
            r["why"] = "not reachable: " + "; ".join(c[1] for c in unreached)
        elif r["verdict"] == "SUCCESSFUL" and unreached:
            problems.append("%s: vacuous, not reachable: %s" % (n, "; ".join(c[1] for c in unreached)))
        elif r["verdict"] == "SUCCESSFUL" and not r["covers"]:
            problems.append("%s: no reachability guard" % n)

    proved = {n: r for n, r in results.items() if not r["bounded"]}
    bounded = {n: r for n, r in results.items() if r["bounded"]}
    total = sum(len(r["checks"]) for r in proved.values())
    done = sum(1 for r in proved.values() for c in r["checks"] if c[3] == "SUCCESS")
    total += sum(l["verified"] for l in lemmas.values())
    done += sum(l["verified"] for l in lemmas.values())
    sent = " ".join(engine.DRIVER + (["-Z", "c-ffi"] if engine.FFI else []) + ["--only-codegen"] + [x for p in patterns for x in ("--harness", p)])
    cbmcs = sorted({" ".join(["cbmc"] + engine.CBMC + r["flags"]) for r in results.values()})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": done,
            "checker_cmd": sent + " && (per contract) " + " | ".join(cbmcs),
            "trusted_base": TRUSTED + prop.get("assumptions", []),
            "functions_under_contract": prop["functions"],
            "contracts": {n: {"verdict": r["verdict"], "obligations": len(r["checks"]),
                              "failed": len(r["failed"]), "undecided": len(r["undecided"]),
                              "reachability_guards": len(r["covers"]), "seconds": r["time"],
                              "back_end": "CBMC / %s" % r["solver"]}
                          for n, r in sorted(proved.items())},
            "lemmas": lemmas,
            "bounded_not_counted": {n: {"bound": r["bounded"], "verdict": r["verdict"],
                                        "checks": len(r["checks"]), "seconds": r["time"]}
                                    for n, r in sorted(bounded.items())},
            "solver_seconds": round(sum(r["time"] for r in results.values()), 1),
            "replaced": replaced,
            "problems": problems,
        },
        "assumptions": TRUSTED + prop.get("assumptions", []),
        "violations": len(violations),
    }

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 1)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        sys.exit(code)

    for what in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violations:
        path = os.path.join(EVID, "%s.replay.txt" % pid)
        rep, confirmed = [], False
        for n, r, fails in violations:
            rep.append("contract %s: %d obligation(s) failed" % (n, len(fails)))
            rep += ["  FAILED  %s   [%s, %s]" % (c[1], c[2], c[0]) for c in fails]
        for n, r, fails in violations[:3]:
            if left() < 120:
                break
            vals, out = counterexample(n, r, left)
            rep.append("\n--- counterexample for %s: %s" % (n, "found" if vals is not None else "none"))
            rep.append(out[-1500:])
            if vals is None or left() < 60:
                continue
            rep.append("inputs in the order drawn (little-endian bytes):")
            rep += ["  " + " ".join(v) for v in vals]
            confirmed, log = replay_native(n, vals, left)
            rep.append(("reproduced on the real code:\n" if confirmed else "not reproduced natively:\n") + log)
            if confirmed:
                break
            if "REPLAY-NOT-SUPPORTED" in log:
                break
        rep.append("\n--- verifier output")
        for n, r, fails in violations[:3]:
            rep.append("contract " + n)
            rep += [l for l in r["log"].splitlines() if "FAILURE" in l and ".cover." not in l][:100]
        with open(path, "w") as f:
            f.write("\n".join(rep) + "\n")
        for n, r, fails in violations:
            print("%s: %s" % (n, "; ".join(sorted({c[1] for c in fails})[:4])))
        print("VIOLATION property=%s replay=%s%s" % (
            pid, path, "" if confirmed else " no-failing-input-found"))
        finish(1)
    if problems:
        print("NO VERDICT: " + " | ".join(problems)[:1500])
        finish(2)
    print("property %s: %d contracts, %d of %d obligations discharged%s (%.0f s)" % (
        pid, len(proved), done, total,
        ", %d bounded checks" % len(bounded) if bounded else "", time.time() - t0))
    finish(0)


if __name__ == "__main__":
    main()
