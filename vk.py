#!/usr/bin/env python3
"""Driver of the checks: proves the contracts of one property with Kani.

usage: vk.py <property-id>            (tier from VERIF_TIER, default quick)
       vk.py --list

Every harness in /verif/kani/src is announced by a line
  //@ <PROP> <quick|thorough> <complete|bounded> | functions under contract | quantifier [| harness name]
directly in front of the harness function (or carrying the harness name, for
macro-generated harnesses).  The driver compiles /repo's *current* working tree
together with the harness crate, discharges every obligation, and

  exit 0  every obligation of every harness of the property is discharged
  exit 1  an obligation fails: prints VIOLATION property=<id> replay=<path>
          (the counterexample is replayed natively against the real code; when
          that does not fail the line ends with no-failing-input-found)
  exit 2  undecided (time-out, unsupported construct, build error, vacuity ...)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "kani")
REPO = "/repo"
T0 = time.time()
BUDGET = 860.0


def left():
    return BUDGET - (time.time() - T0)


def harnesses():
    res = []
    src = os.path.join(CRATE, "src")
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs"):
            continue
        lines = open(os.path.join(src, f)).read().split("\n")
        for i, l in enumerate(lines):
            m = re.match(r"\s*//@ (\w+) (quick|thorough) (complete|bounded|finding) \|(.*)$", l)
            if not m:
                continue
            parts = [p.strip() for p in m.group(4).split("|")]
            if len(parts) >= 3:
                name = parts[2]
            else:
                name = None
                for j in range(i + 1, min(i + 15, len(lines))):
                    k = re.match(r"\s*(pub )?fn (\w+)\(", lines[j])
                    if k:
                        name = k.group(2)
                        break
                assert name, (f, i, l)
            # attributes/text of the harness, for the assumption listing
            res.append(dict(prop=m.group(1), tier=m.group(2), cls=m.group(3), fns=parts[0],
                            over=parts[1], name=f[:-3] + "::" + name, file=f))
    return res


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, cwd, timeout, log):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            return p.wait(timeout=max(timeout, 1))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            return None


KANI = ["cargo", "kani", "-Z", "unstable-options", "-Z", "stubbing", "-Z", "function-contracts",
        "-Z", "mem-predicates", "--no-assertion-reach-checks"]


def verify(work, names, tmo, jobs, extra=(), tag="run"):
    out = os.path.join(work, tag + ".json")
    log = os.path.join(work, tag + ".log")
    cmd = KANI + ["--target-dir", os.path.join(work, "target"), "-j", str(jobs),
                  "--output-format", "terse", "--export-json", out,
                  "--harness-timeout", "%ds" % int(tmo), "--exact"]
    for n in names:
        cmd += ["--harness", n]
    cmd += list(extra)
    rc = run(cmd, os.path.join(work, "crate"), left(), log)
    text = open(log, errors="replace").read()
    if not os.path.exists(out):
        return None, text
    return json.load(open(out)), text


def classify(doc):
    """harness -> dict(status, failing, counts, stats)"""
    res = {}
    det = {d["harness_id"]: d["property_details"] for d in doc.get("property_details", [])}
    cb = {d["harness_id"]: d for d in doc.get("cbmc", [])}
    for r in doc["verification_results"]["results"]:
        h = r["harness_id"]
        checks = r.get("checks") or []
        failing = [c for c in checks if c.get("status", "").lower() in ("failure", "failed")]
        unw = [c for c in failing if "unwind" in (c.get("category") or "") or "unwinding" in c.get("description", "")]
        unsup = [c for c in failing if c.get("category") == "unsupported_construct"]
        tape = [c for c in failing if c.get("description", "").startswith("tape: ")]
        real = [c for c in failing if c not in unw and c not in unsup and c not in tape
                and c.get("category") not in ("cover",)]
        if tape and r["status"] != "Success":
            # the code steps outside what the contract stubs describe: nothing it
            # computes after that means anything
            real = []
        stats = (cb.get(h) or {}).get("cbmc_stats")
        covers = [c for c in checks if c.get("category") == "cover" or "cover" in c.get("status", "").lower()
                  or c.get("status", "").lower() in ("satisfied", "unsatisfiable")]
        uncovered = [c for c in covers if c.get("status", "").lower() not in ("satisfied", "success")]
        if r["status"] == "Success":
            st = "ok" if checks else "error"
        elif real:
            st = "fail"
        elif unw:
            st = "unwind"
        elif unsup or tape:
            st = "unsupported"
        else:
            st = "timeout"
        res[h] = dict(status=st, failing=real or unw or unsup or tape, det=det.get(h) or {}, stats=stats or {},
                      checks=checks, covers=len(covers), uncovered=uncovered,
                      duration=r.get("duration_ms", 0) / 1000.0)
    return res


def make_work():
    base = os.path.join(HERE, ".work")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w", dir=base)
    shutil.copytree(CRATE, os.path.join(work, "crate"), ignore=shutil.ignore_patterns("target"))
    return work


def replay(work, prop, h, res, text, outdir):
    """Ask Kani for concrete values, then run the harness natively on them."""
    name = h["name"]
    short = name.split("::")[-1]
    path = os.path.join(outdir, "%s-%s.txt" % (prop, short))
    head = ["property:   " + prop, "harness:    " + name, "functions:  " + h["fns"],
            "quantifier: " + h["over"], "class:      " + h["cls"], "", "failed obligations:"]
    for c in res["failing"]:
        loc = c.get("location") or {}
        head.append("  - %s  [%s]  in %s  at %s:%s" % (c.get("description"), c.get("category"), c.get("function"),
                                                     loc.get("file"), loc.get("line")))
    confirmed = False
    body = ""
    if left() > 60:
        log = os.path.join(work, "pb-%s.log" % short)
        cmd = KANI + ["-Z", "concrete-playback", "--concrete-playback", "print", "--target-dir",
                      os.path.join(work, "target"), "--output-format", "regular",
                      "--exact", "--harness", name]
        run(cmd, os.path.join(work, "crate"), min(left() - 45, 400), log)
        t = open(log, errors="replace").read()
        tests = re.findall(r"```\n(.*?)```", t, re.S)
        tests = [x for x in tests if "#[test]" in x]
        asserts = [x for x in tests if not re.search(r"///.*cover", x)] or tests
        if asserts and left() > 40:
            fname = []
            code = "\n#[cfg(test)]\nmod playback_%s {\n    use super::*;\n" % short
            for i, x in enumerate(asserts[:6]):
                m = re.search(r"fn (\w+)\(\)", x)
                nn = "pb_%s_%d" % (short, i)
                x = x.replace("fn %s()" % m.group(1), "fn %s()" % nn, 1)
                x = "\n".join(y for y in x.split("\n") if not y.strip().startswith("///"))
                code += x + "\n"
                fname.append(nn)
            code += "}\n"
            f = os.path.join(work, "crate", "src", h["file"])
            orig = open(f).read()
            open(f, "w").write(orig + code)
            log2 = os.path.join(work, "pbrun-%s.log" % short)
            cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback", "--", "pb_%s_" % short]
            e = run(cmd, os.path.join(work, "crate"), left() - 15, log2)
            open(f, "w").write(orig)
            t2 = open(log2, errors="replace").read()
            bad = re.findall(r"panicked at .*?\n(.*)", t2)
            bad = [b for b in bad if "kani::assume" not in b and "det_vals" not in b]
            crashed = re.search(r"signal: \d+|SIGSEGV|SIGABRT", t2)
            if ("test result: FAILED" in t2 and bad) or crashed:
                confirmed = True
            body = ("\n\ncounterexample (concrete values chosen by the verifier), as a test calling the real code:\n"
                    + code + "\n\nnative run of the counterexample (`cargo kani playback`):\n" + t2[-6000:])
        else:
            body = "\n\nno concrete values available; verifier output:\n" + t[-6000:]
    else:
        body = "\n\nno time left for a concrete playback; verifier output:\n" + text[-6000:]
    os.makedirs(outdir, exist_ok=True)
    open(path, "w").write("\n".join(head) + "\n\nreplayed against the real code: "
                          + ("yes, it fails" if confirmed else "no failing input found") + body + "\n")
    return path, confirmed


TRUSTED = [
    "Kani 0.68.0 (rustc nightly MIR -> goto translation, its models of intrinsics and allocation)",
    "CBMC 6.11.0 symbolic execution and bit-blasting; SAT back end named per harness",
    "Kani runs single-threaded; panics are failed obligations; memory model of CBMC (allocation never fails)",
]


def main():
    if sys.argv[1:] == ["--list"]:
        for h in harnesses():
            print(h["prop"], h["tier"], h["cls"], h["name"], "|", h["fns"], "|", h["over"])
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = [h for h in harnesses() if h["prop"] == prop and (h["tier"] == "quick" or tier == "thorough")]
    if not hs:
        print("no harness for", prop)
        return 2
    byname = {h["name"]: h for h in hs}
    outdir = os.path.join(HERE, "replay")
    work = make_work()
    try:
        return check(work, prop, tier, seed, hs, byname, outdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(work, prop, tier, seed, hs, byname, outdir):
    global BUDGET
    if tier == "thorough":
        BUDGET = float(os.environ.get("VK_BUDGET", "3500"))
    tmo = min(BUDGET * 0.6, 1800 if tier == "thorough" else 420)
    jobs = int(os.environ.get("VK_JOBS", "8"))
    doc, text = verify(work, [h["name"] for h in hs], tmo, jobs)
    if doc is None:
        print(text[-5000:])
        print("ERROR: the verifier produced no result (build error, unsupported construct or time-out)")
        return 2
    res = classify(doc)
    missing = [n for n in byname if n not in res]
    # Larger unwinding for harnesses whose loops did not fit the bound.
    for n, r in list(res.items()):
        if r["status"] == "unwind" and left() > 120:
            for u in ("40", "140"):
                d2, t2 = verify(work, [n], min(left() - 60, 300), 1, ["--unwind", u], tag="unw" + u)
                if d2 is None:
                    continue
                r2 = classify(d2).get(n)
                if r2 and r2["status"] != "unwind":
                    res[n] = r2
                    break
    known = known_findings(prop)
    violations, errors, knowns = [], [], []
    for n in sorted(byname):
        if n in missing:
            errors.append((n, "not executed"))
            continue
        r = res[n]
        if byname[n]["cls"] == "finding":
            # a listed known finding: the harness is expected to fail
            if r["status"] == "fail" and n in known:
                knowns.append((n, known[n]))
            elif r["status"] == "fail":
                violations.append(n)
            elif r["status"] != "ok":
                errors.append((n, r["status"]))
            continue
        if r["status"] == "fail":
            violations.append(n)
        elif r["status"] != "ok":
            errors.append((n, r["status"] + ": " + "; ".join(str(c.get("description")) for c in r["failing"][:3])))
        elif r["uncovered"]:
            errors.append((n, "vacuous: " + "; ".join(str(c.get("description")) for c in r["uncovered"])))
        elif not r["det"].get("total_properties"):
            errors.append((n, "zero obligations"))
    lines = []
    violations.sort(key=lambda n: res[n]["duration"])
    confirmed_any = False
    for i, n in enumerate(violations):
        if confirmed_any or i >= 4:
            break
        path, confirmed = replay(work, prop, byname[n], res[n], text, outdir)
        lines.append((confirmed, "VIOLATION property=%s replay=%s%s" % (prop, path, "" if confirmed else " no-failing-input-found")))
        confirmed_any = confirmed_any or confirmed
    evidence(prop, tier, seed, hs, res, errors, violations, knowns)
    for n, what in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for n, why in errors:
        print("UNDECIDED %s: %s" % (n, why))
    for n in sorted(byname):
        if n in res:
            r = res[n]
            print("%-40s %-8s obligations %4s  covers %d  solver %.1fs  [%s]" % (
                n, r["status"], r["det"].get("total_properties", "?"), r["covers"],
                (r["stats"] or {}).get("runtime_solver_s") or 0.0, byname[n]["cls"]))
            for c in r["failing"][:5]:
                loc = c.get("location") or {}
                print("      failed: %s (%s:%s)" % (c.get("description"), loc.get("file"), loc.get("line")))
    if lines:
        # one line: a confirmed one when there is one
        lines.sort(key=lambda x: not x[0])
        print(lines[0][1])
        return 1
    if errors:
        return 2
    print("OK property=%s tier=%s wall=%.0fs" % (prop, tier, time.time() - T0))
    return 0


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    res = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) harness=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def scan_assumptions(hs):
    res = []
    files = sorted(set(h["file"] for h in hs) | {"util.rs"})
    if any("with_tape" in open(os.path.join(CRATE, "src", f)).read() or "with_rtape" in open(os.path.join(CRATE, "src", f)).read() for f in files):
        files += ["rtape.rs", "tape.rs"]
    if any("sha::" in open(os.path.join(CRATE, "src", f)).read() for f in files):
        files += ["sha.rs"]
    for f in files:
        t = open(os.path.join(CRATE, "src", f)).read()
        n = len(re.findall(r"kani::assume\(", t))
        res.append("%s: %d kani::assume preconditions on harness inputs (ranges and type invariants of symbolic inputs)" % (f, n))
        for s in sorted(set(re.findall(r"kani::stub(?:_verified)?\(([^)]*)\)", t))):
            res.append("%s: stub %s" % (f, s))
        for s in re.findall(r"//! ?ASSUMES: (.*)", t):
            res.append("%s: %s" % (f, s))
    return res


def evidence(prop, tier, seed, hs, res, errors, violations, knowns):
    tot = ok = unreach = 0
    ctot = cok = btot = bok = 0
    solver = 0.0
    rows = []
    for h in hs:
        r = res.get(h["name"])
        if not r:
            continue
        d = r["det"]
        g = lambda k: d.get(k) or 0
        t, p = g("total_properties"), g("passed") + g("unreachable")
        c = g("satisfied") + g("unsatisfiable")
        t -= c
        if r["status"] not in ("ok",):
            p = min(p, t)
        if h["cls"] == "bounded":
            btot += t
            bok += p
        else:
            ctot += t
            cok += p
        s = r["stats"] or {}
        solver += s.get("runtime_solver_s") or 0.0
        rows.append(dict(harness=h["name"], functions=h["fns"], quantifier=h["over"], kind=h["cls"],
                         status=r["status"], obligations=t, discharged=p, covers_satisfied=g("satisfied"),
                         unreachable=g("unreachable"), vccs_generated=s.get("vccs_generated"),
                         vccs_to_solver=s.get("vccs_remaining"), solver_s=s.get("runtime_solver_s")))
    fns = sorted(set(h["fns"] for h in hs if h["cls"] == "complete"))
    bfns = sorted(set(h["fns"] for h in hs if h["cls"] == "bounded"))
    doc = dict(
        property=prop, tier=tier, seed=seed, level="proof" if ctot else "other",
        coverage=dict(
            obligations=ctot, discharged=cok,
            checker_cmd="VERIF_TIER=%s python3 vk.py %s   (cargo kani --exact --harness ... on /repo's working tree)" % (tier, prop),
            trusted_base=TRUSTED,
            explanation="Obligations are Kani/CBMC properties of the harnesses (contract assertions, overflow, "
                        "bounds, pointer validity, unwinding). 'obligations'/'discharged' count only harnesses "
                        "complete over their quantifier; bounded stand-ins are counted separately.",
            functions_under_contract=fns, bounded_functions=bfns,
            bounded_obligations=btot, bounded_discharged=bok,
            backend="CBMC 6.11.0 SAT (per harness)", solver_s=round(solver, 2),
            harnesses=rows,
            undecided=[list(e) for e in errors], known_findings=[list(k) for k in knowns],
        ),
        assumptions=scan_assumptions(hs), wall_s=round(time.time() - T0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
