"""Kani's pipeline, step by step: carron and the contract harnesses are compiled by Kani to GOTO
programs, which CBMC then turns into proof obligations and decides.

The steps and flags are those of `cargo kani` 0.68 (see `cargo kani --verbose`).  CBMC is started from
here and not by the driver because the driver always asks for a trace of every satisfied reachability
guard, which takes longer than the proof itself.
"""
import concurrent.futures, glob, json, os, re, shutil, signal, subprocess, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
KANI = os.path.join(VERIF, "kani")
TARGET = os.path.join(KANI, "target")
DRIVER = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options",
          "--no-assertion-reach-checks", "--no-overflow-checks"]
NOMEM = ["--no-bounds-check", "--no-pointer-check", "--no-pointer-primitive-check"]
CBMC = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
        "--no-div-by-zero-check", "--no-self-loops-to-assumptions", "--object-bits", "16"]

# obligations about CSRs of any number, decided as terms with arrays
TERMS = ["the CSR holds the specified value", "no other CSR changes", "the CSR reads as specified",
         "the CSR file's invariant is kept", "every other CSR starts at zero",
         "tdata1 is written of the selected trigger only", "tdata2 is written of the selected trigger only",
         "a trigger is selected only through tselect, and only one that exists"]


def home():
    return sorted(glob.glob(os.path.expanduser("~/.kani/kani-*")))[-1]


def tool(name):
    p = os.path.join(home(), "bin", name)
    return p if os.path.exists(p) else name


def env():
    e = dict(os.environ)
    e["RUSTC_WRAPPER"] = os.path.join(KANI, "rustc-wrapper.sh")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


class Runner:
    """Commands in process groups of their own, so that a time limit ends all of them."""

    def __init__(self):
        self.live, self.lock = set(), threading.Lock()

    def run(self, cmd, timeout, cwd=KANI, environ=None, out=None):
        p = subprocess.Popen(cmd, cwd=cwd, env=environ or env(), stdout=out or subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace",
                             start_new_session=True)
        with self.lock:
            self.live.add(p)
        try:
            text, _ = p.communicate(timeout=max(1, timeout))
            return text or "", p.returncode
        except subprocess.TimeoutExpired:
            self.end(p)
            text, _ = p.communicate()
            return text or "", None
        finally:
            with self.lock:
                self.live.discard(p)

    @staticmethod
    def end(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


RUN = Runner()


FFI = False  # the property's contracts reach the host's own calls, which are kani/host.c


def codegen(patterns, timeout, features=()):
    """Compile /repo's current source with the harnesses.  -> ({name: metadata}, log)"""
    for d in glob.glob(os.path.join(TARGET, "kani", "*", "debug", "build", "carron-contracts")):
        shutil.rmtree(d, ignore_errors=True)
    cmd = DRIVER + (["-Z", "c-ffi"] if FFI else []) + ["--only-codegen"]
    if features:
        cmd += ["--features", ",".join(features)]
    for p in patterns:
        cmd += ["--harness", p]
    log, rc = RUN.run(cmd, timeout)
    found = {}
    for f in glob.glob(os.path.join(TARGET, "kani", "*", "debug", "build", "carron-contracts", "*",
                                    "out", "*.kani-metadata.json")):
        for h in json.load(open(f))["proof_harnesses"]:
            if os.path.exists(h["goto_file"]):
                found[h["pretty_name"]] = h
    return found, log, rc


def link(h, timeout):
    """Kani's post-processing of one harness -> path of the GOTO program, or None"""
    sym = h["goto_file"]
    out = sym[:-len(".symtab.out")] + ".linked.out"
    lib = os.path.join(home(), "library", "kani", "kani_lib.c")
    gi, gcc = tool("goto-instrument"), tool("goto-cc")
    for cmd in (
            [gcc, sym, lib] + ([os.path.join(KANI, "host.c")] if FFI else []) + ["-o", out],
            [gcc, out, "--function", h["mangled_name"], "-o", out],
            [gi, "--add-library", "--no-malloc-may-fail", out, out],
            [gi, "--generate-function-body-options", "assert-false-assume-false",
             "--generate-function-body", ".*", "--drop-unused-functions", out, out],
            [gi, "--ensure-one-backedge-per-target", out, out]):
        log, rc = RUN.run(cmd, timeout)
        if rc != 0:
            return None, log
    return out, ""


def solver_args(h, override=None):
    s = override or h["attributes"]["solver"] or "Cadical"
    if isinstance(s, dict):
        s = list(s.values())[0]
    s = s.lower()
    if s == "kissat":
        return ["--external-sat-solver", tool("kissat")]
    return ["--" + s] if s in ("z3", "cvc5", "bitwuzla") else ["--sat-solver", s]


def cbmc_cmd(h, goto, flags=(), solver=None):
    unwind = h["attributes"]["unwind_value"]
    how = solver_args(h, solver)
    if "sat-solver" in how[0]:
        how = ["--slice-formula"] + how  # CBMC's SMT back end does not take sliced formulas
    return ([tool("cbmc")] + CBMC + list(flags) + (["--unwind", str(unwind)] if unwind else [])
            + how + [goto])


LINE = re.compile(r"^\[(.+?\.\d+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR|NOT CHECKED)$")
HEAD = re.compile(r"^(\S.*) function (.+)$")
# obligations that say "this run cannot tell", not "the property is broken"
UNDECIDED_ID = re.compile(r"\.(unwind|unsupported_construct|no-body|recursion|sanity_check)\.")
UNDECIDED = re.compile(
    r"unwinding assertion|not currently supported by Kani|is not supported|unsupported|"
    r"recursion unwinding|undefined function should be unreachable|missing definition")


def read(text):
    """-> (checks [(id, description, where, status)], covers [...])"""
    checks, covers, fn = [], [], ""
    part = ""
    for l in text[max(0, text.find("** Results:")):].splitlines():
        # a description may have several lines
        if part or (l.startswith("[") and not LINE.match(l)):
            part = (part + " " + l.strip()).strip()
            if not LINE.match(part):
                if len(part) > 4000:
                    part = ""
                continue
            l, part = part, ""
        m = HEAD.match(l)
        if m and not l.startswith("["):
            fn = m[1]
            continue
        m = LINE.match(l)
        if m:
            desc = re.sub(r"^\[KANI_CHECK_ID[^\]]*\] ?", "", m[3]).strip('"')
            row = (m[1], desc, "%s:%s" % (fn, m[2] or "?"), m[4])
            (covers if ".cover." in m[1] else checks).append(row)
    return checks, covers


def count(text):
    m = re.search(r"^\*\* \d+ of (\d+) failed", text, re.M)
    return int(m[1]) if m else -1


def prove(name, h, flags, timeout, solver=None):
    t0 = time.time()
    res = dict(verdict="NONE", checks=[], failed=[], undecided=[], covers=[], time=0.0, log="",
               goto=None, flags=list(flags), solver=solver or h["attributes"]["solver"])
    goto, log = link(h, timeout)
    if not goto:
        res["log"] = "linking failed: " + log[-1500:]
        return res
    res["goto"] = goto
    text, rc = RUN.run(cbmc_cmd(h, goto, flags, solver), timeout - (time.time() - t0))
    res["time"] = round(time.time() - t0, 1)
    checks, covers = read(text)
    i = text.find("** Results:")
    res["log"] = text[i:] if i >= 0 else text[-3000:]
    res["checks"], res["covers"] = checks, covers
    if rc is None:
        res["log"] = "time limit of %d s" % timeout
    elif count(text) != len(checks) + len(covers):
        res["log"] = "could not read the verifier's %s results\n" % count(text) + res["log"]
    elif rc in (0, 10) and ("VERIFICATION SUCCESSFUL" in text or "VERIFICATION FAILED" in text) and checks:
        judge(res, checks, covers)
    return res


def properties(cmd, timeout):
    """-> [(id, description)] of all obligations and guards"""
    text, _ = RUN.run(cmd + ["--show-properties"], timeout)
    return re.findall(r'^Property (.+):\n  file .*\n  "?(?:\[KANI_CHECK_ID[^\]]*\] ?)?(.*?)"?$', text, re.M)


def terms_file(h, goto, flags, pid, timeout, slice_=True):
    """CBMC's proof obligation `pid` as an SMT-LIB file, without the zero-width symbols z3 refuses."""
    f = goto + ".%x.smt2" % (hash(pid) & 0xffffffff)
    cmd = cbmc_cmd(h, goto, flags, "bitwuzla")
    RUN.run(cmd[:-1] + (["--slice-formula"] if slice_ else []) + ["--property", pid, "--outfile", f, goto], timeout)
    if not os.path.exists(f):
        return None
    lines = open(f, errors="replace").read().splitlines()
    zero = {m[1] for l in lines for m in [re.match(r"\(declare-fun (\|.*\||\S+) \(\) \(_ BitVec 0\)\)$", l)] if m}
    used = [l for l in lines if not any(z in l for z in zero)] if zero else lines
    with open(f, "w") as out:
        out.write("\n".join(used) + "\n")
    return f


def z3_verdict(text):
    """-> sat, unsat or None; sat only if z3 read every line before it"""
    for l in text.splitlines():
        if l == "unsat":
            return l
        if l == "sat":
            return l
        if "error" in l:
            # a line z3 could not read is a constraint less: unsat stays a proof
            return "unsat" if "\nunsat\n" in text else None
    return None


def by_terms(h, goto, flags, pid, timeout):
    """Decide one obligation as a bit-vector/array term problem: CBMC writes it out, z3 decides it."""
    end = time.time() + timeout
    f = terms_file(h, goto, flags, pid, timeout)
    verdict = "UNKNOWN"
    if f:
        for z3 in ("z3-new", "z3"):
            text, rc = RUN.run([z3, f], min(25, end - time.time()))
            word = z3_verdict(text)
            if word:
                verdict = "SUCCESS" if word == "unsat" else "FAILURE"
                break
        os.remove(f)
    if verdict == "UNKNOWN" and end - time.time() > 5:
        text, rc = RUN.run(cbmc_cmd(h, goto, list(flags) + ["--property", pid], "cadical"), min(60, end - time.time()))
        checks, _ = read(text)
        if rc in (0, 10) and len(checks) == 1:
            verdict = checks[0][3]
    return verdict


def terms_model(h, goto, flags, pid, timeout):
    """The harness's inputs, in drawing order, in z3's model of a failing obligation, or None."""
    f = terms_file(h, goto, flags, pid, timeout, False)
    if not f:
        return None
    lines = open(f).read().splitlines()
    drawn = [m[1] for l in lines
             for m in [re.match(r"\(define-fun (\|goto_symex::return_value::[^|]*any_raw_internal[^|]*\|) ", l)] if m]
    end = [i for i, l in enumerate(lines) if l.startswith("(check-sat")]
    with open(f, "w") as out:
        out.write("\n".join(lines[:end[-1] + 1] + ["(get-value (%s))" % d for d in drawn]) + "\n")
    text, rc = RUN.run(["z3-new", f], timeout)
    os.remove(f)
    if z3_verdict(text) != "sat":
        return None
    got = re.findall(r"^\(\(.* #([xb])([0-9a-f]+)\)\)$", text, re.M)
    if len(got) != len(drawn):
        return None
    vals = []
    for kind, digits in got:
        n = len(digits) // 2 if kind == "x" else max(1, len(digits) // 8)
        v = int(digits, 16 if kind == "x" else 2)
        vals.append([str(v >> (8 * i) & 255) for i in range(n)])
    return vals


def prove_terms(name, h, flags, timeout, hard):
    """As prove(), with the obligations described by `hard` decided on terms."""
    t0 = time.time()
    flags = list(flags) + ["--no-array-field-sensitivity"]
    res = dict(verdict="NONE", checks=[], failed=[], undecided=[], covers=[], time=0.0, log="",
               goto=None, flags=flags, solver="Cadical, z3")
    goto, log = link(h, timeout)
    if not goto:
        res["log"] = "linking failed: " + log[-1500:]
        return res
    res["goto"] = goto
    props = properties(cbmc_cmd(h, goto, flags), 120)
    first = [p for p, d in props if d in hard]
    rest = [x for p, d in props if d not in hard for x in ("--property", p)]
    if not first or not rest:
        res["log"] = "no obligation named %s" % (hard,)
        return res
    text, rc = RUN.run(cbmc_cmd(h, goto, flags + rest), timeout - (time.time() - t0))
    res["log"] = "time limit" if rc is None else text[max(0, text.find("** Results:")):]
    checks, covers = read(text)
    if rc in (0, 10) and count(text) == len(checks) + len(covers) == len(rest) // 2:
        for p in first:
            v = by_terms(h, goto, flags, p, timeout - (time.time() - t0))
            checks.append((p, dict(props)[p], name, v))
            res["log"] += "\n[%s] %s: %s" % (p, dict(props)[p], v)
        judge(res, checks, covers)
    res["time"] = round(time.time() - t0, 1)
    res["terms"] = hard
    return res


def judge(res, checks, covers):
    res["checks"], res["covers"] = checks, covers
    for c in checks:
        if c[3] == "SUCCESS":
            continue
        if c[3] == "FAILURE" and not UNDECIDED.search(c[1]) and not UNDECIDED_ID.search(c[0]):
            res["failed"].append(c)
        else:
            res["undecided"].append(c)
    res["verdict"] = "FAILED" if res["failed"] else "UNDECIDED" if res["undecided"] else "SUCCESSFUL"


def prove_all(found, flags, timeout, jobs, deadline, solver=None, terms=None):
    def one(n):
        left = deadline - time.time()
        if left < 5:
            return n, dict(verdict="NONE", checks=[], failed=[], undecided=[], covers=[], time=0.0,
                           log="out of time", goto=None, flags=list(flags), solver=solver)
        if terms:
            return n, prove_terms(n, found[n], flags, min(timeout, left), terms)
        return n, prove(n, found[n], flags, min(timeout, left), solver)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return dict(ex.map(one, sorted(found)))
