"""Driver: contracts on the real sources of /repo, discharged by CBMC.

A Unit is one verification task: a harness (in /verif/h) that #includes the
real .c file(s) of the tree under test, together with the contract of the
function under test.  kind:
  proof    every obligation is for all inputs and all iterations (loops are
           either covered by a checked loop contract or have a bound that
           does not depend on the input; unwinding assertions are on)
  bounded  a stand-in with a stated bound (never counted as proved)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "h")

BASE_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
              "--div-by-zero-check", "--unwinding-assertions"]


class Unit:
    def __init__(self, name, harness, entry, fn, files, kind="proof", enforce=None,
                 replace=(), unwind=None, unwindset=(), flags=(), defines=(),
                 loop_contracts=None, timeout=150, backend="sat", bound=None,
                 hoist=(), search=True, search_secs=15, fallback=None, assumes=(),
                 tier="quick", what="", native_libs=(), object_bits=12, vacuity=True,
                 shape=False, pre_unwind=(), native_defs=(), shrink=(), extra=("dieharder/globals.c",), native_extra=(), subst=(), probe=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Ctx:
    def __init__(self, seed, tier="quick"):
        self.scale = 8 if tier == "thorough" else 1      # time limit per unit
        self.tmp = tempfile.mkdtemp(prefix="vf_")
        self.seed = seed
        self.lock = threading.Lock()
        self.stop = False                      # a replayed violation has been found
        self.deadline = time.time() + float(os.environ.get("VERIF_BUDGET", "10800" if tier == "thorough" else "800"))
        os.makedirs(os.path.join(self.tmp, "inc"))
        # generated by configure in a real build; its content is not verified
        with open(os.path.join(self.tmp, "inc", "dieharder_version.h"), "w") as f:
            f.write('#define DIEHARDER_VERSION "verif"\n')

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def sh(cmd, timeout, env=None, cwd=None, mem_gb=12):
    def lim():
        import resource
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd=cwd, preexec_fn=lim)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout", time.time() - t


# ---------------------------------------------------------------- extraction
def hoist_statics(text):
    """Move function-local 'static T x [= init];' declarations to file scope.

    Semantics-preserving (storage and initialisation are unchanged, only the
    name becomes visible to the contract); nothing else is touched.
    Returns (new text, [names])."""
    # blank out comments and strings for scanning, keeping offsets
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    scan = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', blank, text, flags=re.S)
    out, names, depth, i, top = [], [], 0, 0, 0
    edits = []
    funcstart = 0
    n = len(scan)
    while i < n:
        c = scan[i]
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                funcstart = i + 1
        elif c == ";" and depth == 0:
            funcstart = i + 1
        elif depth > 0 and scan.startswith("static", i) and (i == 0 or not (scan[i-1].isalnum() or scan[i-1] == "_")) \
                and not (scan[i+6].isalnum() or scan[i+6] == "_"):
            j = scan.index(";", i)
            decl = text[i:j+1]
            for nm in re.findall(r"([A-Za-z_]\w*)\s*(?=[;,=\[])", scan[i:j+1]):
                names.append(nm)
            edits.append((i, j + 1, decl, funcstart))
            i = j
        i += 1
    if not edits:
        return text, []
    res, last = [], 0
    # group: insert declarations at their function's start, remove at origin
    ins = {}
    for a, b, d, f in edits:
        ins.setdefault(f, []).append(d)
    marks = sorted([(f, 0, None) for f in ins] + [(a, 1, b) for a, b, d, f in edits])
    for off, k, b in marks:
        res.append(text[last:off])
        last = off
        if k == 0:
            # keep preprocessor lines intact
            res.append("\n" + "\n".join(ins[off]) + "\n")
        else:
            res.append("/* hoisted */ ;" if False else "/* hoisted */")
            last = b
    res.append(text[last:])
    return "".join(res), names


def lc(fn, loops):
    """loop contracts side file: loops = [(loop id, assigns, invariants, decreases or None, [local names])]"""
    ls = []
    for lid, assigns, inv, dec, loc in loops:
        e = {"loop_id": str(lid), "assigns": assigns, "invariants": inv,
             "symbol_map": "; ".join("%s, %s" % (x.split("=")[0], x.split("=")[1] if "=" in x else "%s::1::%s" % (fn, x)) for x in loc)}
        if dec:
            e["decreases"] = dec
        ls.append(e)
    return json.dumps({"sources": [], "functions": [{fn: ls}], "output": "OUTPUT"})


def prepare(ctx, u):
    d = os.path.join(ctx.tmp, u.name)
    os.makedirs(d, exist_ok=True)
    for rel in u.hoist:
        with open(os.path.join(REPO, rel)) as f:
            t, _ = hoist_statics(f.read())
        with open(os.path.join(d, "hoisted_" + os.path.basename(rel)), "w") as f:
            f.write(t)
    for rel, pat, rep in u.subst:        # textual substitution in a header the unit does not verify
        dst = os.path.join(d, "dieharder", os.path.basename(rel))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(os.path.join(REPO, rel)) as f:
            t = re.sub(pat, rep, f.read())
        with open(dst, "w") as f:
            f.write(t)
    for rel, name, val in u.shrink:      # capacity constants of a header, reduced for this unit (stated in its bound)
        dst = os.path.join(d, "" if rel.endswith(".c") else "dieharder", os.path.basename(rel))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        src = dst if os.path.exists(dst) else os.path.join(REPO, rel)
        with open(src) as f:
            t = re.sub(r"(?m)^(\s*#\s*define\s+%s\s+)\S+" % name, r"\g<1>%s" % val, f.read())
        with open(dst, "w") as f:
            f.write(t)
    return d


def inc_flags(ctx, d):
    return ["-I", d, "-I", os.path.join(ctx.tmp, "inc"), "-I", H, "-I", os.path.join(REPO, "include"),
            "-I", os.path.join(REPO, "libdieharder"), "-I", os.path.join(REPO, "dieharder"), "-I", REPO]


# ---------------------------------------------------------------- verifier
IGN = re.compile(r"^<builtin|__CPROVER_contracts|cprover_contracts")


def is_lib(r):
    f = r.get("sourceLocation", {}).get("file", "")
    fn = r.get("sourceLocation", {}).get("function", "")
    return f.startswith("<builtin") or r["property"].startswith("__CPROVER_contracts")


SHAPE = re.compile(r"loop_(invariant|decreases|assigns|step)|loop invariant|loop_invariant|decreases clause|"
                   r"unwinding assertion|step case|base case|unwind", re.I)


def obl_id(u, r):
    loc = r.get("sourceLocation", {})
    return "%s:%s [%s] %s (%s:%s)" % (u.name, u.fn, r["property"], r["description"],
                                     os.path.basename(loc.get("file", "?")), loc.get("line", "?"))


def build_goto(ctx, u, d, plain=False):
    gb = os.path.join(d, "a.gb")
    cmd = ["goto-cc", "-std=gnu99", "-D__CPROVER__=1", "-DVH_CBMC", "--function", u.entry] + \
          ["-D" + x for x in u.defines] + inc_flags(ctx, d) + [os.path.join(H, u.harness)] + \
          [os.path.join(REPO, x) for x in u.extra] + ["-o", gb]
    rc, out, err, t = sh(cmd, 120)
    if rc != 0:
        return None, "goto-cc failed: " + (out + err)[-3000:], cmd
    cmds = [cmd]
    gbd = os.path.join(d, "d.gb")
    c0 = ["goto-instrument", "--drop-unused-functions", gb, gbd]
    rc, out, err, t = sh(c0, 120)
    if rc != 0:
        return None, "goto-instrument failed: " + (out + err)[-3000:], c0
    gb = gbd
    if u.enforce or u.replace or u.loop_contracts:
        gi = ["goto-instrument", "--dfcc", u.entry]
        if u.enforce:
            gi += ["--enforce-contract", u.enforce]
        for r in u.replace:
            gi += ["--replace-call-with-contract", r]
        if u.loop_contracts:
            # annotate the loops of the real function from a side file, then apply
            lc = os.path.join(d, "loops.json")
            with open(lc, "w") as f:
                f.write(u.loop_contracts)
            if u.pre_unwind:      # inner loops with a constant bound, unwound (and the bound asserted) first
                gbu = os.path.join(d, "u.gb")
                cu = ["goto-instrument", "--unwindset", ",".join(u.pre_unwind), "--unwinding-assertions", gb, gbu]
                rc, out, err, t = sh(cu, 120)
                cmds.append(cu)
                if rc != 0:
                    return None, "goto-instrument failed: " + (out + err)[-3000:], cu
                gb = gbu
            gb1 = os.path.join(d, "a1.gb")
            c1 = ["goto-instrument", "--loop-contracts-file", lc, gb, gb1]
            rc, out, err, t = sh(c1, 120)
            cmds.append(c1)
            if rc != 0:
                return None, "loop annotation failed: " + (out + err)[-3000:], c1
            gb = gb1
            gi += ["--apply-loop-contracts"]
        gb2 = os.path.join(d, "b.gb")
        gi += [gb, gb2]
        rc, out, err, t = sh(gi, 200)
        cmds.append(gi)
        if rc != 0:
            return None, "goto-instrument failed: " + (out + err)[-3000:], gi
        gb = gb2
    return gb, "", cmds


def cbmc_cmd(u, gb, extra=()):
    cmd = ["cbmc", gb, "--json-ui"] + BASE_FLAGS
    if u.unwind is not None:
        cmd += ["--unwind", str(u.unwind)]
    if u.unwindset:
        cmd += ["--unwindset", ",".join(u.unwindset)]
    if u.object_bits:
        cmd += ["--object-bits", str(u.object_bits)]
    if u.backend in ("cvc5", "z3", "bitwuzla"):
        cmd += ["--" + u.backend]
    cmd += list(u.flags) + list(extra)
    return cmd


def parse_cbmc(out):
    try:
        data = json.loads(out)
    except Exception:
        return None, None, None
    res, status, tm = None, None, 0.0
    for e in data:
        if "result" in e:
            res = e["result"]
        if "cProverStatus" in e:
            status = e["cProverStatus"]
        if e.get("messageText", "").startswith("Runtime Solver"):
            pass
        m = re.match(r"Runtime (?:decision procedure|Solver|Symex|Convert SSA|Post-process): ([0-9.e+-]+)s",
                     e.get("messageText", ""))
        if m and not e["messageText"].startswith("Runtime decision"):
            try:
                tm += float(m.group(1))
            except ValueError:
                pass
    return res, status, tm


def left(ctx, t):
    return max(5, min(t, ctx.deadline - time.time()))


def run_unit(ctx, u):
    t0 = time.time()
    if time.time() > ctx.deadline - 10:
        return dict(unit=u, status="skipped", failed=[], obligations=0, discharged=0, lib=0, solver_s=0.0,
                    note="time budget used up", cmds=[], wall=0.0)
    d = prepare(ctx, u)
    r = dict(unit=u, status="error", failed=[], obligations=0, discharged=0, lib=0, solver_s=0.0, note="", cmds=[])
    gb, msg, cmds = build_goto(ctx, u, d)
    if gb is None:
        r.update(status="inapplicable", note=msg, wall=time.time() - t0)
        return r
    cmd = cbmc_cmd(u, gb)
    r["cmds"] = [" ".join(c) for c in cmds] + [" ".join(cmd)]
    rc, out, err, t = sh(cmd, left(ctx, u.timeout * ctx.scale))
    r["wall"] = time.time() - t0
    if rc is None:
        r.update(status="timeout", note="cbmc exceeded %d s" % (u.timeout * ctx.scale))
        return r
    res, status, tm = parse_cbmc(out)
    if res is None:
        msgs = re.findall(r'"messageText": "(.*)"', out)
        r.update(status="inapplicable", note="cbmc gave no result (exit %s): %s" % (rc, (" / ".join(msgs[-3:]) + " " + err[-800:])[-1500:]))
        return r
    r["solver_s"] = tm
    guards = [x for x in res if x["description"] == "vacuity-guard"]
    obl = [x for x in res if x["description"] != "vacuity-guard"]
    own = [x for x in obl if not is_lib(x)]
    r["lib"] = len(obl) - len(own)
    r["obligations"] = len(own)
    r["discharged"] = sum(1 for x in own if x["status"] == "SUCCESS")
    failed = [x for x in obl if x["status"] == "FAILURE"]
    unknown = [x for x in obl if x["status"] not in ("SUCCESS", "FAILURE")]
    r["failed"] = failed
    r["gb"] = gb
    if failed:
        r["status"] = "failed"
    elif unknown:
        r.update(status="inapplicable", note="undecided: " + "; ".join(obl_id(u, x) for x in unknown[:3]))
    elif u.vacuity and (not guards or any(g["status"] != "FAILURE" for g in guards)):
        r.update(status="vacuous", note="the end of the harness is unreachable: the function never returns normally "
                                        "under its precondition")
    elif not own:
        r.update(status="inapplicable", note="no obligations were generated")
    else:
        r["status"] = "ok"
    return r


# ---------------------------------------------------------------- replay
def build_native(ctx, u, d):
    exe = os.path.join(d, "native")
    if os.path.exists(exe):
        return exe, ""
    base = ["gcc", "-std=gnu99", "-g", "-O1", "-w", "-fcommon", "-fsanitize=address,undefined",
            "-fno-sanitize=shift,signed-integer-overflow,alignment,float-cast-overflow",
            "-fno-sanitize-recover=all", "-DVH_NATIVE", "-DVH_ENTRY=" + u.entry] + \
           ["-D" + x for x in list(u.defines) + list(u.native_defs)] + inc_flags(ctx, d)
    cmd = base + [os.path.join(H, u.harness), os.path.join(H, "vh_native.c")] + \
        [os.path.join(REPO, x) for x in list(u.extra) + list(u.native_extra)] + ["-o", exe] + list(u.native_libs) + ["-lm"]
    rc, out, err, t = sh(cmd, 120, mem_gb=0)
    if rc != 0:
        return None, (out + err)[-2000:]
    return exe, " ".join(cmd)


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1",
            UBSAN_OPTIONS="print_stacktrace=0")


def run_native(ctx, u, d, values):
    exe, msg = build_native(ctx, u, d)
    if not exe:
        return None, msg
    vf = os.path.join(d, "values.txt")
    with open(vf, "w") as f:
        f.write("".join("%d\n" % v for v in values))
    rc, out, err, t = sh([exe], 90, env=dict(NENV, VH_VALUES=vf, VH_ALARM="10" if u.loop_contracts else "60"), cwd=d, mem_gb=0)
    return rc, (out[-2000:] + "\n" + err[-3000:])


def trace_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        if st.get("lhs") == "tap_value" and st.get("assignmentType") == "actual-parameter":
            v = st.get("value", {})
            b = v.get("binary")
            if b is None or "data" not in v:
                continue
            vals.append(int(b, 2))
    return vals


def dedupe_decl(trace):
    """declaration steps show up as assignments of an arbitrary value; keep the nondet call's value only"""
    return trace


def get_cex(ctx, u, r, prop):
    cmd = cbmc_cmd(u, r["gb"], ["--trace", "--property", prop])
    rc, out, err, t = sh(cmd, left(ctx, u.timeout * ctx.scale))
    if rc is None:
        return None
    res, status, tm = parse_cbmc(out)
    if not res:
        return None
    for x in res:
        if x.get("trace"):
            return x["trace"]
    return None


def replay_failed(ctx, u, r, log):
    """try to replay the verifier's counterexamples on the real code; returns description or None"""
    d = os.path.join(ctx.tmp, u.name)
    # prefer functional obligations over library ones
    fl = sorted(r["failed"], key=lambda x: (is_lib(x), bool(SHAPE.search(x["description"] + x["property"]))))
    for x in fl[:4]:
        tr = get_cex(ctx, u, r, x["property"])
        if tr is None:
            continue
        vals = trace_values(tr)
        rc, out = run_native(ctx, u, d, vals)
        log.append("counterexample for %s: inputs %s\nnative replay exit %s\n%s" %
                   (obl_id(u, x), vals[:80], rc, out))
        if u.loop_contracts and "VH-FAIL: the code under test does not terminate" in out:
            log.append("inconclusive: the iteration count of this input is beyond what a replay can run")
            continue
        if rc is not None and rc != 0 and rc != 77 and ("VH-FAIL" in out or "AddressSanitizer" in out or "runtime error" in out):
            return dict(values=vals, out=out, obligation=obl_id(u, x))
    return None


def run_probe(ctx, u, log):
    """a fixed native run of the real code at a boundary no bounded stand-in reaches (e.g. more than 2^32 values)"""
    d = os.path.join(ctx.tmp, u.name)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "probe")
    cmd = ["gcc", "-std=gnu99", "-O2", "-w", "-fcommon", "-DVH_NATIVE", "-DVH_ENTRY=" + u.probe] + ["-D" + x for x in u.defines] + ["-DPROBE"] + \
        inc_flags(ctx, d) + [os.path.join(H, u.harness), os.path.join(H, "vh_native.c")] + [os.path.join(REPO, x) for x in u.extra] + ["-o", exe, "-lm"]
    rc, out, err, t = sh(cmd, 120, mem_gb=0)
    if rc != 0:
        log.append("probe build failed: " + err[-500:])
        return None
    rc, out, err, t = sh([exe], 90, env=NENV, cwd=d, mem_gb=0)
    log.append("probe %s exit %s %s (%.0f s)" % (u.probe, rc, err[-300:], t))
    if rc == 1 and "VH-FAIL" in err and "does not terminate" not in err:
        return dict(values=[], out=err, obligation="probe " + u.probe)
    return None


def search_native(ctx, u, log, secs=None):
    d = os.path.join(ctx.tmp, u.name)
    os.makedirs(d, exist_ok=True)
    exe, msg = build_native(ctx, u, d)
    if not exe:
        log.append("native build failed: " + msg)
        return None
    outv = os.path.join(d, "found.txt")
    secs = int(min(secs or u.search_secs, ctx.deadline - time.time() - 5))
    if secs < 2 or ctx.stop:
        return None
    env = dict(NENV, VH_SEARCH="1000000,%d,%d" % (ctx.seed, secs), VH_OUT=outv)
    rc, out, err, t = sh([exe], secs + 60, env=env, cwd=d, mem_gb=0)
    log.append("native search exit %s\n%s" % (rc, err[-1500:]))
    if rc == 1 and os.path.exists(outv):
        vals = [int(x) for x in open(outv).read().split()]
        rc2, out2 = run_native(ctx, u, d, vals)
        if rc2 not in (0, 77, None):
            return dict(values=vals, out=out2, obligation="native search")
    return None


def decide(ctx, u, log):
    """returns (result, verdict) with verdict in ok / violation / violation-noinput / degraded"""
    if ctx.stop:
        return dict(unit=u, status="skipped", failed=[], obligations=0, discharged=0, lib=0, solver_s=0.0, wall=0.0,
                    note="not run: another unit already shows a violation", cmds=[]), "skipped", None
    r = run_unit(ctx, u)
    if r["status"] == "ok":
        return r, "ok", None
    log.append("unit %s: %s %s" % (u.name, r["status"], r["note"]))
    for x in r["failed"][:12]:
        log.append("  failed obligation: " + obl_id(u, x))
    hit = None
    if r["status"] == "failed":
        hit = replay_failed(ctx, u, r, log)
    if hit:
        return r, "violation", hit
    if u.probe:
        hit = run_probe(ctx, u, log)
        if hit:
            return r, "violation", hit
    # bounded variant without internal names or loop contracts
    fb_results = []
    for fb in (u.fallback or []):
        rr = run_unit(ctx, fb)
        fb_results.append(rr)
        log.append("bounded stand-in %s: %s %s" % (fb.name, rr["status"], rr["note"]))
        if rr["status"] == "failed":
            hit = replay_failed(ctx, fb, rr, log)
            if not hit and fb.search:
                hit = search_native(ctx, fb, log)
            if hit:
                return r, "violation", hit
            if not all(SHAPE.search(x["description"] + x["property"]) for x in rr["failed"]):
                return r, "violation-noinput", None
    if u.search:
        tgt = [u] + list(u.fallback or [])
        for t in tgt:
            hit = search_native(ctx, t, log)
            if hit:
                return r, "violation", hit
    r["fallbacks"] = fb_results
    if r["status"] == "failed":
        if all(SHAPE.search(x["description"] + x["property"]) for x in r["failed"]):
            return r, "degraded", None
        if u.shape and fb_results and all(x["status"] == "ok" for x in fb_results):
            return r, "degraded", None
        return r, "violation-noinput", None
    if r["status"] == "vacuous":
        return r, "violation-noinput", None
    return r, "degraded", None
