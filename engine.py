#!/usr/bin/env python3
"""Solver-based checks of jitterentropy: see DESIGN.md.

run.py ID [--tier quick|thorough] [--only HARNESS] [--keep] [--native]
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
DEFS = ["-DJENT_CONF_ENABLE_INTERNAL_TIMER"]
INC = ["-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/arch", "-I" + VERIF + "/lib"]
MEM_LIMIT = 14 << 30
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
for v in ("CFLAGS", "LDFLAGS", "CC"):
    os.environ.pop(v, None)


class Harness:
    def __init__(self, name, file, entry, srcs, drop=(), defines=(), inc=(), unwind=10, max_unwind=None,
                 opts=(), tier="quick", timeout=600, replay="native", bounds="", base_defs=None,
                 native_cflags=(), stdchecks=True, native_libs=("-lpthread",), xsrcs=(), solver=None, restrict=None, weight=1, hunwind=0, unwindset=(), objbits=12, soft_drop=(), soft_vacuous=False):
        self.__dict__.update(locals())
        self.max_unwind = max_unwind or unwind * 4
        self.base_defs = DEFS if base_defs is None else base_defs


class BuildError(Exception):
    pass


def sh(cmd, timeout=300, limit=True, **kw):
    def pre():
        os.setsid()
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with RUNNING_LOCK:
        if STOP.is_set():
            return -9, "STOPPED"
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre, **kw)
        RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        if STOP.is_set():
            return -9, "STOPPED"
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -9, "TIMEOUT"
    finally:
        with RUNNING_LOCK:
            RUNNING.discard(p)


# a confirmed violation decides the run: what still runs is stopped
STOP = threading.Event()
RUNNING, RUNNING_LOCK = set(), threading.Lock()


def stop_all():
    with RUNNING_LOCK:
        STOP.set()
        for p in RUNNING:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass


class Builder:
    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.lock = threading.Lock()

    def once(self, key, fn):
        with self.lock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = [threading.Lock(), None]
        with ent[0]:
            if ent[1] is None:
                ent[1] = fn()
            return ent[1]

    def path(self, key, ext):
        import hashlib
        return os.path.join(self.work, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + ext)

    def goto(self, src, defs, inc=()):
        key = ("goto", src, tuple(defs), tuple(inc))

        def fn():
            out = self.path(key, ".goto")
            rc, o = sh(["goto-cc", "-c", "-std=gnu11", "-DVP_SOLVER"] + list(defs) + list(inc) + INC + ["-o", out, src])
            if rc:
                raise BuildError("goto-cc %s\n%s" % (src, o[-3000:]))
            return out
        return self.once(key, fn)

    def have(self, g):
        def fn():
            rc, o = sh(["goto-instrument", "--list-goto-functions", g])
            return set(re.findall(r"^(\S+) /\* \S+ \*/", o, re.M))
        return self.once(("have", g), fn)

    def reached(self, gb, h):
        """The functions of /repo that the entry reaches."""
        def fn():
            rc, o = sh(["goto-instrument", "--reachable-call-graph", gb])
            names = set(re.findall(r"-> (\S+)$", o, re.M))
            mine = set()
            for s in h.srcs:
                mine |= self.have(self.dropped(s if s.startswith("/") else os.path.join(REPO, s), h.base_defs, h.inc, tuple(h.drop) + tuple(h.soft_drop)))
            return sorted(n for n in names & mine if not n.startswith("__CPROVER"))
        return self.once(("reach", gb), fn)

    def dropped(self, src, defs, inc, drop):
        g = self.goto(src, defs, inc)
        drop = [d for d in drop if d in self.have(g)]
        if not drop:
            return g
        key = ("drop", src, tuple(defs), tuple(inc), tuple(drop))

        def fn():
            out = self.path(key, ".goto")
            args = []
            for d in drop:
                args += ["--remove-function-body", d]
            rc, o = sh(["goto-instrument"] + args + [g, out])
            if rc:
                raise BuildError("goto-instrument %s\n%s" % (src, o[-3000:]))
            return out
        return self.once(key, fn)

    def link(self, h):
        defs = list(h.base_defs) + ["-D" + d for d in h.defines]
        srcs = [s if s.startswith("/") else os.path.join(REPO, s) for s in h.srcs]
        objs = [self.dropped(s, h.base_defs, h.inc, tuple(h.drop) + tuple(h.soft_drop)) for s in srcs]
        # internal functions that are stubbed for the solver where they exist;
        # without the stub the harness runs over the real function
        for f in h.soft_drop:
            if any(f in self.have(self.goto(s, h.base_defs, h.inc)) for s in srcs):
                defs.append("-DSTUB_" + f)
        objs += [self.goto(os.path.join(VERIF, "h", x), defs, h.inc) for x in [h.file] + list(h.xsrcs)]
        key = ("link", tuple(objs))
        return self.once(key + (h.entry,), lambda: self._link(key, h, objs))

    def _link(self, key, h, objs):
        out = self.path(key + (h.entry,), ".gb")
        rc, o = sh(["goto-cc", "-o", out, "--function", h.entry] + objs)
        if rc:
            raise BuildError("link %s\n%s" % (h.name, o[-3000:]))
        return out

    def native(self, h, sanitize=True):
        """The same harness over the real code, compiled by gcc."""
        flags = ["-std=gnu11", "-g", "-O0", "-fwrapv", "-fno-inline", "-w"] + list(h.native_cflags)
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
               "-fno-sanitize=signed-integer-overflow"] if sanitize else []
        defs = list(h.base_defs)
        objs = []
        d = tempfile.mkdtemp(dir=self.work)
        srcs = [s if s.startswith("/") else os.path.join(REPO, s) for s in h.srcs]
        for i, s in enumerate(srcs):
            o = os.path.join(d, "s%d.o" % i)
            rc, out = sh(["gcc"] + flags + san + defs + list(h.inc) + INC + ["-c", s, "-o", o], limit=False)
            if rc:
                raise BuildError("gcc %s\n%s" % (s, out[-3000:]))
            if h.drop:
                sh(["objcopy"] + ["--globalize-symbol=" + f for f in h.drop] + ["--weaken-symbol=" + f for f in h.drop] + [o], limit=False)
            objs.append(o)
        for x in [h.file] + list(h.xsrcs):
            o = os.path.join(d, os.path.basename(x) + ".o")
            rc, out = sh(["gcc"] + flags + san + defs + ["-D" + x for x in h.defines] + list(h.inc) + INC +
                         ["-c", os.path.join(VERIF, "h", x), "-o", o], limit=False)
            if rc:
                raise BuildError("gcc %s\n%s" % (x, out[-3000:]))
            objs.append(o)
        exe = os.path.join(d, "replay")
        rc, out = sh(["gcc"] + flags + san + ["-DVP_ENTRY=" + h.entry, os.path.join(VERIF, "lib/replay_main.c")] + objs +
                     ["-o", exe, "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all"] + list(h.native_libs), limit=False)
        if rc:
            raise BuildError("native link %s\n%s" % (h.name, out[-3000:]))
        return exe


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        # cut after the last complete element
        i = out.rfind("\n}")
        try:
            return json.loads(out[:i + 2] + "\n]")
        except Exception:
            return None


class Result:
    def __init__(self, h):
        self.h = h
        self.status = "error"
        self.msg = ""
        self.vccs = self.props = 0
        self.solver_s = self.symex_s = 0.0
        self.vars = self.clauses = 0
        self.wall = 0.0
        self.unwind = h.unwind
        self.failed = []
        self.witness = 0
        self.functions = []
        self.replay = None


def loops(b, gb):
    def fn():
        rc, o = sh(["goto-instrument", "--show-loops", gb])
        return [(m[1], m[2]) for m in re.finditer(r"^Loop (\S+):\n\s+file (\S+) ", o, re.M)] or [("", "")]
    return b.once(("loops", gb), fn)


def cbmc_cmd(h, gb, unwind, extra=(), b=None, raised=None):
    cmd = ["cbmc", gb, "--json-ui", "--unwind", str(unwind), "--unwinding-assertions",
           "--no-malloc-may-fail", "--drop-unused-functions", "--verbosity", "8", "--object-bits", str(h.objbits)]
    # loops of the harness itself have their own, fixed bound: unwind is about /repo's code
    # hints name loops whose bound is known to be larger; all others start at
    # the default and are raised one by one when it proves too small
    uw = {}
    ll = loops(b, gb)
    hints = dict(h.unwindset)
    for l, f in ll:
        if l.rsplit(".", 1)[0] in hints:
            uw[l] = hints[l.rsplit(".", 1)[0]]
        elif h.hunwind and f.startswith(VERIF):
            uw[l] = h.hunwind
    uw.update(raised or {})
    if uw:
        cmd += ["--unwindset", ",".join("%s:%d" % x for x in uw.items())]
    if not h.stdchecks:
        cmd += ["--no-standard-checks", "--unwinding-assertions"]
    if h.solver:
        cmd += h.solver
    return cmd + list(h.opts) + list(extra)


def run_harness(b, h, tmax):
    r = Result(h)
    t0 = time.time()
    try:
        gb = b.link(h)
    except BuildError as e:
        r.msg = str(e)
        r.wall = time.time() - t0
        return r
    for f in h.soft_drop:
        if not any(f in b.have(b.goto(s if s.startswith("/") else os.path.join(REPO, s), h.base_defs, h.inc)) for s in h.srcs):
            r.status, r.msg = "ok", "skipped: %s, which this harness abstracts, is not there" % f
            return r
    r.functions = b.reached(gb, h)
    unwind = h.unwind
    raised = {}
    while True:
        left = min(h.timeout, tmax - time.time())
        if left < 5:
            r.msg = "no time left"
            break
        rc, out = sh(cbmc_cmd(h, gb, unwind, b=b, raised=raised), timeout=left)
        r.unwind = unwind
        if rc == -9:
            r.msg = "timeout after %.0f s" % (time.time() - t0)
            if STOP.is_set():
                r.status, r.msg = "stopped", "a violation was found before this was decided"
            break
        js = parse_json(out)
        if js is None:
            r.msg = "cbmc rc=%d: %s" % (rc, out[-1500:])
            break
        results = None
        for e in js:
            if "result" in e:
                results = e["result"]
            m = e.get("messageText", "")
            if x := re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m):
                r.vccs = int(x[2])
            elif x := re.search(r"([\d]+) variables, (\d+) clauses", m):
                r.vars, r.clauses = max(r.vars, int(x[1])), max(r.clauses, int(x[2]))
            elif x := re.search(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", m, re.I):
                r.solver_s += float(x[1])
            elif x := re.search(r"Runtime Symex: ([\d.e+-]+)s", m):
                r.symex_s += float(x[1])
        if results is None:
            errs = [e.get("messageText", "") for e in js if e.get("messageType") == "ERROR"]
            r.msg = "cbmc rc=%d: %s" % (rc, "; ".join(errs)[-1500:])
            break
        r.props = len(results)
        bad_unwind, wit_ok, wit_missing, failed = [], 0, [], []
        for p in results:
            d = p.get("description", "")
            fail = p["status"] == "FAILURE"
            if d.startswith("WITNESS: "):
                if fail:
                    wit_ok += 1
                else:
                    wit_missing.append(d)
            elif ".unwind." in p["property"] or d.startswith("unwinding assertion") or ".recursion" in p["property"]:
                if fail:
                    bad_unwind.append(p["property"])
            elif fail:
                failed.append(p)
            elif p["status"] not in ("SUCCESS",):
                failed.append(p) if p["status"] == "FAILURE" else None
                if p["status"] == "ERROR":
                    r.msg = "solver error on " + p["property"]
        r.witness = wit_ok
        r.failed = failed
        if failed:
            r.status = "fail"
            r.raised = raised
            r.gb = gb
            break
        if bad_unwind:
            again = False
            hints = dict(h.unwindset)
            for q in set(bad_unwind):
                m = re.match(r"(.*)\.unwind\.(\d+)$", q)
                if not m:
                    continue
                l = "%s.%s" % (m[1], m[2])
                cur = raised.get(l) or hints.get(m[1], unwind)
                if cur * 2 <= h.max_unwind:
                    raised[l] = cur * 2
                    again = True
            if again:
                r.unwind = unwind
                continue
            r.msg = "unwinding bound %d too small: %s" % (unwind, ", ".join(bad_unwind[:4]))
            break
        if wit_missing and h.soft_vacuous and not wit_ok:
            r.status, r.msg = "ok", "skipped: " + h.soft_vacuous
            break
        if wit_missing:
            r.status = "vacuous"
            r.msg = "; ".join(sorted(set(wit_missing)))
            break
        if r.msg:
            break
        r.status = "ok"
        break
    r.wall = time.time() - t0
    return r


def get_inputs(js):
    vals = []
    for e in js:
        for p in e.get("result", []):
            if p.get("status") == "FAILURE" and "trace" in p:
                for st in p["trace"]:
                    if st.get("stepType") == "input" and st.get("inputID") == "vp":
                        v = st["values"][0]
                        vals.append(int(v["binary"], 2) if "binary" in v else 0)
                return vals, p
    return None, None


def confirm(b, h, r, pid, outdir, log):
    """Replays each distinct counterexample natively; returns the confirmed one."""
    exe = None
    why = []
    order = sorted(r.failed, key=lambda p: 0 if p.get("description", "").startswith("VP:") else 1)
    seen = set()
    for p in order:
        if len(seen) >= 6:
            break
        if p["description"] in seen:
            continue
        seen.add(p["description"])
        rc, out = sh(cbmc_cmd(h, r.gb, r.unwind, ["--trace", "--property", p["property"]], b, r.raised), timeout=h.timeout)
        js = parse_json(out)
        if js is None:
            why.append("no trace for %s" % p["property"])
            continue
        vals, pp = get_inputs(js)
        if vals is None:
            why.append("no trace for %s" % p["property"])
            continue
        os.makedirs(outdir, exist_ok=True)
        inp = os.path.join(b.work, h.name + ".inputs")
        with open(inp, "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        loc = p.get("sourceLocation", {})
        info = {"property": pid, "harness": h.name, "entry": h.entry, "file": "h/" + h.file, "defines": list(h.defines),
                "assertion": p["description"], "cbmc_property": p["property"],
                "location": "%s:%s" % (loc.get("file", "?"), loc.get("line", "?")), "inputs": vals[:4000]}
        if h.replay == "native":
            try:
                if exe is None:
                    exe = b.native(h)
                rc, out = sh([exe, inp], timeout=120, limit=False, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=43:allocator_may_return_null=1",
                             UBSAN_OPTIONS="print_stacktrace=1:exitcode=44:halt_on_error=1"))
            except BuildError as e:
                why.append("native build: " + str(e)[-600:])
                continue
            info["replay_rc"] = rc
            info["replay_output"] = out[-4000:]
            if rc in (0, 77):
                why.append("%s [%s]: counterexample does not reproduce natively: %s" % (p["description"], p["property"], out.strip()[-300:]))
                continue
        os.makedirs(outdir, exist_ok=True)
        shutil.copy(inp, os.path.join(outdir, h.name + ".inputs"))
        path = os.path.join(outdir, h.name + ".json")
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        return path, info
    log("; ".join(why))
    return None, None


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if m := re.match(r"known: property=(\S+) harness=(\S+) assertion=\"([^\"]*)\" (.*)", line.strip()):
                if m[1] == pid:
                    out.append((m[2], m[3], m[4]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--native", action="store_true", help="only build and run the harnesses natively on zero inputs")
    a = ap.parse_args()
    import checks
    pid = a.id
    chk = checks.CHECKS[pid]
    t0 = time.time()
    budget = 840 if a.tier == "quick" else 3 * 3600
    tmax = t0 + budget
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        rc = go(a, pid, chk, work, t0, tmax)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def go(a, pid, chk, work, t0, tmax):
    b = Builder(work)
    hs = [h for h in chk["harnesses"] if (a.tier == "thorough" or h.tier == "quick") and (not a.only or a.only in h.name)]
    if a.tier == "quick":
        pass
    if a.native:
        bad = 0
        for h in hs:
            if h.replay != "native":
                continue
            try:
                exe = b.native(h)
                rc, out = sh([exe], timeout=60, limit=False, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
                print(h.name, "rc", rc, out.strip()[-300:])
            except BuildError as e:
                bad = 1
                print(h.name, "BUILD", e)
        return bad
    results = []
    lock = threading.Lock()
    ncpu = int(os.environ.get("VP_JOBS", "8"))
    # memory-hungry harnesses hold several of the eight slots
    cond = threading.Condition()
    free = [ncpu]

    def worker(h):
        w = min(h.weight, ncpu)
        with cond:
            while free[0] < w:
                cond.wait()
            free[0] -= w
        try:
            r = run_harness(b, h, tmax)
        finally:
            with cond:
                free[0] += w
                cond.notify_all()
        with lock:
            if STOP.is_set() and r.status != "ok":
                r.status = "stopped"
                return r
            print("[%s] %-28s %-8s %6.1fs vccs=%d vars=%d clauses=%d unwind=%s %s" %
                  (pid, h.name, r.status, r.wall, r.vccs, r.vars, r.clauses, r.unwind, r.msg.replace("\n", " ")[:400]), flush=True)
            for p in r.failed[:6]:
                print("    failed: %s %s" % (p.get("property"), p.get("description", "")[:120]), flush=True)
        if r.status == "fail":
            judge(r)
        elif r.status != "ok":
            errors.append("%s: %s %s" % (r.h.name, r.status, r.msg))
        return r

    violations, errors, knowns = [], [], []
    kf = known(pid)
    outdir = os.path.join(VERIF, "evidence", pid + ".replay")
    shutil.rmtree(outdir, ignore_errors=True)

    def judge(r):
        rest = []
        for p in r.failed:
            hit = [k for k in kf if k[0] == r.h.name and k[1] in p.get("description", "")]
            if hit:
                knowns.append(hit[0][2])
            else:
                rest.append(p)
        if not rest:
            return
        r.failed = rest
        msgs = []
        path, info = confirm(b, r.h, r, pid, outdir, msgs.append)
        with lock:
            if path and not STOP.is_set():
                violations.append((path, info))
                stop_all()
            elif not path and not STOP.is_set():
                errors.append("%s: %s" % (r.h.name, "; ".join(msgs)))
    with cf.ThreadPoolExecutor(max_workers=ncpu) as ex:
        results = list(ex.map(worker, sorted(hs, key=lambda h: -h.weight)))
    wall = time.time() - t0
    for k in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    write_evidence(a, pid, chk, results, violations, errors, knowns, wall)
    for e in errors:
        print("ERROR: " + e[:500])
    for path, info in violations:
        print("violated: %s (harness %s, %s)" % (info.get("assertion"), info.get("harness"), info.get("location", "")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    if errors:
        return 2
    print("OK property=%s harnesses=%d queries=%d wall=%.1fs" % (pid, len(results), sum(r.vccs for r in results), wall))
    return 0


def write_evidence(a, pid, chk, results, violations, errors, knowns, wall):
    import meta
    md = meta.P.get(pid, {})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    hs = []
    for r in results:
        hs.append({"name": r.h.name, "status": r.status, "entry": r.h.entry, "functions_under": list(getattr(r.h, "srcs", [])),
                   "stubbed": list(getattr(r.h, "drop", [])), "functions": r.functions, "bounds": r.h.bounds, "unwind": r.unwind, "assertions": r.props,
                   "queries": r.vccs, "vars": r.vars, "clauses": r.clauses, "solver_s": round(r.solver_s, 2),
                   "symex_s": round(r.symex_s, 2), "wall_s": round(r.wall, 2), "witnesses_reached": r.witness, "note": r.msg[:300]})
    cov = {"explanation": "symbolic execution of the real code, every assertion decided by a SAT/SMT solver for all inputs within the bounds; no sampling",
           "method": chk.get("method", "CBMC bounded model checking of /repo's sources, encoded anew on every run"),
           "functions_encoded": sorted(set(f for r in results for f in r.functions)) or md.get("functions", []), "bounds": md.get("bounds", ""),
           "queries_discharged": sum(r.vccs for r in results if r.status == "ok"),
           "assertions": sum(r.props for r in results), "solver_seconds": round(sum(r.solver_s for r in results), 2),
           "reachability_witnesses": sum(r.witness for r in results),
           "harnesses": hs, "errors": errors, "known_findings": sorted(set(knowns))}
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": cov, "assumptions": md.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len(violations)}
    cov["violations_reported"] = [{"replay": p, "what": i.get("assertion", "")} for p, i in violations]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

