"""Runs the enumeration harnesses, confirms and reports violations, writes the evidence."""
import os, sys, json, subprocess, time, tempfile, shutil, re, fnmatch, threading
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import VERIF, ENV

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVID = os.environ.get("VP_EVID", os.path.join(VERIF, "evidence"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))

ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:"
        "handle_segv=1:handle_abort=1:handle_sigfpe=1:max_malloc_fill_size=1073741824:malloc_fill_byte=%d:"
        "detect_stack_use_after_return=1:strict_string_checks=1:print_summary=1:log_path=%s")

class Res:
    def __init__(s):
        s.cases = 0; s.total = 0; s.states = set(); s.outs = set(); s.counters = {}
        s.samples = []; s.fails = []      # (index, name, kind, msg, argv)
        s.complete = True; s.notes = []
    def merge(s, o):
        s.cases += o.cases; s.total += o.total; s.states |= o.states; s.outs |= o.outs
        for k, v in o.counters.items(): s.counters[k] = s.counters.get(k, 0) + v
        s.samples += o.samples; s.fails += o.fails; s.complete &= o.complete; s.notes += o.notes

def _asan_kind(text):
    """a crash report reduced to its class and the innermost function of the code under test"""
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if not m:
        return None
    kind = m.group(1)
    fn = None
    head = text[m.start():]
    for l in head.splitlines():
        f = re.match(r"\s+#\d+ \S+ in (\S+) (\S+)", l)
        if f and ("/src/" in f.group(2) or "/include/" in f.group(2)) and "sanitizer" not in f.group(2) and "/verif/" not in f.group(2):
            fn = f.group(1); break
    return "asan:%s" % kind, "%s in %s" % (kind, fn or "?")

def _one(exe, args, workdir, timeout, mpi=0, fill=255):
    """run the harness once; returns (parsed, rc, last_open_case, crash)"""
    os.makedirs(workdir, exist_ok=True)
    out = os.path.join(workdir, "out.txt")
    log = os.path.join(workdir, "asan")
    for f in os.listdir(workdir):
        if f.startswith("asan.") or f == "out.txt":
            os.unlink(os.path.join(workdir, f))
    env = dict(ENV)
    env["ASAN_OPTIONS"] = ASAN % (fill, log)
    env["TMPDIR"] = workdir if len(workdir) < 60 else "/tmp"
    cmd = [exe, "--out", out] + args
    if mpi:
        cmd = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "-n", str(mpi)] + cmd
    timed_out = False
    with open(os.path.join(workdir, "stdout"), "wb") as so, open(os.path.join(workdir, "stderr"), "wb") as se:
        p = subprocess.Popen(cmd, cwd=workdir, env=env, stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait(); rc = -9
    r = Res(); cur = None; names = {}; done = False; tmo = timed_out
    try:
        txt = open(out, errors="replace").read().split("\n")
    except OSError:
        txt = []
    for l in txt:
        if not l: continue
        t = l[0]
        if t == "B":
            _, i, n = l.split(" ", 2); cur = int(i); names[cur] = n; r.cases += 1
        elif t == "E": cur = None
        elif t == "F":
            a, m = l[2:].split("\t", 1); i, k = a.split(" ", 1)
            r.fails.append((int(i), names.get(int(i), "?"), k, m, args))
        elif t == "H": r.states.add(l[2:])
        elif t == "O": r.outs.add(l[2:])
        elif t == "N":
            _, k, v = l.split(" ", 2); r.counters[k] = r.counters.get(k, 0) + int(v)
        elif t == "S": r.samples.append(l[2:])
        elif t == "T": tmo = True
        elif t == "X": done = True; r.total = int(l[2:])
    crash = None
    if not done or (rc != 0 and cur is not None):
        texts = []
        for f in sorted(os.listdir(workdir)):
            if f.startswith("asan."):
                texts.append(open(os.path.join(workdir, f), errors="replace").read())
        se = open(os.path.join(workdir, "stderr"), errors="replace").read()
        k = None
        for x in texts + [se]:
            k = _asan_kind(x)
            if k: break
        if k: crash = k
        elif tmo: crash = ("timeout", "did not finish")
        else: crash = ("crash", "exit status %s; %s" % (rc, se[-300:].replace("\n", " | ")))
    return r, rc, cur, names, crash, done

def run_enum(exe, args, timeout=800, nshards=None, mpi=0, tag="", fill=255, keep=None, max_crashes=40, listed=lambda case, kind: False):
    """the whole enumeration of one harness group over parallel processes; a crash is charged to the case it happened
    in, confirmed by running that case alone, and the enumeration goes on behind it"""
    nshards = nshards or (NPROC if not mpi else max(1, NPROC // mpi))
    base = tempfile.mkdtemp(prefix="vh-%s-" % tag, dir="/tmp")
    t0 = time.time()
    hung = []           # cases that do not end, confirmed alone: two of them settle the matter, and each takes minutes
    def shard(i):
        res = Res(); frm = 0; crashes = 0
        while True:
            left = timeout - (time.time() - t0)
            if len(hung) >= 2:
                res.complete = False; res.notes.append("shard %d stopped at case %d: cases hang" % (i, frm)); break
            if left <= 1:
                res.complete = False; res.notes.append("shard %d stopped by the time limit at case %d" % (i, frm)); break
            a = args + ["--shard", "%d/%d" % (i, nshards), "--from", str(frm)]
            r, rc, cur, names, crash, done = _one(exe, a, os.path.join(base, "s%d" % i), left, mpi, fill)
            tot = r.total
            r.total = 0
            res.merge(r)
            if tot: res.total = tot
            if done and cur is None:
                if rc != 0 and not r.fails:
                    res.notes.append("shard %d: status %d after the last case" % (i, rc))
                break
            if cur is None:
                # died between cases: cannot be charged to one
                res.fails.append((-1, "(outside a case, after case %s)" % (max(names) if names else "none"), crash[0], crash[1], a))
                res.complete = False
                break
            if time.time() - t0 >= timeout - 1 and crash[0] == "timeout":
                res.complete = False; res.notes.append("shard %d stopped by the time limit in case %s" % (i, names[cur])); break
            # confirm alone (a longer limit for a case that timed out)
            a1 = args + ["--only", str(cur), "--secs", "150"]
            if len(hung) >= 2: continue
            r1, rc1, cur1, n1, crash1, done1 = _one(exe, a1, os.path.join(base, "s%dc" % i), 170, mpi, fill)
            if crash1 and (cur1 is not None or not done1):
                res.fails.append((cur, names[cur], crash1[0], crash1[1], a1))
                if crash1[0] == "timeout" and not listed(names[cur], "timeout"): hung.append(cur)
            elif r1.fails:
                res.fails += r1.fails
            elif crash[0] == "timeout":
                res.notes.append("case %s was slow, and finished when run alone" % names[cur])
            else:
                res.fails.append((cur, names[cur], crash[0] + ":after-history", crash[1], a))
            crashes += 1
            if crashes >= max_crashes:
                res.complete = False; res.notes.append("shard %d: stopped after %d crashing cases" % (i, crashes)); break
            frm = cur + 1
        return res
    tot = Res()
    with ThreadPoolExecutor(nshards) as ex:
        rs = list(ex.map(shard, range(nshards)))
    total = max([r.total for r in rs] + [0])
    for r in rs:
        r.total = 0; tot.merge(r)
    tot.total = total
    if keep is None:
        shutil.rmtree(base, ignore_errors=True)
    return tot

def confirm(exe, args, f, mpi=0, fill=255):
    """run a failing case alone, twice; true if it fails the same way both times"""
    if f[0] < 0: return True
    base = tempfile.mkdtemp(prefix="vh-c-", dir="/tmp")
    try:
        for k in range(2):
            r, rc, cur, names, crash, done = _one(exe, args + ["--only", str(f[0]), "--secs", "70"], base, 90, mpi, fill)
            kinds = set(x[2] for x in r.fails) | ({crash[0]} if crash else set())
            if f[2] not in kinds and not (f[2].endswith(":after-history")):
                return False
            if crash and crash[0] == "timeout": break       # it hangs as well: once is enough, and takes minutes
        return True
    finally:
        shutil.rmtree(base, ignore_errors=True)

# ---------------------------------------------------------------------------------------------------------------
def known_findings():
    """known-findings.txt:  finding: property=<id> case=<exact name> kind=<kind> -- <what fails>"""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(.+?) kind=(\S+) -- (.*)", l.strip())
            if m: r.append(m.groups())
    return r

class Check:
    def __init__(s, prop, level="model_checking"):
        s.prop = prop; s.level = level; s.t0 = time.time(); s.res = Res(); s.parts = {}; s.fails = []; s.extra = {}; s.skipped = []
        s.assumptions = []
    thorough = property(lambda s: TIER == "thorough")
    def budget(s):
        lim = 820 if not s.thorough else 6 * 3600
        return max(10, lim - (time.time() - s.t0))
    def enum(s, harness, group, name=None, config="asan", mpi=0, timeout=None, args=(), nshards=None, fill=255):
        """one enumeration of a harness group"""
        exe = vbuild.build(harness, config)
        a = ["--group", group] + list(args) + (["--thorough"] if s.thorough else [])
        t = time.time()
        name = name or group
        if not s.thorough and time.time() - s.t0 > 240 and any(s._known(f["case"], f["kind"]) is None for f in s.fails):
            s.skipped.append(name); return Res()      # a violation is already confirmed
        r = run_enum(exe, a, timeout=min(timeout or 1e9, s.budget() - (120 if mpi else 0)), mpi=mpi, tag=s.prop + "-" + group[:12], nshards=nshards, fill=fill,
                     listed=lambda case, kind: s._known(case, kind) is not None)
        s.parts[name] = dict(cases=r.cases, of=r.total, states=len(r.states), distinct_outcomes=len(r.outs),
                             transitions=r.counters.get("transitions", 0), complete=bool(r.complete), wall_s=round(time.time() - t, 1),
                             **{k: v for k, v in r.counters.items() if k not in ("transitions", "evaluations")})
        if r.notes: s.parts[name]["notes"] = r.notes[:10]
        # distinct failing (case, kind): confirm each kind's first few before reporting
        seen = {}
        for f in r.fails:
            k = (f[1], f[2])
            if k in seen: continue
            seen[k] = f
        nconf = {}; slow = False
        for (nm, kind), f in sorted(seen.items(), key=lambda x: x[1][0]):
            if s._known(nm, kind) is None:
                if nconf.get(kind, 0) < 3:
                    nconf[kind] = nconf.get(kind, 0) + 1
                    t1 = time.time()
                    if kind != "timeout" and not slow and s.budget() > 60 and not confirm(exe, a, f, mpi, fill):
                        # the same case must fail the same way every time before it is believed
                        s.parts[name].setdefault("unconfirmed", []).append([nm, kind, f[3]])
                        continue
                    slow |= time.time() - t1 > 60            # one such case settles it
            s.fails.append(dict(case=nm, index=f[0], kind=kind, msg=f[3], harness=harness, config=config, group=group, args=a, mpi=mpi, fill=fill))
        r.fails = []
        s.res.merge(r); s.res.total += r.total
        return r
    def fail(s, case, kind, msg, **kw):
        s.fails.append(dict(case=case, index=-1, kind=kind, msg=msg, **kw))
    def _known(s, case, kind):
        for (p, c, k, what) in known_findings():
            if p == s.prop and fnmatch.fnmatchcase(case, c) and k == kind:
                return (c, k, what)
        return None
    def finish(s):
        cov = {}
        r = s.res
        tr = r.counters.get("transitions", 0)
        ev = r.cases
        if s.level == "model_checking":
            cov.update(states=len(r.states), transitions=tr, traces_validated_against_impl=ev)
        else:
            cov.update(evaluations=ev, distinct_nontrivial=len(r.outs), rule=s.extra.pop("rule", ""))
        cov["samples"] = r.samples[:12]
        if s.skipped: cov["not_run_after_a_violation"] = s.skipped
        cov["exhaustive"] = bool(r.complete and not s.skipped and not any("unconfirmed" in p for p in s.parts.values()))
        cov["distinct_outcomes"] = len(r.outs)
        cov["parts"] = s.parts
        cov.update(s.extra)
        known = {}; new = []
        for f in s.fails:
            k = s._known(f["case"], f["kind"])
            if k: known.setdefault(k, []).append(f)
            else: new.append(f)
        ev = dict(property=s.prop, tier=TIER, seed=SEED, level=s.level, coverage=cov, wall_s=round(time.time() - s.t0, 2),
                  violations=len(new), assumptions=s.assumptions)
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, s.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
        for n, d in s.parts.items():
            print("%s %-28s cases=%d/%d states=%d transitions=%d outcomes=%d complete=%s %.1fs%s" % (
                s.prop, n, d["cases"], d["of"], d["states"], d["transitions"], d["distinct_outcomes"], d["complete"], d["wall_s"],
                (" " + "; ".join(d["notes"])) if "notes" in d else ""))
            for u in d.get("unconfirmed", []): print("  not reproduced when run alone (not reported): %s" % u)
        for k, fs in known.items():
            print("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)" % (s.prop, k[2], len(fs), fs[0]["case"]))
        rc = 0
        if new:
            rd = os.path.join(EVID, "replay"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.json" % s.prop)
            json.dump(dict(property=s.prop, tier=TIER, failures=new[:50], total=len(new),
                           how="python3 /verif/check.py %s --replay %s  runs exactly the listed cases again" % (s.prop, path)),
                      open(path, "w"), indent=1)
            for f in new[:12]:
                print("  %s [%s] %s: %s" % (s.prop, f.get("group", ""), f["case"], f["kind"]) + " -- " + f["msg"][:400])
            if len(new) > 12: print("  ... %d in all" % len(new))
            print("VIOLATION property=%s replay=%s" % (s.prop, path))
            rc = 1
        sys.stdout.flush()
        vbuild.prune()
        return rc

def replay(path):
    d = json.load(open(path)); bad = 0
    for f in d["failures"]:
        if f.get("index", -1) < 0 or "harness" not in f:
            print("%s %s: %s (not replayable on its own)" % (f["case"], f["kind"], f["msg"])); bad = 1; continue
        exe = vbuild.build(f["harness"], f["config"])
        base = tempfile.mkdtemp(prefix="vh-r-", dir="/tmp")
        r, rc, cur, names, crash, done = _one(exe, f["args"] + ["--only-name", f["case"], "--secs", "240"], base, 300, f["mpi"], f.get("fill", 255))
        shutil.rmtree(base, ignore_errors=True)
        kinds = [x[2] + ": " + x[3] for x in r.fails] + ([": ".join(crash)] if crash else [])
        print("%s -> %s" % (f["case"], kinds or "passes now"))
        bad |= bool(kinds)
    return 1 if bad else 0
