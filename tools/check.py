#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property of the gledger in /repo against the TLA+ specification in
/verif/spec.  Two directions, both on the real binary built from /repo:

  A  TLC explores all small journals of the property's module (MCnn), checks
     the property on the specification, and emits every finished behaviour as
     a test case with its expected reports; harness/drive replays them all.
  B  tools/gen.py makes random journals and runs; harness/drive records what
     the binary prints; TLC (Trace.tla) reads each recorded behaviour and
     accepts or rejects it.

C17 and C23 (the account tree) do the same with AccountTree.tla and harness/tree,
C25 (transactions, journals, budgets) with Ledger.tla and harness/ledger, C26
(filters) with Filters.tla and harness/filter, C24
(package parser) with Handlers.tla and harness/parse.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Anything else: the check itself failed.
"""
import atexit
import datetime
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import gen  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
DEADLINE = time.time() + (800 if TIER == "quick" else 6 * 3600)

# cases of direction B per tier
RANDOM = dict(quick=1000, thorough=6000)
RANDOM_OF = {"C16": dict(quick=500, thorough=3000), "C15": dict(quick=1000, thorough=5000),
             "C19": dict(quick=700, thorough=3000), "C04": dict(quick=1500, thorough=9000)}
HISTORIES = {"C17": "tree", "C23": "tree", "C25": "ledger", "C26": "filter"}   # about packages journal and reporting
PARSES = ("C24",)                 # about package parser
TOLD = ("C10", "C13", "C19")      # runs are told the time
CHUNK = 1500
TRACE_LIMIT = 450 if TIER == "quick" else None   # seconds of TLC for one chunk of traces
SIMULATED = dict(quick=(300, 21), thorough=(3000, 21))   # histories per worker, length
SIMULATED_OF = {"C25": dict(quick=(40, 41), thorough=(1000, 41)), "C26": dict(quick=(500, 31), thorough=(8000, 31))}


class Broken(Exception):
    """The check itself cannot give an answer."""


scratch = None


def cleanup():
    if scratch and os.path.isdir(scratch):
        shutil.rmtree(scratch, ignore_errors=True)


def stopped(sig, frame):
    cleanup()
    os._exit(3)


def left():
    t = DEADLINE - time.time()
    if t < 5:
        raise Broken("out of time")
    return t


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="0",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin")
    return e


def go_build(out, cwd, *args):
    r = subprocess.run(["go", "build", "-o", out] + list(args), cwd=cwd, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left())
    if r.returncode != 0:
        raise Broken("go build in %s failed:\n%s" % (cwd, r.stdout[-3000:]))


def told_time():
    """Flags that build the program with a clock that can be told the time (harness/clock)."""
    src = os.path.join(subprocess.run(["go", "env", "GOROOT"], env=goenv(), stdout=subprocess.PIPE, text=True).stdout.strip(), "src/time")
    text = open(os.path.join(src, "time.go")).read()
    head = "func Now() Time {\n"
    if text.count(head) != 1:
        raise Broken("time.Now is not what it was")
    changed, overlay = os.path.join(scratch, "time.go"), os.path.join(scratch, "time.json")
    with open(changed, "w") as f:
        f.write(text.replace(head, head + "\tif verifIsTold {\n\t\treturn Unix(verifTold, 0)\n\t}\n"))
    with open(overlay, "w") as f:
        json.dump({"Replace": {os.path.join(src, "time.go"): changed,
                               os.path.join(src, "verif_clock.go"): os.path.join(VERIF, "harness/clock/clock.go")}}, f)
    return ["-overlay", overlay]


def build(prop):
    bins = {}
    if prop in HISTORIES or prop in PARSES:
        name = HISTORIES.get(prop, "parse")
        bins[name] = os.path.join(scratch, name)
        overlay = os.path.join(scratch, "overlay.json")
        with open(overlay, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "verif_%s/main.go" % name):
                                   os.path.join(VERIF, "harness/%s/main.go" % name)}}, f)
        go_build(bins[name], REPO, "-overlay", overlay, "./verif_" + name)
    else:
        bins["gledger"] = os.path.join(scratch, "gledger")
        bins["drive"] = os.path.join(scratch, "drive")
        go_build(bins["gledger"], REPO, *(told_time() if prop in TOLD else []), ".")
        go_build(bins["drive"], os.path.join(VERIF, "harness/drive"), ".")
    return bins


def tlc_command(module, extra=(), workers=8, memory="10g"):
    return ["java", "-XX:+Use%sGC" % ("Parallel" if workers > 1 else "Serial"), "-Xmx" + memory, "-Xss64m",
            "-Dtlc2.tool.queue.IStateQueue=StateDeque", "-Dfile.encoding=UTF-8",
            "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
            "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tlc2.TLC",
            "-metadir", tempfile.mkdtemp(prefix="meta", dir=scratch), "-noGenerateSpecTE",
            "-workers", str(workers), *extra, "-config", module + ".cfg", module + ".tla"]


def tlc_env(**kw):
    e = dict(os.environ)
    e.update(VERIF_TIER=TIER, TODAY=today_text(), LANG="C.UTF-8", **kw)
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


def today():
    d = datetime.datetime.now(datetime.timezone.utc)
    return (d.year, d.month, d.day)


def today_text():
    return "%04d-%02d-%02d" % today()


class Tlc:
    """What a TLC run said."""

    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.initial = 0
        self.tail = []
        self.finished = False
        self.errors = []

    def line(self, s):
        s = s.rstrip("\n")
        self.tail = (self.tail + [s[:400]])[-40:]
        if "states generated," in s and "distinct states found" in s and not s.startswith("Progress"):
            w = s.replace(",", "").split()
            self.states, self.distinct = int(w[0]), int(w[3])
        if s.startswith("The number of states generated:"):
            self.states = self.distinct = int(s.split(":")[1])
        if s.startswith("Finished computing initial states:"):
            self.initial = int(s.split(":")[1].split()[0])
        if s.startswith("Finished in"):
            self.finished = True
        if s.startswith("Error:") or "*** Errors" in s:
            self.errors.append(s[:400])

    def demand(self, code, what):
        if code != 0 or not self.finished or self.errors:
            raise Broken("TLC did not accept %s (exit %s):\n%s\n%s"
                         % (what, code, "\n".join(self.errors), "\n".join(self.tail[-25:])))


def tlc(module, on_line, env, extra=(), workers=8, limit=None):
    t = Tlc()
    p = subprocess.Popen(tlc_command(module, extra, workers), cwd=SPEC, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, encoding="utf-8", errors="replace")
    killer = None
    try:
        import threading
        killer = threading.Timer(min(left(), limit or left()), p.kill)
        killer.start()
        for s in p.stdout:
            if not on_line(s):
                t.line(s)
        code = p.wait()
    finally:
        if killer:
            killer.cancel()
        if p.poll() is None:
            p.kill()
    t.demand(code, module)
    return t


def drive(bins, cases, failing):
    """Runs the binary on a file of cases; returns (cases observed, [count, runs])."""
    out = os.path.join(scratch, "observed.ndjson")
    work = tempfile.mkdtemp(prefix="work", dir=scratch)
    os.chmod(work, 0o755)
    args = [bins["drive"], "-bin", bins["gledger"], "-in", cases, "-out", out, "-scratch", work]
    if failing:
        args.append("-failing")
    r = subprocess.run(args, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left())
    shutil.rmtree(work, ignore_errors=True)
    if r.returncode != 0:
        raise Broken("driver: exit %d: %s" % (r.returncode, r.stderr[-2000:]))
    w = r.stdout.replace(",", "").split()
    with open(out) as f:
        observed = [json.loads(s) for s in f]
    return observed, (int(w[0]), int(w[4])), out


def write_cases(cases):
    path = os.path.join(scratch, "cases.ndjson")
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c, ensure_ascii=False) + "\n")
    return path


# ---- judging ---------------------------------------------------------------

def strip_case(c):
    """A case as it was before it was run."""
    c = json.loads(json.dumps(c))
    for k in ("touched", "hang"):
        c.pop(k, None)
    for r in c["runs"]:
        r["obs"] = None
        r.pop("bad", None)
    for v in c["variants"]:
        if v.get("from"):
            v["files"] = {v["root"]: []}
    return c


def describe(c, run, expected, fails):
    r = c["runs"][run - 1] if run else None
    d = {"case": strip_case(c), "touched": c.get("touched", False)}
    if r:
        d.update(run=run, command={k: v for k, v in r.items() if k not in ("obs", "expect")},
                 observed=r["obs"], expected=expected, expected_to_fail=fails)
    return d


def judge_expected(bins, path):
    """Direction A: cases with expectations.  Returns findings and counts."""
    bad, counts, _ = drive(bins, path, True)
    found = []
    for c in bad:
        runs = [i + 1 for i, r in enumerate(c["runs"]) if r.get("bad")]
        if not runs and c.get("hang"):
            runs = [i + 1 for i, r in enumerate(c["runs"]) if r["obs"]["code"] == 124]
        if runs:
            e = c["runs"][runs[0] - 1].get("expect") or {}
            d = describe(c, runs[0], e.get("lines") if not e.get("fails") else e.get("chain"), e.get("fails"))
            d["what"] = c["runs"][runs[0] - 1].get("bad", "did not terminate")
        else:
            d = describe(c, 0, None, None)
            d["what"] = "a file was created, changed or removed"
        d["direction"] = "A"
        found.append(d)
    return found, counts


def judge_traces(bins, path):
    """Direction B: recorded behaviours, judged by TLC."""
    observed, counts, out = drive(bins, path, False)
    byid = {c["id"]: c for c in observed}
    verdicts, mismatches = {}, {}

    def on_line(s):
        if s.startswith('"VERDICT '):
            v = json.loads(json.loads(s)[8:])
            verdicts[v["id"]] = v
            return True
        if s.startswith('"MISMATCH '):
            m = json.loads(json.loads(s)[9:])
            mismatches.setdefault(m["id"], m)
            return True
        return False

    try:
        t = tlc("Trace", on_line, tlc_env(CASES=out), limit=TRACE_LIMIT) if observed else Tlc()
    except Broken:
        # what has been rejected stays rejected, however the rest would have gone
        if not mismatches:
            raise
        t = Tlc()
        for i in set(byid) - set(verdicts):
            verdicts[i] = dict(ok=i not in mismatches, rejected=0, entries=0)
            if i not in mismatches:
                byid[i]["hang"] = False
    missing = set(byid) - set(verdicts)
    if missing:
        raise Broken("no verdict for %d cases, e.g. %s" % (len(missing), sorted(missing)[:3]))
    found = []
    for i in byid:
        v = verdicts[i]
        if v["ok"] and not byid[i].get("hang"):
            continue
        m = mismatches.get(i)
        if m:
            d = describe(byid[i], m["run"], m["expected"], m["fails"])
            d["what"] = difference(m["expected"], m["fails"], byid[i]["runs"][m["run"] - 1])
        else:
            d = describe(byid[i], 0, None, None)
            d["what"] = "did not terminate" if byid[i].get("hang") else "a file was created, changed or removed"
        d["direction"] = "B"
        found.append(d)
    stats = dict(rejected=sum(v["rejected"] for v in verdicts.values()),
                 entries=sum(v["entries"] for v in verdicts.values()))
    return found, counts, t, stats


def difference(expected, fails, r):
    o = r["obs"]["lines"]
    if r["obs"]["code"] not in (0, 1):
        return "exit code %d%s" % (r["obs"]["code"], " " + o[-1] if o else "")
    for i, e in enumerate(expected):
        if i >= len(o):
            return "output ends before line %d: %s" % (i + 1, json.dumps(e, ensure_ascii=False))
        if e and o[i] not in e:
            return "line %d: expected %s, got %s" % (i + 1, json.dumps(e, ensure_ascii=False),
                                                     json.dumps(o[i], ensure_ascii=False))
    if fails:
        return "not an error message of the expected form"
    if len(o) > len(expected):
        return "unexpected line %d: %s" % (len(expected) + 1, json.dumps(o[len(expected)], ensure_ascii=False))
    return "differs from run %s of the same case" % r.get("sameAs")



def confirm(bins, d):
    """Runs the failing case again, in the same direction; is it bad again?"""
    for n in (1, 20):
        cases = []
        for i in range(n):
            c = json.loads(json.dumps(d["case"]))
            c["id"] = "again-%d" % i
            cases.append(c)
        path = write_cases(cases)
        again = judge_expected(bins, path)[0] if d["direction"] == "A" else judge_traces(bins, path)[0]
        if again:
            d["reproduced"] = "%d of %d" % (len(again), n)
            return True
    return False


# ---- known findings --------------------------------------------------------

def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    found = {}
    if os.path.exists(path):
        for s in open(path):
            if s.startswith("finding: property=%s " % prop):
                w = s.split(None, 3)
                found[w[2].split("=", 1)[1]] = w[3].strip()
    return found


def signature(d):
    if "history" in d:
        return hashlib.sha256(json.dumps(d["history"]["ops"], sort_keys=True).encode()).hexdigest()[:16]
    c = d["case"]
    if "plans" in c:
        return hashlib.sha256(json.dumps([c["files"], c["root"], c["plans"][0]["given"], c["plans"][0]["refuse"],
                                          c["plans"][0]["cut"]], sort_keys=True).encode()).hexdigest()[:16]
    text = json.dumps([[v.get("files"), v["root"]] for v in c["variants"]]
                      + [[r["cmd"], r.get("args"), r.get("begin"), r.get("end")] + (r.get("argv") or []) for r in c["runs"]], sort_keys=True)
    return hashlib.sha256(text.encode()).hexdigest()[:16]


# ---- the two kinds of check ------------------------------------------------

def samples_of(cases):
    out = []
    for c in cases:
        v = c["variants"][0]
        out.append(dict(journal=v["files"], root=v["root"],
                        runs=[" ".join([r["cmd"]] + (r.get("args") or [])
                                       + (["-b " + r["begin"]] if r.get("begin") else [])
                                       + (["-e " + r["end"]] if r.get("end") else [])
                                       + (r.get("argv") or [])) for r in c["runs"]][:6]))
    return out


def check_reports(prop, bins, cov):
    found = []
    module = "MC" + prop[1:]
    # A
    path = os.path.join(scratch, "a.ndjson")
    n = [0]
    sample = []
    day = today()
    t0 = time.time()
    with open(path, "w") as f:
        def on_line(s):
            if not s.startswith('"CASE '):
                return False
            n[0] += 1
            body = json.loads(s)[5:]
            if n[0] in (2, 40, 500):
                sample.append(json.loads(body))
            f.write('{"id":"%s-%d","group":"%s",%s\n' % (module, n[0], module, body[1:]))
            return True
        t = tlc(module, on_line, tlc_env())
    if n[0] == 0:
        raise Broken("%s emitted no behaviours" % module)
    cov["states"] += t.distinct
    cov["transitions"] += t.states - t.initial
    cov["model"] = dict(module=module, states=t.distinct, behaviours=n[0], complete=True, seconds=round(time.time() - t0, 1))
    t0 = time.time()
    a, counts = judge_expected(bins, path)
    if today() != day:
        raise Broken("the day changed while checking")
    if counts[0] < n[0] and not a:
        raise Broken("only %d of %d behaviours were replayed" % (counts[0], n[0]))
    cov["model"].update(replayed=counts[0], executions=counts[1], replay_seconds=round(time.time() - t0, 1))
    cov["traces_validated_against_impl"] += counts[0]
    found += a
    cov["samples"] += samples_of(sample)
    if os.path.exists(path):
        os.remove(path)
    # B
    total = RANDOM_OF.get(prop, RANDOM)[TIER]
    done = 0
    cov["traces"] = dict(cases=0, executions=0, states=0, rejected_journals=0, seconds=0.0)
    while done < total and len(found) < 5:
        k = min(CHUNK, total - done)
        t0 = time.time()
        seed = "%d.%d" % (SEED, done // CHUNK)
        # the large one first: it takes longest, and is one behaviour
        cases = gen.large_case(prop, seed, today()) + gen.cases(prop, seed, k, today())
        b, counts, t, stats = judge_traces(bins, write_cases(cases))
        found += b
        if counts[0] < k and not b:
            raise Broken("only %d of %d cases were run" % (counts[0], k))
        done += k
        cov["traces"]["cases"] += counts[0]
        cov["traces"]["executions"] += counts[1]
        cov["traces"]["states"] += t.distinct
        cov["traces"]["rejected_journals"] += stats["rejected"]
        cov["traces"]["seconds"] = round(cov["traces"]["seconds"] + time.time() - t0, 1)
        cov["states"] += t.distinct
        cov["transitions"] += t.states - t.initial
        cov["traces_validated_against_impl"] += counts[0]
        if done == k:
            cov["samples"] += samples_of(cases[-2:])
    return found


def tree_run(harness, commands, env):
    """Some TLC processes, whose histories go to the harness."""
    import threading
    ts = [Tlc() for _ in commands]
    e = goenv()
    e["GOGC"] = "400"
    b = subprocess.Popen([harness], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    procs = [subprocess.Popen(c, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in commands]
    lock = threading.Lock()
    samples = []

    def forward(p, t):
        for s in p.stdout:
            if s.startswith(b'"'):
                with lock:
                    if len(samples) < 2 and len(s) < 20000:
                        samples.append(s)
                    try:
                        b.stdin.write(s)
                    except OSError:                      # the harness has given up: its exit status tells
                        p.kill()
                        return
            else:
                t.line(s.decode("utf-8", "replace"))

    def feed():
        threads = [threading.Thread(target=forward, args=x) for x in zip(procs, ts)]
        for x in threads:
            x.start()
        for x in threads:
            x.join()
        try:
            b.stdin.close()
        except OSError:
            pass

    killer = threading.Timer(left(), lambda: [p.kill() for p in procs + [b]])
    killer.start()
    feeder = threading.Thread(target=feed)
    feeder.start()
    fails, done = [], None
    try:
        for s in b.stdout:
            s = s.decode("utf-8", "replace")
            if s.startswith("FAIL "):
                fails.append(json.loads(s[5:]))
            elif s.startswith("DONE "):
                done = [int(x) for x in s.split()[1:]]
            else:
                ts[0].line(s)
        feeder.join()
        codes, cb = [p.wait() for p in procs], b.wait()
    finally:
        killer.cancel()
        for p in procs + [b]:
            if p.poll() is None:
                p.kill()
    if cb != 0 or done is None:
        raise Broken("history harness: exit %d: %s" % (cb, b.stderr.read()[-2000:].decode("utf-8", "replace")))
    for t, c in zip(ts, codes):
        t.demand(c, "the histories")
    return ts, done, fails, samples


def tree_again(harness, history):
    r = subprocess.run([harness], input=json.dumps(history) + "\n", text=True, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left())
    if r.returncode != 0:
        raise Broken("history harness: " + r.stderr[-1000:])
    for s in r.stdout.split("\n"):
        if s.startswith("FAIL "):
            return json.loads(s[5:])["bad"]
    return None


def check_tree(prop, bins, cov):
    found = []
    t0 = time.time()
    (t,), done, fails, samples = tree_run(bins[HISTORIES[prop]], [tlc_command("MC" + prop[1:])], tlc_env())
    if done[0] == 0:
        raise Broken("the model emitted no histories")
    cov["model"] = dict(module="MC" + prop[1:], states=t.distinct, transitions=t.states - t.initial, behaviours=done[0], complete=True,
                        seconds=round(time.time() - t0, 1))
    cov["states"] += t.distinct
    cov["transitions"] += t.states - t.initial
    cov["traces_validated_against_impl"] += done[0]
    found += fails
    if not fails:
        t0 = time.time()
        n, depth = SIMULATED_OF.get(prop, SIMULATED)[TIER]
        # the workers of one TLC would all draw the same random elements
        ts, done, fails, more = tree_run(bins[HISTORIES[prop]],
                                   [tlc_command("SIM" + prop[1:], ["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(8 * SEED + i)],
                                                workers=1, memory="3g") for i in range(8)], tlc_env())
        states, initial = sum(t.states for t in ts), sum(t.initial for t in ts)
        if done[0] == 0:
            raise Broken("the simulation emitted no histories")
        cov["simulation"] = dict(module="SIM" + prop[1:], states=states, behaviours=done[0], steps_each=depth - 1,
                                 seconds=round(time.time() - t0, 1))
        cov["states"] += states
        cov["transitions"] += states - initial
        cov["traces_validated_against_impl"] += done[0]
        found += fails
        samples = samples[:1] + more[:1]
    cov["samples"] += [dict(operations=json.loads(json.loads(q)[5:])["ops"], meaning="one of the emitted histories (the form all have)")
                       for q in samples]
    return [dict(direction="tree", what=f["bad"], history=f["history"]) for f in found]


# ---- package parser ---------------------------------------------------------

def parse_run(bins, lines=None, source=None):
    """Runs cases through harness/parse: those of a list, or those TLC prints."""
    work = tempfile.mkdtemp(prefix="work", dir=scratch)
    e = goenv()
    e["GOGC"] = "400"
    t = Tlc()
    src = None
    if source:
        src = subprocess.Popen(source, cwd=SPEC, env=tlc_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        stdin = src.stdout
    else:
        path = os.path.join(scratch, "parse.ndjson")
        with open(path, "w") as f:
            f.write("".join(json.dumps(c, ensure_ascii=False) + "\n" for c in lines))
        stdin = open(path)
    p = subprocess.Popen([bins["parse"], "-scratch", work] + (["-failing"] if source else []), stdin=stdin, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e, encoding="utf-8", errors="replace")
    stdin.close()
    import threading
    killer = threading.Timer(min(left(), 600 if TIER == "quick" else left()), lambda: (p.kill(), src and src.kill()))
    killer.start()
    cases, done = [], None
    try:
        for s in p.stdout:
            if s.startswith("CASE "):
                cases.append(json.loads(s[5:]))
            elif s.startswith("DONE "):
                done = [int(x) for x in s.split()[1:]]
            else:
                t.line(s)
        code = p.wait()
        scode = src.wait() if src else 0
    finally:
        killer.cancel()
        for x in (p, src):
            if x and x.poll() is None:
                x.kill()
    shutil.rmtree(work, ignore_errors=True)
    if code != 0 or done is None:
        raise Broken("parse harness: exit %d: %s" % (code, p.stderr.read()[-2000:]))
    if src:
        t.demand(scode, "package parser's model")
    return cases, done, t


def parse_case(c, plan):
    """A case with one plan, as it was before it was run."""
    c = json.loads(json.dumps(c))
    c["plans"] = [c["plans"][plan]]
    c["plans"][0].pop("bad", None)
    c["plans"][0]["obs"] = []
    return c


def parse_judge(cases):
    """What TLC says about recorded cases."""
    path = os.path.join(scratch, "parsed.ndjson")
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c, ensure_ascii=False) + "\n")
    verdicts = {}

    def on_line(s):
        if s.startswith('"VERDICT '):
            v = json.loads(json.loads(s)[8:])
            verdicts[v["id"], v["plan"]] = v
            return True
        return False

    t = tlc("Trace24", on_line, tlc_env(CASES=path), limit=TRACE_LIMIT)
    found = []
    for c in cases:
        for i, p in enumerate(c["plans"]):
            v = verdicts.get((c["id"], i + 1))
            if v is None:
                raise Broken("no verdict for %s, plan %d" % (c["id"], i + 1))
            if not v["ok"]:
                o = p["obs"][v["bad"][0] - 1]
                found.append(dict(direction="B", case=parse_case(c, i), observed=o, expected=v["expected"],
                                  what="%s: error %s %s, %d calls; expected %s" % (
                                      o["how"], o["kind"], json.dumps(o["lines"], ensure_ascii=False)[:300], len(o["calls"]),
                                      ["%s %s, %d calls" % (a["kind"], a["chain"], len(a["calls"])) for a in v["expected"]])))
    return found, t, sum(v["rejected"] for v in verdicts.values())


def check_parse(prop, bins, cov):
    t0 = time.time()
    bad, done, t = parse_run(bins, source=tlc_command("MC" + prop[1:]))
    if done[0] == 0:
        raise Broken("the model emitted nothing")
    cov["model"] = dict(module="MC" + prop[1:], states=t.distinct, behaviours=done[0], complete=True, seconds=round(time.time() - t0, 1))
    cov["states"] += t.distinct
    cov["transitions"] += t.states - t.initial
    cov["traces_validated_against_impl"] += done[0]
    found = []
    for c in bad:
        for i, p in enumerate(c["plans"]):
            if p.get("bad"):
                found.append(dict(direction="A", case=parse_case(c, i), observed=p["obs"], what=p["bad"]))
    total = RANDOM[TIER]
    n = 0
    cov["traces"] = dict(cases=0, behaviours=0, states=0, seconds=0.0)
    while n < total and len(found) < 5:
        k = min(CHUNK, total - n)
        t0 = time.time()
        cases = gen.parse_cases("%d.%d" % (SEED, n // CHUNK), k, today())
        observed, done, _ = parse_run(bins, lines=cases)
        if done[0] != k:
            raise Broken("only %d of %d cases were run" % (done[0], k))
        b, t, rejected = parse_judge(observed)
        found += b
        n += k
        cov["traces"]["cases"] += k
        cov["traces"]["behaviours"] += done[1]
        cov["traces"]["states"] += t.distinct
        cov["traces"]["seconds"] = round(cov["traces"]["seconds"] + time.time() - t0, 1)
        cov["states"] += t.distinct
        cov["transitions"] += t.states - t.initial
        cov["traces_validated_against_impl"] += done[1]
        if n == k:
            cov["samples"] += cases[:2]
    return found


def parse_again(bins, d):
    c = json.loads(json.dumps(d["case"]))
    observed = parse_run(bins, lines=[c])[0]
    if d["direction"] == "A":
        return [p["bad"] for c in observed for p in c["plans"] if p.get("bad")]
    return [x["what"] for x in parse_judge(observed)[0]]


def wait_for_a_new_day():
    """Not across midnight UTC: "today" is part of what is checked."""
    now = datetime.datetime.now(datetime.timezone.utc)
    to_go = 86400 - (now.hour * 3600 + now.minute * 60 + now.second)
    if TIER == "quick" and to_go < 180:
        time.sleep(to_go + 2)


def main():
    global scratch
    prop = sys.argv[1]
    if prop not in gen.PROFILES and prop not in HISTORIES and prop not in PARSES:
        print("unknown property " + prop)
        return 2
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, stopped)
    wait_for_a_new_day()
    scratch = tempfile.mkdtemp(prefix="gledger-verif-")
    os.chmod(scratch, 0o755)         # some runs are another user's
    atexit.register(cleanup)
    t0 = time.time()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    bins = build(prop)

    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if prop in HISTORIES:
            bad = tree_again(bins[HISTORIES[prop]], d["history"])
            print(bad or "the history is as specified now")
            return 1 if bad else 0
        if prop in PARSES:
            again = parse_again(bins, d)
            print("\n".join(again) or "the case is as specified now")
            return 1 if again else 0
        path = write_cases([d["case"]])
        again = (judge_expected if d["direction"] == "A" else judge_traces)(bins, path)[0]
        for x in again:
            print(json.dumps({k: x[k] for k in x if k != "case"}, indent=1, ensure_ascii=False))
        if not again:
            print("the case is as specified now")
        return 1 if again else 0

    found = (check_tree if prop in HISTORIES else check_parse if prop in PARSES else check_reports)(prop, bins, cov)
    known = known_findings(prop)
    reported = []
    unconfirmed = []
    seen_known = set()
    for d in found:
        sig = signature(d)
        if sig in known:
            seen_known.add(sig)
            continue
        if len(reported) >= 3 or len(unconfirmed) >= 5 or (reported and DEADLINE - time.time() < 330):
            continue
        ok = (tree_again(bins[HISTORIES[prop]], d["history"]) if prop in HISTORIES else parse_again(bins, d) if prop in PARSES
              else confirm(bins, d))
        (reported if ok else unconfirmed).append(d)
    # a listed finding is printed whether or not this run's cases met it
    for sig, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    evidence = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
                    assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, d in enumerate(reported):
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, signature(d)))
            d["property"] = prop
            d["replay_with"] = "python3 tools/check.py %s --replay %s" % (prop, path)
            with open(path, "w") as f:
                json.dump(d, f, indent=1, ensure_ascii=False)
            print("%s: %s" % (prop, d["what"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        raise Broken("not reproduced: " + json.dumps(unconfirmed[0], ensure_ascii=False)[:3000])
    print("%s: held on %d behaviours (%d states) in %.0f s" % (
        prop, cov["traces_validated_against_impl"], cov["states"], time.time() - t0))
    return 0


ASSUMPTIONS = [
    "the specification in /verif/spec says what the property's statement means",
    "characters outside Text.tla's alphabet and journals beyond the stated bounds behave like those inside",
    "TLC, the Go toolchain and the operating system work",
]

if __name__ == "__main__":
    try:
        code = main()
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        code = 3
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR: out of time: %s" % (e,))
        code = 3
    sys.stdout.flush()
    cleanup()
    sys.exit(code)
