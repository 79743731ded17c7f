"""Runs TLC on the specifications of /verif/spec and parses what it prints."""
import json, os, re, shutil, subprocess, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_slots = threading.Semaphore(8)


class MachineryError(Exception):
    pass


def scratch():
    d = tempfile.mkdtemp(prefix="verif_tlc_")
    return d


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


class Result:
    """Outcome of one TLC run: lines tagged CASE / VERDICT, state counts, and whether a property failed."""
    def __init__(self):
        self.cases, self.verdicts = [], []
        self.states = self.distinct = 0
        self.violated, self.stuck = None, False
        self.text = ""


def run(module, cfg, env=None, workers=1, timeout=600, defs=None, heap="3g", extra=(), stall=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg.
    defs: {constant definition name: python value | raw "TLA:..." text} -> a generated module that extends <module>."""
    d = scratch()
    try:
        main = module
        if defs:
            main = "Gen"
            with open(os.path.join(d, "Gen.tla"), "w") as f:
                f.write("---- MODULE Gen ----\nEXTENDS %s\n" % module)
                for k, v in defs.items():
                    f.write("%s == %s\n" % (k, v[4:] if isinstance(v, str) and v.startswith("TLA:") else tla(v)))
                f.write("====\n")
        else:
            shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
               "-config", os.path.join(SPEC, cfg + ".cfg"), *extra, main]
        r = Result()
        with _slots:
            t0 = time.time()
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 text=True, errors="replace")
            timer = threading.Timer(timeout, p.kill)
            timer.start()
            other, last = [], [time.time()]
            if stall:
                def watch():
                    while p.poll() is None:
                        if time.time() - last[0] > stall:
                            r.stuck = True
                            p.kill()
                        time.sleep(1)
                threading.Thread(target=watch, daemon=True).start()
            for line in p.stdout:
                if line.startswith('"CASE'):
                    r.cases.append(json.loads(json.loads(line)[4:]))
                elif line.startswith('"VERDICT'):
                    r.verdicts.append(json.loads(json.loads(line)[7:]))
                    last[0] = time.time()
                else:
                    other.append(line)
            rc = p.wait()
            killed = not timer.is_alive()
            timer.cancel()
            r.wall = time.time() - t0
        r.text = "".join(other)
        if r.stuck:
            return r
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", r.text)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"Error: (Invariant (\S+) is violated|Temporal propert|Action property (\S+)|Deadlock)", r.text)
        if m:
            r.violated = m.group(0)
        elif rc != 0 or "Model checking completed. No error" not in r.text:
            if killed:
                raise MachineryError("TLC on %s/%s exceeded %ds" % (module, cfg, timeout))
            evaluation = rc in (75, 76, 77, 12, 13) or "evaluating" in r.text or "Attempted to" in r.text
            raise (Evaluation if evaluation else MachineryError)("TLC on %s/%s failed (exit %s):\n%s" % (module, cfg, rc, r.text[-3000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Job(threading.Thread):
    """run(...) in the background; .get() returns the result or raises what it raised."""
    def __init__(self, *a, **k):
        super().__init__(daemon=True)
        self.a, self.k, self.res, self.exc = a, k, None, None
        self.start()

    def run(self):
        try:
            self.res = run(*self.a, **self.k)
        except BaseException as x:
            self.exc = x

    def get(self):
        self.join()
        if self.exc:
            raise self.exc
        return self.res


STALL = 600 if os.environ.get("VERIF_TIER") == "thorough" else 120     # seconds without a verdict after which a record is left aside
PID = "?"         # the property being decided (set by check_base.Check)


class Evaluation(MachineryError):
    """TLC could not evaluate the specification (on some record of a trace)."""


def _unjudgeable(rec, fails=None):
    """A record on which the specification's own expressions have no value (an index out of range, a value of a
    wrong kind): whatever was recorded has not even the shape the specification gives to it."""
    class Any(dict):
        def __missing__(self, k):
            return None
    return Any(id=rec["id"], fails=[PID + ":record has no meaning"] if fails is None else fails, at=1, tie=False)


def _judge_file(module, cfg, records, d, name, timeout, heap):
    path = os.path.join(d, name)
    with open(path, "w") as f:
        for rec in records:
            f.write(json.dumps(rec) + "\n")
    return Job(module, cfg or module, env={"TRACE": path}, timeout=timeout, heap=heap, stall=STALL)


def _search(module, cfg, records, d, timeout, heap, text):
    """TLC failed on these records: find one that it cannot judge, by bisection. -> verdicts"""
    out, recs, k = {}, records, 0
    while len(recs) > 1:
        half, k = recs[:len(recs) // 2], k + 1
        try:
            r = _judge_file(module, cfg, half, d, "b%d_%d.ndjson" % (id(records), k), timeout, heap).get()
            for v in r.verdicts:
                out.setdefault(v["id"], v)
            recs = recs[len(half):]
        except Evaluation as x:
            recs, text = half, x.args[0]
    try:
        _judge_file(module, cfg, recs, d, "b%d_one.ndjson" % id(records), timeout, heap).get()
    except Evaluation as x:
        out[recs[0]["id"]] = _unjudgeable(recs[0])
        print("not judgeable: %s\n%s" % (json.dumps(recs[0])[:600], x.args[0][-800:]))
        return out
    raise MachineryError(text)


def _numbers(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, list):
        for y in x:
            yield from _numbers(y)
    elif isinstance(x, int):
        yield x
    elif isinstance(x, float):
        yield 2 ** 31


def judge(module, records, shards=6, timeout=600, cfg=None, heap="3g"):
    """Check the recorded runs against a trace specification: {id: verdict record}. Every id gets a verdict."""
    records = list(records)
    if not records:
        return {}, 0, 0
    shards = max(1, min(shards, (len(records) + 24) // 25))
    heavy = [r for r in records if r.get("heavy")]      # large records get shards of their own
    light = [r for r in records if not r.get("heavy")]
    parts = [light[s::shards] for s in range(shards)] + [heavy[s::4] for s in range(4)]
    parts = [p for p in parts if p]
    if os.environ.get("VERIF_STRICT"):      # TLC reads larger numbers modulo 2^32
        for rec in records:
            for x in _numbers(rec):
                if abs(x) >= 2 ** 31:
                    raise MachineryError("a number that TLC cannot read: %s in %s" % (x, json.dumps(rec)[:800]))
    d = tempfile.mkdtemp(prefix="verif_trace_")
    try:
        jobs = [_judge_file(module, cfg, p, d, "t%d.ndjson" % s, timeout, heap) for s, p in reversed(list(enumerate(parts)))]
        out, states, distinct, bad = {}, 0, 0, False
        for p, j in zip(reversed(parts), jobs):
            try:
                r = j.get()
            except Evaluation as x:
                if not bad:       # one such record decides; the others of these parts are left aside
                    out.update(_search(module, cfg, p, d, timeout, heap, x.args[0]))
                bad = True
                for rec in p:
                    out.setdefault(rec["id"], _unjudgeable(rec, []))
                continue
            if r.violated:
                raise MachineryError("trace specification %s: %s\n%s" % (module, r.violated, r.text[-2000:]))
            k = 0
            while True:
                states += r.states
                distinct += r.distinct
                for v in r.verdicts:
                    out.setdefault(v["id"], v)
                if not r.stuck:
                    break
                left = [rec for rec in p if rec["id"] not in out]       # the first of them takes too long
                k += 1
                give_up = left if k > 2 else left[:1]
                for rec in give_up:
                    out[rec["id"]] = _unjudgeable(rec, [])
                print("not judged within %d s: %d record(s), the first is %s" % (STALL, len(give_up), json.dumps(give_up[0])[:400]))
                if len(give_up) == len(left):
                    break
                r = _judge_file(module, cfg, left[1:], d, "s%d_%d.ndjson" % (id(p), k), timeout, heap).get()
        missing = [rec["id"] for rec in records if rec["id"] not in out]
        if missing:
            raise MachineryError("no verdict for %d of %d cases of %s: %s" % (len(missing), len(records), module, missing[:5]))
        return out, states, distinct
    finally:
        shutil.rmtree(d, ignore_errors=True)
