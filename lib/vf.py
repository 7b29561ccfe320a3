"""Shared harness: tier/seed, recording of events and violations, evidence, known findings, forked pipelines.

Nothing here judges the code under test; monitors live in /verif/checks.
"""

import collections
import hashlib
import json
import logging
import mmap
import os
import pickle
import random
import resource
import shutil
import struct
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def quiet_logging():
    logger = logging.getLogger("wetext")
    logger.addHandler(logging.NullHandler())
    logger.setLevel(logging.ERROR)
    logger.propagate = False


def child_env(scratch, **extra):
    """Environment for a Python child that imports /repo and leaves nothing behind in it."""

    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "WETEXT", "XDG_"))}
    env.update(
        PYTHONPATH=REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        HOME=os.path.join(scratch, "home"),
        XDG_CACHE_HOME=os.path.join(scratch, "xdg"),
        TMPDIR=scratch,
    )
    os.makedirs(env["HOME"], exist_ok=True)
    env.update(extra)
    return env


class Scratch:
    """A private directory removed on exit."""

    def __init__(self, tag):
        self.path = tempfile.mkdtemp(prefix="verif-%s-" % tag)
        self.pid = os.getpid()

    def __enter__(self):
        return self.path

    def __exit__(self, *exc):
        if os.getpid() == self.pid and self.path.startswith(tempfile.gettempdir() + os.sep):
            shutil.rmtree(self.path, ignore_errors=True)


def short(value, limit=400):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + "..."


class Recorder:
    """Counts what a monitor observed and keeps the violations it raised."""

    MAX_KEPT = 40

    def __init__(self):
        self.counts = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.violation_count = 0
        self.samples = []
        self.states = collections.defaultdict(set)
        self.errors = []

    def event(self, name, n=1):
        self.counts[name] += n

    def case(self, key, nontrivial=True, sample=None):
        self.counts["evaluations"] += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def state(self, group, value):
        if len(self.states[group]) < 200000:
            self.states[group].add(value)

    def violation(self, kind, case, **detail):
        self.violation_count += 1
        if len(self.violations) < self.MAX_KEPT:
            self.violations.append({"kind": kind, "case": case, "detail": {k: short(v, 2000) for k, v in detail.items()}})

    def expect(self, condition, kind, case, **detail):
        if not condition:
            self.violation(kind, case, **detail)
        return bool(condition)

    def error(self, text):
        self.errors.append(short(text, 4000))

    def merge(self, other):
        self.counts.update(other.counts)
        self.distinct |= other.distinct
        self.violations += other.violations
        self.violation_count += other.violation_count
        self.errors += other.errors
        for group, values in other.states.items():
            self.states[group] |= values
        room = 40 - len(self.samples)
        self.samples += other.samples[:max(2, min(room, 4))]


class Heartbeat:
    """What a worker is doing now, in memory its parent can read after a hang, a kill or memory exhaustion."""

    SIZE = 8192

    def __init__(self):
        self.map = mmap.mmap(-1, self.SIZE)

    def begin(self, case):
        data = json.dumps(case, ensure_ascii=True, default=str).encode()[:self.SIZE - 16]
        self.map[12:12 + len(data)] = data
        self.map[0:12] = struct.pack("<dI", time.time(), len(data))

    def end(self):
        self.map[0:12] = struct.pack("<dI", 0.0, 0)

    def read(self):
        started, length = struct.unpack("<dI", self.map[0:12])
        if not length:
            return 0.0, None
        try:
            return started, json.loads(self.map[12:12 + length].decode())
        except ValueError:
            return started, {"truncated": self.map[12:12 + length].decode(errors="replace")}


HEART = Heartbeat()  # replaced in every forked worker
HANG_S = 60.0
WORKER_MEMORY = 6 << 30


class Check:
    """One property's run. Subclassed or driven by functions in /verif/checks."""

    def __init__(self, prop, level="exploration", rule="", assumptions=(), min_events=None):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.min_events = min_events or {}
        self.rec = Recorder()
        self.extra = {}
        self.t0 = time.time()
        args = sys.argv[1:]
        self.tier = "thorough" if "--thorough" in args else ("quick" if "--quick" in args else os.environ.get("VERIF_TIER", "quick"))
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = SEED
        self.replay = None
        if "--replay" in args:
            with open(args[args.index("--replay") + 1], encoding="utf8") as f:
                self.replay = json.load(f)
        self.known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
        # Leave the harness's own time limit well under the 900 s of a check.
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *key):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, key))))

    def is_known(self, violation):
        for known in self.known:
            if known["kind"] == violation["kind"] and known["case"] == violation["case"]:
                return known
        return None

    def finish(self):
        rec = self.rec
        fresh = []
        known_seen = []
        for violation in rec.violations:
            known = self.is_known(violation)
            if known is not None:
                if known not in known_seen:
                    known_seen.append(known)
            else:
                fresh.append(violation)
        for known in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known["what"]))
        coverage = {
            "evaluations": int(rec.counts.get("evaluations", 0)),
            "distinct_nontrivial": len(rec.distinct),
            "rule": self.rule,
            "samples": [short(s, 600) if isinstance(s, str) else s for s in rec.samples[:24]] or ["(none)"],
            "events": {k: int(v) for k, v in sorted(rec.counts.items()) if k != "evaluations"},
            "distinct_states": {k: len(v) for k, v in sorted(rec.states.items())},
        }
        coverage.update(self.extra)
        starved = {k: (int(rec.counts.get(k, 0)), v) for k, v in self.min_events.items() if rec.counts.get(k, 0) < v}
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.replay is None:
            with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w", encoding="utf8") as f:
                json.dump(evidence, f, ensure_ascii=True, indent=1, default=str)
                f.write("\n")
        print("property=%s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs" %
              (self.prop, self.tier, self.seed, coverage["evaluations"], coverage["distinct_nontrivial"], len(fresh),
               time.time() - self.t0))
        for key, value in coverage["events"].items():
            print("  %-40s %d" % (key, value))
        if fresh:
            folder = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(folder, exist_ok=True)
            for i, violation in enumerate(fresh[:10]):
                path = os.path.join(folder, "%s-%d.json" % (self.prop, i))
                with open(path, "w", encoding="utf8") as f:
                    json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, **violation}, f, ensure_ascii=True,
                              indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("    %s: %s" % (violation["kind"], short(json.dumps(violation, ensure_ascii=True, default=str), 700)))
            sys.stdout.flush()
            os._exit(1)
        if rec.errors:
            print("ERROR property=%s the check could not finish:" % self.prop)
            for error in rec.errors[:5]:
                print(error)
            sys.stdout.flush()
            os._exit(3)
        if starved and self.replay is None:
            print("INCONCLUSIVE property=%s monitors saw too little: %s" % (self.prop, starved))
            sys.stdout.flush()
            os._exit(4)
        print("HELD property=%s on everything explored" % self.prop)
        sys.stdout.flush()
        os._exit(0)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf8") as f:
        return json.load(f)["findings"]


# ---------------------------------------------------------------------------------------------------------------
# Pipelines in forked processes

PIPELINES = {
    "zh_tn": ("tn.chinese.normalizer", "Normalizer"),
    "en_tn": ("tn.english.normalizer", "Normalizer"),
    "ja_tn": ("tn.japanese.normalizer", "Normalizer"),
    "zh_itn": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "en_itn": ("itn.english.inverse_normalizer", "InverseNormalizer"),
    "ja_itn": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
}


def make_pipeline(name, cache_dir=False, **options):
    import importlib

    module, cls = PIPELINES[name]
    obj = getattr(importlib.import_module(module), cls)(cache_dir=cache_dir, **options)
    return obj


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view[:1 << 20])
        view = view[n:]


class Job:
    """func(rec, pipeline, rng, index, count) run in `workers` forked processes that share one built pipeline.

    With name None no pipeline is built and func gets None.
    """

    def __init__(self, name, func, workers=1, options=None, label=None, cache_dir=False):
        self.name = name
        self.func = func
        self.workers = workers
        self.options = options or {}
        self.label = label or name or getattr(func, "__name__", "job")
        self.cache_dir = cache_dir


def _run_worker(check, job, pipeline, index, wfd):
    rec = Recorder()
    try:
        job.func(rec, pipeline, check.rng(job.label, index), index, job.workers)
    except BaseException:
        rec.error("worker %s/%d: %s" % (job.label, index, traceback.format_exc()))
    try:
        _write_all(wfd, pickle.dumps(rec))
    finally:
        os._exit(0)


def _run_builder(check, job, wfd):
    try:
        quiet_logging()
        t = time.time()
        pipeline = make_pipeline(job.name, job.cache_dir, **job.options) if job.name else None
        built = time.time() - t
    except BaseException:
        rec = Recorder()
        rec.violation("pipeline cannot be built", {"pipeline": job.name, "options": job.options}, error=traceback.format_exc())
        _write_all(wfd, pickle.dumps(rec))
        os._exit(0)
    total = Recorder()
    total.event("pipelines built", 1 if job.name else 0)
    collect(lambda i, fd: _run_worker(check, job, pipeline, i, fd), job.workers, total, label=job.label, memory=WORKER_MEMORY)
    total.counts["build ms " + job.label] = int(built * 1000)
    _write_all(wfd, pickle.dumps(total))
    os._exit(0)


def collect(body, count, rec, label="worker", parallel=None, memory=None):
    """Forks `count` processes running body(i, wfd), merging the Recorder each one sends back."""

    import selectors

    parallel = parallel or count
    pending = list(range(count))
    sel = selectors.DefaultSelector()
    live = {}

    def launch(i):
        global HEART
        rfd, wfd = os.pipe()
        heart = Heartbeat()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            for other in live:
                os.close(other)
            HEART = heart
            if memory:
                resource.setrlimit(resource.RLIMIT_AS, (memory, resource.getrlimit(resource.RLIMIT_AS)[1]))
            try:
                body(i, wfd)
            finally:
                os._exit(70)
        os.close(wfd)
        live[rfd] = [pid, i, bytearray(), heart, None, time.monotonic()]
        sel.register(rfd, selectors.EVENT_READ)

    while pending or live:
        while pending and len(live) < parallel:
            launch(pending.pop(0))
        for fd, entry in list(live.items()):
            started, case = entry[3].read()
            if case is None or started != entry[4]:
                # The beat changed (or was read half written): the clock for this case starts now, on this
                # process's own clock, so neither a torn read nor a stepped system clock can look like a hang.
                entry[4], entry[5] = started, time.monotonic()
            elif time.monotonic() - entry[5] > HANG_S:
                rec.violation("no answer within %d s" % HANG_S, case, worker="%s/%d" % (label, entry[1]))
                os.kill(entry[0], signal.SIGKILL)
                entry[3].end()
                entry[2] = bytearray(pickle.dumps(Recorder()))
        for key, _ in sel.select(timeout=1.0):
            data = os.read(key.fd, 1 << 20)
            entry = live[key.fd]
            started, case = entry[3].read()
            if data:
                entry[2] += data
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            del live[key.fd]
            _, status = os.waitpid(entry[0], 0)
            if entry[2]:
                try:
                    rec.merge(pickle.loads(bytes(entry[2])))
                except Exception:
                    rec.error("%s/%d sent an unreadable result (status %d)" % (label, entry[1], status))
            elif os.WIFSIGNALED(status):
                rec.violation("process killed by a signal", case or {"worker": label, "index": entry[1]}, signal=os.WTERMSIG(status))
            else:
                rec.error("%s/%d ended without a result (status %d)" % (label, entry[1], status))


def run_jobs(check, jobs):
    """Builds every job's pipeline in its own process, then runs that job's workers there."""

    collect(lambda i, fd: _run_builder(check, jobs[i], fd), len(jobs), check.rec, label="builder")


def run_tasks(check, func, tasks, parallel=8, label="task"):
    """func(rec, task, rng) for each task in its own forked process, `parallel` at a time."""

    def body(i, wfd):
        rec = Recorder()
        try:
            func(rec, tasks[i], check.rng(label, i))
        except BaseException:
            rec.error("%s/%d: %s" % (label, i, traceback.format_exc()))
        try:
            _write_all(wfd, pickle.dumps(rec))
        finally:
            os._exit(0)

    collect(body, len(tasks), check.rec, label=label, parallel=parallel)
