"""A tiny grammar on the real Processor.build_fst, so that thousands of cache histories can be run.

Toy(root, key, variant): `key` is part of the cache configuration (a different key must never share a cache entry), `variant` marks one
particular build: normalize("a") is "key/variant", and a tagger paired with another build's verbalizer cannot answer at all.
"""

import ctypes
import json
import os
import select
import signal
import sys
import time
import traceback

import vf

vf.quiet_logging()
import pynini
from pynini.lib.pynutil import delete, insert
from tn.processor import Processor

FILLER = {}
EVENTS = None  # file descriptor of an O_APPEND event log


def event(*fields):
    if EVENTS is not None:
        os.write(EVENTS, (json.dumps([time.monotonic(), os.getpid()] + list(fields)) + "\n").encode())


def filler(n):
    """Makes the graphs of different variants differ in size too."""

    if n not in FILLER and n >= 1000:
        FILLER[n] = pynini.union(*["y%05d%05d%d" % (i * 7919 % 65536, i * 104729 % 99991, n) for i in range(45000)])
    if n not in FILLER:
        FILLER[n] = pynini.union(*["z%dq%d" % (n, i) for i in range(40 + 13 * (n % 50))]).optimize()
    return FILLER[n]


class Toy(Processor):

    def __init__(self, root, key="k", variant=1, overwrite=False, config=None, build_hook=None, prefix="toy"):
        super().__init__(name="toy")
        self.key = key
        self.mark = "%s/%d" % (key, variant)
        self.variant = variant
        self.hook = build_hook
        self.built = 0
        # Hashing the real sources on every build would only cost time; C03 judges that part.
        self._source_fingerprint = lambda prefix: "fixed"
        self.build_fst(prefix, root, overwrite, {"key": key} if config is None else config)

    def build_tagger(self):
        self.built += 1
        if self.hook:
            self.hook()
        tagger = insert('char { value: "') + (pynini.cross("a", self.mark) | filler(self.variant)) + insert('" }')
        self.tagger = tagger.optimize()

    def build_verbalizer(self):
        graph = delete('char { value: "') + (pynini.accep(self.mark) | filler(self.variant)) + delete('" }')
        self.verbalizer = graph.optimize()

    def answer(self):
        return self.normalize("a")


class Trap:
    """The preloaded system-call monitor; absent when the process was started without it."""

    def __init__(self):
        path = os.environ.get("VERIF_TRAP")
        self.lib = ctypes.CDLL(path) if path else None

    def arm(self, root, log_fd=-1, n=-1, action=0, err=0, delay=0, seed=1):
        self.lib.iotrap_arm(os.path.realpath(root).encode(), log_fd, n, action, err, delay, seed)

    def disarm(self):
        return self.lib.iotrap_disarm()


TRAP = Trap()


def in_child(body, timeout=15.0):
    """Runs body() in a forked process: ("ok", value), ("raised", [type, text]), ("killed", signal) or ("hang", None)."""

    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            try:
                result = ["ok", body()]
            except BaseException as error:
                mro = [c.__name__ for c in type(error).__mro__]
                result = ["raised", [type(error).__name__, short(error), mro, traceback.format_exc()[-1500:]]]
            if TRAP.lib:
                TRAP.disarm()
            os.write(wfd, json.dumps(result).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    deadline = time.monotonic() + timeout
    while True:
        ready, _, _ = select.select([rfd], [], [], max(0.0, deadline - time.monotonic()))
        if not ready:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rfd)
            return "hang", None
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return "killed", os.WTERMSIG(status)
    if not data:
        return "killed", -os.WEXITSTATUS(status)
    kind, value = json.loads(data.decode())
    return kind, value


def short(value):
    return vf.short(str(value), 300)


def with_trap(name):
    """Restarts this program under the preloaded monitor, compiled now, and exits with its status."""

    if os.environ.get("VERIF_TRAP"):
        return
    import subprocess

    with vf.Scratch(name) as scratch:
        so = os.path.join(scratch, "iotrap.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(vf.VERIF, "lib", "iotrap.c"), "-ldl"], check=True)
        env = vf.child_env(scratch, VERIF_TRAP=so, LD_PRELOAD=so, VERIF_SEED=str(vf.SEED), VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
        env.pop("WETEXTPROCESSING_CACHE_LOCK_TIMEOUT", None)
        code = subprocess.run([sys.executable] + sys.argv, env=env).returncode
    sys.exit(code)
