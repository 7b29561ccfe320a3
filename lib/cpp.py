"""Builds the C++ runtime of /repo with sanitizers against stand-in OpenFst/glog/gflags headers, and talks to the driver."""

import glob
import os
import re
import resource
import subprocess
import tempfile

import vf

HERE = os.path.join(vf.VERIF, "cpp")
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"]
ORDER_TYPES = {"zh_tn": 0, "zh_itn": 1, "en_tn": 2, "en_itn": 3, "ja_tn": 4, "ja_itn": 5}


def sources():
    runtime = os.path.join(vf.REPO, "runtime")
    return sorted(glob.glob(os.path.join(runtime, "processor", "*.cc")) + glob.glob(os.path.join(runtime, "utils", "*.cc")))


def includes():
    jdk = sorted(glob.glob("/usr/lib/jvm/*/include/jni.h"))
    out = ["-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(vf.REPO, "runtime")]
    return out + (["-I" + os.path.dirname(jdk[0]), "-I" + os.path.join(os.path.dirname(jdk[0]), "linux")] if jdk else [])


class BuildError(Exception):
    pass


def build(folder, targets, parallel=8):
    """targets: {output name: (flags, [main sources], extra link flags)}; every object is compiled from /repo's tree as it is now."""

    compiles, links = [], []
    for out, (flags, mains, link) in targets.items():
        objects = []
        for source in sources() + mains:
            obj = os.path.join(folder, out + "-" + re.sub(r"\W", "_", source) + ".o")
            compiles.append(["g++", "-std=c++20", "-fPIC", "-pthread", "-c", *flags, *includes(), source, "-o", obj])
            objects.append(obj)
        links.append(["g++", "-pthread", *flags, *objects, *link, "-o", os.path.join(folder, out)])
    for stage in (compiles, links):
        running, waiting = [], list(stage)
        while running or waiting:
            while waiting and len(running) < parallel:
                command = waiting.pop(0)
                log = tempfile.TemporaryFile(dir=folder)
                running.append((subprocess.Popen(command, stdout=log, stderr=subprocess.STDOUT, cwd=folder), log, command))
            process, log, command = running.pop(0)
            if process.wait() != 0:
                log.seek(0)
                for other, _, _ in running:
                    other.kill()
                    other.wait()
                raise BuildError("%s\n%s" % (" ".join(command), log.read().decode("utf-8", "replace")[-6000:]))
            log.close()


ENV = {
    # Leaks are judged by the allocation counter: LeakSanitizer needs ptrace, which a sandbox may refuse.
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0",
}


def free_memory():
    """Sanitizers reserve address space: lift the limit put on the Python worker."""

    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class Died(Exception):
    """The driver ended: a sanitizer report, an abort or a crash."""


class Driver:
    """One running driver process."""

    def __init__(self, binary, scratch, prefix=()):
        self.binary = binary
        self.log = tempfile.TemporaryFile(dir=scratch)
        self.process = subprocess.Popen([*prefix, binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env={**os.environ, **ENV}, cwd=scratch, preexec_fn=free_memory)
        self.calls = 0

    def _line(self):
        line = self.process.stdout.readline()
        if not line.endswith(b"\n"):
            raise Died(self.report())
        return int(line)

    def _item(self):
        n = self._line()
        data = self.process.stdout.read(n)
        if len(data) != n:
            raise Died(self.report())
        return data

    def report(self):
        self.process.kill()
        code = self.process.wait()
        self.log.seek(0)
        text = self.log.read().decode("utf-8", "replace")
        return "status %s: %s" % (code, text[-3500:])

    def ask(self, op, *args):
        out = [("%s %d\n" % (op, len(args))).encode()]
        for a in args:
            a = a if isinstance(a, bytes) else str(a).encode("utf-8", "surrogatepass")
            out += [b"%d\n" % len(a), a]
        self.calls += 1
        try:
            self.process.stdin.write(b"".join(out))
            self.process.stdin.flush()
        except (BrokenPipeError, OSError):
            raise Died(self.report())
        return [self._item() for _ in range(self._line())]

    def close(self):
        """Ends the driver; returns a report if it did not end well."""

        try:
            self.process.stdin.close()
        except OSError:
            pass
        self.process.stdout.read()
        code = self.process.wait()
        self.log.seek(0)
        text = self.log.read().decode("utf-8", "replace")
        self.log.close()
        return None if code == 0 else "status %s: %s" % (code, text[-3500:])
