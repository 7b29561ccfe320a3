"""C01-C05: the compiled-graph cache under crashes, I/O errors, corruption, source changes, concurrency and hostile directory content.

The real Processor.build_fst runs on a toy grammar (lib/toy.py) below a preloaded system-call monitor (lib/iotrap.c) that numbers, logs,
delays, fails or kills at every file-system change; oracles judge what later opens answer and what is left on disk.
"""

import errno
import hashlib
import itertools
import json
import os
import random
import shutil
import signal
import stat
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
import toy
from toy import Toy, TRAP, in_child

PROP = sys.argv[1]
NO_BUILD = 999  # variant offered by probes that must not need to build


def reopen(root, variant, overwrite=False, key="k", **kw):
    def body():
        t = Toy(root, key, variant, overwrite, **kw)
        return [t.answer(), t.built]

    return in_child(body)


def tree(root):
    """Everything below root as {relative path: (kind, digest or target)}."""

    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(folder, name)
            rel = os.path.relpath(path, root)
            st = os.lstat(path)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(path))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", "")
            elif stat.S_ISREG(st.st_mode):
                with open(path, "rb") as f:
                    out[rel] = ("file", hashlib.sha256(f.read()).hexdigest())
            else:
                out[rel] = ("special", "")
    return out


def bundles(root):
    """Directories that hold compiled graphs, wherever the cache put them."""

    return sorted(os.path.relpath(folder, root) for folder, _, files in os.walk(root) if any(f.endswith(".fst") for f in files))


def residuals(root):
    """Directories and files a build leaves behind besides published bundles, their parents and lock files."""

    found = []
    live = {b for b in bundles(root) if not os.path.basename(b).startswith(".")}
    for folder, dirs, files in os.walk(root):
        rel = os.path.relpath(folder, root)
        if rel in live or rel == ".":
            continue
        if os.path.basename(rel).startswith("."):
            found.append(rel)
    return found


# ---------------------------------------------------------------------------------------------------------------
# C01


def make_scenario(name, root):
    """Returns (overwrite of the interrupted build, variants a later open may answer, whether a rebuild is acceptable)."""

    if name == "first build":
        return False, {2}, True
    reopen(root, 1)
    if name == "overwrite":
        return True, {1, 2}, False
    if name == "corrupt bundle":
        path = os.path.join(root, bundles(root)[0], "tagger.fst")
        with open(path, "r+b") as f:
            f.seek(40)
            f.write(b"\xff\xff\xff\xff")
        return False, {2}, True
    if name == "leftovers and no bundle":
        # what a crash between the two renames of an overwrite leaves
        bundle = os.path.join(root, bundles(root)[0])
        parent, digest = os.path.split(bundle)
        os.rename(bundle, os.path.join(parent, ".%s.previous-%s" % (digest, "0" * 32)))
        os.mkdir(os.path.join(parent, ".%s.tmp-abcdefgh" % digest))
        with open(os.path.join(parent, ".%s.tmp-abcdefgh" % digest, "tagger.fst"), "wb") as f:
            f.write(b"partial")
        return False, {1, 2}, False
    if name == "two leftovers and no bundle":
        # an earlier replacement could not clean up, and a later one was killed between its renames
        bundle = os.path.join(root, bundles(root)[0])
        parent, digest = os.path.split(bundle)
        aside = root + ".aside"
        shutil.rmtree(aside, ignore_errors=True)
        os.rename(bundle, aside)
        reopen(root, 4)
        for k, (source, age) in enumerate(((bundle, 0), (aside, 1000))):
            left = os.path.join(parent, ".%s.previous-%s" % (digest, "ab"[k] * 32))
            os.rename(source, left)
            os.utime(left, (2000000 - age, 2000000 - age))
        return False, {4}, False
    if name == "overwrite after leftovers":
        bundle = os.path.join(root, bundles(root)[0])
        parent, digest = os.path.split(bundle)
        shutil.copytree(bundle, os.path.join(parent, ".%s.corrupt-%s" % (digest, "1" * 32)))
        os.remove(os.path.join(parent, ".%s.corrupt-%s" % (digest, "1" * 32), "manifest.json"))
        return True, {1, 2}, False
    raise ValueError(name)


SCENARIOS = ["first build", "overwrite", "corrupt bundle", "leftovers and no bundle", "overwrite after leftovers", "two leftovers and no bundle"]
ACTIONS = {"kill before": (1, 0), "short write, then kill": (3, 0), "kill after": (4, 0), "EIO": (2, errno.EIO), "ENOSPC": (2, errno.ENOSPC),
           "EACCES": (2, errno.EACCES), "EINTR": (2, errno.EINTR)}


def allowed(answer, variants, key="k"):
    return answer in {"%s/%d" % (key, v) for v in variants}


def power_cut(root, log, r):
    """Empties or halves every file whose last write was not followed by an fsync, as a power cut may."""

    dirty = {}
    for line in log.splitlines():
        fields = line.split("\t")
        if len(fields) < 6 or fields[2] != "IN":
            continue
        op, path, path2 = fields[3:6]
        if op in ("write", "writev", "open+trunc", "truncate"):
            dirty[path] = True
        elif op == "fsync":
            dirty.pop(path, None)
        elif op == "rename":
            for known in list(dirty):
                if known == path or known.startswith(path + "/"):
                    dirty[path2 + known[len(path):]] = dirty.pop(known)
    lost = 0
    for path in dirty:
        if os.path.isfile(path) and not os.path.islink(path):
            size = os.path.getsize(path)
            os.truncate(path, r.choice([0, size // 2, max(0, size - 1)]))
            lost += 1
    return lost


def interrupted_build(root, scenario, n, action, r):
    """One build with a fault at its n-th file-system change; returns (outcome, value, log)."""

    overwrite, _, _ = scenario
    code, err = ACTIONS[action]
    log_path = root + ".log"
    fd = os.open(log_path, os.O_CREAT | os.O_RDWR | os.O_APPEND | os.O_TRUNC)

    def body():
        before = len(os.listdir("/proc/self/fd"))
        TRAP.arm(root, fd, n, code, err)
        try:
            t = Toy(root, "k", 2, overwrite)
            answer = t.answer()
        except BaseException as error:
            TRAP.disarm()
            # The same process goes on: nothing may stay locked or open.
            again = Toy(root, "k", 3, False)
            return ["failed", type(error).__name__, again.answer(), len(os.listdir("/proc/self/fd")) - before]
        TRAP.disarm()
        return ["built", answer, t.built, len(os.listdir("/proc/self/fd")) - before]

    try:
        outcome = in_child(body, timeout=40)
    finally:
        os.close(fd)
    with open(log_path) as f:
        log = f.read()
    os.remove(log_path)
    return outcome[0], outcome[1], log


def c01_case(rec, scratch, name, n, action, r, cut):
    case = {"scenario": name, "fault": "%s at change %d" % (action, n), "power cut": cut}
    root = os.path.join(scratch, "c%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    scenario = make_scenario(name, root)
    overwrite, variants, may_rebuild = scenario
    outcome, value, log = interrupted_build(root, scenario, n, action, r)
    changes = [l.split("\t") for l in log.splitlines()]
    rec.event("file-system changes seen", len(changes))
    hit = len([c for c in changes if c[2] == "IN" and int(c[1]) >= n]) > 0
    if hit:
        op = next(c for c in changes if c[1] == str(n))
        rec.event("fault at " + op[3])
        rec.state("fault points", (name, op[3], os.path.basename(op[4])[-13:], action))
    rec.case((name, n, action, cut), nontrivial=hit, sample=dict(case, outcome=outcome) if r.random() < 0.02 else None)
    rec.event("outcome " + outcome)
    if outcome == "hang":
        rec.violation("the interrupted build hangs", case, log=log[-1500:])
        return hit
    if outcome == "raised":
        rec.violation("the process cannot open the cache again after a failed build", case, error=value)
        return hit
    if outcome == "ok":
        if value[0] == "built":
            rec.expect(allowed(value[1], variants), "the build answers with a foreign or mixed graph pair", case, got=value)
            if overwrite:
                rec.expect(allowed(value[1], {2}), "an overwriting build that reports success answers with older graphs", case, got=value)
        else:
            rec.event("error " + value[1])
            rec.expect(allowed(value[2], variants | {3}), "after a failed build the same process answers wrongly", case, got=value)
            if not may_rebuild:
                rec.expect(allowed(value[2], variants), "a failed build lost the previous bundle", case, got=value)
        rec.expect(value[-1] <= 0, "file descriptors leak", case, got=value)
        if value[0] == "failed":
            variants = variants | {3}
    lost = 0
    if cut:
        lost = power_cut(root, log, r)
        rec.event("files cut", lost)
    probe, got = reopen(root, NO_BUILD)
    if rec.expect(probe == "ok", "the cache cannot be opened after the fault", case, outcome=probe, error=got):
        if may_rebuild or (lost and name == "first build"):
            rec.expect(allowed(got[0], variants | {NO_BUILD}), "after the fault an open answers with a foreign or mixed pair", case, got=got)
        else:
            rec.expect(allowed(got[0], variants), "the fault lost the previous bundle", case, got=got)
        rec.event("probes that rebuilt", got[1])
    probe, got = reopen(root, 5, overwrite=True)
    if rec.expect(probe == "ok" and allowed(got[0], {5}), "a later overwriting build does not succeed", case, outcome=probe, got=got):
        left = residuals(root)
        rec.expect(not left, "interrupted builds leave debris behind after a later successful build", case, left=left)
    probe, got = reopen(root, NO_BUILD)
    rec.expect(probe == "ok" and allowed(got[0], {5}) and got[1] == 0, "the repaired cache is not used", case, outcome=probe, got=got)
    return hit


def c01_sweep(rec, task, r):
    """Every fault point of one scenario and action until the build runs through untouched."""

    name, action, cut, points = task
    with vf.Scratch("c01") as scratch:
        for n in points:
            vf.HEART.begin({"task": str(task[:3]), "n": n})
            hit = c01_case(rec, scratch, name, n, action, r, cut)
            vf.HEART.end()
            if not hit:
                break


def c01_history(rec, task, r):
    """Several interrupted builds in a row, with and without overwrite, then recovery."""

    with vf.Scratch("c01h") as scratch:
        for k in range(task["count"]):
            root = os.path.join(scratch, "h")
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            variants = set()
            complete = False
            trail = []
            for step in range(r.randint(2, 5)):
                variant = 10 + step
                overwrite = r.random() < 0.6
                n, action = r.randint(1, 45), r.choice(list(ACTIONS))
                code, err = ACTIONS[action]
                trail.append([variant, overwrite, n, action])
                vf.HEART.begin({"history": trail})

                def body():
                    TRAP.arm(root, -1, n, code, err)
                    t = Toy(root, "k", variant, overwrite)
                    TRAP.disarm()
                    return [t.answer(), t.built]

                outcome, value = in_child(body, 40)
                vf.HEART.end()
                case = {"history": [list(t) for t in trail]}
                rec.event("history step " + outcome)
                if outcome == "hang":
                    rec.violation("a build hangs after earlier faults", case)
                    break
                variants.add(variant)
                if outcome == "ok":
                    rec.expect(allowed(value[0], variants), "an open answers with a foreign or mixed pair", case, got=value)
                    complete = True
                # From the first success on, some complete bundle must survive every later fault.
                probe, got = reopen(root, NO_BUILD) if complete or r.random() < 0.3 else ("skip", None)
                if probe != "skip":
                    ok = rec.expect(probe == "ok", "the cache cannot be opened after faults", case, outcome=probe, got=got)
                    if ok and complete:
                        rec.expect(allowed(got[0], variants | {NO_BUILD}), "an open answers with a foreign or mixed pair", case, got=got)
                        rec.expect(got[1] == 0, "faults lost every complete bundle", case, got=got)
                    elif ok:
                        rec.expect(allowed(got[0], variants | {NO_BUILD}), "an open answers with a foreign or mixed pair", case, got=got)
                        complete = True
                    variants.add(NO_BUILD)
            rec.case(("history", repr(trail)), sample={"history": trail} if k == 0 else None)


def c01(check):
    tasks = []
    actions = list(ACTIONS)
    for name in SCENARIOS:
        for action in actions:
            for cut in (False, True):
                if cut and not action.startswith(("kill", "short")):
                    continue
                if check.thorough or not cut:
                    tasks += [("sweep", (name, action, cut, list(range(1, 90))[i::3])) for i in range(3)]
                else:
                    tasks += [("sweep", (name, action, cut, sorted(check.rng(name, action).sample(range(1, 60), 14))))]
    tasks += [("history", {"count": check.pick(25, 1200)})] * check.pick(8, 24)

    def run(rec, task, r):
        (c01_sweep if task[0] == "sweep" else c01_history)(rec, task[1], r)

    vf.run_tasks(check, run, tasks)


# ---------------------------------------------------------------------------------------------------------------
# C02


def damage(r, root, other):
    """Damages one published bundle; returns a description and whether an error (not only a rebuild) is a correct answer."""

    bundle = os.path.join(root, [b for b in bundles(root) if not os.path.basename(b).startswith(".")][0])
    names = ["tagger.fst", "verbalizer.fst", "manifest.json"]
    name = r.choice(names)
    path = os.path.join(bundle, name)
    with open(path, "rb") as f:
        data = f.read()
    manifest = json.load(open(os.path.join(bundle, "manifest.json"), encoding="utf8"))

    def put(value, where=path):
        if os.path.isfile(where):
            os.remove(where)  # never write through a link into another bundle
        with open(where, "wb") as f:
            f.write(value)

    def copy(n):
        with open(os.path.join(other, n), "rb") as f:
            put(f.read(), os.path.join(bundle, n))

    kind = r.choice(["flip", "flip", "truncate", "extend", "zero", "garbage", "empty", "missing", "swap", "other generation", "other manifest", "field", "field", "files",
                     "json", "extra file", "extra directory", "link", "hard link", "directory", "fifo", "bundle is a file", "bundle is a link", "permission", "splice", "forged", "forged"])
    if kind == "flip":
        k = r.randrange(len(data))
        put(data[:k] + bytes([data[k] ^ (1 << r.randrange(8))]) + data[k + 1:])
        return "%s %s byte %d" % (kind, name, k), False
    if kind == "truncate":
        k = r.randrange(len(data))
        put(data[:k])
        return "%s %s at %d" % (kind, name, k), False
    if kind == "extend":
        put(data + bytes(r.randrange(256) for _ in range(r.randint(1, 40))))
    elif kind == "zero":
        k = r.randrange(len(data))
        put(data[:k] + bytes(min(16, len(data) - k)) + data[k + 16:])
    elif kind == "garbage":
        put(bytes(r.randrange(256) for _ in range(len(data))))
    elif kind == "empty":
        put(b"")
    elif kind == "missing":
        os.remove(path)
    elif kind == "swap":
        a, b = (os.path.join(bundle, n) for n in names[:2])
        os.rename(a, a + "x")
        os.rename(b, a)
        os.rename(a + "x", b)
    elif kind == "other generation":
        copy(r.choice(names[:2]))
    elif kind == "other manifest":
        copy("manifest.json")
    elif kind == "splice":
        # a whole bundle of another configuration under this name
        for n in names:
            copy(n)
    elif kind == "forged":
        # Another bundle's files under a manifest some of whose identity fields are right, some lost, some still foreign.
        for n in names:
            copy(n)
        foreign = json.load(open(os.path.join(bundle, "manifest.json"), encoding="utf8"))
        identity = sorted(k for k in foreign if k != "files")
        fates = {k: r.choice(["right", "lost", "lost", "foreign"]) for k in identity}
        if r.random() < 0.4:
            fates = {k: "right" for k in identity}
        wrong = sorted(k for k in identity if fates[k] == "lost" or (fates[k] == "foreign" and foreign[k] != manifest.get(k)))
        if not wrong:
            wrong = [r.choice(identity)]
            fates[wrong[0]] = "lost"
        for k in identity:
            if fates[k] == "right":
                foreign[k] = manifest.get(k)
            elif fates[k] == "lost":
                del foreign[k]
        put(json.dumps(foreign).encode(), os.path.join(bundle, "manifest.json"))
        return "forged manifest, wrong: " + ",".join(wrong), False
    elif kind == "field":
        key = r.choice(sorted(manifest))
        manifest[key] = r.choice([None, "", 0, [], {}, "x", 2**70, True, -1])
        put(json.dumps(manifest).encode(), os.path.join(bundle, "manifest.json"))
        name = "%s=%r" % (key, manifest[key])
    elif kind == "files":
        entry = manifest["files"][r.choice(names[:2])]
        field = r.choice(["size", "sha256"])
        entry[field] = r.choice([None, "", 0, True, -1, 2**40, 2**62, 2**63, 2**70, 1.5, "0" * 64, [], {}, entry["size"] + 1, entry["size"] - 1])
        if r.random() < 0.2:
            manifest["files"][r.choice(["x", "../tagger.fst"])] = {"size": 1, "sha256": "0"}
        put(json.dumps(manifest).encode(), os.path.join(bundle, "manifest.json"))
        name = "%s=%r" % (field, entry[field])
    elif kind == "json":
        text = r.choice(["[]", "null", "1", '"x"', "{", '{"files": 3}', "[" * 200000, "\ufeff{}", "{}{}", "NaN", '{"a":' * 3000, "9" * 6000])
        put(text.encode("utf-8"), os.path.join(bundle, "manifest.json"))
        name = vf.short(text, 20)
    elif kind == "extra file":
        put(b"keep me", os.path.join(bundle, "notes.txt"))
    elif kind == "extra directory":
        os.makedirs(os.path.join(bundle, "sub"), exist_ok=True)
        put(b"keep me", os.path.join(bundle, "sub", "notes.txt"))
    elif kind == "link":
        os.remove(path)
        os.symlink(os.path.join(other, name), path)
        return "%s %s" % (kind, name), True
    elif kind == "hard link":
        os.remove(path)
        os.link(os.path.join(other, name), path)
    elif kind == "directory":
        os.remove(path)
        os.mkdir(path)
        return "%s %s" % (kind, name), True
    elif kind == "fifo":
        os.remove(path)
        os.mkfifo(path)
        return "%s %s" % (kind, name), True
    elif kind == "bundle is a file":
        shutil.rmtree(bundle)
        put(b"file", bundle)
        return kind, True
    elif kind == "bundle is a link":
        shutil.rmtree(bundle)
        os.symlink(other, bundle)
        return kind, True
    elif kind == "permission":
        os.chmod(path, 0)
    return "%s %s" % (kind, name), False


def deep_damage(r, root):
    """Damages one graph file of a bundle anywhere in it, keeping its length more often than not; returns a description."""

    bundle = os.path.join(root, [b for b in bundles(root) if not os.path.basename(b).startswith(".")][0])
    name = r.choice(["tagger.fst", "tagger.fst", "verbalizer.fst"])
    path = os.path.join(bundle, name)
    with open(path, "rb") as f:
        data = bytearray(f.read())
    kind = r.choice(["flip", "flip", "zero", "move", "cut", "grow"])
    # The end, the middle, or right behind a power of two, where a reader that works in blocks would stop looking.
    k = r.choice([len(data) - 1 - r.randrange(min(64, len(data))), r.randrange(len(data)), min(len(data) - 1, (1 << r.randrange(9, 23)) + r.randrange(-2, 3))])
    before = bytes(data)
    if kind == "flip":
        data[k] ^= 1 << r.randrange(8)
    elif kind == "zero":
        data[k:k + 64] = bytes(len(data[k:k + 64]))
    elif kind == "move":
        data = data[k:] + data[:k]
    elif kind == "cut":
        del data[k:k + 16]
    else:
        data[k:k] = bytes(r.randrange(256) for _ in range(4))
    if bytes(data) == before:
        data[k] ^= 1
    os.remove(path)
    with open(path, "wb") as f:
        f.write(data)
    return "deep %s %s byte %d of %d" % (kind, name, k, len(before))


def c02_deep(rec, task, r):
    """Graph files of real size (megabytes), damaged anywhere: the damage must be noticed before the graphs are believed."""

    with vf.Scratch("c02d") as scratch:
        template = os.path.join(scratch, "template")
        os.makedirs(template)
        in_child(lambda: Toy(template, "k", 1001).answer(), timeout=60)
        for k in range(task["deep"]):
            root = os.path.join(scratch, "r")
            shutil.rmtree(root, ignore_errors=True)
            shutil.copytree(template, root, symlinks=True)
            what = deep_damage(r, root)
            case = {"damage": what}
            vf.HEART.begin(case)
            outcome, got = reopen(root, 2)
            vf.HEART.end()
            rec.event("deep damages")
            rec.case(what, sample=dict(case, outcome=outcome) if k % 97 == 5 else None)
            if not rec.expect(outcome in ("ok", "raised"), "opening a damaged cache hangs or crashes", case, outcome=outcome, got=got):
                continue
            rec.expect(outcome == "ok" and got[1] == 1 and got[0] == "k/2", "a graph file that is not what was published is believed", case, outcome=outcome, got=got)


def c02_task(rec, task, r):
    if task.get("deep"):
        return c02_deep(rec, task, r)
    with vf.Scratch("c02") as scratch:
        other_root = os.path.join(scratch, "other")
        os.makedirs(other_root)
        in_child(lambda: Toy(other_root, "k", 77).answer())
        other_key = os.path.join(scratch, "otherkey")
        os.makedirs(other_key)
        in_child(lambda: Toy(other_key, "q", 78).answer())
        others = [os.path.join(x, bundles(x)[0]) for x in (other_root, other_key)]
        template = os.path.join(scratch, "template")
        os.makedirs(template)
        in_child(lambda: Toy(template, "k", 1).answer())
        for k in range(task["count"]):
            root = os.path.join(scratch, "r")
            shutil.rmtree(root, ignore_errors=True)
            shutil.copytree(template, root, symlinks=True)
            pick = r.randrange(2)
            before = [tree(others[0]), tree(others[1])]
            what, may_fail = damage(r, root, others[pick])
            if r.random() < 0.25 and not may_fail and manifest_readable(root):
                more, may = damage(r, root, others[pick])
                what, may_fail = what + "; " + more, may_fail or may
            case = {"damage": what}
            vf.HEART.begin(case)
            outcome, got = reopen(root, 2)
            vf.HEART.end()
            rec.event("outcome " + outcome)
            rec.event("damage " + what.split(" ")[0])
            rec.case(what, sample=dict(case, outcome=outcome) if k % 97 == 5 else None)
            if not rec.expect(outcome in ("ok", "raised"), "opening a damaged cache hangs or crashes", case, outcome=outcome, got=got):
                continue
            if outcome == "raised":
                rec.event("refused " + got[0])
                rec.expect(may_fail and "CacheError" in got[2], "a damaged cache is not repaired but breaks the pipeline", case, error=got)
            else:
                # A complete bundle of the same key that was put there whole is as good as the cache's own (variant 77).
                valid = {1, 2} | ({77} if pick == 0 else set())
                rec.expect(allowed(got[0], valid), "a damaged cache answers with foreign or mixed graphs", case, got=got)
                rec.event("rebuilt" if got[1] else "still valid")
                outcome2, got2 = reopen(root, NO_BUILD)
                rec.expect(outcome2 == "ok" and got2[1] == 0 and got2[0] == got[0], "the repaired cache is not used by the next open", case, got=got2)
            after = [tree(others[0]), tree(others[1])]
            rec.expect(before == after, "files outside the cache root changed", case)


def manifest_readable(root):
    """Whether every file of the bundle is still there to be damaged once more."""

    try:
        bundle = os.path.join(root, bundles(root)[0])
        with open(os.path.join(bundle, "manifest.json"), encoding="utf8") as f:
            files = json.load(f)["files"]
        names = ("tagger.fst", "verbalizer.fst")
        return all(type(files[n]["size"]) is int for n in names) and all(os.path.getsize(os.path.join(bundle, n)) > 0 for n in names)
    except (OSError, ValueError, RecursionError, IndexError, KeyError, TypeError):
        return False


def c02(check):
    vf.run_tasks(check, c02_task, [{"count": check.pick(250, 9000)}] * 8 + [{"deep": check.pick(40, 1500)}] * 8)


# ---------------------------------------------------------------------------------------------------------------
# C03


class Stub(Exception):
    pass


def package_copy(scratch):
    target = os.path.join(scratch, "src%d" % os.getpid())
    shutil.rmtree(target, ignore_errors=True)
    for name in ("tn", "itn"):
        shutil.copytree(os.path.join(vf.REPO, name), os.path.join(target, name), ignore=shutil.ignore_patterns("__pycache__"))
    return target


def source_files(root):
    out = []
    for folder, dirs, files in os.walk(root):
        for f in files:
            out.append(os.path.relpath(os.path.join(folder, f), root))
    return sorted(out)


def matters(rel):
    parts = rel.split(os.sep)
    return os.path.splitext(rel)[1] in (".py", ".tsv", ".far") and "test" not in parts and "__pycache__" not in parts and parts[-1] != "_version.py"


def c03_sources(rec, task, r):
    from tn.cache import production_source_fingerprint as fingerprint

    with vf.Scratch("c03") as scratch:
        root = package_copy(scratch)
        base = fingerprint(root)
        rec.expect(fingerprint(root) == base, "the same sources have two keys", {"edit": "none"})
        again = os.path.join(scratch, "again")
        shutil.copytree(root, again)
        for folder, dirs, files in os.walk(again):
            for f in files:
                os.utime(os.path.join(folder, f), (1, 1))
        rec.expect(fingerprint(again) == base, "the key depends on where or when the sources were written, not on their content", {"edit": "copied"})
        shutil.rmtree(again)
        files = source_files(root)
        grammar = [f for f in files if matters(f)]
        ignored = [f for f in files if not matters(f)]
        todo = task["files"] if task["files"] is not None else r.sample(grammar, min(task["count"], len(grammar)))
        for rel in todo:
            if rel not in grammar:
                continue
            path = os.path.join(root, rel)
            with open(path, "rb") as f:
                data = f.read()
            edits = ["append", "flip", "truncate", "rename", "remove", "line swap", "other package", "other folder", "other suffix", "other case"]
            edit = r.choice(edits)
            moved = None
            if edit == "flip" and data:
                k = r.randrange(len(data))
                new = data[:k] + bytes([data[k] ^ 1]) + data[k + 1:]
            elif edit == "truncate" and data:
                new = data[:-1]
            elif edit == "line swap" and len(set(data.splitlines())) > 1:
                lines = data.splitlines(True)
                i = r.randrange(len(lines) - 1)
                lines[i], lines[i + 1] = lines[i + 1], lines[i]
                new = b"".join(lines)
            elif edit == "rename":
                new = None
                moved = os.path.join(os.path.dirname(path), r.choice(["renamed_", "test_", "_", "."]) + os.path.basename(path))
            elif edit == "other package":
                new = None
                package, rest = rel.split(os.sep, 1)
                moved = os.path.join(root, {"tn": "itn", "itn": "tn"}[package], rest)
            elif edit == "other folder":
                new = None
                folder = os.path.join(os.path.dirname(path), r.choice(["sub", "testing", "data"]))
                moved = os.path.join(r.choice([folder, os.path.dirname(os.path.dirname(path))]), os.path.basename(path))
            elif edit == "other suffix":
                new = None
                moved = os.path.splitext(path)[0] + r.choice([x for x in (".py", ".tsv", ".far") if not path.endswith(x)])
            elif edit == "other case":
                new = None
                moved = os.path.join(os.path.dirname(path), os.path.basename(path).swapcase().replace(".PY", ".py").replace(".TSV", ".tsv").replace(".FAR", ".far"))
            elif edit == "remove":
                new = None
            else:
                new = data + b"\n#"
            if new == data or (moved and (os.path.exists(moved) or not matters(os.path.relpath(moved, root)) or os.path.dirname(moved) == root)):
                continue
            os.remove(path)
            if moved:
                os.makedirs(os.path.dirname(moved), exist_ok=True)
            if new is not None:
                with open(path, "wb") as f:
                    f.write(new)
            if moved:
                with open(moved, "wb") as f:
                    f.write(data)
            case = {"edit": edit, "file": rel}
            rec.expect(fingerprint(root) != base, "an edit of the grammar sources keeps the cache key", case)
            rec.case((edit, rel), sample=case if r.random() < 0.02 else None)
            rec.event("source edit " + edit)
            if moved:
                os.remove(moved)
            with open(path, "wb") as f:
                f.write(data)
            if r.random() < 0.1:
                rec.expect(fingerprint(root) == base, "restored sources have another key", case)
        # Content moved from the head of one file to the tail of the one before it, framing bytes included: still an edit.
        for _ in range(task["count"] // 4):
            i = r.randrange(len(grammar) - 1)
            first, second = (os.path.join(root, g) for g in sorted(grammar)[i:i + 2])
            a, b = open(first, "rb").read(), open(second, "rb").read()
            k = r.randrange(len(b) + 1)
            if k == 0:
                continue
            open(first, "wb").write(a + b[:k])
            open(second, "wb").write(b[k:])
            rec.expect(fingerprint(root) != base, "moving text between two sources keeps the cache key", {"edit": "move", "file": sorted(grammar)[i], "bytes": k})
            name = os.path.relpath(second, root).encode()
            os.remove(second)
            open(first, "wb").write(a + len(name).to_bytes(8, "big") + name + b)
            rec.expect(fingerprint(root) != base, "a source merged into its neighbour keeps the cache key", {"edit": "merge", "file": sorted(grammar)[i]})
            rec.case(("move", i, k))
            rec.event("source edit move")
            open(first, "wb").write(a)
            open(second, "wb").write(b)
        for _ in range(task["count"] // 4):
            rel = os.path.join(r.choice(["tn/chinese/data", "itn/english/rules", "tn", "itn/japanese/data/number"]), "new%d%s" % (r.randrange(10**6), r.choice([".tsv", ".py", ".far"])))
            with open(os.path.join(root, rel), "wb") as f:
                f.write(b"" if r.random() < 0.3 else b"x\ty\n")
            rec.expect(fingerprint(root) != base, "a new grammar source keeps the cache key", {"edit": "add", "file": rel})
            rec.case(("add", rel))
            rec.event("source edit add")
            os.remove(os.path.join(root, rel))
        rec.expect(fingerprint(root) == base, "restored sources have another key", {"edit": "all undone"})
        # Tests, caches and documentation do not take part: the cache would otherwise never be used.
        for rel in r.sample(ignored, min(8, len(ignored))):
            with open(os.path.join(root, rel), "ab") as f:
                f.write(b"\n#")
            rec.event("edits outside the grammar")
        rec.expect(fingerprint(root) == base, "an edit outside the grammar changes the cache key", {"edit": "test files"})


def c03_projects(rec, task, r):
    """Small random source trees, pairwise: two have the same key exactly when their grammar sources are the same."""

    from tn.cache import production_source_fingerprint as fingerprint

    names = ["a.tsv", "b.tsv", "a.py", "a", "a.far", "ab.tsv", "__init__.py", "test_a.py", "tests.tsv", ".a.tsv", "A.tsv", "a.b.tsv", "_version.tsv", "東.tsv", "a b.py"]
    folders = ["tn", "itn", "tn/x", "itn/x", "tn/x/y", "itn/x/y", "tn/tn", "tn/data", "itn/data", "tn/tests", "itn/itn"]
    outside = ["README.md", "tn/test/a.tsv", "itn/x/test/b.py", "tn/__pycache__/a.py", "tn/_version.py", "docs/a.py", "a.tsv", "tn/a.txt", "itn/a.pyc", "tn/x.tsv.bak"]
    texts = [b"", b"x", b"x\n", b"x\ty\n", b"a.tsv", b"\r\n", b"\n", b"x\r\n", b"x ", b"\xff\xfe", b"X", b"y\tx\n", bytes(8), b"x" * 300]
    with vf.Scratch("c03p") as scratch:
        seen = {}
        for k in range(task["count"]):
            if k % 3 == 0 or not seen:
                content = {"%s/%s" % (r.choice(folders), r.choice(names)): r.choice(texts) for _ in range(r.randint(1, 4))}
            else:
                content = dict(last)
                for _ in range(r.randint(1, 2)):
                    key = r.choice(sorted(content))
                    edit = r.choice(["move", "package", "rename", "text", "swap", "drop", "add"])
                    if edit == "move":
                        content["%s/%s" % (r.choice(folders), key.rsplit("/", 1)[1])] = content.pop(key)
                    elif edit == "package":
                        content[key[1:] if key.startswith("itn/") else "i" + key] = content.pop(key)
                    elif edit == "rename":
                        content["%s/%s" % (key.rsplit("/", 1)[0], r.choice(names))] = content.pop(key)
                    elif edit == "text":
                        content[key] = r.choice(texts)
                    elif edit == "swap":
                        other = r.choice(sorted(content))
                        content[key], content[other] = content[other], content[key]
                    elif edit == "drop" and len(content) > 1:
                        del content[key]
                    else:
                        content["%s/%s" % (r.choice(folders), r.choice(names))] = r.choice(texts)
            last = content
            root = os.path.join(scratch, "p%d" % k)
            noise = {r.choice(outside): r.choice(texts) for _ in range(r.randint(0, 3))}
            for rel, data in {**content, **noise}.items():
                path = os.path.join(root, rel)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.write(data)
            for package in ("tn", "itn"):
                os.makedirs(os.path.join(root, package), exist_ok=True)
            key = fingerprint(root)
            shutil.rmtree(root)
            state = tuple(sorted((rel, data) for rel, data in content.items() if matters(rel)))
            case = {"sources": [[rel, data.decode("latin-1")] for rel, data in state], "others": sorted(noise)}
            if key in seen:
                rec.expect(seen[key] == state, "two different sets of sources share a cache key", case, other=seen[key])
            elif any(s == state for s in seen.values()):
                rec.violation("the same sources have two keys", case)
            seen.setdefault(key, state)
            rec.event("project states compared")
            rec.case(("project", state), sample=case if k % 97 == 1 else None)


def option_space(name):
    """Every documented boolean option of a pipeline, from its constructor."""

    import importlib
    import inspect

    module, cls = vf.PIPELINES[name]
    cls = getattr(importlib.import_module(module), cls)
    params = inspect.signature(cls.__init__).parameters
    return cls, [p for p, v in params.items() if isinstance(v.default, bool) and p not in ("overwrite_cache", "cache_dir")]


def c03_options(rec, task, r):
    """Each option setting has its own entry: with a stub grammar, a setting seen before is loaded, a new one is built."""

    import pynini
    import tn.processor

    name = task["pipeline"]
    cls, options = option_space(name)
    built = []

    def stub(self):
        built.append(1)
        self.tagger = pynini.accep("a")
        self.verbalizer = pynini.accep("a")

    if "build_tagger_and_verbalizer" in cls.__dict__:
        cls.build_tagger_and_verbalizer = stub
    else:
        cls.build_tagger = stub
        cls.build_verbalizer = lambda self: None
    if hasattr(tn.processor, "production_source_fingerprint"):
        value = tn.processor.production_source_fingerprint()
        tn.processor.production_source_fingerprint = lambda *a: value
    with vf.Scratch("c03o") as scratch:
        settings = list(itertools.product([False, True], repeat=len(options)))
        r.shuffle(settings)
        seen = set()
        for values in settings + settings[:20]:
            setting = dict(zip(options, values))
            before = len(built)
            cls(cache_dir=scratch, **setting)
            new = len(built) - before
            case = {"pipeline": name, "options": setting}
            rec.case((name, values), sample=case if r.random() < 0.03 else None)
            rec.event("option settings opened")
            if values in seen:
                rec.expect(new == 0, "the same options build again instead of using their cache entry", case)
            else:
                rec.expect(new == 1, "another option setting's cache entry is used", case)
            seen.add(values)
        rec.expect(len(bundles(scratch)) == len(seen), "entries and option settings do not match", {"pipeline": name}, entries=len(bundles(scratch)), settings=len(seen))
        rec.event("option entries", len(seen))


def c03_change_during_build(rec, task, r):
    """Sources that change while a build runs must not be published under the old key."""

    import tn.processor

    with vf.Scratch("c03d") as scratch:
        for k in range(task["count"]):
            root = os.path.join(scratch, "d%d" % k)
            state = {"value": "one"}

            class Changing(Toy):

                def build_fst(self, *args, **kw):
                    self._source_fingerprint = lambda prefix: state["value"]
                    return super().build_fst(*args, **kw)

            def body(change):
                def hook():
                    if change:
                        state["value"] = "two"

                t = Changing(root, "k", 1 if change else 2, build_hook=hook)
                return [t.answer(), t.built]

            outcome, got = in_child(lambda: body(True))
            rec.case(("change during build", k))
            rec.event("builds with changing sources")
            case = {"case": "sources change while the graphs are built"}
            if outcome == "ok":
                # Served from memory is fine; what may not happen is a later open under the old key finding it.
                rec.event("build survived the change")
            state["value"] = "one"
            outcome2, got2 = in_child(lambda: body(False))
            rec.expect(outcome2 == "ok" and got2[0] == "k/2", "graphs of changed sources were published under the old key", case, first=got, later=got2)


def c03(check):
    files = None
    tasks = []
    if check.thorough:
        every = [f for f in source_files(os.path.join(vf.REPO)) if f.split(os.sep)[0] in ("tn", "itn") and matters(f)]
        tasks += [("sources", {"count": 60, "files": every[i::24] * 6}) for i in range(24)]
    else:
        tasks += [("sources", {"count": 24, "files": None}) for i in range(6)]
    tasks += [("options", {"pipeline": name}) for name in vf.PIPELINES]
    tasks += [("projects", {"count": check.pick(250, 2500)})] * 2
    tasks += [("changing", {"count": check.pick(6, 60)})]

    def run(rec, task, r):
        {"sources": c03_sources, "projects": c03_projects, "options": c03_options, "changing": c03_change_during_build}[task[0]](rec, task[1], r)

    vf.run_tasks(check, run, tasks)


# ---------------------------------------------------------------------------------------------------------------
# C04


def check_history(rec, ops, case):
    """Offline checker: the bundle of one key is an atomic register; builds write it, opens read it."""

    writes = [o for o in ops if o["built"] and o["outcome"] != "raised"]
    rec.event("writes checked", len(writes))
    values = {o["variant"]: o for o in ops if o["built"] or o["outcome"] == "killed"}
    for o in ops:
        if o["outcome"] != "ok":
            continue
        key, variant = o["answer"].split("/")
        variant = int(variant)
        if not rec.expect(key == o["key"], "an open got another key's graphs", case, op=o):
            continue
        if o["built"]:
            rec.expect(variant == o["variant"], "a builder answers with other graphs than it built", case, op=o) if not o["shared"] else None
            continue
        rec.event("reads checked")
        if not rec.expect(variant in values, "an open got graphs nobody built", case, op=o):
            continue
        w = values[variant]
        rec.expect(w["start"] < o["end"], "an open got graphs from the future", case, op=o, write=w)
        for w2 in writes:
            if w2 is not w and w["outcome"] == "ok" and w["end"] < w2["start"] and w2["end"] < o["start"] and w2["outcome"] == "ok":
                rec.violation("an open got stale graphs although a later build had finished before it began", case, op=o, stale=w, newer=w2)
                break


def c04_round(rec, scratch, r, mode, index):
    """One workload: processes (or threads) opening a few keys at once, with delays, overwrites and kills."""

    root = os.path.join(scratch, "c")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    log = os.path.join(scratch, "events")
    fd = os.open(log, os.O_CREAT | os.O_RDWR | os.O_APPEND | os.O_TRUNC)
    actors, rounds = r.choice([(4, 3), (8, 2), (3, 5), (6, 2)])
    keys = ["k"] if r.random() < 0.6 else ["k", "q"]
    overwriting = 0.0 if mode == "one build" else r.choice([0.2, 0.5])
    killing = 0.25 if mode == "kill" else 0.0
    delay = r.choice([0, 3000, 12000])
    seed = r.getrandbits(30)
    case = {"mode": mode, "actors": actors, "rounds": rounds, "keys": len(keys), "overwrite": overwriting, "delay_us": delay, "seed": seed}
    start = time.monotonic() + 0.03
    serial = itertools.count(1)
    plan = [[(next(serial), rr.choice(keys), rr.random() < overwriting, rr.random() < killing) for _ in range(rounds)]
            for rr in [random.Random("%d/%d" % (seed, a)) for a in range(actors)]]

    def one(op, a):
        variant, key, overwrite, kill = op
        rr = random.Random("%d/%d/op" % (seed, variant))

        def hook():
            toy.event("build+", key, variant)
            time.sleep(rr.choice([0, 0, 0.002, 0.01]))
            toy.event("build-", key, variant)

        toy.event("open+", key, variant)
        try:
            t = Toy(root, key, variant, overwrite, build_hook=hook)
            toy.event("open-", key, variant, "ok", t.answer(), t.built)
        except Exception as error:
            toy.event("open-", key, variant, "raised", "%s: %s" % (type(error).__name__, error), 0)

    def process(a):
        toy.EVENTS = fd
        while time.monotonic() < start:
            time.sleep(0.001)
        for op in plan[a]:
            if op[3]:
                pid = os.fork()
                if pid == 0:
                    TRAP.arm(root, -1, random.Random("%d/%d/k" % (seed, op[0])).randint(1, 40), 1, 0, delay, seed + op[0])
                    try:
                        one(op, a)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                toy.event("gone", op[1], op[0])
            else:
                TRAP.arm(root, -1, -1, 0, 0, delay, seed + op[0])
                one(op, a)
                TRAP.disarm()

    if mode == "threads":
        import threading

        def all_threads():
            toy.EVENTS = fd
            TRAP.arm(root, -1, -1, 0, 0, delay, seed)
            ts = [threading.Thread(target=lambda a=a: [one(op, a) for op in plan[a]]) for a in range(actors)]
            [t.start() for t in ts]
            [t.join() for t in ts]

        outcome, got = in_child(all_threads, 50)
        rec.expect(outcome == "ok", "threads opening one cache hang or crash", case, outcome=outcome, got=got)
    else:
        pids = []
        for a in range(actors):
            pid = os.fork()
            if pid == 0:
                try:
                    process(a)
                finally:
                    os._exit(0)
            pids.append(pid)
        deadline = time.monotonic() + 50
        for pid in pids:
            while True:
                done, status = os.waitpid(pid, os.WNOHANG)
                if done:
                    break
                if time.monotonic() > deadline:
                    rec.violation("a process is stuck opening the cache", case)
                    for p in pids:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except OSError:
                            pass
                    deadline += 60
                time.sleep(0.002)
    os.close(fd)
    with open(log) as f:
        events = [json.loads(line) for line in f if line.endswith("\n")]
    events.sort(key=lambda e: e[0])
    rec.event("events logged", len(events))
    # Mutual exclusion of builds of one key, from the log alone.
    inside = {}
    order = []
    for e in events:
        kind, key, variant = e[2:5]
        if kind == "build+":
            holder = inside.get(key)
            rec.expect(holder is None, "two builds of one key run at the same time", case, first=holder, second=variant)
            inside[key] = variant
            order.append((key, variant))
        elif kind == "build-" and inside.get(key) == variant:
            inside[key] = None
        elif kind == "gone" and inside.get(key) == variant:
            inside[key] = None
            rec.event("builders killed")
    ops = {}
    for e in events:
        kind, key, variant = e[2:5]
        if kind == "open+":
            ops[variant] = {"key": key, "variant": variant, "start": e[0], "end": float("inf"), "outcome": "killed", "built": 0, "answer": None, "shared": False}
        elif kind == "open-":
            ops[variant].update(end=e[0], outcome=e[5], answer=e[6], built=e[7])
        elif kind == "build+" and variant in ops:
            ops[variant]["built"] = 1
    for o in ops.values():
        rec.event("opens " + o["outcome"])
        if o["outcome"] == "raised":
            rec.violation("opening the cache fails under concurrency", case, op=o)
    for key in keys:
        mine = [o for o in ops.values() if o["key"] == key]
        check_history(rec, mine, case)
        if mode == "one build" and mine:
            builds = sum(1 for k, v in order if k == key)
            rec.expect(builds == 1, "processes that start together build one key more than once", case, builds=builds)
    rec.state("interleavings", hashlib.sha256(repr([(e[2], e[3], e[4]) for e in events]).encode()).hexdigest()[:16])
    rec.case((mode, seed), sample=dict(case, events=len(events)) if index % 23 == 0 else None)
    # What is left must be usable.
    for key in keys:
        outcome, got = reopen(root, NO_BUILD, key=key)
        rec.expect(outcome == "ok" and got[0].startswith(key + "/"), "the cache is unusable after a concurrent workload", case, outcome=outcome, got=got)


def c04_locking(rec, task, r):
    """A waiter gives up after the configured time, and takes over at once from a killed holder."""

    with vf.Scratch("c04l") as scratch:
        for k in range(task["count"]):
            root = os.path.join(scratch, "l%d" % k)
            os.makedirs(root)
            ready, release = os.pipe(), os.pipe()
            holder = os.fork()
            if holder == 0:
                try:
                    def hook():
                        os.write(ready[1], b"x")
                        os.read(release[0], 1)
                    t = Toy(root, "k", 1, build_hook=hook)
                    os._exit(0 if t.answer() == "k/1" else 3)
                finally:
                    os._exit(4)
            os.read(ready[0], 1)
            timeout = r.choice(["0", "0.2", "0.5"])
            case = {"timeout": timeout}
            os.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"] = timeout
            t0 = time.monotonic()
            outcome, got = reopen(root, 2)
            took = time.monotonic() - t0
            rec.event("lock timeouts")
            rec.expect(outcome == "raised" and got[0] == "CacheLockTimeout", "a waiter does not give up with CacheLockTimeout", case, outcome=outcome, got=got)
            rec.expect(float(timeout) - 0.01 <= took < float(timeout) + 10, "the lock timeout is not kept", case, took=took)
            bad = r.choice(["x", "-1", "nan", "inf", ""])
            os.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"] = bad
            outcome, got = reopen(root, 2)
            rec.expect(outcome == "raised" and "ValueError" in got[2], "a bad lock timeout is accepted", {"timeout": bad}, outcome=outcome, got=got)
            del os.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"]
            # Another configuration is not held up by this lock.
            t0 = time.monotonic()
            outcome, got = reopen(root, 3, key="other")
            rec.expect(outcome == "ok" and got[0] == "other/3" and time.monotonic() - t0 < 10, "an unrelated key waits for the lock", case, outcome=outcome, got=got)
            if r.random() < 0.5:
                os.kill(holder, signal.SIGKILL)
                os.waitpid(holder, 0)
                t0 = time.monotonic()
                outcome, got = reopen(root, 2)
                rec.expect(outcome == "ok" and got == ["k/2", 1] and time.monotonic() - t0 < 10, "the lock of a killed builder is not taken over", case, outcome=outcome, got=got)
                rec.event("holders killed")
            else:
                os.write(release[1], b"x")
                _, status = os.waitpid(holder, 0)
                rec.expect(status == 0, "a builder that was waited for fails", case, status=status)
                outcome, got = reopen(root, 2)
                rec.expect(outcome == "ok" and got == ["k/1", 0], "the finished build is not used", case, outcome=outcome, got=got)
            for fd in ready + release:
                os.close(fd)
            rec.case(("lock", k))


def c04_task(rec, task, r):
    if task["mode"] == "lock":
        return c04_locking(rec, task, r)
    with vf.Scratch("c04") as scratch:
        stop = time.time() + task["seconds"]
        index = 0
        while time.time() < stop:
            vf.HEART.begin(task)
            c04_round(rec, scratch, r, task["mode"], index)
            vf.HEART.end()
            index += 1


def c04(check):
    seconds = check.pick(18, 420)
    tasks = [{"mode": m, "seconds": seconds} for m in ("one build", "overwrite", "kill", "threads", "overwrite")] + [{"mode": "lock", "count": check.pick(6, 120)}]
    vf.run_tasks(check, c04_task, tasks, parallel=6)


# ---------------------------------------------------------------------------------------------------------------
# C05


def scatter_foreign(r, root, bundle):
    """Files that are not the cache's: neighbours, look-alikes and links out of the root."""

    parent, digest = os.path.split(bundle)
    grand = os.path.dirname(parent)
    made = []

    def put(path, data=b"mine"):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        made.append(path)

    other = ("0" if digest[0] != "0" else "1") + digest[1:]
    stem = r.choice(["tmp", "previous", "corrupt"])
    # Names one character away from the cache's own, holding nothing but names the cache itself would remove.
    alike = r.choice([".%s.%s", ".%s.%s_backup", ".%s.%sbackup", ".%s.%s.1", ".%s.%s 1", ".%s-%s-1", ".%s%s-1", "%s.%s-1", "..%s.%s-1", ".%s..%s-1", ".%s.x%s-1",
                      ".%s0.%s-1", ".%s.0.%s-1"]) % (digest, stem)
    cut = ".%s.%s-1" % (r.choice([digest[:-1], digest[1:], digest[:32], digest.upper() if digest.upper() != digest else other, ""]), stem)
    choices = [
        lambda: put(os.path.join(parent, alike, r.choice(["tagger.fst", "verbalizer.fst", "manifest.json"]))),
        lambda: put(os.path.join(parent, alike, r.choice(["tagger.fst", "verbalizer.fst", "manifest.json"]))),
        lambda: put(os.path.join(parent, cut, r.choice(["tagger.fst", "verbalizer.fst", "manifest.json"]))),
        lambda: put(os.path.join(parent, ".%s.lock.bak" % digest)),
        lambda: put(os.path.join(grand, ".%s.tmp-1" % digest, "tagger.fst")),
        lambda: put(os.path.join(root, "notes.txt")),
        lambda: put(os.path.join(root, "toy_tagger.fst")),
        lambda: put(os.path.join(grand, "notes.txt")),
        lambda: put(os.path.join(parent, "notes.txt")),
        lambda: put(os.path.join(parent, other, "tagger.fst")),
        lambda: put(os.path.join(parent, ".%s.tmp-mine" % other, "tagger.fst")),
        lambda: put(os.path.join(parent, ".%s.previous-mine" % other, "manifest.json")),
        lambda: put(os.path.join(parent, ".%s.corrupt-mine" % digest, "letter.txt")),
        lambda: put(os.path.join(parent, ".%s.tmp-mine" % digest, "sub", "tagger.fst")),
        lambda: put(os.path.join(parent, ".%s.previous-mine" % digest, "sub", "manifest.json")),
        lambda: put(os.path.join(parent, ".%s.tmp-file" % digest)),
        lambda: put(os.path.join(parent, digest + ".bak", "tagger.fst")),
        lambda: put(os.path.join(parent, "x." + digest + ".tmp-1", "tagger.fst")),
    ]
    for c in r.sample(choices, r.randint(2, len(choices))):
        c()
    return made


def wipe(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.remove(path)


def c05_foreign(rec, scratch, r, k):
    root = os.path.join(scratch, "root")
    outside = os.path.join(scratch, "outside")
    for d in (root, outside):
        wipe(d)
        os.makedirs(d)
    for name in ("tagger.fst", "verbalizer.fst", "manifest.json", "letter.txt"):
        with open(os.path.join(outside, name), "wb") as f:
            f.write(b"outside " + name.encode())
    reopen(root, 1)
    bundle = os.path.join(root, bundles(root)[0])
    parent, digest = os.path.split(bundle)
    made = scatter_foreign(r, root, bundle)
    links, pipes = [], []
    for kind in ("tmp", "previous", "corrupt"):
        if r.random() < 0.5:
            path = os.path.join(parent, ".%s.%s-link" % (digest, kind))
            os.symlink(outside, path)
            links.append(path)
        if r.random() < 0.3:
            folder = os.path.join(parent, ".%s.%s-dir" % (digest, kind))
            os.makedirs(folder)
            os.symlink(os.path.join(outside, "tagger.fst"), os.path.join(folder, "tagger.fst"))
        if r.random() < 0.25:
            folder = os.path.join(parent, ".%s.%s-pipe" % (digest, kind))
            os.makedirs(folder)
            pipes.append(os.path.join(folder, r.choice(["tagger.fst", "verbalizer.fst", "manifest.json"])))
            os.mkfifo(pipes[-1])
    out_before = tree(outside)
    content = {p: open(p, "rb").read() for p in made}
    mode = r.choice(["overwrite", "invalid", "missing", "open"])
    if mode == "invalid":
        with open(os.path.join(bundle, "manifest.json"), "w") as f:
            f.write("{}")
        if r.random() < 0.5:
            with open(os.path.join(bundle, "letter.txt"), "w") as f:
                f.write("do not lose me")
    elif mode == "missing":
        shutil.rmtree(bundle)
    case = {"mode": mode, "files": sorted(os.path.relpath(p, root) for p in made), "links": len(links)}
    letter = os.path.exists(os.path.join(bundle, "letter.txt"))
    log_path = os.path.join(scratch, "log")
    fd = os.open(log_path, os.O_CREAT | os.O_RDWR | os.O_APPEND | os.O_TRUNC)

    def body():
        TRAP.arm(root, fd)
        t = Toy(root, "k", 2, mode == "overwrite")
        TRAP.disarm()
        return [t.answer(), t.built]

    outcome, got = in_child(body)
    os.close(fd)
    rec.event("outcome " + outcome)
    rec.expect(outcome == "ok" and allowed(got[0], {1, 2}), "foreign files break the cache", case, outcome=outcome, got=got)
    for p in made:
        ok = os.path.isfile(p) and open(p, "rb").read() == content[p]
        rec.expect(ok, "a file that is not the cache's was changed or removed", case, file=os.path.relpath(p, root))
    rec.event("foreign files watched", len(made))
    if letter:
        kept = [os.path.join(f, "letter.txt") for f, _, files in os.walk(root) if "letter.txt" in files]
        rec.expect(any(open(p, "rb").read() == b"do not lose me" for p in kept), "a foreign file inside an invalid bundle was destroyed", case)
    rec.expect(tree(outside) == out_before, "files outside the cache root changed", case)
    for p in links:
        rec.expect(os.path.islink(p), "a link next to the bundle was followed or removed", case, link=os.path.relpath(p, root))
    for p in pipes:
        rec.expect(os.path.lexists(p) and stat.S_ISFIFO(os.lstat(p).st_mode), "a special file that the cache did not make was removed", case, file=os.path.relpath(p, root))
    judge_log(rec, log_path, case)
    rec.case((mode, tuple(case["files"]), len(links), k), sample=case if k % 29 == 0 else None)


def judge_log(rec, log_path, case):
    with open(log_path) as f:
        for line in f:
            fields = line.rstrip("\n").split("\t")
            rec.event("file-system changes seen")
            rec.expect(fields[2] == "IN", "the cache changes something outside its root", case, change=fields[3:])


def c05_links(rec, scratch, r, k):
    """Every path the cache made is replaced by a link to a copy outside; the copy must stay as it is."""

    root = os.path.join(scratch, "root")
    outside = os.path.join(scratch, "outside")
    wipe(root)
    wipe(outside)
    os.makedirs(root)
    reopen(root, 1)
    paths = sorted(os.path.relpath(os.path.join(f, n), root) for f, ds, fs in os.walk(root) for n in ds + fs)
    rel = r.choice(paths)
    path = os.path.join(root, rel)
    os.rename(path, outside)
    dangling = r.random() < 0.15
    target = os.path.join(scratch, "nowhere") if dangling else outside
    os.symlink(target, path)
    copies = tree(outside) if os.path.isdir(outside) else open(outside, "rb").read()
    overwrite = r.random() < 0.5
    case = {"link at depth": rel.count(os.sep), "kind": os.path.basename(rel)[-13:] if os.path.isfile(outside) else "directory", "dangling": dangling, "overwrite": overwrite}
    log_path = os.path.join(scratch, "log")
    fd = os.open(log_path, os.O_CREAT | os.O_RDWR | os.O_APPEND | os.O_TRUNC)

    def body():
        TRAP.arm(root, fd)
        t = Toy(root, "k", 2, overwrite)
        TRAP.disarm()
        return [t.answer(), t.built]

    vf.HEART.begin(case)
    outcome, got = in_child(body)
    vf.HEART.end()
    os.close(fd)
    rec.event("link " + outcome)
    if outcome == "ok":
        rec.expect(allowed(got[0], {1, 2}), "a link makes the cache answer wrongly", case, got=got)
    else:
        rec.expect(outcome == "raised" and ("CacheError" in got[2] or "OSError" in got[2]), "a link in the cache is not refused cleanly", case, outcome=outcome, got=got)
    now = tree(outside) if os.path.isdir(outside) else (open(outside, "rb").read() if os.path.exists(outside) else None)
    rec.expect(now == copies, "a link in the cache leads to changes outside its root", case)
    rec.expect(not os.path.exists(os.path.join(scratch, "nowhere")), "a dangling link in the cache creates files outside its root", case)
    with open(log_path) as f:
        for line in f:
            rec.event("file-system changes seen")
    rec.case(("link", rel.count(os.sep), case["kind"], dangling, overwrite, k), sample=case if k % 31 == 0 else None)


def c05_places(rec, scratch, r, k):
    """Which directory is used: none for False, the user cache for None, the given one otherwise; unsafe names are refused."""

    home, xdg, cwd = (os.path.join(scratch, n) for n in ("home", "xdg", "cwd"))
    for d in (home, xdg, cwd):
        wipe(d)
        os.makedirs(d)
    kind = r.choice(["false", "none xdg", "none relative xdg", "none home", "relative", "tilde", "link root", "prefix", "not a directory"])
    log_path = os.path.join(scratch, "log")
    fd = os.open(log_path, os.O_CREAT | os.O_RDWR | os.O_APPEND | os.O_TRUNC)
    watch = {"false": os.path.join(scratch, "nothing"), "none xdg": os.path.join(xdg, "wetextprocessing"), "none relative xdg": os.path.join(home, ".cache"),
             "none home": os.path.join(home, ".cache"), "relative": os.path.join(cwd, "my cache"), "tilde": os.path.join(home, "c"),
             "link root": os.path.join(scratch, "real"), "prefix": os.path.join(scratch, "nothing"), "not a directory": os.path.join(scratch, "nothing")}[kind]
    shutil.rmtree(os.path.join(scratch, "real"), ignore_errors=True)
    os.makedirs(os.path.join(scratch, "real"))
    link = os.path.join(scratch, "link")
    if os.path.lexists(link):
        os.remove(link)
    os.symlink(os.path.join(scratch, "real"), link)
    plain = os.path.join(cwd, "plain")
    prefix = r.choice(["../evil", "a/b", "..", ".", "", "a\x00b", os.path.join(scratch, "abs"), "a b", "x/../../y", "\u00e9", "a\n", 5, None]) if kind == "prefix" else "toy"

    def body():
        os.environ["HOME"] = home
        os.environ.pop("XDG_CACHE_HOME", None)
        if kind == "none xdg":
            os.environ["XDG_CACHE_HOME"] = xdg
        if kind == "none relative xdg":
            os.environ["XDG_CACHE_HOME"] = "relative/dir"
        os.chdir(cwd)
        if kind == "not a directory":
            with open(plain, "w") as f:
                f.write("mine")
        where = {"false": False, "relative": "my cache", "tilde": "~/c", "link root": link, "prefix": xdg, "not a directory": plain}.get(kind)
        os.makedirs(os.path.dirname(watch), exist_ok=True)
        os.umask(umask)
        TRAP.arm(watch, fd)
        t = Toy(where, "k", 2, prefix=prefix)
        TRAP.disarm()
        return [t.answer(), t.built]

    umask = r.choice([0o022, 0, 0o002, 0o077])
    case = {"place": kind, "prefix": repr(prefix), "umask": oct(umask)}
    outcome, got = in_child(body)
    os.close(fd)
    rec.event("place " + kind)
    if kind == "prefix":
        rec.expect(outcome == "raised" and ("ValueError" in got[2] or "TypeError" in got[2]), "an unsafe cache name is accepted", case, outcome=outcome, got=got)
        rec.expect(not os.listdir(xdg), "an unsafe cache name creates files", case)
    elif kind == "not a directory":
        rec.expect(outcome == "raised" and ("OSError" in got[2] or "CacheError" in got[2]), "a cache root that is a file is not refused", case, outcome=outcome, got=got)
        rec.expect(open(plain).read() == "mine", "a file given as cache root was changed", case)
    else:
        rec.expect(outcome == "ok" and got == ["k/2", 1], "the pipeline does not build", case, outcome=outcome, got=got)
    with open(log_path) as f:
        lines = [line.rstrip("\n").split("\t") for line in f]
    for fields in lines:
        rec.event("file-system changes seen")
        if kind in ("false", "prefix"):
            rec.violation("a pipeline without a usable cache changes files", case, change=fields[3:])
        elif kind == "link root":
            continue
        elif fields[2] != "IN" and fields[3] != "mkdir":
            rec.violation("the cache is written somewhere else than documented", case, change=fields[3:])
    if kind in ("none xdg", "relative", "tilde", "link root"):
        rec.expect(len(bundles(watch)) == 1, "the cache is not where it was asked to be", case, found=bundles(scratch))
    if kind in ("none home", "none relative xdg"):
        rec.expect(len(bundles(os.path.join(home, ".cache", "wetextprocessing"))) == 1, "the default cache is not in the user's cache directory", case, found=bundles(scratch))
    for folder in {os.path.normpath(os.path.join(watch, rel, *[".."] * up)) for rel in bundles(watch) for up in range(4)}:
        mode = stat.S_IMODE(os.lstat(folder).st_mode)
        rec.event("directory modes checked")
        rec.expect(not mode & 0o022, "cache directories are writable by others", case, folder=os.path.relpath(folder, watch), mode=oct(mode))
    rec.case((kind, repr(prefix), k), sample=case if k % 37 == 0 else None)


def c05_task(rec, task, r):
    with vf.Scratch("c05") as scratch:
        for k in range(task["count"]):
            for f in (c05_foreign, c05_links, c05_places):
                f(rec, scratch, r, k)


def c05(check):
    vf.run_tasks(check, c05_task, [{"count": check.pick(28, 1100)}] * 8)


RULES = {
    "C01": ("one fault (kill before/after/inside, EIO, ENOSPC, EACCES, EINTR) at each file-system change of six build scenarios, with and without loss of unsynced data, and "
            "random sequences of several faults; nontrivial when the fault was reached", {"evaluations": 400, "outcome killed": 100}),
    "C02": ("one or two damages to a published bundle (bytes, lengths, fields, types, names, links, special files, foreign bundles), then an open", {"evaluations": 300, "rebuilt": 100, "deep damages": 200}),
    "C03": ("one edit of the source tree, or one option setting, and the key it gets", {"evaluations": 200, "option entries": 20}),
    "C04": ("one workload of processes or threads opening the same keys at once with delays, overwrites and kills; history checked offline", {"evaluations": 20, "reads checked": 100}),
    "C05": ("one cache directory with foreign files, links, unusual places or unsafe names, watched for every file-system change", {"evaluations": 200, "file-system changes seen": 1000}),
}


def main():
    toy.with_trap(PROP.lower())
    rule, minimum = RULES[PROP]
    check = vf.Check(PROP, rule=rule, min_events=minimum,
                     assumptions=["POSIX file system on Linux; the file-system monitor sees calls made through libc (Python and OpenFst)",
                                  "cache keys are exercised through build_fst with a toy grammar"])
    if check.replay:
        print(json.dumps(check.replay, indent=1))
        check.replay = None
    {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}[PROP](check)
    check.finish()


if __name__ == "__main__":
    main()
