"""N06: answers depend on the text and the options only.

The same texts go through separately started processes that differ in everything that must not matter: hash seed, compiled in memory or
loaded from the cache, call order, earlier calls (failing ones included), concurrent threads, other pipelines built before. The answers
are recorded and compared offline.
"""

import hashlib
import json
import os
import random
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gen
import vf

CONFIGS = [("zh_tn", {}), ("en_tn", {}), ("ja_tn", {}), ("zh_itn", {}), ("en_itn", {}), ("ja_itn", {}),
           ("ja_tn", {"transliterate": True, "remove_interjections": True, "tag_oov": True}), ("zh_tn", {"remove_puncts": True, "tag_oov": True}),
           ("ja_itn", {"enable_standalone_number": False, "full_to_half": True}), ("zh_itn", {"enable_0_to_9": True, "enable_million": True})]
# What each variant changes: hash seed, cache (None: in memory), order of the texts, threads, pipelines built before, thread of noise calls
VARIANTS = {
    "in memory, in order": dict(hashseed="0", cache=False, order=0, threads=1, before=[]),
    "cached by this process, shuffled, three threads": dict(hashseed="4711", cache=True, order=1, threads=3, before=[]),
    "loaded from the cache, reversed, after other pipelines": dict(hashseed="99", cache=True, order=2, threads=1, before=["ja_itn", "ja_tn"]),
    "loaded from the cache, eight threads on the same texts": dict(hashseed="1", cache=True, order=3, threads=8, before=[]),
}


def answer(n, text, nbest):
    out = []
    for call in (lambda: n.normalize(text), lambda: n.tag(text), lambda: n.normalize_with_mapping(text, include_identity=True).as_dict(),
                 lambda: n.normalize(text, nbest=nbest) if nbest else None):
        try:
            out.append(call())
        except Exception as error:
            out.append([type(error).__name__, str(error)])
    return out


def noise(n, r, name):
    """Calls whose results nobody looks at, failing ones included."""

    for call in (lambda: n.verbalize("broken {"), lambda: n.normalize("x", nbest=0), lambda: n.verbalize('nosuch { value: "1" }'),
                 lambda: n.normalize(gen.text(r, name)), lambda: n.tag(gen.structured(r, name[:2])), lambda: n.token_parser().parse('a { b: "c" }')):
        try:
            call()
        except Exception:
            pass


def worker(path):
    """Runs in its own interpreter."""

    import threading

    with open(path, encoding="utf8") as f:
        job = json.load(f)
    vf.quiet_logging()
    for name in job["before"]:
        vf.make_pipeline(name)
    n = vf.make_pipeline(job["pipeline"], job["cache"] or False, **job["options"])
    for name in job["before"][:1]:
        vf.make_pipeline(name)
    texts, nbest = job["texts"], job["nbest"]
    order = list(range(len(texts)))
    r = random.Random(job["seed"])
    if job["order"] == 1:
        r.shuffle(order)
    if job["order"] == 2:
        order.reverse()
    answers = {}
    clashes = []
    stop = time.time() + job["seconds"]
    barrier = threading.Barrier(job["threads"])

    def run(mine, rr, done):
        barrier.wait()
        for count, i in enumerate(mine):
            if count % 7 == 3 and job["order"]:
                noise(n, rr, job["pipeline"])
            done[i] = answer(n, texts[i], nbest[i])
            if time.time() > stop:
                break

    if job["threads"] == 1:
        run(order, r, answers)
        again = sorted(answers)[::max(1, len(answers) // 25)]
        for i in again:
            if answer(n, texts[i], nbest[i]) != answers[i]:
                clashes.append(i)
    else:
        parts = [order] * job["threads"] if job["order"] == 3 else [order[k::job["threads"]] for k in range(job["threads"])]
        done = [{} for _ in parts]
        ts = [threading.Thread(target=run, args=(p, random.Random(job["seed"] + k), d)) for k, (p, d) in enumerate(zip(parts, done))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for d in done:
            for i, a in d.items():
                if answers.setdefault(i, a) != a:
                    clashes.append(i)
    with open(path + ".out", "w", encoding="utf8") as f:
        json.dump({"answers": answers, "clashes": clashes}, f)


def launch(scratch, tag, job, seed):
    path = os.path.join(scratch, tag + ".json")
    with open(path, "w", encoding="utf8") as f:
        json.dump(job, f)
    home = os.path.join(scratch, tag + ".tmp")
    os.makedirs(home)
    env = vf.child_env(home)
    env.update(PYTHONHASHSEED=seed, VERIF_REPO=vf.REPO)
    with open(path + ".err", "w") as err:
        return path, subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", path], env=env, stdout=subprocess.DEVNULL, stderr=err)


def finish(rec, path, process, case, limit):
    try:
        code = process.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        process.kill()
        process.wait()
        rec.violation("a process does not finish", case)
        return None
    if code:
        with open(path + ".err", errors="replace") as f:
            rec.violation("a process fails", case, status=code, error=f.read()[-1500:])
        return None
    with open(path + ".out", encoding="utf8") as f:
        return json.load(f)


def config(rec, task, r):
    name, options, texts, seconds = task["pipeline"], task["options"], task["texts"], task["seconds"]
    nbest = [r.choice([2, 3]) if r.random() < 0.12 and gen.nbest_ok(t) else 0 for t in texts]
    with vf.Scratch("n06") as scratch:
        cache = os.path.join(scratch, "cache")

        def start(variant):
            v = VARIANTS[variant]
            job = dict(pipeline=name, options=options, texts=texts, nbest=nbest, seed=r.getrandbits(30), cache=cache if v["cache"] else False, order=v["order"],
                       threads=v["threads"], before=v["before"], seconds=seconds if v["threads"] < 8 else seconds * 2)
            return launch(scratch, "v%d" % list(VARIANTS).index(variant), job, v["hashseed"])

        names = list(VARIANTS)
        case = {"pipeline": name, "options": options}
        first = {v: start(v) for v in names[:2]}
        results = {}
        for v in names[:2]:
            results[v] = finish(rec, *first[v], dict(case, variant=v), 500)
        if results[names[1]] is not None:
            second = {v: start(v) for v in names[2:]}
            for v in names[2:]:
                results[v] = finish(rec, *second[v], dict(case, variant=v), 400)
        reference = results.get(names[0])
        if reference is None:
            return
        for v, result in results.items():
            if result is None:
                continue
            rec.event("answers of: " + v, len(result["answers"]))
            for i in sorted(set(result["clashes"])):
                rec.violation("one process answers the same text differently", {"pipeline": name, "options": options, "text": texts[i]}, variant=v)
            if v == names[0]:
                continue
            for i, got in result["answers"].items():
                wanted = reference["answers"].get(i)
                if wanted is None:
                    continue
                text = texts[int(i)]
                rec.event("answers compared", 4)
                for what, a, b in zip(("normalize", "tag", "mapping", "n-best"), wanted, got):
                    rec.expect(a == b, "the answer depends on more than the text", {"pipeline": name, "options": options, "text": text, "call": what}, variant=v, in_memory=a, here=b,
                               nbest=nbest[int(i)])
        for i in reference["answers"]:
            text = texts[int(i)]
            rec.case((name, sorted(options), text), sample=dict(case, text=text) if int(i) % 331 == 7 else None)


def main():
    check = vf.Check("N06", rule="a case is one (pipeline, options, text) answered by four processes that differ in hash seed, cache, call history and threads",
                     assumptions=["the processes run on one machine with one version of Python and Pynini"], min_events={"evaluations": 400, "answers compared": 3000})
    r = check.rng("texts")
    configs = CONFIGS if check.thorough else CONFIGS[:6] + [CONFIGS[r.randrange(6, 9)]]
    if check.replay:
        case = check.replay["case"]
        configs = [(case["pipeline"], case["options"])]
    tasks = []
    for name, options in configs:
        count = check.pick(900, 20000)
        texts = [check.replay["case"]["text"]] * 20 if check.replay else list(dict.fromkeys(gen.text(r, name) for _ in range(count)))
        tasks.append({"pipeline": name, "options": options, "texts": texts, "seconds": check.pick(12, 180)})
    tasks.sort(key=lambda t: t["pipeline"] not in ("en_tn", "zh_itn"))
    vf.run_tasks(check, config, tasks, parallel=check.pick(7, 5))
    check.finish()


if __name__ == "__main__":
    if "--worker" in sys.argv:
        worker(sys.argv[sys.argv.index("--worker") + 1])
    else:
        main()
