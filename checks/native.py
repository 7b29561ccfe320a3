"""R01-R03: the C++ runtime, compiled with sanitizers from /repo's current tree, against the Python pipelines and an independent token reader.

R01  token parser and string helpers
R02  processor, C API, command-line program and threads, on the graphs of the Python pipelines
R03  the JNI binding, under a recording stand-in JNIEnv and in a real JVM
"""

import importlib
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cpp
import gen
import vf
import wire

PROP = sys.argv[1]
STRIP = " \n\r\t\f\v"


def orders_of(name):
    return dict(importlib.import_module(vf.PIPELINES[name][0]).TOKEN_ORDERS)


def text_of(data):
    return data.decode("utf-8", "backslashreplace")


# ---------------------------------------------------------------------------------------------------------------
# R01


def judge_stream(rec, driver, name, orders, stream, case, op="reorder"):
    answer = driver.ask(op, cpp.ORDER_TYPES[name], stream)
    expected = wire.read(stream)
    kind = answer[0].decode()
    rec.event("streams " + ("read" if kind == "ok" else "refused"))
    if expected is None:
        rec.expect(kind == "invalid_argument", "the C++ parser does not refuse a malformed stream with invalid_argument", case, answer=answer)
        return
    if not rec.expect(kind == "ok", "the C++ parser refuses a well-formed stream", case, answer=answer):
        return
    wanted = [(n, wire.canonical(n, f, orders)) for n, f, _, _ in expected]
    got = text_of(answer[1])
    tokens = wire.read(got) if wanted else ([] if got == "" else None)
    if not rec.expect(tokens is not None and [(n, f) for n, f, _, _ in tokens] == wanted, "the C++ parser gives other tokens, fields or order than Python's", case, got=got, expected=wire.write(wanted)):
        return
    # The layout between tokens and fields is the canonical one; only the escapes the tagger wrote are kept as they are.
    rec.expect(wire.write(wanted) == wire.write([(n, f) for n, f, _, _ in tokens]) and len(wire.FIELD.sub("", got)) == len(wire.FIELD.sub("", wire.write(wanted))),
               "the C++ parser lays the stream out differently", case, got=got)
    again = driver.ask(op, cpp.ORDER_TYPES[name], answer[1]) if answer[1] else answer
    rec.expect(again == answer, "reordering twice is not reordering once", case, once=answer, twice=again)
    for n, f in wanted:
        rec.state("token shapes", (name, n in orders, len(f), any(k == "preserve_order" for k, _ in f)))


def broken_bytes(r, stream):
    data = bytearray(stream.encode("utf-8", "surrogatepass"))
    for _ in range(r.choice([1, 1, 2, 4])):
        i = r.randint(0, len(data))
        k = r.random()
        if k < 0.4:
            data[i:i] = bytes([r.randrange(0xf8)])
        elif k < 0.7:
            del data[i:i + 1]
        elif k < 0.9:
            data[i:i + 1] = bytes([r.randrange(0xf8)])
        else:
            del data[i:]
    return bytes(b for b in data if b < 0xf8)


def parser_worker(binary, seconds):
    def run(rec, n, r, index, workers):
        orders = {name: orders_of(name) for name in vf.PIPELINES}
        with vf.Scratch("r01") as scratch:
            driver = cpp.Driver(binary, scratch)
            stop = time.time() + seconds
            k = 0
            while time.time() < stop:
                name = r.choice(sorted(orders))
                k += 1
                kind = r.random()
                if kind < 0.7:
                    stream = wire.some_stream(r).replace("\ud800", "")
                    if kind < 0.25:  # names and fields this pipeline's schema knows
                        token = r.choice(sorted(orders[name]))
                        keys = r.sample(orders[name][token] + ["extra", "value"], r.randint(1, len(orders[name][token])))
                        keys = list(dict.fromkeys(keys))
                        stream = wire.write([(token, [(key, "true" if key == "preserve_order" and r.random() < 0.5 else wire.some_value(r).replace("\ud800", "")) for key in keys])
                                             for _ in range(r.randint(1, 3))])
                    case = {"pipeline": name, "stream": stream}
                    op = "reorder" if k % 5 else "reorder_fresh"
                    job = lambda: judge_stream(rec, driver, name, orders[name], stream, case, op)
                elif kind < 0.85:
                    stream = broken_bytes(r, wire.some_stream(r))
                    case = {"pipeline": name, "bytes": stream.hex()}

                    def job():
                        answer = driver.ask("reorder", cpp.ORDER_TYPES[name], stream)
                        rec.expect(answer[0] in (b"ok", b"invalid_argument"), "broken UTF-8 leads to another exception", case, answer=answer)
                        rec.event("broken byte strings read")
                else:
                    text = "".join(r.choice(wire.SYNTAX + ["\x0b", "\x0c", "\r", "\u3000", "=>", " => "]) for _ in range(r.randint(0, 12))).replace("\ud800", "")
                    text = r.choice(["", text, gen.random_unicode(r, r.randint(1, 9)), " \t" + text, text + "\r\n "])
                    delim = r.choice(["=>", " ", "a", "::", " => ", "字", '"'])
                    stream, case = None, {"text": text, "delimiter": delim}

                    def job():
                        answer = [text_of(a) for a in driver.ask("string", text, delim)]
                        wanted = ["ok", str(len(text)), text.lstrip(STRIP), text.rstrip(STRIP), text.strip(STRIP), str(len(text)), *text, *text.split(delim)]
                        rec.expect(answer == wanted, "a string helper gives a wrong answer", case, got=answer, expected=wanted)
                        rec.event("strings handled")
                vf.HEART.begin(case)
                try:
                    job()
                except cpp.Died as died:
                    rec.violation("the C++ code crashed or a sanitizer stopped it", case, report=died)
                    driver = cpp.Driver(binary, scratch)
                finally:
                    vf.HEART.end()
                rec.case(repr(case), sample=case if k % 9973 == 11 else None)
            end = driver.close()
            rec.expect(end is None, "the C++ driver does not end cleanly", {"driver": "R01"}, report=end)
    return run


def r01():
    check = vf.Check("R01", rule="a case is one token stream, byte string or text given to the C++ parser or string helpers, compiled with ASan and UBSan; nontrivial always",
                     assumptions=["glog is a stand-in that aborts on fatal messages", "bytes from 0xf8 are outside: the code aborts on them by design",
                                  "the reference reader is a regular grammar of the documented format"],
                     min_events={"evaluations": 20000, "streams read": 4000, "streams refused": 3000, "strings handled": 1500})
    seconds = check.pick(15, 400)
    with vf.Scratch("r01b") as folder:
        try:
            cpp.build(folder, {"driver": (cpp.ASAN, [os.path.join(cpp.HERE, "driver.cc")], [])})
        except cpp.BuildError as error:
            check.rec.error(str(error))
            check.finish()
        binary = os.path.join(folder, "driver")
        if check.replay:
            case = check.replay["case"]

            def once(rec, n, r, index, workers):
                driver = cpp.Driver(binary, folder)
                try:
                    if "stream" in case:
                        for op in ("reorder", "reorder_fresh"):
                            judge_stream(rec, driver, case["pipeline"], orders_of(case["pipeline"]), case["stream"], case, op)
                    elif "bytes" in case:
                        print(driver.ask("reorder", cpp.ORDER_TYPES[case["pipeline"]], bytes.fromhex(case["bytes"])))
                    else:
                        print(driver.ask("string", case["text"], case["delimiter"]))
                except cpp.Died as died:
                    rec.violation("the C++ code crashed or a sanitizer stopped it", case, report=died)
            vf.run_jobs(check, [vf.Job(None, once)])
        else:
            vf.run_jobs(check, [vf.Job(None, parser_worker(binary, seconds), workers=8, label="parser")])
    check.finish()


# ---------------------------------------------------------------------------------------------------------------
# R02


def cost(source, graph, target=None):
    """The least cost of rewriting source (as target) by the graph; None when there is no path."""

    import pynini

    lattice = pynini.compose(pynini.escape(source), graph)
    if target is not None:
        lattice = pynini.compose(lattice, pynini.escape(target))
    if lattice.start() == pynini.NO_STATE_ID or lattice.num_states() == 0:
        return None
    return float(pynini.shortestdistance(lattice, reverse=True)[lattice.start()])


def same_cost(a, b):
    return a is not None and b is not None and abs(a - b) < 1e-3


def judge_text(rec, driver, n, handle, processor, text, case):
    """The C++ answers for one text, through the C API and the class, against the Python pipeline."""

    tagged = driver.ask("tag", handle, text)
    if not rec.expect(tagged[0] == b"ok", "the C API gives no tags for a text", case, answer=tagged):
        return
    tags = text_of(tagged[1])
    rec.expect(driver.ask("class_tag", processor, text) == tagged, "the class and the C API tag differently", case, c_api=tags)
    mine = n.tag(text)
    if tags != mine:
        best, here = cost(text, n.tagger), cost(text, n.tagger, tags)
        if not rec.expect(same_cost(best, here), "the C++ tags are not those of the Python pipeline", case, got=tags, python=mine, cost=here, best=best):
            return
        rec.event("equally good tags")
    else:
        rec.event("same tags")
    said = driver.ask("verbalize", handle, tags)
    if not rec.expect(said[0] == b"ok", "the C API does not verbalize its own tags", case, answer=said, tags=tags):
        return
    out = text_of(said[1])
    rec.expect(driver.ask("class_verbalize", processor, tags) == said, "the class and the C API verbalize differently", case, c_api=out)
    wanted = n.verbalize(tags)
    if out != wanted:
        stream = n.build_parser().reorder(tags) if hasattr(n, "build_parser") else __import__("tn.token_parser").token_parser.TokenParser(n.token_orders or n.ordertype).reorder(tags)
        best, here = cost(stream, n.verbalizer), cost(stream, n.verbalizer, out)
        if not rec.expect(same_cost(best, here), "the C++ verbalization is not that of the Python pipeline", case, got=out, python=wanted, tags=tags):
            return
        rec.event("equally good verbalizations")
    else:
        rec.event("same verbalizations")
    for op, target in (("normalize", handle), ("class_normalize", processor)):
        whole = driver.ask(op, target, text)
        rec.expect(whole == said, "C++ normalize is not verbalize after tag", case, call=op, got=whole, expected=said)
    rec.state("input shapes", (case["pipeline"], gen.charclass(text)))


def export(n, name, folder):
    os.makedirs(folder, exist_ok=True)
    paths = [os.path.join(folder, "%s_%s.fst" % (name, part)) for part in ("tagger", "verbalizer")]
    n.tagger.write(paths[0])
    n.verbalizer.write(paths[1])
    return paths


def bad_streams(r):
    while True:
        stream = wire.some_stream(r).replace("\ud800", "").replace("\x00", "")
        if stream and wire.read(stream) is None:
            return stream


def processor_worker(name, binaries, seconds):
    def run(rec, n, r, index, workers):
        with vf.Scratch("r02") as scratch:
            paths = export(n, name, os.path.join(scratch, "graphs %d" % index))
            driver = cpp.Driver(binaries["driver"], scratch)
            handle, processor = open_both(rec, driver, paths)
            stop = time.time() + seconds
            k = 0
            recent = []
            while time.time() < stop:
                text = gen.text(r, name)[:120]
                case = {"pipeline": name, "text": text}
                vf.HEART.begin(case)
                try:
                    judge_text(rec, driver, n, handle, processor, text, case)
                    recent.append(text)
                    if k % 40 == 7:
                        refused(rec, driver, r, handle, processor, name)
                    if k % 150 == 19:
                        leaks(rec, driver, paths, handle, recent[-25:], name)
                    if k % 400 == 33:
                        program(rec, binaries["main"], r, driver, n, handle, paths, recent[-30:], name, scratch)
                except cpp.Died as died:
                    rec.violation("the C++ code crashed or a sanitizer stopped it", case, report=died)
                    driver = cpp.Driver(binaries["driver"], scratch)
                    handle, processor = open_both(rec, driver, paths)
                finally:
                    vf.HEART.end()
                k += 1
                rec.case((name, text), sample=case if k % 499 == 3 else None)
            if index == 0:
                vf.HEART.begin({"pipeline": name, "part": "api"})
                try:
                    api(rec, driver, paths, scratch, name)
                except cpp.Died as died:
                    rec.violation("the C++ code crashed or a sanitizer stopped it", {"pipeline": name, "part": "api"}, report=died)
                    driver = cpp.Driver(binaries["driver"], scratch)
                try:
                    leaks(rec, driver, paths, open_both(rec, driver, paths)[0], recent[-10:], name)
                    program(rec, binaries["main"], r, driver, n, open_both(rec, driver, paths)[0], paths, recent[-30:], name, scratch)
                    threads(rec, binaries["tsan"], r, n, paths, recent, name, scratch)
                except cpp.Died as died:
                    rec.violation("the C++ code crashed or a sanitizer stopped it", {"pipeline": name, "part": "end"}, report=died)
                vf.HEART.end()
            end = driver.close()
            rec.expect(end is None, "the C++ driver does not end cleanly", {"pipeline": name}, report=end)
    return run


def open_both(rec, driver, paths):
    got = driver.ask("open", *paths), driver.ask("class_open", *paths)
    for answer in got:
        if answer[0] != b"ok":
            rec.violation("the C++ runtime cannot open the graphs", {"paths": paths}, answer=got)
            raise cpp.Died("no handle")
    return int(got[0][1]), int(got[1][1])


def refused(rec, driver, r, handle, processor, name):
    stream = bad_streams(r)
    case = {"pipeline": name, "stream": stream}
    answer = driver.ask("verbalize", handle, stream)
    rec.expect(answer == [b"null"], "the C API answers a malformed token stream with something else than NULL", case, answer=answer)
    answer = driver.ask("class_verbalize", processor, stream)
    rec.expect(answer[0] == b"invalid_argument", "the C++ processor does not refuse a malformed token stream", case, answer=answer)
    for op in ("tag", "verbalize", "normalize"):
        rec.expect(driver.ask(op, handle, "") == [b"ok", b""], "an empty text has no empty answer", dict(case, call=op))
    rec.event("malformed streams refused")


def leaks(rec, driver, paths, handle, texts, name):
    """Live heap bytes do not grow over a repeated round of calls, nor over opening and closing."""

    def rounds():
        for t in texts:
            tags = driver.ask("tag", handle, t)[1]
            driver.ask("verbalize", handle, tags)
            driver.ask("normalize", handle, t)
            driver.ask("verbalize", handle, "char {")
        driver.ask("null_input", handle)

    def measure():
        return int(driver.ask("allocated")[1])

    rounds()
    rounds()
    before = measure()
    rounds()
    after = measure()
    rec.expect(after - before < 16 * len(texts), "calls through the C API leak memory", {"pipeline": name, "texts": texts}, before=before, after=after)
    sizes = []
    for _ in range(3):
        opened = driver.ask("open", *paths)
        driver.ask("normalize", opened[1].decode(), texts[0])
        driver.ask("close", opened[1].decode())
        driver.ask("open", paths[0] + ".missing", paths[1])
        sizes.append(measure())
    rec.expect(sizes[2] - sizes[1] < 4096, "opening and closing a processor leaks memory", {"pipeline": name}, sizes=sizes)
    rec.event("allocation balances")


def api(rec, driver, paths, scratch, name):
    """NULL and missing files give NULL; a damaged graph never gives a handle that crashes."""

    missing = os.path.join(scratch, "%s_nosuch.fst" % name)
    damaged = os.path.join(scratch, "%s_damaged.fst" % name)
    with open(paths[0], "rb") as f:
        data = f.read()
    with open(damaged, "wb") as f:
        f.write(data[:len(data) // 2])
    empty = os.path.join(scratch, "%s_empty.fst" % name)
    open(empty, "wb").close()
    rec.expect(driver.ask("open_null", paths[0]) == [b"null"], "a NULL path gives a handle", {"pipeline": name})
    for first, second in ((missing, paths[1]), (paths[0], missing), (missing, missing), (damaged, paths[1]), (paths[0], damaged), (empty, paths[1]), (paths[0], empty)):
        case = {"pipeline": name, "tagger": os.path.basename(first), "verbalizer": os.path.basename(second)}
        answer = driver.ask("open", first, second)
        rec.expect(answer == [b"null"], "a processor without its graphs is handed out", case, answer=answer)
        answer = driver.ask("class_open", first, second)
        rec.expect(answer[0] != b"ok", "a processor without its graphs is constructed", case, answer=answer)
        rec.event("unusable graphs refused")
    handle = int(driver.ask("open", *paths)[1])
    rec.expect(driver.ask("null_input", handle) == [b"null"], "a NULL argument gives a string", {"pipeline": name})


def program(rec, binary, r, driver, n, handle, paths, texts, name, scratch):
    """processor_main prints the tags and the verbalization of each line, in order."""

    lines = [t.replace("\n", " ").rstrip("\r") for t in texts]
    for _ in range(3):
        lines.insert(r.randint(0, len(lines)), "")
    path = os.path.join(scratch, "lines.txt")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("\n".join(lines) + r.choice(["", "\n"]))
    if lines and lines[-1] == "":
        lines.pop()
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("\n".join(lines) + r.choice(["", "\n"]) if lines else "")
    wanted = b""
    for line in lines:
        tags = driver.ask("tag", handle, line)[1]
        wanted += tags + b"\n" + driver.ask("verbalize", handle, tags)[1] + b"\n"
    for argv, expected in ((["--tagger", paths[0], "--verbalizer=" + paths[1], "--file", path], wanted),
                           (["--tagger=" + paths[0], "--verbalizer", paths[1], "--text", next((x for x in lines if x), "1")], None)):
        if expected is None:
            tags = driver.ask("tag", handle, argv[-1])[1]
            expected = tags + b"\n" + driver.ask("verbalize", handle, tags)[1] + b"\n"
        done = subprocess.run([binary] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, **cpp.ENV}, timeout=50, preexec_fn=cpp.free_memory)
        case = {"pipeline": name, "argv": argv[2:], "lines": lines}
        rec.expect(done.returncode == 0 and done.stdout == expected, "processor_main prints something else than tags and verbalization of each line", case, status=done.returncode,
                   got=text_of(done.stdout), expected=text_of(expected), stderr=text_of(done.stderr)[-1500:])
        rec.event("program runs")


def threads(rec, binary, r, n, paths, recent, name, scratch):
    """Each thread with its own processor: the answers of a single thread, and no data race."""

    texts = [t for t in recent if len(t) < 40][-12:] or ["1"]
    single = cpp.Driver(binary, scratch)
    opened = single.ask("class_open", *paths)[1].decode()
    alone = [single.ask("class_normalize", opened, t)[1] for t in texts]
    count = 4
    answer = single.ask("threads", *paths, count, *texts)
    wanted = [b"ok"]
    for t in range(count):
        wanted += [b"ok"] + [alone[(i + t) % len(texts)] for i in range(len(texts))]
    rec.expect(answer == wanted, "processors in several threads disturb each other", {"pipeline": name, "texts": texts}, got=answer, expected=wanted)
    end = single.close()
    rec.expect(end is None, "the race detector reports a race between threads with their own processors", {"pipeline": name, "texts": texts}, report=end)
    rec.event("texts in parallel threads", count * len(texts))


def r02():
    check = vf.Check("R02", rule="a case is one text taken through the C++ runtime (ASan, UBSan) by the C API and the class, with the Python pipeline's graphs, and compared with the Python pipeline; "
                     "nontrivial always", assumptions=["OpenFst, glog and gflags are stand-ins with the documented meaning of the calls used", "texts are UTF-8 without NUL",
                                                       "where several best paths tie, any of them is accepted"],
                     min_events={"evaluations": 400, "same tags": 300, "malformed streams refused": 4, "allocation balances": 2, "program runs": 8, "unusable graphs refused": 14,
                                 "texts in parallel threads": 40})
    seconds = check.pick(22, 420)
    pipes = check.pick([("zh_tn", 2), ("ja_tn", 2), ("en_itn", 2), ("ja_itn", 2)], [("zh_tn", 2), ("ja_tn", 1), ("en_itn", 1), ("ja_itn", 1), ("en_tn", 2), ("zh_itn", 1)])
    with vf.Scratch("r02b") as folder:
        driver = os.path.join(cpp.HERE, "driver.cc")
        try:
            cpp.build(folder, {"driver": (cpp.ASAN, [driver], []), "tsan": (cpp.TSAN, [driver], []),
                               "main": (cpp.ASAN, [os.path.join(vf.REPO, "runtime", "bin", "processor_main.cc")], [])})
        except cpp.BuildError as error:
            check.rec.error(str(error))
            check.finish()
        binaries = {k: os.path.join(folder, k) for k in ("driver", "tsan", "main")}
        if check.replay:
            case = check.replay["case"]

            def once(rec, n, r, index, workers):
                paths = export(n, case["pipeline"], os.path.join(folder, "graphs"))
                driver = cpp.Driver(binaries["driver"], folder)
                handle, processor = open_both(rec, driver, paths)
                try:
                    if "text" in case:
                        judge_text(rec, driver, n, handle, processor, case["text"], case)
                    elif "stream" in case:
                        print(driver.ask("verbalize", handle, case["stream"]), driver.ask("class_verbalize", processor, case["stream"]))
                    else:
                        api(rec, driver, paths, folder, case["pipeline"])
                except cpp.Died as died:
                    rec.violation("the C++ code crashed or a sanitizer stopped it", case, report=died)
            vf.run_jobs(check, [vf.Job(case["pipeline"], once)])
        else:
            vf.run_jobs(check, [vf.Job(name, processor_worker(name, binaries, seconds), workers=w) for name, w in pipes])
    check.finish()


# ---------------------------------------------------------------------------------------------------------------
# R03


class Jvm:
    """A JVM with the real binding loaded, spoken to in lines of hex."""

    def __init__(self, folder, library, asan):
        env = {**os.environ, "MALLOC_ARENA_MAX": "1"}
        if asan:
            names = [subprocess.check_output(["g++", "-print-file-name=" + x], text=True).strip() for x in ("libasan.so", "libubsan.so")]
            env.update(LD_PRELOAD=":".join(names), ASAN_OPTIONS="handle_segv=0:detect_leaks=0:allow_user_segv_handler=1:use_sigaltstack=0:exitcode=86", UBSAN_OPTIONS="print_stacktrace=1")
        self.log = open(os.path.join(folder, "jvm-%d.log" % os.getpid()), "w+b")
        self.process = subprocess.Popen(["java", "-Xint", "-Xcheck:jni", "-XX:+UseSerialGC", "-Xmx256m", "-XX:ErrorFile=" + os.path.join(folder, "hs_err.log"), "-XX:-CreateCoredumpOnCrash",
                                         "-Dwetext.library=" + os.path.join(folder, library), "-Ddrive.library=" + os.path.join(folder, "libdrive.so"), "-cp", os.path.join(folder, "classes"), "Drive"],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env, cwd=folder, preexec_fn=cpp.free_memory)

    def ask(self, *words):
        try:
            self.process.stdin.write((" ".join(words) + "\n").encode())
            self.process.stdin.flush()
        except OSError:
            raise cpp.Died(self.report())
        noise = []
        while True:
            line = self.process.stdout.readline().decode("ascii", "replace")
            if line.startswith(("ok ", "throw ", "null", "unknown")):
                return line.rstrip("\n")
            if not line:
                raise cpp.Died("".join(noise[-40:]) + self.report())
            noise.append(line)  # -Xcheck:jni warns on stdout

    def report(self):
        self.process.kill()
        code = self.process.wait()
        self.log.seek(0)
        return "status %s: %s" % (code, self.log.read().decode("utf-8", "replace")[-3000:])

    def close(self):
        self.process.stdin.close()
        self.process.stdout.read()
        code = self.process.wait()
        if code:
            return self.report()
        self.log.seek(0)
        text = self.log.read().decode("utf-8", "replace")
        return text[-3000:] if "runtime error:" in text or "AddressSanitizer" in text else None


def to_hex(text):
    return text.encode("utf-16-be", "surrogatepass").hex()


def jvm_answer(line):
    return bytes.fromhex(line[3:]).decode("utf-16-be", "surrogatepass") if line.startswith("ok ") else line.strip()


def binding_worker(folder, itn_name, seconds):
    def run(rec, n, r, index, workers):
        asan = index % 2 == 0
        library = "libasan-wetext.so" if asan else "libwetext.so"
        with vf.Scratch("r03") as scratch:
            inverse = vf.make_pipeline(itn_name)
            models = os.path.join(scratch, r.choice(["models", "模型 😀", "a b"]))
            os.makedirs(models)
            for pipeline, name in ((n, "zh_tn"), (inverse, "zh_itn")):
                pipeline.tagger.write(os.path.join(models, name + "_tagger.fst"))
                pipeline.verbalizer.write(os.path.join(models, name + "_verbalizer.fst"))
            driver = cpp.Driver(os.path.join(folder, "driver"), scratch)
            processors = {}
            for op, name in (("normalize", "zh_tn"), ("inverse", "zh_itn")):
                processors[op] = int(driver.ask("class_open", *[os.path.join(models, "%s_%s.fst" % (name, part)) for part in ("tagger", "verbalizer")])[1])

            def start():
                jvm = Jvm(folder, library, asan)
                answer = jvm.ask("init", to_hex(models))
                rec.expect(answer == "ok ", "the binding cannot open the models", {"folder": models}, answer=answer)
                return jvm

            jvm = start()
            stop = time.time() + seconds
            k = 0
            while time.time() < stop:
                op = r.choice(["normalize", "inverse"])
                text = gen.text(r, "zh_tn" if op == "normalize" else itn_name)[:80] if r.random() < 0.95 else ""
                if r.random() < 0.15:
                    text += r.choice(gen.ODD)
                case = {"call": op, "text": text, "asan": asan}
                vf.HEART.begin(case)
                try:
                    got = jvm_answer(jvm.ask(op, to_hex(text)))
                    wanted = text_of(driver.ask("class_normalize", processors[op], text)[1])
                    rec.expect(got == wanted, "the Java binding gives another answer than the processor", case, got=got, expected=wanted)
                    rec.event("texts through the JVM")
                    if text:
                        rec.event("same as Python" if got == (n if op == "normalize" else inverse).normalize(text) else "not the Python path (tie)")
                    if any(ord(c) > 0xffff for c in text):
                        rec.event("texts beyond the BMP")
                    if k % 200 == 60:
                        rec.expect(jvm.ask("init", to_hex(os.path.join(scratch, "nowhere"))).startswith("throw "), "missing models are not reported to Java", case)
                        rec.expect(jvm.ask("init", to_hex(models)) == "ok ", "the binding cannot open the models again", case)
                        rec.event("missing models reported")
                    if not asan and k % 150 == 80:
                        balance(rec, jvm, r)
                except cpp.Died as died:
                    rec.violation("the binding crashed the JVM or a sanitizer stopped it", case, report=died)
                    jvm = start()
                finally:
                    vf.HEART.end()
                k += 1
                rec.case((op, text), sample=case if k % 301 == 3 else None)
            try:
                vf.HEART.begin({"part": "end"})
                rec.expect(jvm.ask("init", to_hex(os.path.join(scratch, "nowhere"))).startswith("throw "), "missing models are not reported to Java", {"folder": "nowhere"})
                rec.event("missing models reported")
                if not asan:
                    balance(rec, jvm, r)
                end = jvm.close()
                rec.expect(end is None, "the JVM does not end cleanly", {"asan": asan}, report=end)
            except cpp.Died as died:
                rec.violation("the binding crashed the JVM or a sanitizer stopped it", {"part": "end"}, report=died)
            finally:
                vf.HEART.end()
            driver.close()
    return run


def balance(rec, jvm, r):
    """Native memory in use does not grow with repeated calls."""

    text = r.choice(["字", "x", "1月"]) * r.randint(100, 150)
    size = len(text.encode())
    growth = [int(jvm.ask("repeat", "40", to_hex(text))[3:]) for _ in range(3)]
    rec.expect(min(growth) < 40 * size, "calls through the Java binding leak memory", {"text": text[:3], "length": len(text)}, growth=growth, leaked_if_kept=80 * size)
    rec.event("allocation balances")


def r03():
    check = vf.Check("R03", rule="a case is one text taken through the Java binding in a real JVM; nontrivial always",
                     assumptions=["the Kotlin object is replaced by a Java class with the same native methods", "OpenFst and glog are stand-ins", "texts without NUL and lone surrogates",
                                  "in quick, Japanese ITN graphs stand in the place of the Chinese ITN ones"],
                     min_events={"evaluations": 400, "texts through the JVM": 400, "texts beyond the BMP": 30, "missing models reported": 2, "allocation balances": 2})
    seconds, itn_name = check.pick((20, "ja_itn"), (400, "zh_itn"))
    with vf.Scratch("r03b") as folder:
        binding = os.path.join(vf.REPO, "runtime", "bindings", "android", "wetextprocessing.cc")
        try:
            cpp.build(folder, {"driver": (["-O1", "-g"], [os.path.join(cpp.HERE, "driver.cc")], []), "libwetext.so": (["-O1", "-g", "-w"], [binding], ["-shared"]),
                               "libasan-wetext.so": ([f for f in cpp.ASAN] + ["-w"], [binding], ["-shared"]),
                               }, )
            subprocess.run(["g++", "-O1", "-fPIC", "-shared", *cpp.includes(), os.path.join(cpp.HERE, "drive_jni.cc"), "-o", os.path.join(folder, "libdrive.so")], check=True)
            java = os.path.join(cpp.HERE, "java")
            subprocess.run(["javac", "-d", os.path.join(folder, "classes"), os.path.join(java, "Drive.java"), os.path.join(java, "com/wenet/WeTextProcessing/WeTextProcessing.java")], check=True)
        except (cpp.BuildError, subprocess.CalledProcessError) as error:
            check.rec.error(str(error))
            check.finish()
        vf.run_jobs(check, [vf.Job("zh_tn", binding_worker(folder, itn_name, seconds if not check.replay else 5), workers=4)])
    check.finish()


if __name__ == "__main__":
    vf.quiet_logging()
    {"R01": r01, "R02": r02, "R03": r03}[PROP]()
