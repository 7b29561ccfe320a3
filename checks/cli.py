"""L01: the command line is the library, line by line.

Three monitors: real runs of cli.run over six pipelines on hostile line streams against the library's own answers; every option spelling
against the constructor call it must lead to; and real `python -m tn|itn` processes, outputs and exit codes included.
"""

import inspect
import io
import itertools
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gen
import vf

OPTIONS = {
    ("tn", "zh"): dict(remove_interjections=True, remove_erhua=True, traditional_to_simple=True, remove_puncts=False, full_to_half=True, tag_oov=False),
    ("tn", "ja"): dict(transliterate=False, remove_interjections=False, remove_puncts=False, full_to_half=True, tag_oov=False),
    ("tn", "en"): {},
    ("itn", "zh"): dict(remove_interjections=True, enable_standalone_number=True, enable_0_to_9=False, enable_million=False),
    ("itn", "ja"): dict(full_to_half=False, enable_standalone_number=True, enable_0_to_9=False, enable_million=False),
    ("itn", "en"): {},
}
EVERY = sorted({o for options in OPTIONS.values() for o in options})


def split_lines(data):
    data = data.replace("\r\n", "\n").replace("\r", "\n")
    out = data.split("\n")
    return out[:-1] if data.endswith("\n") or data == "" else out


def hostile_line(r, name):
    k = r.random()
    if k < 0.12:
        return ""
    if k < 0.2:
        return r.choice([" ", "  ", "\t", "\u3000", "\x0b", "\x0c", "\u2028", "\x85", "\x1c", "\ufeff"]) * r.randint(1, 2)
    t = gen.text(r, name)[:80].replace("\n", " ").replace("\r", " ")
    if k < 0.4:
        t = r.choice([" ", "\t", "\x0c", "\u3000", "\u2028", "\x85", ""]) + t + r.choice([" ", "\t", "\x0b", "\u2029", "\x1d", ""])
    return t


def expected_output(n, lines):
    out = []
    for line in lines:
        tagged = n.tag(line)
        out += [tagged, n.verbalize(tagged)]
    return "".join(x + "\n" for x in out)


def protocol(name):
    direction, language = name[3:], name[:2]

    def run(rec, n, r, index, workers):
        from tn import cli

        with vf.Scratch("l01") as scratch:
            stop = time.time() + SECONDS
            k = 0
            while time.time() < stop:
                lines = [hostile_line(r, name) for _ in range(r.choice([0, 1, 2, 5, 12]))]
                ending = r.choice(["\n", "\n", "\r\n", "\r"])
                data = ending.join(lines) + (r.choice([ending, ""]) if lines else "")
                how = r.choice(["file", "stdin", "text", "file", "raw"])
                if how == "text":
                    lines = lines[:1] or ["x"]
                    if lines[0].startswith("-"):
                        lines = ["x" + lines[0]]
                elif how == "raw":
                    # A stream that does not translate line ends: a line ends at "\n", and loses that one line end ("\r\n", "\n" or, at the end, "\r").
                    data = "".join(line + r.choice(["\n", "\r\n", "\r\r\n", "\r\n\r\n", "\n\r\n", "x\ry\n"]) for line in lines) + r.choice(["", "", "last", "last\r", "\r", "last\r\r"])
                    lines = [re.sub(r"(\r\n|\n|\r)\Z", "", line) for line in re.findall(r"[^\n]*\n|[^\n]+", data)]
                else:
                    lines = split_lines(data)
                case = {"direction": direction, "language": language, "input": how, "data": lines[0] if how == "text" else data}
                argv = ["--language", language]
                stdin = None
                if how == "text":
                    argv += r.choice([["--text", lines[0]], ["--text=" + lines[0]]])
                elif how == "file":
                    path = os.path.join(scratch, "in.txt")
                    with open(path, "w", encoding="utf-8", newline="") as f:
                        f.write(data)
                    argv += ["--file", path]
                elif how == "raw":
                    stdin = r.choice([io.StringIO(data, newline="\n"), io.StringIO(data, newline=""), re.findall(r"[^\n]*\n|[^\n]+", data)])
                    if isinstance(stdin, io.StringIO) and stdin.readlines() != re.findall(r"[^\n]*\n|[^\n]+", data):
                        lines = split_lines(data)  # newline="" also ends lines at a lone "\r"
                    if isinstance(stdin, io.StringIO):
                        stdin.seek(0)
                    case["kind"] = type(stdin).__name__
                else:
                    stdin = io.TextIOWrapper(io.BytesIO(data.encode("utf-8")), encoding="utf-8")
                if r.random() < 0.5:
                    argv = argv[2:] + argv[:2]
                stdout = io.StringIO()
                seen = []
                vf.HEART.begin(case)
                try:
                    got = cli.run(direction, argv, stdin=stdin, stdout=stdout, processor_factory=lambda d, a: seen.append((d, a.language)) or n)
                    rec.expect(got is n and seen == [(direction, language)], "the command line makes another processor than asked for", case, seen=seen)
                except BaseException as error:
                    rec.violation("the command line fails", case, error="%s: %s" % (type(error).__name__, error))
                    continue
                finally:
                    vf.HEART.end()
                wanted = expected_output(n, lines)
                rec.expect(stdout.getvalue() == wanted, "the command line output is not tag and verbalization of each line", case, got=stdout.getvalue(), expected=wanted)
                rec.event("lines processed", len(lines))
                rec.event("input by " + how)
                rec.case((name, how, data), nontrivial=len(lines) > 0, sample=dict(case, lines=len(lines)) if k % 301 == 5 else None)
                k += 1
    return run


# ---------------------------------------------------------------------------------------------------------------
# Options


def spellings(option, value, r=None):
    hyphen = option.replace("_", "-")
    out = []
    for name in dict.fromkeys((option, hyphen)):
        if value:
            out += [["--" + name], ["--" + name, "True"], ["--" + name, "true"], ["--%s=TRUE" % name]]
        else:
            out += [["--no-" + name], ["--" + name, "False"], ["--%s=false" % name]]
    return out


class Recorded:
    def __init__(self, call):
        self.call = call

    def tag(self, text):
        return "tagged " + text

    def verbalize(self, text):
        return "said " + text


def options(rec, n, r, index, workers):
    import importlib
    from tn import cli

    calls = []
    for name, (module_name, class_name) in vf.PIPELINES.items():
        module = importlib.import_module(module_name)
        real = getattr(module, class_name)
        signature = inspect.signature(real.__init__)

        def fake(*args, _name=name, _signature=signature, **kwargs):
            bound = _signature.bind(None, *args, **kwargs)
            bound.apply_defaults()
            calls.append((_name, dict(bound.arguments)))
            return Recorded(calls[-1])

        setattr(module, class_name, fake)
    cases = []
    for (direction, language), defaults in OPTIONS.items():
        cases.append((direction, language, {}, []))
        for option, default in defaults.items():
            for value in (True, False):
                for words in spellings(option, value):
                    cases.append((direction, language, {option: value}, words))
        for values in itertools.product((True, False), repeat=len(defaults)):
            chosen = dict(zip(defaults, values))
            words = []
            for option, value in chosen.items():
                words += r.choice(spellings(option, value))
            cases.append((direction, language, chosen, words))
        for _ in range(6):
            if defaults:
                option = r.choice(sorted(defaults))
                first, last = r.random() < 0.5, r.random() < 0.5
                cases.append((direction, language, {option: last}, r.choice(spellings(option, first)) + r.choice(spellings(option, last))))
    for direction, language, chosen, words in cases:
        for cache in (None, "/nowhere/x"):
            overwrite = r.random() < 0.3
            argv = list(words) + (["--cache_dir" if r.random() < 0.5 else "--cache-dir", cache] if cache else []) + (["--overwrite_cache" if r.random() < 0.5 else "--overwrite-cache"] if overwrite else [])
            lang_words = r.choice([["--language", language], ["--language=" + language]]) if language != "zh" or r.random() < 0.5 else []
            text_words = ["--text", "t"]
            # A bare switch must not be followed by a word that is not an option.
            argv = r.choice([lang_words + argv + text_words, argv + text_words + lang_words, text_words + lang_words + argv])
            case = {"direction": direction, "argv": argv}
            del calls[:]
            out = io.StringIO()
            try:
                cli.run(direction, argv, stdout=out)
            except BaseException as error:
                rec.violation("documented options are refused", case, error="%s: %s" % (type(error).__name__, error))
                continue
            wanted = dict(OPTIONS[direction, language], **chosen)
            rec.event("option sets run")
            rec.case(("options", direction, tuple(argv)), sample=case if r.random() < 0.01 else None)
            if not rec.expect(len(calls) == 1 and calls[0][0] == "%s_%s" % (language, direction), "the options lead to another pipeline", case, calls=calls):
                continue
            got = calls[0][1]
            rec.expect({k: got.get(k, "missing") for k in wanted} == wanted, "the options do not reach the pipeline", case, got=got, expected=wanted)
            rec.expect(got.get("cache_dir") == cache and got.get("overwrite_cache") == overwrite, "the cache options do not reach the pipeline", case, got=got)
            rec.expect(out.getvalue() == "tagged t\nsaid tagged t\n", "the output is not the tagged and the verbalized text", case, got=out.getvalue())
    # Words that must be refused: options of another pipeline, two inputs, unknown values.
    bad = []
    for (direction, language), defaults in OPTIONS.items():
        for option in EVERY:
            if option not in defaults:
                bad += [(direction, language, ["--" + option]), (direction, language, ["--no-" + option.replace("_", "-")]), (direction, language, ["--" + option, "True"])]
            else:
                bad += [(direction, language, ["--" + option, w]) for w in ("yes", "1", "")]
        bad += [(direction, language, w) for w in (["--text", "a", "--file", "b"], ["--language", "fr"], ["--nosuch"], ["stray"], ["--text"], ["--file"])]
    for direction, language, words in bad:
        argv = (["--language", language] if "--language" not in words else []) + words + ([] if any(w in ("--text", "--file") for w in words) else ["--text", "t"])
        case = {"direction": direction, "argv": argv}
        del calls[:]
        out, err = io.StringIO(), io.StringIO()
        old, sys.stderr = sys.stderr, err
        try:
            cli.run(direction, argv, stdout=out)
            rec.violation("words no option covers are accepted", case, calls=calls)
        except SystemExit as stop:
            rec.expect(stop.code == 2 and not out.getvalue() and not calls, "a refused command line does more than report it", case, code=stop.code, calls=calls)
            rec.expect("error" in err.getvalue(), "a refused command line does not say so", case)
        except BaseException as error:
            rec.violation("a bad command line is not refused cleanly", case, error="%s: %s" % (type(error).__name__, error))
        finally:
            sys.stderr = old
        rec.event("command lines refused")
        rec.case(("bad", direction, tuple(argv)))
    # The defaults documented for the command line are those of the library.
    for (direction, language), defaults in OPTIONS.items():
        module_name, class_name = vf.PIPELINES["%s_%s" % (language, direction)]
        del calls[:]
        getattr(importlib.import_module(module_name), class_name)()
        got = {k: v for k, v in calls[0][1].items() if k in defaults}
        rec.expect(got == defaults, "the library's defaults differ from the command line's", {"direction": direction, "language": language}, got=got, expected=defaults)


# ---------------------------------------------------------------------------------------------------------------
# Processes


REAL = [("tn", "ja", {}), ("itn", "ja", {}), ("tn", "zh", {}), ("tn", "ja", dict(transliterate=True, remove_puncts=True)), ("itn", "ja", dict(full_to_half=True, enable_0_to_9=True)),
        ("tn", "zh", dict(remove_erhua=False, tag_oov=True)), ("itn", "en", {})]


def processes(rec, task, r):
    direction, language, chosen = task
    name = "%s_%s" % (language, direction)
    with vf.Scratch("l01p") as scratch:
        cache = os.path.join(scratch, "cache")
        n = vf.make_pipeline(name, cache, **chosen)
        words = [w for option, value in chosen.items() for w in r.choice(spellings(option, value))]
        base = [sys.executable, "-m", direction, "--language", language, "--cache_dir", cache] + words
        env = vf.child_env(scratch)

        def start(argv, data=None):
            p = subprocess.run(argv, input=data, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            rec.event("processes run")
            return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")

        for k in range(task_count()):
            lines = [hostile_line(r, name) for _ in range(r.randint(1, 25))]
            ending = r.choice(["\n", "\r\n"])
            data = ending.join(lines) + r.choice([ending, ""])
            how = r.choice(["file", "stdin", "text"]) if k > 2 else ["file", "stdin", "text"][k]
            argv = list(base)
            if how == "file":
                path = os.path.join(scratch, "some input.txt")
                with open(path, "wb") as f:
                    f.write(data.encode("utf-8"))
                argv += ["--file", path]
                code, out, err = start(argv)
            elif how == "stdin":
                code, out, err = start(argv, data.encode("utf-8"))
            else:
                data = lines[0].replace("\x00", "")
                code, out, err = start(argv + ["--text=" + data])
            wanted = expected_output(n, [data] if how == "text" else split_lines(data))
            case = {"argv": argv[2:], "input": how, "data": data}
            rec.expect(code == 0 and out == wanted, "a command-line process gives another output than the library", case, code=code, got=out, expected=wanted, stderr=err[-800:])
            rec.case((name, how, data), sample={"argv": argv[2:6], "input": how} if k == 0 else None)
        for argv in (base + ["--file", os.path.join(scratch, "missing")], base + ["--file", scratch], base + ["--nosuch"], base + ["--text", "a", "--file", "b"]):
            code, out, err = start(argv)
            rec.expect(code == 2 and out == "" and "Traceback" not in err and err.strip(), "a failing command does not end with a plain error and status 2", {"argv": argv[2:]}, code=code, out=out, err=err)
            rec.case((name, "fails", tuple(argv[-2:])))


def task_count():
    return COUNT


SECONDS, COUNT = 10, 4


def main():
    global SECONDS, COUNT
    vf.quiet_logging()
    check = vf.Check("L01", rule="a case is one command line with its input; nontrivial when it has at least one line or option",
                     assumptions=["UTF-8 locale", "texts starting with '-' are given as --text=…"], min_events={"evaluations": 600, "lines processed": 800, "option sets run": 80,
                                                                                                          "processes run": 6})
    SECONDS, COUNT = check.pick((10, 4), (240, 60))
    if check.replay:
        case = check.replay["case"]
        print(case)
        check.replay["case"] = case
    pipes = list(vf.PIPELINES) if check.thorough else ["zh_tn", "ja_tn", "en_itn", "ja_itn"]
    jobs = [vf.Job(p, protocol(p), workers=1) for p in pipes] + [vf.Job(None, options, label="options")]
    vf.run_jobs(check, jobs)
    vf.run_tasks(check, processes, REAL if check.thorough else [REAL[i] for i in (0, 1, 3, 4)], parallel=4)
    check.finish()


if __name__ == "__main__":
    main()
