"""N07 options change what they name and nothing else; N08 what stands elsewhere in a text does not matter; N09 nothing is left to read.

Metamorphic monitors: the same text (or texts built from one another) goes through differently configured pipelines, or through one
pipeline in different company, and the recorded answers must be related the way the property says.
"""

import json
import os
import re
import string
import struct
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "spec"))
import gen
import vf
from common import table

PROP = sys.argv[1]
OTHER_SPACE = set("\x0b\x0c")  # whether these count as spaces is not documented
BASIC = set(string.ascii_letters + string.digits + string.punctuation + " \t\n\r\u00a0")


class Remote:
    """One configured pipeline in its own forked process, answering batches of texts."""

    def __init__(self, name, options):
        self.name, self.options = name, options
        r, self.wfd = os.pipe()
        self.rfd, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.wfd)
            os.close(self.rfd)
            try:
                self.serve(r, w)
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)

    def serve(self, r, w):
        try:
            vf.quiet_logging()
            n = vf.make_pipeline(self.name, False, **self.options)
            self.send(w, {"ok": True})
        except BaseException:
            self.send(w, {"error": traceback.format_exc()})
            return
        while True:
            texts = self.receive(r)
            if texts is None:
                return
            out = []
            for t in texts:
                try:
                    out.append([n.normalize(t), n.tag(t)])
                except Exception as error:
                    out.append([["raised", "%s: %s" % (type(error).__name__, error)], ""])
            self.send(w, out)

    @staticmethod
    def send(fd, value):
        data = json.dumps(value).encode()
        vf._write_all(fd, struct.pack("<I", len(data)) + data)

    @staticmethod
    def read(fd, n):
        data = b""
        while len(data) < n:
            more = os.read(fd, n - len(data))
            if not more:
                return None
            data += more
        return data

    def receive(self, fd):
        head = self.read(fd, 4)
        return None if head is None else json.loads(self.read(fd, struct.unpack("<I", head)[0]))

    def ready(self, rec):
        answer = self.receive(self.rfd)
        if answer is None or "error" in answer:
            rec.violation("pipeline cannot be built", {"pipeline": self.name, "options": self.options}, error=answer)
            return False
        rec.event("pipelines built")
        return True

    def ask(self, texts):
        self.send(self.wfd, texts)

    def answers(self, rec, texts):
        out = self.receive(self.rfd)
        if out is None:
            rec.violation("process died", {"pipeline": self.name, "options": self.options, "texts": texts[:60]})
        return out

    def close(self):
        try:
            self.send(self.wfd, None)
        except OSError:
            pass
        os.close(self.wfd)
        os.close(self.rfd)
        os.waitpid(self.pid, 0)


# ---------------------------------------------------------------------------------------------------------------
# N07


class Presentation:
    """What the presentation options do to a reading, character by character, as documented."""

    def __init__(self, lang):
        self.lang = lang
        self.half = dict(table(lang + "_tn_halfwidth"))
        self.puncts = {row[0] for row in table(lang + "_tn_puncts")}
        self.simple = dict(table("zh_tn_simple")) if lang == "zh" else {}
        self.interjections = {"呃", "啊"} if lang == "zh" else set()
        self.charset = self.puncts | BASIC | {row[0] for row in table(lang + "_tn_charset")}

    def names(self):
        return ["remove_interjections", "remove_puncts", "full_to_half", "tag_oov"] + (["traditional_to_simple"] if self.lang == "zh" else [])

    def __call__(self, options, s):
        """The accepted outputs' common form; spaces nobody documents may be marked or not."""

        half = options["full_to_half"]
        if self.lang == "zh" and options["traditional_to_simple"]:
            s = "".join(self.simple.get(c, c) for c in s)
        if self.lang == "ja" and half:
            s = "".join(self.half.get(c, c) for c in s)
        if options["remove_interjections"]:
            s = "".join(c for c in s if c not in self.interjections)
        if options["remove_puncts"]:
            s = "".join(c for c in s if c not in self.puncts and c not in string.punctuation)
        if self.lang == "zh" and half:
            s = "".join(self.half.get(c, c) for c in s)
        if options["tag_oov"]:
            s = "".join(c if c in self.charset or c in OTHER_SPACE else "<oov>%s</oov>" % c for c in s)
        return s

    @staticmethod
    def unmark(s):
        for c in OTHER_SPACE:
            s = s.replace("<oov>%s</oov>" % c, c)
        return s

    def decorate(self, r, text):
        pools = [list(self.half), sorted(self.puncts), sorted(self.interjections) or ["あ"], list(self.simple) or ["龍"], gen.ODD, gen.CJK]
        chars = list(text)
        for _ in range(r.randint(1, 5)):
            i = r.randint(0, len(chars))
            chars[i:i] = [r.choice(r.choice(pools))]
        return "".join(chars)


class Deck:
    """Every item once, in random order, before any comes again."""

    def __init__(self, items):
        self.items, self.left = sorted(items), []

    def deal(self, r, n):
        out = []
        while len(out) < n:
            if not self.left:
                self.left = list(self.items)
                r.shuffle(self.left)
            out.append(self.left.pop())
        return out


def shortest(text, words, single, plain=100.0):
    """All outputs of the cheapest segmentations into listed words and single characters."""

    size = max(map(len, words))
    best = [(0.0, {""})]
    for end in range(1, len(text) + 1):
        options = []
        for start in range(max(0, end - size), end):
            piece = text[start:end]
            for cost, out in words.get(piece, ()):
                options.append((best[start][0] + cost, start, out))
            if end - start == 1:
                for cost, out in single(piece):
                    options.append((best[start][0] + cost, start, out))
                options.append((best[start][0] + plain, start, piece))
        low = min(o[0] for o in options)
        outs = set()
        for cost, start, out in options:
            if cost < low + 1e-6:
                outs |= {head + out for head in best[start][1]}
        best.append((low, set(sorted(outs)[:64])))
    return best[-1][1]


def compare(rec, task, r, remotes, texts_of, judge, limit=None):
    """Feeds batches to every remote until the time is up; judge sees a text with all its answers."""

    try:
        if not all([remote.ready(rec) for remote in remotes]):
            return
        stop = time.time() + task["seconds"]
        while time.time() < stop:
            batch = texts_of(r)
            texts = [b if isinstance(b, str) else b[0] for b in batch]
            vf.HEART.begin({"pipeline": task["pipeline"], "texts": texts[:40]})
            for remote in remotes:
                remote.ask(texts)
            answers = [remote.answers(rec, texts) for remote in remotes]
            vf.HEART.end()
            if any(a is None for a in answers):
                return
            for k, b in enumerate(batch):
                got = [a[k] for a in answers]
                if any(isinstance(g[0], list) for g in got):
                    rec.event("normalize raised (left to N01)")
                    continue
                rec.case((task["kind"], task["pipeline"], texts[k]), sample={"kind": task["kind"], "pipeline": task["pipeline"], "text": texts[k], "out": [g[0] for g in got]}
                         if rec.counts["evaluations"] % 997 == 3 else None)
                judge(b, got)
    finally:
        for remote in remotes:
            try:
                remote.close()
            except Exception:
                pass


def presentation(rec, task, r):
    name = task["pipeline"]
    model = Presentation(name[:2])
    off = {k: False for k in model.names()}
    fixed = {"remove_erhua": r.random() < 0.5} if name == "zh_tn" else {}
    if name == "ja_tn":
        # Japanese full_to_half also decides what the rules can read, so both sides have it.
        fixed = {"transliterate": r.random() < 0.3}
        off["full_to_half"] = task["full_to_half"]
    variants = []
    for options in task["variants"]:
        options = dict(options)
        if name == "ja_tn":
            options["full_to_half"] = task["full_to_half"]
        variants.append(options)
    remotes = [Remote(name, dict(off, **fixed))] + [Remote(name, dict(v, **fixed)) for v in variants]

    every = Deck(set(model.charset) | set(model.simple) | set(model.half) | model.puncts | model.interjections | set(gen.ODD) | set(gen.CJK))

    def texts_of(r):
        # A part of the texts goes through every character of the tables, the others set some of them into ordinary ones.
        return ["".join(every.deal(r, 60)) if k % 4 == 0 else gen.text(r, name) if r.random() < 0.4 else model.decorate(r, gen.text(r, name)) for k in range(40)]

    def judge(text, got):
        for options, (out, tag) in zip(variants, got[1:]):
            case = {"pipeline": name, "options": dict(options, **fixed), "text": text}
            rec.event("presentation compared")
            rec.expect(tag == got[0][1], "a presentation option changes the tags", case, without=got[0][1], got=tag)
            wanted = model(options, got[0][0])
            if wanted != got[0][0]:
                rec.event("readings an option changed")
            rec.expect(model.unmark(out) == wanted, "a presentation option does not do exactly what it names", case, without=got[0][0], wanted=wanted, got=out)

    compare(rec, task, r, remotes, texts_of, judge)


NEUTRAL_ZH = list("猫狗看说呢吧好花山鸟鱼书")
NEUTRAL_JA = list("猫犬ねこいぬですはがをにも、。")


def erhua(rec, task, r):
    words = {}
    for row in table("zh_tn_erhua") + table("zh_tn_words"):
        words.setdefault(row[0], set()).add((1.03, row[1] if len(row) > 1 else row[0]))
    remotes = [Remote("zh_tn", {"remove_erhua": False}), Remote("zh_tn", {"remove_erhua": True})]
    listed = [w for w in words if "儿" in w]

    def texts_of(r):
        out = []
        for _ in range(40):
            out.append("".join(r.choice(["儿", r.choice(listed), r.choice(NEUTRAL_ZH), r.choice(r.choice(listed))]) for _ in range(r.randint(1, 9))))
        return out

    def judge(text, got):
        case = {"pipeline": "zh_tn", "text": text}
        rec.event("erhua compared")
        kept = shortest(text, words, lambda c: [(1.13, c)] if c == "儿" else [])
        dropped = shortest(text, words, lambda c: [(1.13, "")] if c == "儿" else [])
        rec.expect(got[0][0] in kept, "remove_erhua=False changes 儿", case, got=got[0][0], accepted=sorted(kept)[:8])
        rec.expect(got[1][0] in dropped, "remove_erhua does not remove exactly the unlisted 儿", case, got=got[1][0], accepted=sorted(dropped)[:8])

    compare(rec, task, r, remotes, texts_of, judge)


def transliterate(rec, task, r):
    words = {}
    for source, target in table("ja_tn_transliteration"):
        if source.isascii() and source.isalpha():
            words.setdefault(source, set()).add((1.04, target))
    listed = Deck(sorted(words)[task["part"]::2])
    remotes = [Remote("ja_tn", {"transliterate": False}), Remote("ja_tn", {"transliterate": True})]
    wide = str.maketrans({c: chr(ord(c) + 0xFEE0) for c in string.ascii_letters})
    half = dict(table("ja_tn_halfwidth"))

    def texts_of(r):
        out = []
        for _ in range(40):
            parts = []
            for _ in range(r.randint(2, 16)):
                k = r.random()
                parts.append(listed.deal(r, 1)[0] if k < 0.7 else "".join(r.choice(string.ascii_letters) for _ in range(r.randint(1, 4))) if k < 0.8 else "".join(
                    r.choice(NEUTRAL_JA) for _ in range(r.randint(1, 3))))
                if r.random() < 0.15:
                    parts[-1] = parts[-1].translate(wide)
            out.append(r.choice(["", "", " "]).join(parts))
        return out

    def judge(text, got):
        case = {"pipeline": "ja_tn", "text": text}
        plain = "".join(half.get(c, c) for c in text)
        rec.event("transliterations compared")
        rec.expect(got[0][0] == plain, "letters change without transliterate", case, got=got[0][0], wanted=plain)
        accepted = shortest(plain, words, lambda c: [])
        rec.expect(got[1][0] in accepted, "transliterate does not change exactly the listed words", case, got=got[1][0], accepted=sorted(accepted)[:8])

    compare(rec, task, r, remotes, texts_of, judge)


def width(rec, task, r):
    """full_to_half lets full-width text be read like the half-width text."""

    name = task["pipeline"]
    half = dict(table("ja_tn_halfwidth"))
    full = {v: k for k, v in half.items() if k != "“" and k != "”" and k != "。"}
    remotes = [Remote(name, {"full_to_half": False}), Remote(name, {"full_to_half": True})]

    def texts_of(r):
        out = []
        for _ in range(20):
            t = gen.text(r, name)
            t = "".join(half.get(c, c) for c in t)
            w = "".join(full.get(c, c) if r.random() < 0.4 else c for c in t)
            out += [t, w]
        return out

    state = {}

    def judge(text, got):
        plain = "".join(half.get(c, c) for c in text)
        case = {"pipeline": name, "text": text}
        rec.event("widths compared")
        if text == plain:
            state["reading"] = got[1][0]
            rec.expect(got[0][0] == got[1][0], "full_to_half changes half-width text", case, without=got[0][0], got=got[1][0])
        else:
            rec.expect(got[1][0] == state["reading"], "full-width text is read differently from half-width text", case, half=state["reading"], got=got[1][0])

    compare(rec, task, r, remotes, texts_of, judge)


def interjections(rec, task, r):
    remotes = [Remote("zh_itn", {"remove_interjections": False}), Remote("zh_itn", {})]

    def texts_of(r):
        out = []
        for _ in range(40):
            chars = list(gen.text(r, "zh_itn"))
            for _ in range(r.randint(0, 3)):
                i = r.randint(0, len(chars))
                chars[i:i] = [r.choice("呃啊嗯")]
            out.append("".join(chars))
        return out

    def judge(text, got):
        case = {"pipeline": "zh_itn", "text": text}
        rec.event("presentation compared")
        wanted = got[0][0].replace("呃", "").replace("啊", "")
        rec.expect(got[1][1] == got[0][1], "a presentation option changes the tags", case, without=got[0][1], got=got[1][1])
        rec.expect(got[1][0] == wanted, "a presentation option does not do exactly what it names", case, without=got[0][0], wanted=wanted, got=got[1][0])

    compare(rec, task, r, remotes, texts_of, judge)


# Families that say a bare number, which enable_standalone_number=False leaves as it is.
BARE = {"zh_itn": ["f_integer", "f_large", "f_yi"], "ja_itn": ["f_integer", "f_large"]}
# Families the option does not concern.
OTHER = {
    "zh_itn": ["f_percent", "f_fraction", "f_phone", "f_digits", "f_idcard", "f_ip", "f_plate", "f_date", "f_time", "f_unit_en", "f_unit_zh", "f_per", "f_money", "f_word"],
    "ja_itn": ["f_percent", "f_fraction", "f_ordinal", "f_digits", "f_ip", "f_date", "f_era", "f_time", "f_unit_en", "f_unit_ja", "f_unit_per", "f_money", "f_word"],
}


def standalone(rec, task, r):
    import importlib

    name = task["pipeline"]
    module = importlib.import_module(name)
    remotes = [Remote(name, {"enable_standalone_number": False})]

    def texts_of(r):
        out = []
        for _ in range(40):
            bare = r.random() < 0.35
            f = getattr(module, r.choice((BARE if bare else OTHER)[name]))
            text, expected = f(r)
            out.append((text, f.__name__, {text} if bare else expected))
        return out

    def judge(item, got):
        text, family, expected = item
        rec.event("standalone numbers" if len(expected) == 1 and text in expected else "numbers of other classes")
        rec.expect(got[0][0] in expected, "enable_standalone_number=False changes more or less than bare numbers",
                   {"pipeline": name, "options": {"enable_standalone_number": False}, "family": family, "text": text}, got=got[0][0], accepted=sorted(expected)[:8])

    compare(rec, task, r, remotes, texts_of, judge)


KINDS = {"presentation": presentation, "erhua": erhua, "transliterate": transliterate, "width": width, "interjections": interjections, "standalone": standalone}


def n07(check):
    r = check.rng("plan")
    seconds = check.pick(14, 240)
    tasks = []

    def some(lang, n):
        names = Presentation(lang).names()
        singles = [{k: k == one for k in names} for one in names]
        # Each alone, all together, then combinations: what one option hands on to the next one only shows when both are on.
        plans = singles + [{k: True for k in names}]
        while len(plans) < n:
            plan = {k: r.random() < 0.6 for k in names}
            if sum(plan.values()) > 1:
                plans.append(plan)
        return plans

    tasks.append({"kind": "interjections", "pipeline": "zh_itn"})
    tasks.append({"kind": "standalone", "pipeline": "zh_itn"})
    tasks.append({"kind": "presentation", "pipeline": "zh_tn", "variants": some("zh", check.pick(7, 14))})
    tasks.append({"kind": "presentation", "pipeline": "ja_tn", "variants": some("ja", check.pick(6, 11)), "full_to_half": True})
    tasks.append({"kind": "presentation", "pipeline": "ja_tn", "variants": some("ja", check.pick(6, 11)), "full_to_half": False})
    tasks.append({"kind": "erhua", "pipeline": "zh_tn"})
    tasks += [{"kind": "transliterate", "pipeline": "ja_tn", "part": part} for part in (0, 1)]
    tasks.append({"kind": "width", "pipeline": "ja_tn"})
    tasks.append({"kind": "width", "pipeline": "ja_itn"})
    tasks.append({"kind": "standalone", "pipeline": "ja_itn"})
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
        tasks = [t for t in tasks if t["kind"] in only]
    for t in tasks:
        t["seconds"] = check.pick(40, 300) if t["kind"] == "transliterate" else seconds
    tasks.sort(key=lambda t: -t["seconds"])

    def run(rec, task, rr):
        KINDS[task["kind"]](rec, task, rr)

    vf.run_tasks(check, run, tasks, parallel=5)


# ---------------------------------------------------------------------------------------------------------------
# N08


# What these read runs on into words before it, or is tied with other readings.
# English forms with a dash, a comma or a slash may be read with or without it, or with a word for it, at the same cost.
UNSETTLED = {
    "en_tn": {"f_asterisk", "f_century", "f_date_comma", "f_decimal_dash", "f_division", "f_ellipsis", "f_era", "f_fraction_form",
              "f_hour_zone", "f_leading_zero", "f_math_spaced", "f_money_short", "f_ordinal_form", "f_percent_range", "f_phone_country", "f_phone_prompt",
              "f_phone_words", "f_plus", "f_power", "f_ratio", "f_serial_parts", "f_time_dot", "f_times", "f_unit_fraction",
              "f_unit_only"},
    "en_itn": {"f_email", "f_url", "f_ip", "f_card", "f_mail_pieces", "f_url_pieces", "f_ip_pieces", "f_card_pieces"},
}
# Separators next to which every class ends, whole texts apart. (A clock or a score takes a blank after it; ，and 。 stand in numbers.)
SEPARATORS = {"zh_tn": ["猫", "囧", "\n"], "ja_tn": ["猫", "囧", "\n"], "zh_itn": ["猫", "囧", "。", "\n"], "ja_itn": ["猫", "囧", "。", "\n"], "en_tn": [" zebra "], "en_itn": [" zebra "]}


def families(name):
    import importlib

    module = importlib.import_module(name)
    return [f for f in module.NUMBER + module.DATES + module.TIMES + module.UNITS if f.__name__ not in UNSETTLED.get(name, ())]


def settled(text):
    """Long digit runs, and chains like 1/4/7, have several equally cheap readings."""

    if re.search(r"\d\s*/\s*\d+\s*/\s*\d", text):
        return False
    run = 0
    for c in text:
        run = run + 1 if c.isnumeric() or c in ",，." else 0
        if run > 18:
            return False
    return True


def company(seconds):
    def run(rec, n, r, index, workers):
        name = n.verif_name
        funcs = families(name)
        english = name[:2] == "en"
        stop = time.time() + seconds

        def normalize(text):
            vf.HEART.begin({"pipeline": name, "text": text[:400]})
            try:
                return n.normalize(text)
            except Exception as error:
                rec.violation("normalize raised", {"pipeline": name, "text": text[:400]}, error="%s: %s" % (type(error).__name__, error))
                return None
            finally:
                vf.HEART.end()

        def same(kind, text, wanted, case):
            got = normalize(text)
            if got is None:
                return
            rec.event(kind)
            if got != wanted:
                i = next((i for i, (a, b) in enumerate(zip(got, wanted)) if a != b), min(len(got), len(wanted)))
                rec.violation("read differently in company", dict(case, pipeline=name, kind=kind), differs_at=i, got=got[max(0, i - 40):i + 40], wanted=wanted[max(0, i - 40):i + 40])

        while time.time() < stop:
            f = r.choice(funcs)
            text = f(r)[0]
            alone = normalize(text)
            if alone is None:
                continue
            rec.case((name, text), sample={"pipeline": name, "text": text, "out": alone} if rec.counts["evaluations"] % 311 == 7 else None)
            rec.state("families", (name, f.__name__))
            k = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 16, 30, 60, 120]) if r.random() < 0.93 else r.randint(200, 3000)
            words = " zebra" if english else r.choice("猫囧")
            k2 = k if r.random() < 0.5 else r.randint(1, 5)
            before, after = (words[1:] + " ") * k if english else words * k, words * k2
            case = {"text": text, "words": words, "before": k, "after": k2}
            same("words before", before + text, before + alone, case)
            same("words after", text + after, alone + after, case)
            same("words around", before + text + after, before + alone + after, case)
            if not english or r.random() < 0.5:
                sep = r.choice(SEPARATORS[name])
                items = [text] + [r.choice(funcs)(r)[0] for _ in range(r.choice([1, 1, 2, 3, 6, 12]))]
                parts = [normalize(t) for t in items]
                if None not in parts:
                    same("several in one text", sep.join(items), sep.join(parts), {"texts": items, "separator": sep})
            if not english:
                for _ in range(3):
                    a, b, sep = gen.text(r, name), gen.text(r, name), r.choice(SEPARATORS[name])
                    if not settled(a) or not settled(b):
                        continue
                    parts = [normalize(a), normalize(b)]
                    if None not in parts:
                        rec.case((name, a, b), nontrivial=parts != [a, b])
                        same("whole texts joined", a + sep + b, parts[0] + sep + parts[1], {"texts": [a, b], "separator": sep})
    return run


# ---------------------------------------------------------------------------------------------------------------
# N09


PLAIN = {
    "zh_tn": {"remove_interjections": False, "full_to_half": False, "traditional_to_simple": False, "remove_erhua": False},
    "ja_tn": {"full_to_half": False},
    "zh_itn": {"remove_interjections": False},
    "ja_itn": {},
}
DIGITS = set("0123456789０１２３４５６７８９")


def final(seconds):
    def run(rec, n, r, index, workers):
        name = n.verif_name
        funcs = families(name)
        stop = time.time() + seconds
        while time.time() < stop:
            text = r.choice(funcs)(r)[0] if r.random() < 0.3 else gen.text(r, name)
            case = {"pipeline": name, "options": n.verif_options, "text": text}
            vf.HEART.begin(case)
            try:
                once = n.normalize(text)
                twice = n.normalize(once) if once else ""
            except Exception as error:
                rec.violation("normalize raised", case, error="%s: %s" % (type(error).__name__, error))
                continue
            finally:
                vf.HEART.end()
            rec.case((name, text), nontrivial=once != text, sample={"pipeline": name, "text": text, "out": once} if rec.counts["evaluations"] % 1997 == 7 else None)
            if once != text:
                rec.event("converted texts read again")
            if n.verif_options == PLAIN[name]:
                rec.expect(once == twice, "a normalized text is changed again", case, once=once, twice=twice)
            if name[3:] == "tn":
                rec.event("readings searched for digits")
                rec.expect(not DIGITS & set(once), "a digit is left unread", case, got=once)
                if DIGITS & set(text):
                    rec.event("texts with digits")
    return run


def jobs(make, plan):
    out = []
    for i, (name, options, workers) in enumerate(plan):
        def run(rec, n, r, index, count, name=name, options=options):
            n.verif_name, n.verif_options = name, options
            make(rec, n, r, index, count)
        out.append(vf.Job(name, run, workers=workers, options=options, label="%s/%d" % (name, i)))
    return out


def main():
    if PROP == "N07":
        check = vf.Check("N07", rule="a case is one text answered by a pipeline with and without an option",
                         assumptions=["frozen copies of the character tables state what the options document"],
                         min_events={"evaluations": 1000, "presentation compared": 800, "readings an option changed": 200, "erhua compared": 200, "transliterations compared": 200,
                                     "widths compared": 200, "standalone numbers": 100, "numbers of other classes": 200})
        n07(check)
    elif PROP == "N08":
        check = vf.Check("N08", rule="a case is one text (built by a reference model, or two generated ones) answered alone and in company of other text",
                         assumptions=["猫, 囧 and zebra stand for words no rule reads"],
                         min_events={"evaluations": 300, "words before": 80, "words after": 80, "words around": 80, "several in one text": 40, "whole texts joined": 80})
        seconds = check.pick(24, 300)
        vf.run_jobs(check, jobs(company(seconds), [(name, {}, 4 if name[:2] == "en" else 2) for name in SEPARATORS]))
    elif PROP == "N09":
        check = vf.Check("N09", rule="a case is one generated text normalized twice; it is trivial when nothing in it is converted",
                         min_events={"evaluations": 2000, "converted texts read again": 800, "readings searched for digits": 1000, "texts with digits": 500})
        seconds = check.pick(18, 300)
        vf.run_jobs(check, jobs(final(seconds), [(name, options, 2) for name, options in PLAIN.items()] + [("zh_tn", {}, 1), ("ja_tn", {}, 1)]))
    else:
        raise SystemExit("unknown property " + PROP)
    check.finish()


if __name__ == "__main__":
    main()
