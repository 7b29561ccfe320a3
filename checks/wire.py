"""T01: the tagged-token wire format: reading, rejecting, reordering and quoting, against an independent reader written as a grammar."""

import copy
import itertools
import os
import re
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gen
import vf

FIELD = r' *([A-Za-z_]+): "((?:[^"\\]|\\.)*)"'
TOKEN = re.compile(r" *([A-Za-z_]+) \{ ((?:%s)*) *\}" % FIELD.replace("(", "(?:").replace("(?:?:", "(?:"), re.S)
FIELD = re.compile(FIELD, re.S)
ESCAPE = re.compile(r"\\(.)", re.S)


def read(stream):
    """[(name, [(key, value)], start, end)] or None when the stream is malformed."""

    if not stream:
        return None
    tokens, at = [], 0
    while True:
        if not stream[at:].strip(" "):
            return tokens
        m = TOKEN.match(stream, at)
        if not m:
            return None
        fields = [(k, ESCAPE.sub(lambda e: e.group(1) if e.group(1) in '"\\' else e.group(0), v)) for k, v in FIELD.findall(m.group(2))]
        if len({k for k, _ in fields}) != len(fields):
            return None
        tokens.append((m.group(1), fields, m.start(1), m.end()))
        at = m.end()


def quote(value):
    return "".join("\\" + c if c in '"\\' else c for c in value)


def write(tokens):
    return " ".join(n + " {" + "".join(' %s: "%s"' % (k, quote(v)) for k, v in fields) + " }" for n, fields in tokens)


def canonical(name, fields, orders):
    if name not in orders or ("preserve_order", "true") in fields:
        return fields
    order = orders[name]
    return sorted(fields, key=lambda f: order.index(f[0]) if f[0] in order else len(order))


def judge(rec, parser, orders, stream, case):
    from tn.token_parser import TokenParseError

    expected = read(stream)
    try:
        got, spans = parser.reorder_with_spans(stream)
    except TokenParseError:
        rec.event("streams refused")
        rec.expect(expected is None, "a well-formed stream is refused", case, tokens=expected)
        return False
    except Exception as error:
        rec.violation("a malformed stream raises something else than TokenParseError", case, error="%s: %s" % (type(error).__name__, error))
        return False
    rec.event("streams read")
    if not rec.expect(expected is not None, "a malformed stream is accepted", case, got=got):
        return True
    tokens = [(t.name, [(k, t.members[k]) for k in t.order], t.start, t.end) for t in parser.tokens]
    rec.expect(tokens == expected, "a stream is read wrongly", case, got=tokens, expected=expected)
    wanted = [(n, canonical(n, f, orders)) for n, f, _, _ in expected]
    if not rec.expect(got == write(wanted), "reordering gives another stream than the canonical one", case, got=got, expected=write(wanted)):
        return True
    for (a, b), (n, f) in zip(spans, wanted):
        rec.expect(got[a:b] == write([(n, f)]), "a reordered token is not at its span", case, span=(a, b), got=got[a:b])
    rec.expect(len(spans) == len(wanted), "not every token has a span", case, spans=spans)
    if got:
        again = parser.reorder(got)
        rec.expect(again == got, "reordering twice is not reordering once", case, once=got, twice=again)
    for n, f in wanted:
        rec.state("token shapes", (n in orders, len(f), any(k == "preserve_order" for k, _ in f)))
    return True


NAMES = ["char", "date", "money", "time", "fraction", "measure", "x", "_", "Abc_d", "telephone", "electronic", "whitelist"]
KEYS = ["value", "year", "month", "day", "hour", "minute", "second", "noon", "zone", "numerator", "denominator", "sign", "currency", "decimal", "quantity", "preserve_order", "text",
        "units", "integer_part", "fractional_part", "currency_maj", "country_code", "number_part", "username", "domain", "protocol", "extra", "K_", "a"]
SYNTAX = ["{", "}", '"', "\\", ":", " ", '" ', ' { ', ': "', "a", "_", "\n", "\t", "1", "é", "字", "😀", "\x00", "\u00a0", "\ud800", "<EOS>", "", '\\"', "\\\\", "\\n"]


def some_value(r):
    k = r.random()
    if k < 0.3:
        return "".join(r.choice(SYNTAX) for _ in range(r.randint(0, 6)))
    if k < 0.4:
        return r.choice(["true", "false", ""])
    if k < 0.6:
        return gen.random_unicode(r, r.randint(1, 6))
    return r.choice(["1", "12", "三", "a b", "<EOS>", " x ", "}", 'say "hi"'])


NAMED = {"tn": "TN_ORDERS", "itn": "ITN_ORDERS", "en_tn": "EN_TN_ORDERS"}
PRISTINE = {}


def some_orders(r):
    k = r.random()
    if k < 0.6:
        kind = r.choice(["tn", "itn", "en_tn"])
        return kind, PRISTINE[kind]
    orders = {r.choice(NAMES): r.sample(KEYS, r.randint(0, 5)) for _ in range(r.randint(0, 4))}
    return dict(orders), orders


def some_stream(r):
    tokens = []
    for _ in range(r.randint(1, 4)):
        keys = r.sample(KEYS, min(len(KEYS), r.choice([0, 1, 1, 2, 3, 5])))
        tokens.append((r.choice(NAMES), [(k, "true" if k == "preserve_order" and r.random() < 0.7 else some_value(r)) for k in keys]))
    stream = write(tokens)
    k = r.random()
    if k < 0.4:
        return stream
    if k < 0.5:
        return " " * r.randint(0, 2) + stream.replace(" }", " " * r.randint(0, 2) + " }").replace("} ", "}" + " " * r.randint(0, 3)) + " " * r.randint(0, 2)
    chars = list(stream)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(chars))
        c = r.random()
        if c < 0.35:
            del chars[i:i + 1]
        elif c < 0.7:
            chars[i:i] = [r.choice(SYNTAX)]
        elif c < 0.8:
            del chars[i:]
        elif c < 0.9 and chars:
            j = r.randrange(len(chars))
            chars[i:i] = chars[j:j + r.randint(1, 12)]
        else:
            chars[i:i + 1] = [r.choice(SYNTAX)]
    return "".join(chars)


def streams(rec, n, r, index, workers):
    from tn import token_parser as tp
    from tn.token_parser import TokenParser

    stop = time.time() + SECONDS
    k = 0
    # The parsers and their schemas live through many streams; the oracle keeps copies made before the first one.
    kept = []
    while time.time() < stop:
        if k % 2000 == 0 or r.random() < 0.002:
            for parser, orders, schema in kept:
                rec.expect(schema == orders, "reading streams changes the schema of the parser", {"schema": orders}, now=schema)
            kept = [(TokenParser(kind), copy.deepcopy(orders), orders) for kind, orders in (some_orders(r) for _ in range(8))]
            for kind, orders in PRISTINE.items():
                kept.append((TokenParser(kind), orders, getattr(tp, NAMED[kind])))
            rec.event("schemas compared", len(kept))
        parser, orders, _ = r.choice(kept)
        stream = some_stream(r)
        case = {"orders": orders, "stream": stream}
        vf.HEART.begin(case)
        ok = judge(rec, parser, orders, stream, case)
        vf.HEART.end()
        rec.case((stream, repr(orders)), nontrivial=len(stream) > 3, sample=dict(stream=stream, read=ok) if k % 4999 == 7 else None)
        k += 1


def small(rec, n, r, index, workers):
    """Every continuation up to a length over the syntax characters, after prefixes that lead to each parser state."""

    from tn.token_parser import TN_ORDERS, TokenParser

    parser = TokenParser("tn")
    prefixes = ["", "a", "a {", "a { ", "a { b", 'a { b:', 'a { b: "', 'a { b: "c" ', "a { } ", 'a { b: "c\\', 'date { day: "1" year']
    alphabet = 'a "{}:\\_\n'
    for p, prefix in enumerate(prefixes):
        if p % workers != index:
            continue
        for length in range(LENGTH + 1):
            for tail in itertools.product(alphabet, repeat=length):
                stream = prefix + "".join(tail)
                judge(rec, parser, TN_ORDERS, stream, {"orders": "tn", "stream": stream})
                rec.case(stream)
                rec.event("streams enumerated")


def quoting(rec, n, r, index, workers):
    """Any text put in a field by the grammar helpers comes out of the token, and out of the verbalizer, as it was."""

    from tn.processor import Processor

    one = Processor("text")
    one.tagger = one.add_tokens(one.tag_field("value", one.VSIGMA)).optimize()
    one.verbalizer = one.delete_tokens(one.verbalize_field("value")).optimize()
    lengths = r.choice([1, 2, 3])
    two = Processor("date")
    from pynini.lib.pynutil import insert
    two.tagger = two.add_tokens(two.tag_field("day", two.VCHAR**lengths) + insert(" ") + two.tag_field("year", two.VSIGMA)).optimize()
    two.verbalizer = two.delete_tokens(two.verbalize_field("year") + two.verbalize_field("day", leading_space=True)).optimize()
    stop = time.time() + SECONDS
    k = 0
    while time.time() < stop:
        text = gen.text(r, r.choice(list(vf.PIPELINES))) if r.random() < 0.5 else "".join(r.choice(SYNTAX) for _ in range(r.randint(1, 8))).replace("\x00", "").replace("\ud800", "")
        case = {"text": text}
        vf.HEART.begin(case)
        if text:
            tagged = one.tag(text)
            tokens = read(tagged)
            rec.expect(tokens is not None and [(t[0], t[1]) for t in tokens] == [("text", [("value", text)])], "a quoted field does not hold the text", case, tagged=tagged)
            said = one.verbalize(tagged)
            rec.expect(said == text, "a quoted field is not verbalized as the text", case, tagged=tagged, got=said)
            m = one.normalize_with_mapping(text, include_identity=True)
            rec.expect([(x.input_start, x.input_end, x.output_start, x.output_end) for x in m.mappings] == [(0, len(text), 0, len(text))], "a quoted field is not mapped to itself", case,
                       got=m.mappings)
            if len(text) >= lengths:
                tagged = two.tag(text)
                tokens = read(tagged)
                rec.expect(tokens is not None and tokens[0][1] == [("day", text[:lengths]), ("year", text[lengths:])], "quoted fields do not hold their texts", case, tagged=tagged)
                said = two.verbalize(tagged)
                rec.expect(said == text[lengths:] + text[:lengths], "reordered fields are verbalized wrongly", case, tagged=tagged, got=said)
            rec.event("texts quoted")
        vf.HEART.end()
        rec.case(text, nontrivial=bool(set(text) & set('"\\{}[]')), sample=case if k % 997 == 5 else None)
        k += 1


SECONDS, LENGTH = 12, 4


def main():
    global SECONDS, LENGTH
    check = vf.Check("T01", rule="a case is one token stream (generated, mutated or enumerated) or one text sent through quoted fields; nontrivial when longer than three characters or "
                     "holding syntax characters", assumptions=["the reference reader is a regular grammar of the documented format"],
                     min_events={"evaluations": 20000, "streams refused": 3000, "streams read": 3000, "texts quoted": 500})
    SECONDS, LENGTH = check.pick((12, 4), (300, 6))
    from tn import token_parser as tp
    PRISTINE.update({kind: copy.deepcopy(getattr(tp, name)) for kind, name in NAMED.items()})
    if check.replay:
        case = check.replay["case"]

        def once(rec, n, r, index, workers):
            from tn.token_parser import TN_ORDERS, TokenParser
            if "stream" in case:
                orders = case["orders"]
                judge(rec, TokenParser(orders), TN_ORDERS if orders == "tn" else orders, case["stream"], case)
            else:
                gen.text = lambda *a: case["text"]
                quoting(rec, None, r, 0, 1)
            rec.case(repr(case))
        SECONDS = 3
        vf.run_jobs(check, [vf.Job(None, once)])
        check.finish()
    vf.run_jobs(check, [vf.Job(None, streams, workers=4, label="streams"), vf.Job(None, small, workers=2, label="enumerated"), vf.Job(None, quoting, workers=2, label="quoting")])
    check.finish()


if __name__ == "__main__":
    main()
