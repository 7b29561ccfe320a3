"""N01 totality, N02 mapping, N03 raw tags, N04 agreement of the entry points: monitors on real pipeline calls."""

import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gen
import vf

PROP = sys.argv[1]

# Fields whose value is a marker written by the grammar, not text from the input.
MARKERS = {("preserve_order", "true"), ("units", "math"), ("units", "address"), ("style", "to"), ("kind", "serial"), ("kind", "ip"),
           ("kind", "phone"), ("kind", "ssn"), ("kind", "credit_card")}
SEPARATORS = set(":/.-@：．－／")


def call(rec, pipeline_name, what, text, func):
    t = time.time()
    try:
        value = func()
    except Exception as error:
        rec.violation("%s raised" % what, {"pipeline": pipeline_name, "text": text}, error="%s: %s" % (type(error).__name__, error))
        return None
    rec.counts["max ms %s" % pipeline_name] = max(rec.counts["max ms %s" % pipeline_name], int(1000 * (time.time() - t)))
    return value


def n01(rec, name, n, text, r):
    out = call(rec, name, "normalize", text, lambda: n.normalize(text))
    if out is not None:
        rec.expect(type(out) is str, "normalize did not return a string", {"pipeline": name, "text": text}, got=out)
    tagged = call(rec, name, "tag", text, lambda: n.tag(text))
    if tagged is not None and rec.expect(type(tagged) is str and tagged != "", "tag returned no token", {"pipeline": name, "text": text}, got=tagged):
        rec.event("tokens tagged", tagged.count("{ "))
        spoken = call(rec, name, "verbalize", text, lambda: n.verbalize(tagged))
        if spoken is not None:
            rec.expect(type(spoken) is str, "verbalize did not return a string", {"pipeline": name, "text": text}, got=spoken)
    m = call(rec, name, "normalize_with_mapping", text, lambda: n.normalize_with_mapping(text, include_identity=r.random() < 0.5))
    if m is not None:
        rec.event("mappings returned", len(m.mappings))
    if r.random() < 0.1 and gen.nbest_ok(text):
        k = r.randint(2, 4)
        outs = call(rec, name, "normalize nbest", text, lambda: n.normalize(text, nbest=k))
        if outs is not None:
            rec.expect(isinstance(outs, list) and 1 <= len(outs) <= k and all(type(o) is str for o in outs), "n-best is not a list of 1..n strings",
                       {"pipeline": name, "text": text}, got=outs, n=k)
            rec.event("n-best lists")
    return out


def check_mapping(rec, name, text, expected, result, identity, case):
    ok = rec.expect(result.input_text == text, "mapping input_text differs from the input", case, got=result.input_text)
    ok &= rec.expect(result.output_text == expected, "mapping output_text differs from normalize", case, got=result.output_text, expected=expected)
    out = result.output_text
    i = o = 0
    for m in result.mappings:
        rec.event("mapping kind " + m.kind)
        good = rec.expect(i <= m.input_start < m.input_end <= len(text), "input spans overlap, are empty, out of order or outside the text", case, mapping=m)
        good &= rec.expect(o <= m.output_start <= m.output_end <= len(out), "output spans overlap, are out of order or outside the output", case, mapping=m)
        good &= rec.expect(m.input_text == text[m.input_start:m.input_end], "input_text is not the slice at its span", case, mapping=m)
        good &= rec.expect(m.output_text == out[m.output_start:m.output_end], "output_text is not the slice at its span", case, mapping=m)
        kind = "equal" if m.input_text == m.output_text else ("delete" if not m.output_text else "replace")
        good &= rec.expect(m.kind == kind, "kind does not describe the two texts", case, mapping=m)
        if not identity:
            good &= rec.expect(m.kind != "equal", "unchanged token listed without include_identity", case, mapping=m)
        if not good:
            return False
        if identity:
            good &= rec.expect(not text[i:m.input_start].strip(), "written text covered by no token", case, gap=text[i:m.input_start])
            good &= rec.expect(not out[o:m.output_start].strip(), "spoken text covered by no token", case, gap=out[o:m.output_start])
        else:
            # What lies between changed tokens is unchanged text, up to spacing.
            good &= rec.expect("".join(text[i:m.input_start].split()) == "".join(out[o:m.output_start].split()),
                               "text between two listed changes differs", case, written=text[i:m.input_start], spoken=out[o:m.output_start])
        if not good:
            return False
        i, o = m.input_end, m.output_end
    if identity:
        rec.expect(not text[i:].strip(), "written text covered by no token", case, gap=text[i:])
        rec.expect(not out[o:].strip(), "spoken text covered by no token", case, gap=out[o:])
    else:
        rec.expect("".join(text[i:].split()) == "".join(out[o:].split()), "text after the last listed change differs", case, written=text[i:],
                   spoken=out[o:])
    return ok


def n02(rec, name, n, text, r):
    case = {"pipeline": name, "text": text}
    try:
        expected = n.normalize(text)
    except Exception:
        rec.event("normalize raised (left to N01)")
        return None
    try:
        full = n.normalize_with_mapping(text, include_identity=True)
        changes = n.normalize_with_mapping(text)
    except Exception as error:
        rec.violation("mapping raised although normalize succeeds", case, error="%s: %s" % (type(error).__name__, error))
        return expected
    check_mapping(rec, name, text, expected, full, True, case)
    check_mapping(rec, name, text, expected, changes, False, case)
    rec.expect(tuple(m for m in full.mappings if m.kind != "equal") == tuple(changes.mappings), "include_identity changes the listed changes", case,
               full=full.mappings, changes=changes.mappings)
    for m in full.mappings:
        rec.state("token types", (name, m.token_type, m.kind))
    d = full.as_dict()
    rec.expect(
        d["input"] == text and d["output"] == expected and [(x["kind"], x["token_type"], x["input"]["start"], x["input"]["end"], x["input"]["text"],
                                                             x["output"]["start"], x["output"]["end"], x["output"]["text"]) for x in d["mappings"]] ==
        [(m.kind, m.token_type, m.input_start, m.input_end, m.input_text, m.output_start, m.output_end, m.output_text) for m in full.mappings],
        "as_dict disagrees with the result", case, got=d)
    if r.random() < 0.08 and gen.nbest_ok(text):
        k = r.randint(2, 5)
        outs = n.normalize(text, nbest=k)
        many = n.normalize_with_mapping(text, nbest=k, include_identity=True)
        if rec.expect([x.output_text for x in many] == outs, "n-best mappings disagree with n-best outputs", case, n=k, outputs=outs,
                      got=[x.output_text for x in many]):
            for out, x in zip(outs, many):
                check_mapping(rec, name, text, out, x, True, dict(case, nbest=k))
                rec.event("n-best mappings")
    return expected


def parse_tokens(tagged):
    """An independent reader of the tagged stream: [(name, [(field, value)])], or None."""

    tokens = []
    i = 0
    n = len(tagged)
    word = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
    while True:
        while i < n and tagged[i] == " ":
            i += 1
        if i == n:
            return tokens
        j = i
        while j < n and tagged[j] in word:
            j += 1
        if j == i or not tagged.startswith(" { ", j):
            return None
        token = (tagged[i:j], [])
        i = j + 3
        while True:
            while i < n and tagged[i] == " ":
                i += 1
            if i < n and tagged[i] == "}":
                i += 1
                break
            j = i
            while j < n and tagged[j] in word:
                j += 1
            if j == i or not tagged.startswith(': "', j):
                return None
            key = tagged[i:j]
            i = j + 3
            value = []
            while i < n and tagged[i] != '"':
                if tagged[i] == "\\":
                    if i + 1 >= n or tagged[i + 1] not in '"\\':
                        return None
                    i += 1
                value.append(tagged[i])
                i += 1
            if i >= n:
                return None
            i += 1
            token[1].append((key, "".join(value)))
        tokens.append(token)


def n03(rec, name, n, text, r):
    case = {"pipeline": name, "text": text}
    try:
        tags = [n.tag(text)]
        if r.random() < 0.07 and gen.nbest_ok(text):
            tags += n.tag(text, nbest=3)
    except Exception:
        rec.event("tag raised (left to N01)")
        return None
    for tagged in tags:
        tokens = parse_tokens(tagged)
        if not rec.expect(tokens is not None, "tagged stream is not readable", case, tagged=tagged):
            continue
        pos = 0
        for token, fields in tokens:
            first = True
            rec.state("token shapes", (name, token, tuple(k for k, _ in fields)))
            for key, value in fields:
                if (key, value) in MARKERS:
                    rec.event("marker fields")
                    # A marker never stands for text that is also in the input at this place.
                    continue
                if value == "":
                    rec.event("empty fields")
                    continue
                at = text.find(value, pos)
                if not rec.expect(at >= 0, "a field holds text that is not in the input at that point", case, token=token, field=key, value=value,
                                  tagged=tagged):
                    break
                gap = text[pos:at]
                bare = "".join(gap.split())
                if first:
                    # The point of an unwritten integer part (".5 kg") precedes the token's first field.
                    lead = bare == "." and key == "fractional_part"
                    rec.expect(bare == "" or lead, "input text dropped between two tokens", case, gap=gap, tagged=tagged)
                else:
                    rec.expect(len(bare) <= 1 and set(bare) <= SEPARATORS, "input text dropped inside a token", case, gap=gap, tagged=tagged)
                    if bare:
                        rec.state("separators", (token, bare))
                first = False
                pos = at + len(value)
                rec.event("raw fields matched")
        rec.expect(not text[pos:].strip(), "input text dropped after the last token", case, gap=text[pos:], tagged=tagged)
    return tags[0]


def n04(rec, name, n, text, r):
    case = {"pipeline": name, "text": text}
    try:
        out = n.normalize(text)
        tagged = n.tag(text)
    except Exception:
        rec.event("raised (left to N01)")
        return None
    try:
        two = n.verbalize(tagged)
    except Exception as error:
        rec.violation("verbalize rejected the tagger's own output", case, tagged=tagged, error="%s: %s" % (type(error).__name__, error))
        return out
    # The English inverse grammar leaves the single space of a whitespace-only text ambiguous.
    if not (name == "en_itn" and not text.strip()):
        rec.expect(two == out, "tag then verbalize differs from normalize", case, tagged=tagged, normalize=out, verbalize=two)
    rec.event("two-stage comparisons")
    if r.random() < 0.2 and gen.nbest_ok(text):
        k = r.randint(2, 4)
        rec.expect(n.normalize(text, nbest=k)[0] == out, "first n-best output differs from the single best", case, n=k)
        rec.event("n-best heads compared")
    if r.random() < 0.15:
        rec.expect(n.normalize_with_mapping(text).output_text == out, "mapping entry point gives another output", case)
        rec.event("mapping heads compared")
    return out


MONITORS = {"N01": n01, "N02": n02, "N03": n03, "N04": n04}
#            quick: other / en_tn      thorough
COUNTS = {
    "N01": ((1800, 220), (40000, 5000)),
    "N02": ((1400, 170), (30000, 3500)),
    "N03": ((6000, 700), (90000, 11000)),
    "N04": ((3000, 330), (60000, 7000)),
}
# Option sets that change the grammar; each is a separate build.
OPTIONS = [
    ("zh_tn", dict(remove_interjections=False, remove_erhua=False, traditional_to_simple=False, full_to_half=False)),
    ("zh_tn", dict(remove_puncts=True, tag_oov=True)),
    ("ja_tn", dict(transliterate=True, remove_interjections=True)),
    ("ja_tn", dict(remove_puncts=True, full_to_half=False, tag_oov=True)),
    ("zh_itn", dict(enable_standalone_number=False, enable_0_to_9=True)),
    ("zh_itn", dict(enable_million=True, enable_0_to_9=True, full_to_half=True)),
    ("ja_itn", dict(enable_standalone_number=False, enable_0_to_9=True)),
    ("ja_itn", dict(full_to_half=True, enable_million=True, enable_0_to_9=True)),
]


def main():
    check = vf.Check(
        PROP,
        rule="texts from language corpora, generated sentences, numbers/dates/units, mutations, wire-syntax, whitespace and random Unicode; "
        "a case is one (pipeline, options, text); nontrivial when the output differs from the text or the text holds a non-letter",
        assumptions=["texts are valid Unicode without NUL"],
        min_events={"evaluations": 2000},
    )
    monitor = MONITORS[PROP]
    count, count_en = COUNTS[PROP][1 if check.thorough else 0]

    def worker(name, options):
        def run(rec, n, r, index, workers):
            empty_checks(rec, name, n)
            total = count_en if name == "en_tn" else (count if not options else count // 4)
            for k in range(total):
                text = gen.text(r, name)
                vf.HEART.begin({"pipeline": name if not options else "%s %s" % (name, sorted(options)), "text": text})
                out = monitor(rec, name if not options else "%s %s" % (name, sorted(options)), n, text, r)
                vf.HEART.end()
                rec.case((name, sorted(options.items()), text), nontrivial=out != text or not text.isalpha(),
                         sample={"pipeline": name, "text": text, "out": vf.short(out or "", 120)} if k % 997 == 3 else None)
                rec.state("text shapes", (name, gen.charclass(text)))
        return run

    if check.replay:
        case = check.replay["case"]
        name = case.get("pipeline", "toy").split()[0]

        def once(rec, n, r, index, workers):
            for _ in range(40):
                monitor(rec, case["pipeline"], n, case["text"], r)
            rec.case(case["text"])

        if "grammar" in case:
            import toymap
            vf.run_tasks(check, lambda rec, task, r: toymap.toy_grammar(rec, case["grammar"], 40, check_mapping), [0])
            check.finish()
        options = next((o for p, o in OPTIONS if "%s %s" % (p, sorted(o)) == case["pipeline"]), {})
        vf.run_jobs(check, [vf.Job(name, once, options=options)])
        check.finish()
    jobs = [vf.Job("en_tn", worker("en_tn", {}), workers=5)]
    jobs += [vf.Job(p, worker(p, {}), workers=2) for p in ("zh_tn", "ja_tn", "zh_itn", "en_itn", "ja_itn")]
    options = OPTIONS if check.thorough else [OPTIONS[i] for i in sorted(check.rng("options").sample(range(len(OPTIONS)), 2)) if OPTIONS[i][0] != "zh_itn"]
    jobs += [vf.Job(p, worker(p, o), workers=1, options=o, label="%s/%s" % (p, i)) for i, (p, o) in enumerate(options)]
    if PROP == "N02":
        jobs.append(vf.Job(None, toy_worker(check.pick(60, 2000)), workers=2, label="toy"))
    vf.run_jobs(check, jobs)
    check.finish()


def toy_worker(count):
    def run(rec, n, r, index, workers):
        import toymap
        vf.quiet_logging()
        for _ in range(count):
            toymap.toy_grammar(rec, r.getrandbits(40), 15, check_mapping)
        rec.event("toy grammars", count)
    return run


def empty_checks(rec, name, n):
    case = {"pipeline": name, "text": ""}
    if PROP == "N01":
        rec.expect(n.normalize("") == "" and n.tag("") == "" and n.verbalize("") == "", "empty text does not give empty text", case)
        rec.expect(n.normalize("", nbest=3) == [""] and n.tag("", nbest=3) == [""], "empty text does not give one empty result", case)
    if PROP == "N02":
        m = n.normalize_with_mapping("", include_identity=True)
        rec.expect(m.input_text == "" and m.output_text == "" and len(m.mappings) == 0, "empty text has a mapping", case)


if __name__ == "__main__":
    main()
