"""Toy grammars for N02 whose only correct mapping is known from how the text was put together, run through the real Processor."""

import vf

HEADS = "①②③④⑤⑥"  # each opens one rule, so that every text has exactly one reading
BODY = ["a", "Z", "7", "é", "字", "😀", '"', "\\", "[", "]", "{", "}", "ß", "\u0301"]
SAID = ["x", "yy", "", "東", "ÿ", "😀", " ", "a b", '"', "\\", "[", "𝛑", "\u3000", "a"]
OPENERS = "甲乙"  # and each of these a later field
SPACES = [" ", "  ", "\t", "\n"]


class Rule:
    def __init__(self, r, head, name):
        self.head, self.name = head, name
        self.fields = ["k%s" % "abc"[i] for i in range(r.randint(1, 3))]
        self.separator = r.choice(["", "", "-", "点"])  # deleted between two fields
        self.order = r.sample(self.fields, len(self.fields)) if r.random() < 0.5 else None
        self.table = {f: {c: r.choice(SAID) if r.random() < 0.6 else c for c in BODY + [head] + list(OPENERS)} for f in self.fields}
        self.affix = {f: (r.choice(["", "", "<", "百分之"]), r.choice(["", "", ">", " s"])) for f in self.fields}
        self.silent = r.random() < 0.15
        self.space_first = r.random() < 0.5  # whether blanks are deleted before or after the markup is written
        self.trailing = r.random() < 0.5

    def sample(self, r):
        """(written text, spoken text)"""

        pieces = ["".join([(self.head + OPENERS)[i]] + [r.choice(BODY) for _ in range(r.randint(0, 3))]) for i in range(len(self.fields))]
        said = {f: self.affix[f][0] + "".join(self.table[f][c] for c in p) + self.affix[f][1] for f, p in zip(self.fields, pieces)}
        spoken = "" if self.silent else "".join(said[f] for f in (self.order or self.fields))
        return self.separator.join(pieces), spoken

    def build(self):
        from pynini import accep, cross, escape, union
        from pynini.lib.pynutil import delete, insert

        quoted = union(*[accep(escape(c)) for c in BODY if c not in '"\\'], cross('"', '\\"'), cross("\\\\", "\\\\\\\\"))
        space = delete(union(*[accep(s) for s in (" ", "\t", "\n")]).star)
        tag = None
        for i, f in enumerate(self.fields):
            value = accep((self.head + OPENERS)[i]) + quoted.star
            part = insert('%s: "' % f) + value + insert('"')
            tag = part if tag is None else tag + delete(self.separator) + insert(" ") + part
        markup = insert("%s { " % self.name)
        tag = (space + markup if self.space_first else markup + space) + tag + (insert(" } ") if not self.trailing else insert(" }") + insert(" "))
        read = None
        for f in self.order or self.fields:
            decode = union(*[cross(escape(c if c not in '"\\' else "\\" + c), escape(self.table[f][c])) for c in BODY + [self.head] + list(OPENERS)])
            if self.silent:
                decode = delete(union(*[accep(escape(c if c not in '"\\' else "\\" + c)) for c in BODY + [self.head] + list(OPENERS)]))
            before, after = ("", "") if self.silent else self.affix[f]
            part = delete('%s: "' % f) + insert(before) + decode.star + insert(after) + delete('"')
            read = part if read is None else read + delete(" ") + part
        return tag, delete(self.name) + delete(" { ") + read + delete(" }") + delete(" ").ques


def grammar(seed):
    import random
    from pynini import union
    from tn.processor import Processor
    r = random.Random(seed)
    rules = [Rule(r, h, "tok" + "abcdef"[i]) for i, h in enumerate(HEADS[:r.randint(1, 6)])]
    built = [rule.build() for rule in rules]
    p = Processor("toy", token_orders={rule.name: rule.order for rule in rules if rule.order})
    from pynini.lib.pynutil import delete, insert
    p.tagger = (union(*[t for t, _ in built]).plus + delete(union(" ", "\t", "\n")).star).optimize()
    lead = r.choice(["", "", "", "百分之", "x "])  # written before anything is read: it belongs to the first token
    p.verbalizer = (insert(lead) + union(*[v for _, v in built]).plus).optimize()
    return r, rules, p, lead


def toy_grammar(rec, seed, count, check_mapping):
    r, rules, p, lead = grammar(seed)
    for k in range(count):
        text, spoken, wanted = "", "", []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            if r.random() < 0.3:
                text += r.choice(SPACES)
            rule = r.choice(rules)
            written, said = rule.sample(r)
            said = said if wanted else lead + said
            kind = "equal" if written == said else ("delete" if not said else "replace")
            wanted.append((kind, rule.name, len(text), len(text) + len(written), len(spoken), len(spoken) + len(said), written, said))
            text, spoken = text + written, spoken + said
        if r.random() < 0.2:
            text += r.choice(SPACES)
        case = {"grammar": seed, "text": text}
        vf.HEART.begin(case)
        try:
            full = p.normalize_with_mapping(text, include_identity=True)
            some = p.normalize_with_mapping(text)
        except Exception as error:
            rec.violation("mapping raised on a toy grammar", case, error="%s: %s" % (type(error).__name__, error))
            continue
        finally:
            vf.HEART.end()
        fields = lambda m: (m.kind, m.token_type, m.input_start, m.input_end, m.output_start, m.output_end, m.input_text, m.output_text)
        got = [fields(m) for m in full.mappings]
        rec.expect(full.input_text == text and full.output_text == spoken, "the output of a toy grammar is wrong", case, got=full.output_text, expected=spoken)
        rec.expect(got == wanted, "the mapping is not the one the tokens were written with", case, got=got, expected=wanted)
        rec.expect([fields(m) for m in some.mappings] == [w for w in wanted if w[0] != "equal"], "the listed changes are not the tokens that change", case,
                   got=some.mappings, expected=wanted)
        rec.event("toy mappings compared", len(wanted))
        rec.case(("toy", seed, text), nontrivial=spoken != text, sample=dict(case, out=spoken) if seed % 61 == 1 and k == 0 else None)
