"""N05: the n-best list against brute force, on random toy grammars and on the real pipelines.

The oracle enumerates every tagging and every verbalization with its weight and sorts them itself; it shares no search code with the
implementation. Toy grammars run through the real Processor (search, token reordering, span tracing).
"""

import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import gen
import vf

INF = float("inf")


# ---------------------------------------------------------------------------------------------------------------
# Toy grammars


class Grammar:
    """Weighted token and verbalization tables, from which both the transducers and the brute force are made."""

    CHARS = "ab字"

    def __init__(self, r):
        self.names = ["w", "x", "y"]
        self.orders = {"x": ["m", "n"], "y": ["n", "m", "p"]}
        w = lambda lo, hi: r.randint(lo * 8, hi * 8) / 8 if r.random() < 0.7 else float(r.randint(lo, hi))
        self.sources = []  # (source, (name, fields), weight)
        for c in self.CHARS:
            self.sources.append((c, ("w", (("v", c),)), w(0, 3)))
        pool = [self.token(r) for _ in range(r.randint(2, 6))]
        for _ in range(r.randint(2, 9)):
            source = "".join(r.choice(self.CHARS) for _ in range(r.choice([1, 1, 2, 2, 3])))
            self.sources.append((source, r.choice(pool), w(0, 4)))
        self.spoken = []  # (serialized reordered token or token pair, output, weight)
        tokens = sorted({t for _, t, _ in self.sources})
        for t in tokens:
            if r.random() < 0.12 and t[0] != "w":
                continue  # this tag cannot be verbalized at all
            for _ in range(r.choice([1, 1, 2, 3])):
                out = "".join(r.choice("XYZ東") for _ in range(r.choice([0, 1, 1, 2])))
                self.spoken.append(((t,), out, w(-2, 3)))
        self.pairs = r.random() < 0.3
        if self.pairs:
            for _ in range(r.randint(1, 3)):
                self.spoken.append(((r.choice(tokens), r.choice(tokens)), r.choice(["P", "Q", "XY", ""]), w(-2, 3)))

    def token(self, r):
        name = r.choice(self.names)
        if name == "w":
            return ("w", (("v", r.choice(['q', '"', "\\", "七", "} ", ""])),))
        keys = r.sample(["n", "m", "p"], r.randint(1, 3))
        fields = [(k, r.choice(["1", "2", '"', "\\", "八 "])) for k in keys]
        if name == "x" and r.random() < 0.3:
            fields.append(("preserve_order", r.choice(["true", "true", "false"])))
        return (name, tuple(fields))

    @staticmethod
    def escape(value):
        return value.replace("\\", "\\\\").replace('"', '\\"')

    def serialize(self, token):
        name, fields = token
        return name + " {" + "".join(' %s: "%s"' % (k, self.escape(v)) for k, v in fields) + " }"

    def reordered(self, token):
        name, fields = token
        if name in self.orders and ("preserve_order", "true") not in fields:
            order = self.orders[name]
            fields = tuple(sorted(fields, key=lambda f: order.index(f[0]) if f[0] in order else len(order)))
        return self.serialize((name, fields))

    def processor(self):
        import pynini
        from pynini import accep, cross, escape, union
        from pynini.lib.pynutil import add_weight, delete, insert
        from tn.processor import Processor

        p = Processor("toy", token_orders=self.orders)
        tag = union(*[add_weight(cross(escape(s), escape(self.serialize(t) + " ")), c) for s, t, c in self.sources])
        p.tagger = tag.plus.optimize()
        say = union(*[add_weight(cross(escape(" ".join(self.reordered(t) for t in ts)), o), c) + delete(" ").ques for ts, o, c in self.spoken])
        p.verbalizer = say.plus.optimize()
        return p

    def taggings(self, text):
        """{token sequence: [(weight, spans), ...]}"""

        out = {}

        def walk(i, tokens, spans, weight):
            if i == len(text):
                out.setdefault(tuple(tokens), []).append((weight, tuple(spans)))
                return
            for s, t, c in self.sources:
                if text.startswith(s, i):
                    walk(i + len(s), tokens + [t], spans + [(i, i + len(s))], weight + c)

        walk(0, [], [], 0.0)
        return out

    def sayings(self, tokens):
        """{output: [(weight, output spans or None), ...]}"""

        out = {}
        # What the verbalizer reads is the reordered stream: tokens that differ in field order only are one token to it.
        read = [self.reordered(t) for t in tokens]
        rows = [([self.reordered(t) for t in ts], o, c) for ts, o, c in self.spoken]

        def walk(i, text, spans, weight):
            if i == len(tokens):
                out.setdefault(text, []).append((weight, None if None in spans else tuple(spans)))
                return
            for ts, o, c in rows:
                if read[i:i + len(ts)] == ts:
                    span = [(len(text), len(text) + len(o))] if len(ts) == 1 else [None, None]
                    walk(i + len(ts), text + o, spans + span, weight + c)

        walk(0, "", [], 0.0)
        return out


def toy_case(rec, r, g, p, text, case):
    tags = g.taggings(text)
    tag_cost = {}
    for tokens, ways in tags.items():
        tag_cost[" ".join(g.serialize(t) for t in tokens) + " "] = min(w for w, _ in ways)
    cost, how = {}, {}
    spoken_best = {}
    for tokens, ways in tags.items():
        said = g.sayings(tokens)
        if not said:
            continue
        tw = min(w for w, _ in ways)
        best = min(w for o in said.values() for w, _ in o)
        spoken_best[" ".join(g.serialize(t) for t in tokens) + " "] = {o for o, ws in said.items() if min(w for w, _ in ws) == best}
        for o, ws in said.items():
            vw = min(w for w, _ in ws)
            c = tw + vw - best
            if c < cost.get(o, INF):
                cost[o], how[o] = c, []
            if c == cost[o]:
                how[o].append((tokens, [s for w, s in ways if w == tw], [s for w, s in ws if w == vw]))
    rec.event("taggings enumerated", len(tags))
    rec.event("outputs enumerated", len(cost))
    rec.state("sizes", (len(tags), len(cost)))
    n = r.choice([1, 2, 3, 5, 9, 30])
    wanted = sorted(cost.values())
    try:
        got = p.normalize(text, nbest=n)
        got = [got] if n == 1 else got
    except RuntimeError as error:
        rec.expect(not cost, "normalize finds no path although one exists", case, error=error)
        return len(cost)
    rec.expect(all(o in cost for o in got), "an n-best output no path gives", case, n=n, got=got, possible=sorted(cost))
    rec.expect(len(set(got)) == len(got), "n-best outputs repeat", case, n=n, got=got)
    rec.expect(len(got) == min(n, len(cost)), "n-best misses alternatives or gives too many", case, n=n, got=got, possible=sorted(cost.items(), key=lambda x: x[1]))
    rec.expect([cost.get(o) for o in got] == wanted[:len(got)], "n-best outputs are not the cheapest in order", case, n=n, got=[(o, cost.get(o)) for o in got],
               possible=sorted(cost.items(), key=lambda x: x[1]))
    tagged = p.tag(text, nbest=n)
    tagged = [tagged] if n == 1 else tagged
    ok = rec.expect(len(tagged) == min(n, len(tag_cost)) and len(set(tagged)) == len(tagged) and all(t in tag_cost for t in tagged), "tag n-best is not distinct or not complete", case,
                    n=n, got=tagged, possible=sorted(tag_cost))
    if ok:
        rec.expect([tag_cost[t] for t in tagged] == sorted(tag_cost.values())[:len(tagged)], "tags are not the cheapest in order", case, n=n, got=[(t, tag_cost[t]) for t in tagged])
        for t in tagged[:3]:
            if t in spoken_best:
                said = p.verbalize(t)
                rec.expect(said in spoken_best[t], "verbalize does not give the cheapest reading", case, tag=t, got=said, cheapest=sorted(spoken_best[t]))
    full = p.normalize_with_mapping(text, nbest=n, include_identity=True)
    full = [full] if n == 1 else full
    if rec.expect([m.output_text for m in full] == got, "mapping n-best differs from n-best", case, n=n, got=[m.output_text for m in full], outputs=got) and not g.pairs:
        for m in full:
            if m.output_text not in how:
                continue
            mine = tuple((x.token_type, (x.input_start, x.input_end), (x.output_start, x.output_end)) for x in m.mappings)
            good = any(mine == tuple((t[0], i, o) for t, i, o in zip(tokens, ins, outs)) for tokens, ways, says in how[m.output_text] for ins in ways for outs in says)
            rec.expect(good, "the mapping is not that of a cheapest path", case, output=m.output_text, got=mine, possible=how[m.output_text][:4])
            rec.event("mappings compared")
    return len(cost)


def ladder(rec, seed, n):
    """Long lists: each letter of the text has a dear reading that costs a power of two, so the k-th output is k in binary.

    Some letters get their second reading from the tagger, some from the verbalizer, and dead taggings that nothing can pronounce lie in
    between; whoever asks for many outputs has to get exactly the n cheapest, in order.
    """

    import random
    from pynini import accep, cross, union
    from pynini.lib.pynutil import add_weight, delete, insert
    from tn.processor import Processor

    r = random.Random(seed)
    letters = "abcdefghijklmnopqrstuvwxyz"
    size = r.randint(max(1, (n - 1).bit_length() - 1), min(22, n.bit_length() + 6))
    order = r.sample(range(size), size)  # letter i of the text costs 2 ** order[i]
    spoken = {i for i in range(size) if r.random() < 0.3}  # whose second reading is the verbalizer's
    dead = {i for i in range(size) if i not in spoken and r.random() < 0.4}
    p = Processor("ladder")
    arcs = []
    for i in range(size):
        c, step = letters[i], 2.0 ** order[i] / 64
        arcs.append(cross(c, c))
        if i not in spoken:
            arcs.append(add_weight(cross(c, c.upper()), step))
        if i in dead:
            # A tagging that nothing can read: skipping it must not end the list.
            arcs.append(add_weight(cross(c, "!"), step / 2))
    p.tagger = (insert('w { v: "') + union(*arcs).plus + insert('" }')).optimize()
    say = [accep(x) for i in range(size) for x in (letters[i], letters[i].upper())]
    say += [add_weight(cross(letters[i], letters[i].upper()), 2.0 ** order[i] / 64) for i in spoken]
    p.verbalizer = (delete('w { v: "') + union(*say).plus + delete('" }')).optimize()
    where = {order[i]: i for i in range(size)}

    def output(k):
        up = {where[b] for b in range(size) if k >> b & 1}
        return "".join(letters[i].upper() if i in up else letters[i] for i in range(size))

    text = letters[:size]
    case = {"ladder": seed, "n": n, "size": size, "spoken": len(spoken), "dead": len(dead)}
    vf.HEART.begin(case)
    want = [output(k) for k in range(min(n, 2 ** size))]
    got = p.normalize(text, nbest=n)
    got = [got] if n == 1 else got
    first = next((k for k, (a, b) in enumerate(itertools.zip_longest(got, want)) if a != b), None)
    rec.expect(first is None, "a long list is not that of the n cheapest outputs", case, got_count=len(got), want_count=len(want), first_difference=first,
               got=got[first:first + 3] if first is not None else None, want=want[first:first + 3] if first is not None else None)
    if n <= 200:
        full = p.normalize_with_mapping(text, nbest=n)
        full = [full] if n == 1 else full
        rec.expect([m.output_text for m in full] == want, "a long list with mapping is not that of the n cheapest outputs", case, got_count=len(full), want_count=len(want))
    tags = p.tag(text, nbest=n)
    tags = [tags] if n == 1 else tags
    count = 1
    for i in range(size):
        count *= 1 if i in spoken else 3 if i in dead else 2
    rec.expect(len(tags) == len(set(tags)) == min(n, count), "a long list of tags is not that of n distinct tags", case, got_count=len(tags), distinct=len(set(tags)), want_count=min(n, count))
    vf.HEART.end()
    rec.event("ladder lists")
    rec.event("ladder outputs", len(want))
    rec.case((seed, n), sample=case if n > 500 else None)


def toy(rec, n, r, index, workers):
    import time
    vf.quiet_logging()
    deep = [1, 2, 7, 60, 130, 257, 515, 1030] if SECONDS < 60 else [1, 3, 17, 64, 65, 100, 128, 129, 200, 256, 300, 511, 512, 513, 777, 1000, 1025, 1500, 2049, 3000]
    for k in deep[index::workers]:
        ladder(rec, r.getrandbits(40), k)
    stop = time.time() + SECONDS
    k = 0
    while time.time() < stop:
        seed = r.getrandbits(40)
        toy_grammar(rec, seed, 12 if not REPLAY else 400)
        k += 1
    rec.event("toy grammars", k)


def toy_grammar(rec, seed, count):
    import random
    rr = random.Random(seed)
    g = Grammar(rr)
    p = g.processor()
    for i in range(count):
        text = "".join(rr.choice(g.CHARS) for _ in range(rr.choice([1, 1, 2, 2, 3, 4])))
        case = {"grammar": seed, "text": text}
        vf.HEART.begin(case)
        outs = toy_case(rec, rr, g, p, text, case)
        vf.HEART.end()
        rec.case((seed, text), nontrivial=outs > 1, sample=dict(case, outputs=outs) if seed % 251 == 3 and i == 0 else None)


# ---------------------------------------------------------------------------------------------------------------
# Real pipelines


def enumerate_paths(fst, limit):
    """{output: least weight} by walking every path, or None when there are too many."""

    out = {}
    paths = fst.paths()
    k = 0
    while not paths.done():
        k += 1
        if k > limit:
            return None, k
        s, w = paths.ostring(), float(paths.weight())
        if w < out.get(s, INF):
            out[s] = w
        paths.next()
    return out, k


def close(a, b):
    return abs(a - b) < 1e-3 + 1e-5 * abs(a)


def acyclic(fst):
    import pynini
    return bool(fst.properties(pynini.ACYCLIC, True))


def real_case(rec, r, name, n, text, case):
    from pynini import accep, escape

    k = r.choice([2, 3, 4, 6])
    got = n.normalize(text, nbest=k)
    rec.expect(1 <= len(got) <= k and len(set(got)) == len(got), "n-best outputs repeat or are too many", case, n=k, got=got)
    fewer = r.randint(1, k - 1)
    prefix = n.normalize(text, nbest=fewer)
    rec.expect((prefix if fewer > 1 else [prefix]) == got[:fewer], "a longer n-best list changes the shorter one", case, n=k, got=got, shorter=prefix)
    tags = n.tag(text, nbest=k)
    rec.expect(1 <= len(tags) <= k and len(set(tags)) == len(tags), "n-best tags repeat or are too many", case, n=k, got=tags)
    rec.event("lists compared")
    if len(text) > 14:
        return
    lattice = accep(escape(text)) @ n.tagger
    if not acyclic(lattice):
        rec.event("cyclic lattices")
        return
    tagged, paths = enumerate_paths(lattice, 2500)
    if tagged is None:
        rec.event("too many taggings to enumerate")
        return
    rec.event("taggings enumerated", len(tagged))
    ordered = sorted(tagged.values())
    ok = rec.expect(all(t in tagged for t in tags) and len(tags) == min(k, len(tagged)), "n-best tags are not those of the grammar", case, n=k, got=tags)
    if ok:
        rec.expect(all(close(tagged[t], w) for t, w in zip(tags, ordered)), "n-best tags are not the cheapest in order", case, got=[(t, tagged[t]) for t in tags], cheapest=ordered[:k])
    cost = {}
    # Only tags that can matter for the k cheapest outputs.
    for t, tw in sorted(tagged.items(), key=lambda x: x[1]):
        if len(cost) >= k and tw > sorted(cost.values())[k - 1] + 0.01:
            break
        lattice = accep(escape(n.token_parser().reorder(t))) @ n.verbalizer
        said, paths = enumerate_paths(lattice, 1500) if acyclic(lattice) else (None, 0)
        if said is None:
            rec.event("too many verbalizations to enumerate")
            return
        if not said:
            continue
        best = min(said.values())
        for o, vw in said.items():
            cost[o] = min(cost.get(o, INF), tw + vw - best)
    rec.event("outputs enumerated", len(cost))
    if rec.expect(all(o in cost for o in got), "an n-best output is not among the cheapest paths", case, n=k, got=got, cheapest=sorted(cost.items(), key=lambda x: x[1])[:8]):
        rec.expect(len(got) == min(k, len(cost)) or (len(got) == k), "n-best misses alternatives", case, n=k, got=got, possible=sorted(cost.items(), key=lambda x: x[1])[:8])
        rec.expect(all(close(cost[o], w) for o, w in zip(got, sorted(cost.values()))), "n-best outputs are not the cheapest in order", case, n=k,
                   got=[(o, cost[o]) for o in got], cheapest=sorted(cost.items(), key=lambda x: x[1])[:8])
        rec.event("lists proved")


def bad_counts(rec, name, n):
    for bad in (0, -1, True, False, 1.0, "2", None, 2.5):
        for what, call in (("normalize", n.normalize), ("tag", n.tag), ("normalize_with_mapping", n.normalize_with_mapping)):
            for text in ("5", ""):
                case = {"pipeline": name, "call": what, "nbest": repr(bad), "text": text}
                try:
                    got = call(text, nbest=bad)
                    rec.violation("a bad n-best count is accepted", case, got=got)
                except ValueError:
                    pass
                except Exception as error:
                    rec.violation("a bad n-best count is not a ValueError", case, error="%s: %s" % (type(error).__name__, error))
                rec.event("bad counts tried")


def short_text(r, name):
    for _ in range(50):
        t = gen.structured(r, name[:2]) if r.random() < 0.6 else gen.text(r, name)
        i = r.randint(0, max(0, len(t) - 1))
        t = t[i:i + r.randint(1, 9)] if r.random() < 0.5 else t[:24]
        if t.strip() and gen.nbest_ok(t):
            return t
    return "5"


def real(name):
    def run(rec, n, r, index, workers):
        import time
        if index == 0:
            bad_counts(rec, name, n)
        stop = time.time() + SECONDS
        k = 0
        while time.time() < stop:
            text = short_text(r, name)
            case = {"pipeline": name, "text": text}
            vf.HEART.begin(case)
            real_case(rec, r, name, n, text, case)
            vf.HEART.end()
            rec.case((name, text), sample=case if k % 397 == 3 else None)
            k += 1
    return run


def main():
    global SECONDS, REPLAY
    check = vf.Check("N05", rule="a case is one (grammar or pipeline, text); nontrivial when brute force finds more than one output (toy) or the pipeline answered an n-best query (real)",
                     assumptions=["n-best search is exponential in the length of ambiguous digit runs, so real texts are short",
                                  "the cost of an output is its tag's cost plus what its reading costs above that tag's best reading, as documented in the architecture guide"],
                     min_events={"evaluations": 600, "toy grammars": 25, "lists compared": 150, "ladder lists": 4})
    SECONDS = check.pick(20, 420)
    REPLAY = check.replay is not None
    if check.replay:
        case = check.replay["case"]
        if "ladder" in case:
            vf.run_tasks(check, lambda rec, task, r: ladder(rec, case["ladder"], case["n"]), [0])
        elif "grammar" in case:
            vf.run_tasks(check, lambda rec, task, r: toy_grammar(rec, case["grammar"], 12), [0])
        else:
            SECONDS = 0

            def once(rec, n, r, index, workers):
                bad_counts(rec, case["pipeline"], n)
                for _ in range(30):
                    real_case(rec, r, case["pipeline"], n, case["text"], case)
                rec.case(case["text"])
            vf.run_jobs(check, [vf.Job(case["pipeline"], once)])
        check.finish()
    jobs = [vf.Job(None, toy, workers=2, label="toy")]
    jobs += [vf.Job(p, real(p), workers=2 if p == "en_tn" else 1) for p in vf.PIPELINES]
    vf.run_jobs(check, jobs)
    check.finish()


SECONDS, REPLAY = 20, False

if __name__ == "__main__":
    main()
