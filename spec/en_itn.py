"""Reference model of English inverse text normalization: spoken words to written numbers, dates, times, money and measures."""

import re

import en_words as en
from common import pick_int, table

CARRIERS = [("", ""), ("the cat saw ", " today"), ("we had ", "."), ("he likes ", " there"), ("it was ", "?"), ("say ", ", please")]


def slot(r, spoken, written, carriers=CARRIERS):
    before, after = r.choice(carriers)
    written = written if isinstance(written, set) else {written}
    # A converted item may be set off from the punctuation that follows it.
    return before + spoken + after, {before + w + gap + after for w in written for gap in (("", " ") if after[:1] in tuple(".,?") else ("",))}


def cardinal(r, n):
    """Spoken form, sometimes with "and"."""

    words = en.cardinal(n)
    if r.random() < 0.35:
        words = re.sub(r"hundred (?=\w+( \w+)?$)", "hundred and ", words)
    return words


def written_integer(n):
    return en.cardinal(n) if n <= 12 else str(n)


def quantity(n):
    """("k", "million") when n is k million/billion/..., k below 1000."""

    k = 0
    while n and n % 1000 == 0:
        n //= 1000
        k += 1
    return (str(n), en.SCALES[k]) if 0 < n < 1000 and k >= 2 else None


def f_integer(r):
    n = pick_int(r, 10**r.choice((2, 3, 4, 6, 9, 12, 15)))
    q = quantity(n)
    return slot(r, en.cardinal(n) if q else cardinal(r, n), " ".join(q) if q else written_integer(n))


def f_small(r):
    n = r.randint(0, 130)
    return slot(r, cardinal(r, n), written_integer(n))


def f_negative(r):
    n = pick_int(r, 10**r.choice((2, 3, 4, 6)))
    sign = r.choice(["minus", "negative"])
    if n <= 12:
        return slot(r, sign + " " + en.cardinal(n), sign + " " + en.cardinal(n))
    return slot(r, sign + " " + cardinal(r, n), "-%d" % n)


def ndigits(r, k):
    return "".join(r.choice("0123456789") for _ in range(k))


def spell(r, s):
    """Digit by digit."""

    return " ".join(en.ONES[int(c)] if c != "0" or r.random() < 0.6 else "o" for c in s)


def f_decimal(r):
    n = pick_int(r, 10**r.choice((1, 2, 3, 5)))
    part = ndigits(r, r.randint(1, 5))
    sign = r.random() < 0.25
    spoken = ("minus " if sign else "") + cardinal(r, n) + " point " + spell(r, part)
    written = ("-" if sign else "") + "%d.%s" % (n, part)
    if r.random() < 0.3:
        q = r.choice(["thousand", "million", "billion", "trillion"])
        return slot(r, spoken + " " + q, written + " " + q)
    return slot(r, spoken, written)


def f_hundreds(r):
    n = r.choice([x for x in range(11, 100) if x % 10])
    return slot(r, en.cardinal(n) + " hundred", "%d00" % n)


def suffix(n):
    return "th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


def f_ordinal(r):
    n = max(1, pick_int(r, 10**r.choice((2, 2, 3, 4, 6))))
    return slot(r, en.ordinal(n), "%d%s" % (n, suffix(n)))


def f_phone(r):
    d = ndigits(r, 10)
    spoken, written = spell(r, d), "%s-%s-%s" % (d[:3], d[3:6], d[6:])
    if r.random() < 0.3:
        code = r.choice(["1", "4", "44", "86"])
        spoken = "plus %s %s" % (en.spell(code), spoken)
        written = "+%s %s" % (code, written)
    return slot(r, spoken, written)


def f_double(r):
    """double/triple digits inside a phone number"""

    d = ""
    words = []
    while len(d) < 10:
        k = r.choice([1, 1, 1, 2, 3])
        if len(d) + k > 10:
            continue
        c = r.choice("123456789")
        if d and d[-1] == c:
            continue
        d += c * k
        words.append({1: "", 2: "double ", 3: "triple "}[k] + en.ONES[int(c)])
    return slot(r, " ".join(words), "%s-%s-%s" % (d[:3], d[3:6], d[6:]))


def f_ssn(r):
    d = ndigits(r, 9)
    return slot(r, spell(r, d), "%s-%s-%s" % (d[:3], d[3:5], d[5:]))


def f_ip(r):
    parts = [str(r.randint(0, 255)) for _ in range(4)]
    # Bare only: inside a sentence the words before it may read as a host name.
    return slot(r, " dot ".join(spell(r, p) for p in parts), ".".join(parts), [("", "")])


def f_card(r):
    d = "".join(r.choice("123456789") for _ in range(16))
    # A country code and a 14-digit card is an equal reading; the digits and their order are not.
    return en.spell(d), {" ".join(x) for x in ([d[:4], d[4:8], d[8:12], d[12:]], [d[:2], d[2:6], d[6:12], d[12:]], [d[:1], d[1:5], d[5:11], d[11:]])}


NAMES = ["john", "mary", "anna", "paul", "kate"]


def f_email(r):
    name, host, top = r.choice(NAMES), r.choice(["gmail", "yahoo", "hotmail", "abc", "nvidia"]), r.choice(["com", "net", "org"])
    spoken, written = "%s at %s dot %s" % (name, host, top), "%s@%s.%s" % (name, host, top)
    return slot(r, spoken, written, [("", "")])


def f_url(r):
    host, top = r.choice(["google", "nvidia", "abc", "example"]), r.choice(["com", "org", "net"])
    return slot(r, "w w w dot %s dot %s" % (host, top), "www.%s.%s" % (host, top), [("", "")])


def sparse(r, groups=8):
    """A number with any of its three-digit groups missing, up to sextillions; at least two groups present."""

    while True:
        top = r.randint(1, groups - 1)
        parts = [r.choice((0, 0, r.randint(1, 999), r.choice((1, 5, 10, 12, 20, 99, 100, 101, 110, 900)))) for _ in range(top)]
        n = sum(g * 1000**k for k, g in enumerate(parts)) + r.randint(1, 999) * 1000**top
        if not quantity(n) and n >= 10**4:
            return n


def f_sparse(r):
    n = sparse(r)
    sign, mark = r.choice([("", "")] * 3 + [("minus ", "-"), ("negative ", "-")])
    return slot(r, sign + cardinal(r, n), mark + str(n))


def f_hundreds_as_thousands(r):
    """Twenty one hundred and five."""

    h, n = r.choice([x for x in range(11, 100) if x % 10]), r.randint(1, 99)
    return slot(r, en.cardinal(h) + " hundred " + r.choice(["", "and "]) + en.cardinal(n), "%d%02d" % (h, n))


def f_point(r):
    """A decimal with no whole part."""

    part = ndigits(r, r.randint(1, 5))
    sign, mark = r.choice([("", "")] * 2 + [("minus ", "-")])
    return slot(r, sign + "point " + spell(r, part), mark + "." + part)


def f_quantity(r):
    """5.2 million and 400 billion keep the word."""

    sign, mark = r.choice([("", "")] * 2 + [("minus ", "-")])
    name = r.choice(en.SCALES[2:])
    if r.random() < 0.5:
        n = r.randint(1, 999)
        return slot(r, sign + en.cardinal(n) + " " + name, "%s%d %s" % (mark, n, name))
    n, part = r.choice([r.randint(0, 12), r.randint(13, 9999)]), ndigits(r, r.randint(1, 3))
    if r.random() < 0.3:
        name = "thousand"
    return slot(r, "%s%s point %s %s" % (sign, en.cardinal(n), spell(r, part), name), "%s%d.%s %s" % (mark, n, part, name))


class Digits:
    """The digits and separators of a number said in pieces; where to break it is open."""

    def __init__(self, before, body, after, pattern):
        self.before, self.body, self.after, self.pattern = before, body, after, pattern
        self.readings = [before + body + after]

    def __call__(self, out):
        if not out.startswith(self.before) or not out.endswith(self.after):
            return False
        got = out[len(self.before):len(out) - len(self.after)].rstrip(" ")
        return re.sub("[ -]", "", got) == self.body and bool(re.fullmatch(self.pattern, got))


def tokens(r, d):
    """A digit string said as digits, doubles, triples and two-digit numbers."""

    out, i = [], 0
    while i < len(d):
        k = r.random()
        if d[i:i + 3] == d[i] * 3 and k < 0.7:
            out.append("triple " + (r.choice(["zero", "oh", "o"]) if d[i] == "0" else en.ONES[int(d[i])]))
            i += 3
        elif d[i:i + 2] == d[i] * 2 and k < 0.5:
            out.append("double " + (r.choice(["zero", "oh", "o"]) if d[i] == "0" else en.ONES[int(d[i])]))
            i += 2
        elif k < 0.35 and d[i] != "0" and len(d) > i + 1 and (d[i] == "1" or d[i + 1] != "0"):
            out.append(en.cardinal(int(d[i:i + 2])))
            i += 2
        else:
            out.append(r.choice(["zero", "o", "oh"]) if d[i] == "0" else en.ONES[int(d[i])])
            i += 1
    return " ".join(out)


def some_digits(r, k):
    """With runs."""

    d = ""
    while len(d) < k:
        d += r.choice("0123456789") * r.choice((1, 1, 1, 1, 2, 3))
    return d[:k]


def f_phone_pieces(r):
    d = some_digits(r, 10)
    if r.random() < 0.3:
        code = str(r.randint(1, 999))
        return ("plus " + en.spell(code) + " " + tokens(r, d), Digits("", "+" + code + d, "", r"\+\d{1,3} \d{3}-\d{3}-\d{4}"))
    return (tokens(r, d), Digits("", d, "", r"\d{3}-\d{3}-\d{4}"))


def f_card_pieces(r):
    k = r.choice((14, 15, 16))
    d = some_digits(r, k)
    # A country code may be read into its start.
    return (tokens(r, d), Digits("", d, "", r"(\d{1,3} )?\d{4} (\d{4} \d{4} \d{4}|\d{6} \d{4}|\d{6} \d{5})"))


def octet(r):
    k = r.randrange(6)
    n = r.randint(10, 99)
    two = en.cardinal(n)
    if k == 0:
        c = r.choice("123456789")
        w = en.ONES[int(c)]
        return r.choice([("double " + w, c * 2), ("triple " + w, c * 3)])
    if k == 1:
        return two, str(n)
    c = r.choice("0123456789")
    one = en.ONES[int(c)] if c != "0" else r.choice(["zero", "o", "oh"])
    if k == 2:
        return one + " " + two, c + str(n)
    if k == 3 and n % 10 == 0 and n > 19 and c != "0":
        return one, c
    if k == 3:
        return two + " " + one, str(n) + c
    s = str(r.randint(0, 255))
    return " ".join(en.ONES[int(x)] if x != "0" else r.choice(["zero", "o", "oh"]) for x in s), s


def f_ip_pieces(r):
    parts = [octet(r) for _ in range(4)]
    return slot(r, " dot ".join(p[0] for p in parts), ".".join(p[1] for p in parts), [("", "")])


def f_serial(r):
    """Letters and digits said one by one, or in two-digit numbers: b forty five twenty."""

    letters = "bcdefghijklmnqrstuvwxyz"
    while True:
        if r.random() < 0.5:
            s = r.choice(letters) + "".join(r.choice(letters + "0123456789") for _ in range(r.randint(2, 6)))
            said = " ".join(en.ONES[int(c)] if c in "123456789" else "zero" if c == "0" else c for c in s)
        else:
            head = "".join(r.choice(letters) for _ in range(r.randint(1, 3)))
            nums = [r.choice([x for x in range(13, 100) if x % 10]) for _ in range(r.randint(1, 3))]
            s = head + "".join(map(str, nums))
            said = " ".join(list(head) + [en.cardinal(x) for x in nums])
        # A spelled word of the whitelist is written its own way.
        if re.search("[0-9]", s) and len(s) > 2 and not any(" %s " % w in " %s " % said for w in WORDS_TABLE) and not re.search("[0-9](am|pm|bc|ad|ce)", s):
            return slot(r, said, s, [("", "")])


HOSTS = ["google", "nvidia", "abc", "example", "sub", "mail", "gmail", "kore", "store", "x"]
TOPS = ["com", "org", "net", "gov", "ai", "io", "fr", "de"]
MARKS = [("dash", "-"), ("hyphen", "-"), ("underscore", "_"), ("number sign", "#"), ("percent sign", "%"), ("ampersand", "&"), ("asterisk", "*"),
         ("plus", "+"), ("equal sign", "="), ("question mark", "?"), ("tilde", "~"), ("exclamation mark", "!"), ("slash", "/")]


def piece(r, word):
    """As a word, or spelled."""

    return word if r.random() < 0.6 and len(word) > 1 else " ".join(word)


def domain(r):
    parts = [r.choice(HOSTS) for _ in range(r.choice((1, 1, 2)))] + [r.choice(TOPS) for _ in range(r.choice((1, 1, 1, 2)))]
    said = [piece(r, p) for p in parts]
    if r.random() < 0.3:
        c = r.choice("0123456789")
        parts[0] += c
        said[0] += " " + ("zero" if c == "0" else en.ONES[int(c)])
    return " dot ".join(said), ".".join(parts)


def f_mail_pieces(r):
    said, user = [], ""
    for k in range(r.randint(1, 4)):
        style = r.randrange(4)
        if style == 0 or k == 0:
            w = r.choice(NAMES + ["b", "c", "x", "q"])
            said.append(w if len(w) == 1 else piece(r, w))
            user += w
        elif style == 1:
            c = r.choice("0123456789")
            said.append("zero" if c == "0" else en.ONES[int(c)])
            user += c
        elif user[-1].isalnum() and k < 3:
            word, mark = r.choice(MARKS[:-1] + [("dot", ".")])
            w = r.choice(NAMES)
            said += [word, w]
            user += mark + w
    host, written = domain(r)
    return slot(r, " ".join(said) + " at " + host, user + "@" + written, [("", "")])


def f_url_pieces(r):
    said, written = domain(r)
    k = r.randrange(4)
    if k:
        said, written = "w w w dot " + said, "www." + written
    if k > 1:
        word, mark = r.choice([("h t t p", "http"), ("h t t p s", "https")])
        said, written = word + " colon slash slash " + said, mark + "://" + written
    for _ in range(r.choice((0, 0, 1, 2))):
        w = r.choice(["a", "about", "page", "s", "x"])
        word, mark = ("slash", "/") if r.random() < 0.6 else r.choice(MARKS)
        said, written = "%s %s %s" % (said, word, piece(r, w)), written + mark + w
    return slot(r, said, written, [("", "")])


NUMBER = [f_sparse, f_hundreds_as_thousands, f_point, f_quantity, f_phone_pieces, f_card_pieces, f_ip_pieces, f_serial, f_mail_pieces, f_url_pieces,
          f_integer, f_small, f_negative, f_decimal, f_hundreds, f_ordinal, f_phone, f_double, f_ssn, f_ip, f_card, f_email, f_url]

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def year(r):
    """(written, spoken) of a year said in one of the usual ways."""

    y = r.choice([r.randint(1100, 1999), r.randint(2000, 2099), r.randint(1001, 2099)])
    s = str(y)
    ways = []
    if s[2:] == "00":
        ways = [en.cardinal(y)] if s[1] == "0" else [en.cardinal(int(s[:2])) + " hundred"]
    elif s[2] == "0":
        ways = ["%s %s %s" % (en.cardinal(int(s[:2])), r.choice(["oh", "o"]), en.ONES[int(s[3])])] if s[1] != "0" else [en.cardinal(y)]
    else:
        ways = [en.cardinal(int(s[:2])) + " " + en.cardinal(int(s[2:]))]
    if s[0] == "2" and s[1] == "0":
        ways.append(en.cardinal(y))
        if y % 1000:
            ways.append("two thousand and " + en.cardinal(y % 1000))
    return y, r.choice(ways)


def f_year(r):
    y, words = year(r)
    return slot(r, words, str(y), [("", ""), ("in ", ""), ("since ", " we did")])


def f_date(r):
    m = r.randint(1, 12)
    d = r.randint(1, DAYS[m - 1])
    month = en.MONTHS[m - 1]
    y, words = year(r)
    style = r.randrange(5)
    if style == 0:
        return slot(r, "%s %s %s" % (month, en.ordinal(d), words), "%s %d %d" % (month, d, y))
    if style == 1:
        return slot(r, "the %s of %s %s" % (en.ordinal(d), month, words), "%d %s %d" % (d, month, y))
    if style == 2:
        return slot(r, "the %s of %s" % (en.ordinal(d), month), "%d %s" % (d, month))
    if style == 3:
        return slot(r, "%s %s" % (month, en.ordinal(d)), "%s %d" % (month, d))
    return slot(r, "%s %s" % (month, words), "%s %d" % (month, y))


def f_decade(r):
    century, tens = r.randint(11, 20), r.randint(2, 9)
    return slot(r, "%s %s" % (en.cardinal(century), en.TENS[tens][:-1] + "ies"), "%d%d0s" % (century, tens), [("", ""), ("the ", ""), ("in the ", " too")])


def f_quarter(r):
    y, words = year(r)
    k = r.randint(1, 4)
    if k < 3 and r.random() < 0.4:
        return slot(r, "%s half of %s" % (en.ordinal(k), words), "H%d %d" % (k, y), [("", ""), ("in ", "")])
    return slot(r, "%s quarter of %s" % (en.ordinal(k), words), "Q%d %d" % (k, y), [("", ""), ("in ", "")])


ERAS = [("b c e", "BCE"), ("before common era", "BCE"), ("b c", "BC"), ("c e", "CE"), ("common era", "CE"), ("a d", "AD")]


def f_era(r):
    """Years with an era; here three digits are a year too."""

    if r.random() < 0.5:
        h, t = r.randint(1, 9), r.randint(1, 99)
        y, words = "%d%02d" % (h, t), "%s %s" % (en.ONES[h], en.cardinal(t) if t > 9 else r.choice(["oh ", "o "]) + en.ONES[t])
    else:
        y, words = year(r)
    said, mark = r.choice(ERAS)
    return slot(r, "%s %s" % (words, said), "%s%s" % (y, mark), [("", ""), ("in ", ""), ("since ", " we did")])


def f_century(r):
    if r.random() < 0.1:
        return slot(r, "two thousands", "2000s", [("", ""), ("in the ", ""), ("the ", " were good")])
    c = r.choice([c for c in range(11, 100) if c % 10])
    return slot(r, en.cardinal(c) + " hundreds", "%d00s" % c, [("", ""), ("in the ", ""), ("the ", " were good")])


DATES = [f_year, f_date, f_decade, f_quarter, f_era, f_century]

NOONS = [("p m", "p.m."), ("pm", "p.m."), ("a m", "a.m."), ("am", "a.m.")]
ZONES = table("en_itn_zones")
AT = [("", ""), ("at ", ""), ("until ", " today")]


def f_clock(r):
    h, m = r.randint(1, 12), r.randint(1, 59)
    spoken = "%s %s" % (en.cardinal(h), en.cardinal(m) if m > 9 else "o " + en.cardinal(m))
    written = "%02d:%02d" % (h, m)
    if r.random() < 0.5:
        s, w = r.choice(NOONS)
        spoken += " " + s
        written += " " + w
        if r.random() < 0.3:
            zone, words = r.choice(ZONES)
            spoken += " " + words
            written += " " + zone
    elif (h, m) == (7, 11):
        return slot(r, spoken, {written, "7-eleven"}, AT)
    elif h > 9:
        # "twelve thirty" is also a number
        return slot(r, spoken, {written, "%d%02d" % (h, m)}, AT)
    return slot(r, spoken, written, AT)


def f_hour(r):
    h = r.randint(1, 12)
    if r.random() < 0.5:
        return slot(r, en.cardinal(h) + " " + r.choice(["o'clock", "oclock", "o clock"]), "%02d:00" % h, AT)
    s, w = r.choice(NOONS)
    return slot(r, en.cardinal(h) + " " + s, "%02d:00 %s" % (h, w), AT)


def f_past(r):
    h = r.randint(1, 12)
    m, words = r.choice([(30, "half"), (15, "quarter")] + [(k, en.cardinal(k)) for k in (5, 10, 20, 25, 13, 1, 29)])
    return slot(r, "%s past %s" % (words, en.cardinal(h)), "%02d:%02d" % (h, m), AT)


def f_to(r):
    h = r.randint(1, 12)
    before = h - 1 or 12
    if r.random() < 0.4:
        return slot(r, "quarter %s %s" % (r.choice(["to", "till"]), en.cardinal(h)), "%02d:45" % before, AT)
    m = r.choice([1, 5, 10, 20, 25, 14, 29, 40, 50, 51])
    s, w = r.choice(NOONS)
    return slot(r, "%s %s %s %s" % (en.cardinal(m), r.choice(["to", "till"]), en.cardinal(h), s), "%02d:%02d %s" % (before, 60 - m, w), AT)


def f_clock_forms(r):
    """Every way of saying the hour, with zones."""

    h, m = r.randint(1, 12), r.choice([0, r.randint(1, 9), r.randint(10, 59)])
    k = r.randrange(5)
    zone, words = r.choice(ZONES)
    tail, mark = (" " + words, " " + zone) if r.random() < 0.5 else ("", "")
    noon, written = r.choice(NOONS)
    if k == 0:
        h = r.randint(1, 23)
        return slot(r, "%s %s%s" % (en.cardinal(h), r.choice(["o'clock", "oclock", "o clock", "hundred hours"]), tail), "%02d:00%s" % (h, mark), AT)
    if k == 1:
        h = r.randint(1, 23)
        return slot(r, "%s %s%s" % (en.cardinal(h), noon, tail), "%02d:00 %s%s" % (h, written, mark), AT)
    if k == 2:
        h, m = r.randint(1, 23), r.randint(1, 59)
        minute = en.cardinal(m) if m > 9 else "o " + en.cardinal(m)
        return slot(r, "%s %s %s%s" % (en.cardinal(h), minute, noon, tail), "%02d:%02d %s%s" % (h, m, written, mark), AT)
    if k == 3:
        m = r.randint(1, 59)
        unit = r.choice(["", " min", " mins", " minute", " minutes"])
        return slot(r, "%s%s %s %s %s" % (en.cardinal(m), unit, r.choice(["to", "till"]), en.cardinal(h), noon),
                    "%02d:%02d %s" % (h - 1 or 12, 60 - m, written), AT)
    m = r.randint(1, 59)
    return slot(r, "%s past %s" % (en.cardinal(m), en.cardinal(h)), "%02d:%02d" % (h, m), AT)


TIMES = [f_clock_forms, f_clock, f_hour, f_past, f_to]

CURRENCY = {}
for _sign, _name in table("en_itn_currency"):
    CURRENCY.setdefault(_name, set()).add(_sign)
UNITS_TABLE = {}
for _unit, _name in table("en_itn_units"):
    UNITS_TABLE.setdefault(_name, set()).add(_unit)


def plural(name):
    head, per, tail = name.partition(" per ")
    if per:
        return plural(head.rstrip()) + per + tail if not head.startswith(("miles", "kilogram")) else name
    if name in ("foot", "inch"):
        return {"foot": "feet", "inch": "inches"}[name]
    if name.startswith("degree "):
        return name.replace("degree", "degrees", 1)
    if name.endswith(("s", "z", "sh", "ch", "x")):
        return name + "es"
    if re.search("[^aeiou]y$", name):
        return name[:-1] + "ies"
    return name + "s"


def amount(r):
    """(spoken, written, one?)"""

    k = r.random()
    if k < 0.1:
        return "one", "1", True
    if k < 0.65:
        n = max(2, pick_int(r, 10**r.choice((1, 2, 3, 5, 7))))
        while quantity(n):
            n += 1
        return cardinal(r, n), str(n), False
    n = pick_int(r, 10**r.choice((1, 2, 3)))
    part = ndigits(r, r.randint(1, 3))
    return cardinal(r, n) + " point " + spell(r, part), "%d.%s" % (n, part), False


def f_unit(r):
    name = r.choice(list(UNITS_TABLE))
    spoken, written, one = amount(r)
    if r.random() < 0.2:
        spoken, written = "minus " + spoken, "-" + written
    said = name if one or r.random() < 0.15 else plural(name)
    if said == "hours" and spoken.endswith("hundred"):  # nine hundred hours is a time of day
        return f_unit(r)
    return slot(r, "%s %s" % (spoken, said), {"%s %s" % (written, u) for u in UNITS_TABLE[name]})


def f_unit_per(r):
    name, per = r.choice(["kilometer", "kilogram", "meter", "liter", "mile"][:3]), r.choice(["hour", "second", "minute"])
    spoken, written, one = amount(r)
    return slot(r, "%s %s per %s" % (spoken, name if one else plural(name), per),
                {"%s %s/%s" % (written, u, p) for u in UNITS_TABLE[name] for p in UNITS_TABLE[per]})


def money_plural(name):
    return name + "es" if name.endswith("s") else name + "s"


def f_money(r):
    name = r.choice(["dollar", "euro", "yen", "rupee", "us dollar", "won"]) if r.random() < 0.6 else r.choice(list(CURRENCY))
    spoken, written, one = amount(r)
    said = name if one else (name if r.random() < 0.15 else money_plural(name))
    return slot(r, "%s %s" % (spoken, said), {s + written for s in CURRENCY[name]})


def f_money_quantity(r):
    name = r.choice(["dollar", "euro", "yen", "won"])
    n = r.randint(1, 999)
    q = r.choice(["million", "billion", "trillion"])
    if r.random() < 0.4:
        part = ndigits(r, r.randint(1, 2))
        return slot(r, "%s point %s %s %s" % (cardinal(r, n), spell(r, part), q, money_plural(name)),
                    {"%s%d.%s %s" % (s, n, part, q) for s in CURRENCY[name]})
    return slot(r, "%s %s %s" % (en.cardinal(n), q, money_plural(name)), {"%s%d %s" % (s, n, q) for s in CURRENCY[name]})


def f_cents(r):
    n, c = r.randint(1, 9999), r.randint(1, 99)
    if r.random() < 0.25:
        return slot(r, en.cardinal(c) + (" cent" if c == 1 else " cents"), "$0.%02d" % c)
    spoken = "%s %s %s%s %s" % (cardinal(r, n), "dollar" if n == 1 else "dollars", r.choice(["", "and "]), en.cardinal(c), "cent" if c == 1 else "cents")
    return slot(r, spoken, "$%d.%02d" % (n, c))


def f_unit_forms(r):
    """Signs, no whole part, any unit per any unit, numbers of any size."""

    name, per = r.choice(list(UNITS_TABLE)), r.choice([u for u in UNITS_TABLE if " per " not in u])
    k = r.random()
    if k < 0.3:
        part = ndigits(r, r.randint(1, 4))
        spoken, written, one = "point " + spell(r, part), "." + part, False
    elif k < 0.5:
        n = sparse(r, 4)
        spoken, written, one = cardinal(r, n), str(n), False
    else:
        spoken, written, one = amount(r)
    sign, mark = r.choice([("", "")] * 2 + [("minus ", "-"), ("negative ", "-")])
    said = name if one else plural(name)
    if said == "hours" and spoken.endswith("hundred"):
        return f_unit_forms(r)
    units = UNITS_TABLE[name]
    if " per " not in name and r.random() < 0.5:
        # "meters per second" is a unit of the table too
        full = "%s per %s" % (name, per)
        units = {"%s/%s" % (u, p) for u in units for p in UNITS_TABLE[per]} | UNITS_TABLE.get(full, set())
        said += " per " + per
    return slot(r, "%s%s %s" % (sign, spoken, said), {"%s%s %s" % (mark, written, u) for u in units})


def f_money_forms(r):
    name = r.choice(["dollar", "euro", "yen", "rupee", "us dollar", "won"]) if r.random() < 0.4 else r.choice(list(CURRENCY))
    k = r.randrange(5)
    if k == 0:  # one fifty five dollars
        h, t = r.randint(1, 9), r.choice([r.randint(10, 99), r.randint(10, 99)])
        spoken, written = "%s %s %s" % (en.ONES[h], en.cardinal(t), money_plural(name)), "%d%02d" % (h, t)
    elif k == 1:
        part = ndigits(r, r.randint(1, 4))
        spoken, written = "point %s %s" % (spell(r, part), money_plural(name)), "." + part
    elif k == 2:  # seventy five dollars sixty three
        n, c = r.randint(1, 9999), r.randint(1, 99)
        spoken = "%s %s %s%s" % (cardinal(r, n), name if n == 1 else money_plural(name), en.cardinal(c), "" if n > 1 and r.random() < 0.5 else " cent" if c == 1 else " cents")
        written = "%d.%02d" % (n, c)
    elif k == 3:
        n = sparse(r, 5)
        spoken, written = "%s %s" % (cardinal(r, n), money_plural(name)), str(n)
    else:
        n, q = r.randint(1, 999), r.choice(["million", "billion", "trillion"])
        part = ndigits(r, r.randint(0, 3))
        said = cardinal(r, n) + " point " + spell(r, part) if part else en.cardinal(n)
        spoken, written = "%s %s %s" % (said, q, money_plural(name)), "%d%s %s" % (n, "." + part if part else "", q)
    return slot(r, spoken, {x + written for x in CURRENCY[name]})


UNITS = [f_unit_forms, f_money_forms, f_unit, f_unit_per, f_money, f_money_quantity, f_cents]

WORDS_TABLE = {}
for _written, _said, *_ in table("en_itn_words"):
    WORDS_TABLE.setdefault(_said, set()).add(_written.strip().replace("\\#", "#"))


def f_whitelist(r):
    said = r.choice(list(WORDS_TABLE))
    return slot(r, said, WORDS_TABLE[said], [("", ""), ("the cat saw ", " today"), ("he likes ", " there"), ("we had ", "")])


WORDS = [f_whitelist]
