"""Reference model of English text normalization, as sets of acceptable readings.

The grammar is free to choose among equivalent readings ("and", oh/zero, a year or a number, "negative" or "minus"); what may not
change is the value that is spoken.
"""

import re

import en_words as en
from common import pick_int, table

CARRIERS = [("", ""), ("the cat saw ", " today"), ("we had ", "."), ("so ", " then"), ("Is it ", "?"), ("they said ", " and left")]


def canon(text):
    """Case, "and", names of zero, "thousand"/"a hundred" for "one ...", and the sign word do not matter."""

    words = []
    for w in text.lower().replace(",", " ,").split():
        w = {"oh": "zero", "o": "zero", "negative": "minus", "dash": "minus", "a": "one"}.get(w, w)
        if w == "and" or w == ",":
            continue
        if w in ("thousand", "hundred", "million") and (not words or words[-1] not in NUMBERISH):
            words.append("one")
        words.append(w)
    return " ".join(words)


NUMBERISH = set(en.ONES) | set(en.TENS) | set(en.SCALES)


def slot(r, written, readings, carriers=CARRIERS):
    before, after = r.choice(carriers)
    readings = {canon(x) for x in readings}

    def accept(out):
        if not (out.startswith(before) and out.endswith(after) and len(out) > len(before) + len(after)):
            return False
        return canon(out[len(before):len(out) - len(after)]) in readings

    accept.readings = readings
    return before + written + after, accept


LETTERS = "abcdefghijklmnopqrstuvwxyz"


def group(s, r, p=0.5):
    return "{:,}".format(int(s)) if len(s) > 3 and s[0] != "0" and r.random() < p else s


def integers(s):
    """Readings of one digit string, commas allowed."""

    if "," in s:
        return {en.cardinal(int(s.replace(",", "")))}
    return en.integer_readings(s)


def f_integer(r):
    s = group(str(pick_int(r, 10**r.choice((3, 4, 6, 9, 12, 15)))), r)
    return slot(r, s, integers(s))


def f_negative(r):
    s = group(str(pick_int(r, 10**r.choice((2, 3, 4, 7)))), r)
    return slot(r, "-" + s, {"minus " + x for x in integers(s)})


def f_zeros(r):
    s = "0" * r.randint(1, 3) + str(r.randint(1, 999))
    return slot(r, s, integers(s))


QUANTITIES = {"million": "million", "billion": "billion", "trillion": "trillion"}


def decimals(s):
    whole, _, part = s.partition(".")
    part = {en.spell(part), en.cardinal(int(part))} | ({" ".join(["zero"] * (len(part) - len(part.lstrip("0"))) + [en.cardinal(int(part))])}
                                                      if int(part) else set())
    if not whole:
        return {"point " + p for p in part}
    return {en.cardinal(int(whole.replace(",", ""))) + " point " + p for p in part}


def f_decimal(r):
    whole = group(str(pick_int(r, 10**r.choice((2, 3, 5)))), r)
    if whole == "0" and r.random() < 0.5:
        whole = ""
    part = "".join(r.choice("0123456789") for _ in range(r.randint(1, 5)))
    s = whole + "." + part
    quantity = r.choice(list(QUANTITIES)) if r.random() < 0.25 and whole else ""
    sign = "-" if r.random() < 0.3 and whole else ""
    # ("2.30 am"-like texts are times; the carriers never continue so)
    out = {("minus " if sign else "") + x + (" " + quantity if quantity else "") for x in decimals(s)}
    carriers = CARRIERS if whole else [c for c in CARRIERS if c[0] != ""]
    return slot(r, sign + s + (" " + quantity if quantity else ""), out, carriers)


def f_quantity(r):
    n = r.randint(2, 999)
    q = r.choice(list(QUANTITIES))
    return slot(r, "%d %s" % (n, q), {en.cardinal(n) + " " + q})


def suffix(n):
    return "th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")


def f_ordinal(r):
    n = max(1, pick_int(r, 10**r.choice((2, 3, 4, 6))))
    return slot(r, group(str(n), r) + suffix(n), {en.ordinal(n)})


def denominator(d, many):
    if d == 1:
        return {"over one"}
    if d == 2:
        return {"halves" if many else "half"}
    words = {en.ordinal(d)} | ({"quarter"} if d == 4 else set())
    return {w + "s" for w in words} if many else words


def f_fraction(r):
    a, b = r.randint(1, 99), r.randint(1, 199)
    whole = r.randint(1, 300) if r.random() < 0.4 else None
    out = {en.cardinal(a) + " " + d for d in denominator(b, a != 1)} | ({"%s divided by %s" % (en.cardinal(a), en.cardinal(b))} if whole is None else set())
    text = "%d/%d" % (a, b)
    if whole is not None:
        text = "%d %s" % (whole, text)
        out = {en.cardinal(whole) + " and " + x for x in out}
    return slot(r, text, out)


FRACTIONS = table("en_tn_fractions")


def f_fraction_symbol(r):
    symbol, ab = r.choice(FRACTIONS)
    a, b = map(int, ab.split("/"))
    out = {en.cardinal(a) + " " + d for d in denominator(b, a != 1)}
    if r.random() < 0.4:
        whole = r.randint(1, 99)
        return slot(r, "%d %s" % (whole, symbol), {en.cardinal(whole) + " and " + x for x in out})
    return slot(r, symbol, out)


def f_range(r):
    # A year opens with 1 or 2 and has four digits; keep those out: they may be read either way on both sides.
    a, b = r.randint(1, 999), r.randint(1, 999)
    if a < 32 and b < 32 or a > 99 and r.random() < 0.5:
        a += 40
    return slot(r, "%d%s%d" % (a, r.choice(["-", " - "]), b),
                {"%s %s %s" % (en.cardinal(a), w, en.cardinal(b)) for w in ("to", "minus")} | {"%s - %s" % (en.cardinal(a), en.cardinal(b))})


def f_by(r):
    a, b = r.randint(2, 99), r.randint(2, 99)
    return slot(r, "%d%s%d" % (a, r.choice(["x", " x "]), b), {"%s %s %s" % (en.cardinal(a), w, en.cardinal(b)) for w in ("by", "times")})


def f_approx(r):
    n = r.randint(1, 999)
    return slot(r, "~%d" % n, {"approximately " + en.cardinal(n)})


def f_no(r):
    n = r.randint(1, 999)
    return slot(r, "%s%s%d" % (r.choice(["No", "no", "NO"]), r.choice([". ", " ", ""]), n), {"number " + en.cardinal(n)},
                [("the ", " is here"), ("see ", ".")])


def f_percent(r):
    if r.random() < 0.5:
        n = str(r.randint(2, 999))
        out = {en.cardinal(int(n))}
    else:
        n = "%d.%s" % (r.randint(0, 99), "".join(r.choice("0123456789") for _ in range(r.randint(1, 3))))
        out = decimals(n)
    return slot(r, n + "%", {x + " percent" for x in out})


def f_math(r):
    a, b, c = (r.randint(1, 999) for _ in range(3))
    op, word = r.choice([("+", "plus"), ("*", "times"), ("×", "times"), ("÷", "divided")])
    return slot(r, "%d%s%d=%d" % (a, op, b, c), {"%s %s %s equals %s" % (en.cardinal(a), w, en.cardinal(b), en.cardinal(c)) for w in (word, word + " by")})


def ndigits(r, k):
    return "".join(r.choice("0123456789") for _ in range(k))


def f_phone(r):
    area, mid, last = str(r.randint(201, 999)), ndigits(r, 3), ndigits(r, 4)
    says = {"eight hundred", en.spell("800")} if area == "800" else {en.spell(area)}
    k = r.random()
    text = {0: "%s-%s-%s", 1: "(%s) %s-%s", 2: "%s.%s.%s"}[r.randrange(3)] % (area, mid, last)
    out = {"%s, %s, %s" % (a, en.spell(mid), en.spell(last)) for a in says}
    if k < 0.3:
        code = r.choice(["1", "44", "86"])
        text = "+%s %s" % (code, text)
        out = {"plus %s, %s" % (en.spell(code), x) for x in out}
    return slot(r, text, out, [("call ", ""), ("call ", " today"), ("", ""), ("Dial ", ".")])


def f_ssn(r):
    s = ndigits(r, 9)
    return slot(r, "%s-%s-%s" % (s[:3], s[3:5], s[5:]), {"%s, %s, %s" % (en.spell(s[:3]), en.spell(s[3:5]), en.spell(s[5:]))}, [("the number is ", ""), ("", "")])


def f_ip(r):
    parts = [str(r.randint(0, 255)) for _ in range(4)]
    return slot(r, ".".join(parts), {" dot ".join(en.spell(p) for p in parts)}, [("", ""), ("ping ", " now"), ("host ", "")])


def card(s):
    return en.cardinal(int(str(s).replace(",", "")))


def f_ratio(r):
    a, b = r.randint(1, 99), r.randint(1, 9)
    return slot(r, "%d%s%d" % (a, ":", b), {"%s to %s" % (card(a), card(b))}, [("it is ", ""), ("", ""), ("the odds are ", " now")])


def f_ellipsis(r):
    a, b = r.randint(1, 999), r.randint(1, 999)
    return slot(r, "%d%s%d" % (a, r.choice(["...", " ... "]), b), {"%s ... %s" % (card(a), card(b))})


def f_times(r):
    """5x, 5 x: so many times; chains say it between each two."""

    parts = [r.randint(2, 999) for _ in range(r.choice((1, 1, 3)))]
    if len(parts) == 1:
        return slot(r, "%d%s" % (parts[0], r.choice(["x", " x"])), {card(parts[0]) + " times"}, [("it is ", ""), ("", ""), ("they ran ", " faster")])
    out = {card(parts[0])}
    for n in parts[1:]:
        out = {"%s %s %s" % (x, w, card(n)) for x in out for w in ("by", "times")}
    return slot(r, " x ".join(map(str, parts)), out)


def f_asterisk(r):
    parts = [r.randint(2, 999) for _ in range(2)]
    return slot(r, r.choice(["*", " * "]).join(map(str, parts)), {" times ".join(card(n) for n in parts)})


def f_plus(r):
    parts = [r.randint(1, 999) for _ in range(2)]
    return slot(r, r.choice(["+", " + "]).join(map(str, parts)), {" plus ".join(card(n) for n in parts)})


def f_division(r):
    """Three parts or more cannot be a fraction; above 31 they cannot be a date."""

    parts = [r.randint(40, 99) for _ in range(r.choice((3, 3, 4)))]
    return slot(r, "/".join(map(str, parts)), {" divided by ".join(card(n) for n in parts)})


def f_percent_range(r):
    a, b = r.randint(2, 999), r.randint(2, 999)
    text = "%d%s%s%d%%" % (a, r.choice(["%", ""]), r.choice(["-", " - "]), b)
    return slot(r, text, {"%s %s %s percent" % (x, w, card(b)) for x in (card(a), card(a) + " percent") for w in ("to", "-", "minus")} |
                {"%s-%s percent" % (x, card(b)) for x in (card(a), card(a) + " percent")})


def f_math_spaced(r):
    """Operators with and without spaces, a letter on the left, = on either side."""

    op, words = r.choice([("+", ["plus"]), ("-", ["minus"]), ("*", ["times"]), ("×", ["times"]), ("÷", ["divided", "divided by"]), ("·", ["times"])])
    b, c = r.randint(2, 999), r.randint(2, 999)
    left = r.choice("abcdxyz") if r.random() < 0.3 else str(r.randint(2, 999))
    gap = " " if left.isalpha() or r.random() < 0.6 else ""
    said = left if left.isalpha() else card(left)
    if r.random() < 0.75:
        return slot(r, "%s%s%s%s%d%s=%s%d" % (left, gap, op, gap, b, gap, gap, c), {"%s %s %s equals %s" % (said, w, card(b), card(c)) for w in words})
    return slot(r, "%s = %d %s %d" % (left, b, op, c), {"%s equals %s %s %s" % (said, card(b), w, card(c)) for w in words})


def f_power(r):
    base = r.choice("abcdmnxyz") if r.random() < 0.3 else str(r.randint(2, 9999))
    k, word = r.choice([("2", "squared"), ("3", "cubed")])
    name = {"2": "two", "3": "three"}[k]
    said = {base} if base.isalpha() else integers(base)
    return slot(r, base + "^" + k, {"%s %s" % (x, w) for x in said for w in (word, "circumflex " + name)})


def f_ordinal_form(r):
    n = max(1, pick_int(r, 10**r.choice((1, 2, 3, 4))))
    mark = suffix(n)
    high = {"st": "ˢᵗ", "nd": "ⁿᵈ", "rd": "ʳᵈ", "th": "ᵗʰ"}[mark]
    return slot(r, str(n) + r.choice([high, mark.upper()]), {en.ordinal(n)})


def f_fraction_form(r):
    """3/4 with spaces, with an ordinal under the line, or with a denominator of one."""

    a, b = r.randint(1, 199), r.choice([r.randint(1, 9), r.randint(10, 99)])
    out = {card(a) + " " + d for d in denominator(b, a != 1)}
    k = r.randrange(3)
    if k == 0 and b > 2:
        return slot(r, "%d/%d%s" % (a, b, suffix(b)), out)
    if k == 1:
        return slot(r, "%d / %d" % (a, b), out | {"%s divided by %s" % (card(a), card(b))})
    return slot(r, "%d/1" % a, {card(a) + " over one", card(a) + " divided by one"})


def f_phone_words(r):
    """The letters of a number keep standing as they are; an 800 prefix may be eight hundred."""

    area = r.choice(["800", "877", "888", "900", str(r.randint(201, 999))])
    a, b = ("".join(r.choice(LETTERS).upper() for _ in range(n)) for n in r.choice([(2, 5), (3, 4), (4, 3)]))
    says = {"eight hundred", en.spell("800")} if area == "800" else {en.spell(area)}
    lead = r.random() < 0.5
    return slot(r, "%s%s-%s-%s" % ("1-" if lead else "", area, a, b), {"%s%s, %s %s" % ("one, " if lead else "", x, a, b) for x in says},
                [("call ", ""), ("", ""), ("Dial ", " today")])


def f_phone_prompt(r):
    s = ndigits(r, 9)
    said = "%s, %s, %s" % (en.spell(s[:3]), en.spell(s[3:5]), en.spell(s[5:]))
    return slot(r, "%s %s-%s-%s" % (r.choice(["ssn is", "SSN is"]), s[:3], s[3:5], s[5:]), {"SSN is " + said}, [("my ", ""), ("", ""), ("his ", " now")])


def f_phone_country(r):
    area, mid, last = r.choice(["800", str(r.randint(201, 999))]), ndigits(r, 3), ndigits(r, 4)
    code = str(r.choice([r.randint(1, 799), r.randint(801, 999)]))
    says = {"eight hundred", en.spell("800")} if area == "800" else {en.spell(area)}
    plus = r.random() < 0.6
    text = "%s%s%s%s-%s-%s" % ("+" if plus else "", code, " " if plus else "-", area, mid, last)
    return slot(r, text, {"%s%s, %s, %s, %s" % ("plus " if plus else "", en.spell(code), x, en.spell(mid), en.spell(last)) for x in says},
                [("call ", ""), ("", ""), ("Dial ", ".")])


def f_serial_parts(r):
    """Three parts or more joined by one mark are neither a date nor a range."""

    parts = [r.randint(32, 99) for _ in range(4)] if r.random() < 0.5 else [r.randint(32, 99), r.randint(32, 99), r.randint(100, 999)]
    out = [{card(n), en.spell(str(n))} for n in parts]

    def accept(text):
        pieces = re.split("-| to | minus ", text)
        return len(pieces) == len(parts) and all(canon(p) in {canon(x) for x in integers(str(n))} for p, n in zip(pieces, parts))

    return address(r, "-".join(map(str, parts)), accept, [("part ", ""), ("", ""), ("see ", " now")])


def f_leading_zero(r):
    s = "0" * r.randint(1, 4) + str(r.randint(1, 99999))
    return slot(r, s, {en.spell(s)} | integers(s))


NUMBER = [f_integer, f_negative, f_zeros, f_decimal, f_quantity, f_ordinal, f_fraction, f_fraction_symbol, f_range, f_by, f_approx, f_no, f_percent, f_math,
          f_phone, f_ssn, f_ip, f_ratio, f_ellipsis, f_times, f_asterisk, f_plus, f_division, f_percent_range, f_math_spaced, f_power, f_ordinal_form,
          f_fraction_form, f_phone_words, f_phone_prompt, f_phone_country, f_serial_parts, f_leading_zero]

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def ymd(r):
    m = r.randint(1, 12)
    return r.randint(1000, 2999), m, r.randint(1, DAYS[m - 1])


def dates(y, m, d):
    year = en.year(str(y)) if y else {""}
    month, day = en.MONTHS[m - 1], en.ordinal(d)
    return {x.strip() for w in year for x in ("the %s of %s %s" % (day, month, w), "%s %s %s" % (month, day, w), "%s the %s %s" % (month, day, w))}


def f_date_numeric(r):
    y, m, d = ymd(r)
    sep = r.choice("-/.")
    zero = r.random() < 0.6
    mm, dd = ("%02d" % m, "%02d" % d) if zero else (str(m), str(d))
    if r.random() < 0.5:
        text = sep.join(["%d" % y, mm, dd])
    else:
        text = sep.join([mm, dd, "%d" % y])
    return slot(r, text, dates(y, m, d))


def f_date_dmy(r):
    """A first number above 12 can only be the day."""

    y, m, d = ymd(r)
    if d <= 12:
        d = r.randint(13, 28)
    sep = r.choice("-/.")
    return slot(r, sep.join(["%d" % d, "%02d" % m, "%d" % y]), dates(y, m, d))


def month(r, m):
    name = en.MONTHS[m - 1]
    if name == "may":
        return "may"
    forms = [name, name.title(), name.upper()]
    short = name[:3]
    forms += [short, short.title()] + ([short + ".", short.title() + "."] if r.random() < 0.5 else [])
    return r.choice(forms)


def f_date_month(r):
    y, m, d = ymd(r)
    style = r.randrange(5)
    name = month(r, m)
    bare = name.rstrip(".")
    if style == 0:
        return slot(r, "%s %d, %d" % (name, d, y), dates(y, m, d))
    if style == 1:
        return slot(r, "%s %d%s %d" % (name, d, suffix(d), y), dates(y, m, d))
    if style == 2:
        return slot(r, "%d %s %d" % (d, bare, y), dates(y, m, d))
    if style == 3:
        # A following word must not read as a year.
        return slot(r, "%s %d%s" % (bare, d, r.choice(["", suffix(d)])), dates(None, m, d))
    return slot(r, "%s %d" % (bare, y), {"%s %s" % (en.MONTHS[m - 1], w) for w in en.year(str(y))})


def f_year(r):
    y = str(r.randint(1000, 2999))
    return slot(r, y, en.integer_readings(y), [("in ", ""), ("since ", " we"), ("", "")])


def f_decade(r):
    tens = r.randint(2, 9)
    word = en.TENS[tens][:-1] + "ies"
    if r.random() < 0.4:
        return slot(r, "'%d0s" % tens, {word}, [("the ", ""), ("", ""), ("in the ", " they")])
    return slot(r, "%d0s" % tens, {word}, [("the ", ""), ("in the ", " they")])


def f_quarter(r):
    y = r.randint(10, 99)
    if r.random() < 0.5:
        k = r.randint(1, 4)
        text, word = "%dQ%d" % (k, y), en.ordinal(k) + " quarter"
    else:
        k = r.randint(1, 2)
        text, word = "%dH%d" % (k, y), en.ordinal(k) + " half"
    return slot(r, text, {"the %s of %s" % (word, en.cardinal(y))}, [("in ", ""), ("", ""), ("by ", " then")])


def f_century(r):
    """1980s, 1900s, 2000s."""

    c, d = r.randint(10, 29), r.randint(0, 9)
    if d == 0:
        out = {en.cardinal(c) + " hundreds"} | ({en.cardinal(c // 10) + " thousands"} if c % 10 == 0 else set())
    elif c % 10 == 0 and c > 20:
        out = set()
        c += 1
    if d:
        out = {en.cardinal(c) + " " + ("tens" if d == 1 else en.TENS[d][:-1] + "ies")}
    return slot(r, "%d%d0s" % (c, d), out, [("the ", ""), ("in the ", " they"), ("", "")])


ERAS = [(x, "AD") for x in ("A.D.", "A. D.", "A.D", "a.d.")] + [(x, "BC") for x in ("B.C.", "B. C.", "B.C", "b.c.")]


def f_era(r):
    y = str(r.randint(1000, 9999) if r.random() < 0.6 else r.randint(1, 9) * 100 + r.randint(10, 99))
    era, word = r.choice(ERAS)
    out = {x + " " + word for x in set(integers(y)) | (en.year(y) if len(y) == 4 else {"%s %s" % (en.cardinal(int(y[0])), x) for x in en.integer_readings(y[1:])})}
    return slot(r, y + " " + era, out, [("in ", ""), ("", ""), ("since ", " they")])


def f_date_comma(r):
    """Commas around the year and the separators of a date with a month's name do not change it."""

    y, m, d = ymd(r)
    name = month(r, m).rstrip(".")
    k = r.randrange(7)
    if k == 0:
        return slot(r, "%s %d,%d" % (name, d, y), dates(y, m, d))
    if k == 1:
        return slot(r, "%s %d %d" % (name, d, y), dates(y, m, d))
    if k == 2:
        return slot(r, "%s-%d-%d" % (name.title() if name != "may" else name, d, y), dates(y, m, d))
    if k == 3:
        return slot(r, "%d %s, %d" % (d, name, y), dates(y, m, d))
    if k == 4:
        return slot(r, "%d%s %s %d" % (d, suffix(d), name, y), dates(y, m, d))
    if k == 5:
        return slot(r, "%s, %d" % (name, y), {"%s %s" % (en.MONTHS[m - 1], w) for w in en.year(str(y))})
    return slot(r, "%s %d, %d," % (name, d, y), dates(y, m, d), [("on ", " it began"), ("", ""), ("By ", " they left")])


DATES = [f_date_numeric, f_date_dmy, f_date_month, f_year, f_decade, f_quarter, f_century, f_era, f_date_comma]

SUFFIXES = [(p + q, w) for p, q, w in [(p, q, w) for p, w in (("a", "AM"), ("p", "PM"), ("A", "AM"), ("P", "PM")) for q in ("m", "M", ".m.", ".M.")]
            if p.islower() == q.replace(".", "").islower()]
ZONES = table("en_tn_zones")


def minutes(m, written):
    if m == 0:
        return {"zero zero", "zero", "o'clock", ""}
    return {en.cardinal(m)} if m > 9 else {"zero " + en.cardinal(m)}


def f_time(r):
    h, m = r.randint(0, 23), r.choice([0, r.randint(0, 9), r.randint(0, 59)])
    hh = "%02d" % h if r.random() < 0.3 else str(h)
    text = "%s:%02d" % (hh, m)
    said = set()
    suffix_word = None
    if r.random() < 0.45:
        s, suffix_word = r.choice(SUFFIXES)
        text += r.choice(["", " "]) + s
    base = {en.cardinal(h)} if m == 0 and suffix_word else ({en.cardinal(h) + " o'clock"} if m == 0 else
                                                          {en.cardinal(h) + " " + x for x in minutes(m, True)})
    for b in base:
        said.add(b + (" " + suffix_word if suffix_word else ""))
    if suffix_word and r.random() < 0.3:
        zone, word = r.choice(ZONES)
        text += " " + zone
        said = {x + " " + word for x in said}
    return slot(r, text, said, [("at ", ""), ("", ""), ("until ", " today"), ("by ", " or so")])


def f_hour(r):
    h = r.randint(1, 12)
    s, word = r.choice(SUFFIXES)
    return slot(r, "%d%s%s" % (h, r.choice(["", " "]), s), {en.cardinal(h) + " " + word}, [("at ", ""), ("", ""), ("until ", " today")])


def f_hms(r):
    h, m, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)

    def unit(n, name):
        return {"%s %s%s" % (x, name, "" if n == 1 else "s") for x in ({en.cardinal(n)} | ({"zero " + en.cardinal(n)} if n < 10 else set()))}

    out = {"%s %s %s" % (a, b, c) for a in unit(h, "hour") for b in unit(m, "minute") for c in unit(s, "second")}
    return slot(r, "%d:%02d:%02d" % (h, m, s), out, [("at ", ""), ("", ""), ("until ", " today")])


def f_time_range(r):
    parts = []
    for _ in range(2):
        h, m = r.randint(1, 12), r.randint(10, 59)
        parts.append(("%d:%02d" % (h, m), en.cardinal(h) + " " + en.cardinal(m)))
    return slot(r, parts[0][0] + "-" + parts[1][0], {parts[0][1] + " to " + parts[1][1]}, [("from ", ""), ("", ""), ("open ", " today")])


def f_time_dot(r):
    """7.30 pm"""

    h, m = r.randint(1, 12), r.randint(10, 59)
    s, word = r.choice(SUFFIXES)
    return slot(r, "%d.%d%s%s" % (h, m, r.choice(["", " "]), s), {"%s %s %s" % (en.cardinal(h), en.cardinal(m), word)}, [("at ", ""), ("", ""), ("until ", " today")])


def f_hour_zone(r):
    h = r.randint(1, 12)
    s, word = r.choice(SUFFIXES)
    zone, name = r.choice(ZONES)
    return slot(r, "%d%s%s %s" % (h, r.choice(["", " "]), s, zone), {"%s %s %s" % (en.cardinal(h), word, name)}, [("at ", ""), ("", ""), ("until ", " today")])


TIMES = [f_time, f_hour, f_hms, f_time_range, f_time_dot, f_hour_zone]

IRREGULAR = {
    "foot": "feet", "square foot": "square feet", "inch": "inches", "hertz": "hertz", "horsepower": "horsepower", "hundredweight": "hundredweight",
    "percent": "percent", "kilo calory": "kilo calories", "kilogram force": "kilograms force", "revolution per minute": "revolutions per minute",
    "mega siemens": "mega siemens", "kilobit per second": "kilobits per second", "megabit per second": "megabits per second",
    "mile per hour": "miles per hour", "degree Celsius": "degrees Celsius", "degree Fahrenheit": "degrees Fahrenheit", "won": "won", "yen": "yen",
}


def plural(name):
    if name in IRREGULAR:
        return IRREGULAR[name]
    if name.endswith("hertz") or name.isupper():
        return name
    if re.search("[bcdfghjklmnpqrstvwxyz]y$", name):
        return name[:-1] + "ies"
    if re.search("(s|sh|ch|x|z)$", name):
        return name + "es"
    return name + "s"


UNITS_TABLE = {}
for _unit, _name in table("en_tn_units"):
    UNITS_TABLE.setdefault(_unit, set()).add(_name)


def amounts(r):
    """(written, readings, is it exactly one)"""

    k = r.random()
    if k < 0.15:
        return "1", {"one"}, True
    if k < 0.6:
        s = group(str(max(2, pick_int(r, 10**r.choice((2, 3, 5))))), r)
        return s, {en.cardinal(int(s.replace(",", "")))}, False
    s = "%d.%s" % (r.randint(0, 99), ndigits(r, r.randint(1, 3)))
    out = decimals(s)
    return s, out | {x.replace(" point five", " and one half") for x in out}, False


def f_unit(r):
    unit = r.choice(list(UNITS_TABLE))
    s, says, one = amounts(r)
    sign = r.random() < 0.15
    gap = " " if unit[0].isalpha() and r.random() < 0.5 and unit.lower() not in ("m", "s", "b", "k", "f", "h", "g", "v") else ""
    names = UNITS_TABLE[unit]
    names = {name if one else plural(name) for name in names} | {name for name in names if name.endswith("s")}
    # "5m" and "5b" are also million and billion; "10s" a decade
    out = {("minus " if sign else "") + a + " " + n for a in says for n in names}
    if unit == "m" and not gap:
        out |= {("minus " if sign else "") + a + " million" for a in says}
    if unit == "s" and s.endswith("0") or unit == "f" or unit == "°" or unit == "º":
        out |= {("minus " if sign else "") + a + " " + n for a in en.integer_readings(s.replace(",", "")) for n in names} if s.replace(",", "").isdigit() else set()
        if unit == "s" and s.replace(",", "").isdigit():
            out.add(("minus " if sign else "") + en.cardinal(int(s.replace(",", ""))) + "s")
        if unit == "s" and len(s) == 2 and s[0] > "1":
            out.add(en.TENS[int(s[0])][:-1] + "ies")
    return slot(r, ("-" if sign else "") + s + gap + unit, out, [("weighs ", ""), ("", ""), ("it has ", " now"), ("we saw ", ".")])


def f_unit_per(r):
    unit, per = r.choice(["km", "mi", "kg", "kwh", "ml"]), r.choice(["min", "kg", "km", "oz"])
    s, says, one = amounts(r)
    a = UNITS_TABLE[unit]
    b = UNITS_TABLE[per]
    return slot(r, "%s %s/%s" % (s, unit, per), {"%s %s per %s" % (x, y if one else plural(y), z) for x in says for y in a for z in b})


def f_unit_range(r):
    a, b = r.randint(2, 999), r.randint(2, 999)
    unit = r.choice(["km", "kg", "mi", "ml", "cm", "ft"])
    mark, words = r.choice([("-", ("to", "minus")), ("-", ("to", "minus")), ("x", ("by", "times")), ("*", ("times",))])
    return slot(r, "%d%s%d %s" % (a, r.choice([mark, " %s " % mark]), b, unit), {"%s %s %s %s" % (en.cardinal(a), w, en.cardinal(b), plural(n))
                                                                                for n in UNITS_TABLE[unit] for w in words})


CURRENCY = {}
for _sign, _name in table("en_tn_currency"):
    CURRENCY.setdefault(_sign, set()).add(_name)


def f_money(r):
    sign = r.choice([s for s in CURRENCY if not s[0].isalpha()]) if r.random() < 0.7 else r.choice(["US$", "hk$"])
    s, says, one = amounts(r)
    names = CURRENCY[sign]
    if "." in s:
        whole, part = s.split(".")
        if not int(part):
            says, one = {en.cardinal(int(whole))}, whole == "1"
        else:
            says = decimals(whole + "." + part.rstrip("0")) | says
    text = sign + s
    out = {a + " " + (n if one else plural(n)) for a in says for n in names}
    if r.random() < 0.25 and float(s.replace(",", "")) < 1000:
        q = r.choice(list(QUANTITIES))
        text += " " + q
        says = decimals(s) if "." in s else says
        if "." in s:
            whole, part = s.split(".")
            says = says | (decimals(whole + "." + part.rstrip("0")) if int(part) else {en.cardinal(int(whole))})
        out = {a + " " + q + " " + plural(n) for a in says for n in names}
    return slot(r, text, out, [("costs ", ""), ("", ""), ("it took ", " now"), ("we paid ", ".")])


def f_money_short(r):
    """$1.5m, $2 bn, $1.5k"""

    sign = r.choice([s for s in CURRENCY if not s[0].isalpha()])
    if r.random() < 0.5:
        n, marks = str(r.randint(2, 99)), MONEY_MARKS[:-2]
        says = {en.cardinal(int(n))}
    else:
        n, marks = "%d.%s" % (r.randint(1, 99), r.choice(["5", "25", "2", "75"])), MONEY_MARKS
        says = decimals(n)
    mark, word = r.choice(marks)
    return slot(r, sign + n + r.choice(["", " "]) + mark, {"%s %s %s" % (x, word, plural(name)) for x in says for name in CURRENCY[sign]},
                [("costs ", ""), ("", ""), ("we paid ", " now")])


MONEY_MARKS = [("m", "million"), ("M", "million"), ("mln", "million"), ("b", "billion"), ("B", "billion"), ("bn", "billion"), ("BN", "billion"),
               ("k", "thousand"), ("K", "thousand")]


def f_unit_only(r):
    """5/kg"""

    unit = r.choice(["kg", "km", "ml", "mi", "cm"])
    n = r.randint(2, 999)
    return slot(r, "%d/%s" % (n, unit), {"%s per %s" % (card(n), name) for name in UNITS_TABLE[unit]})


def f_unit_fraction(r):
    a, b = r.randint(1, 9), r.randint(2, 99)
    whole = r.randint(1, 99) if r.random() < 0.4 else None
    unit = r.choice(["kg", "km", "ml", "mi", "cm", "ft"])
    out = {card(a) + " " + d for d in denominator(b, a != 1)}
    text = "%d/%d" % (a, b)
    if whole is not None:
        text = "%d %s" % (whole, text)
        out = {card(whole) + " and " + x for x in out}
    return slot(r, text + " " + unit, {x + " " + name for x in out for n in UNITS_TABLE[unit] for name in (plural(n), n)})


def f_decimal_dash(r):
    """2.5-liter, FM-98.5, 98.5 FM, 2.5x"""

    n = "%d.%s" % (r.randint(1, 99), ndigits(r, r.randint(1, 2)))
    says = decimals(n)
    k = r.randrange(4)
    if k == 3:
        return slot(r, "FM-" + n, {"fm- " + x for x in says} | {"fm-" + x for x in says}, [("on ", ""), ("", ""), ("hear ", " now")])
    if k == 0:
        word = r.choice(["liter", "inch", "km", "ton", "point"])
        return slot(r, n + "-" + word, {x + s + word for x in says for s in (" ", "-")})
    if k == 1:
        band = "FM" if int(n.split(".")[0]) < 25 else r.choice(["FM", "AM"])
        return slot(r, n + r.choice(["", " "]) + band, {x + " " + band for x in says}, [("on ", ""), ("hear ", " now")])
    return slot(r, n + "x", {x + " " + w for x in says for w in ("x", "times")}, [("it is ", ""), ("grew ", " faster")])


UNITS = [f_unit, f_unit_per, f_unit_range, f_money, f_money_short, f_unit_only, f_unit_fraction, f_decimal_dash]

SYMBOLS = dict(table("en_tn_symbols"))
WORDS_TABLE = {}
for _form, _said in table("en_tn_whitelist"):
    if _form != "/":
        WORDS_TABLE.setdefault(_form, set()).add(_said)
for _form in WORDS_TABLE:
    if re.fullmatch("[A-Z](?:[.] ?[A-Z]){2,}[.]?", _form):
        WORDS_TABLE[_form].add(re.sub("[. ]", "", _form))
STATES = table("en_tn_states")
NAMES = ["XQ", "Bravo", "PS", "covid", "iPhone", "KZR", "Falcon", "zeta", "Qx"]


def spelled(written, out, symbols):
    """Whether `out` says an address: letters kept, symbols named, digit runs read as numbers or digit by digit."""

    pieces = re.findall("[0-9]+|.", written)
    said = out.split()
    states = {(0, 0)}  # (word of the answer, how many of its letters are used)
    for piece in pieces:
        if piece.isalpha():
            states = {(i, k + 1) if k + 1 < len(said[i]) else (i + 1, 0) for i, k in states if i < len(said) and said[i][k:k + 1].lower() == piece.lower()}
        elif piece.isdigit():
            states = {(j, 0) for i, k in states if not k for j in digits_said(piece, said, i)}
        else:
            name = symbols[piece].split()
            states = {(i + len(name), 0) for i, k in states if not k and said[i:i + len(name)] == name}
    return (len(said), 0) in states


def digits_said(s, said, i):
    """Where the reading of a digit run that starts at word i may end. Long runs are read in groups."""

    ends = set()
    options = {canon(x) for x in integers(s)}
    for j in range(i + 1, min(len(said), i + 30) + 1):
        if canon(" ".join(said[i:j])) in options:
            ends.add(j)
    if len(s) > 3:
        for cut in range(1, len(s)):
            head = {canon(x) for x in integers(s[:cut])}
            for j in range(i + 1, min(len(said), i + 30) + 1):
                if canon(" ".join(said[i:j])) in head:
                    ends |= digits_said(s[cut:], said, j)
    return ends


def address(r, written, say, carriers):
    before, after = r.choice(carriers)

    def accept(out):
        return out.startswith(before) and out.endswith(after) and say(out[len(before):len(out) - len(after) if after else None])

    accept.readings = {"(any spelling out of %s)" % written}
    return before + written + after, accept


ADDRESS_CARRIERS = [("", ""), ("see ", ""), ("write to ", " now"), ("", " is ours")]


def label(r, digits=True):
    s = "".join(r.choice(LETTERS) for _ in range(r.randint(2, 7)))
    if digits and r.random() < 0.4:
        s += str(r.randint(0, 10**r.choice((1, 2, 3, 4, 6)) - 1))
    return s


DOMAINS = ["com", "org", "gov", "uk", "fr", "net", "br", "in", "ru", "de", "it"]


def domain(r, known=True):
    return ".".join([label(r) for _ in range(r.choice((1, 1, 1, 2, 3)))] + [r.choice(DOMAINS) if known else r.choice(DOMAINS + ["edu", "xyz", "cn"])])


def f_email(r):
    user = label(r)
    for _ in range(r.choice((0, 0, 1, 2))):
        user += r.choice("._-+") + label(r)
    text = user + "@" + domain(r, False)
    return address(r, text, lambda out: spelled(text, out, dict(SYMBOLS, **{"@": "at"})), ADDRESS_CARRIERS)


def f_url(r):
    start = r.choice(["", "", "www.", "http://", "https://", "http://www.", "https://www."])
    text = domain(r, not start)
    for _ in range(r.choice((0, 0, 1, 2))):
        text += r.choice(list(SYMBOLS) if start and r.random() < 0.5 else ["/", "/", "-", "_", "=", "?", "&"]) + label(r)
    names = dict(SYMBOLS, **{":": "colon"})
    return address(r, start + text, lambda out: spelled(start + text, out, names), ADDRESS_CARRIERS)


def f_whitelist(r):
    form = r.choice(list(WORDS_TABLE))
    return address(r, form, lambda out: out in WORDS_TABLE[form], [("", ""), ("the cat saw ", ""), ("we had ", " today")])


def f_acronym(r):
    letters = [r.choice(LETTERS).upper() for _ in range(r.randint(3, 5))]
    sep = r.choice([".", ". "])
    text = sep.join(letters) + r.choice(["", "."])
    accepted = {"".join(letters)} | WORDS_TABLE.get(text, set())
    return address(r, text, lambda out: out in accepted, [("", ""), ("the cat saw ", ""), ("we had ", " today")])


def f_state(r):
    name, short = r.choice(STATES)
    town = r.choice(["Boston", "Springfield", "Paris", "Albany", "Salem"])
    sep = r.choice([", ", ","])
    return address(r, town + sep + short, lambda out: out == town + sep + name, [("", ""), ("we went to ", ""), ("near ", " today")])


def f_serial(r):
    name, s = r.choice(NAMES), str(r.randint(0, 10**r.choice((1, 2, 3, 4, 5, 7)) - 1))
    options = integers(s)
    if r.random() < 0.25 and len(s) < 4:
        s = "0" + s
        options = integers(s)
    k = r.randrange(3)
    text, wanted = [(name + s, {name + " " + canon(x) for x in options}), (name + "-" + s, {name + "-" + canon(x) for x in options}),
                    (s + "-" + name, {canon(x) + "-" + name for x in options})][k]
    return address(r, text, lambda out: spread(out) in {spread(x) for x in wanted}, [("", ""), ("the cat saw ", ""), ("we had ", " today")])


def spread(text):
    return canon(text.replace("-", " - "))


STREETS = [row for row in table("en_tn_streets")]


def f_address(r):
    """House number, direction, street, and city, state and code after it."""

    n = r.choice([r.randint(1, 99), r.randint(111, 999), r.randint(1111, 9999)])
    house = set(integers(str(n)))
    if n > 999:
        house |= {"%s %s" % (x, y) for x in integers(str(n)[:2]) for y in integers(str(n)[2:])}
    elif n > 99:
        house |= {"%s %s" % (x, y) for x in integers(str(n)[:1]) for y in integers(str(n)[1:])}
        house |= {"%s %s" % (x, y) for x in integers(str(n)[:2]) for y in integers(str(n)[2:])}
    text, said = str(n), ""
    if r.random() < 0.5:
        mark, word = r.choice([("N", "North"), ("S", "South"), ("E", "East"), ("W", "West")])
        text, said = text + " " + mark + r.choice(["", "."]), " " + word
    if r.random() < 0.3:
        k = r.randint(1, 99)
        text, said = text + " %d%s" % (k, suffix(k)), said + " " + en.ordinal(k)
    else:
        for _ in range(r.randint(1, 2)):
            word = r.choice(["Main", "San", "Tomas", "Elm", "Lake", "Park", "Oak"])
            text, said = text + " " + word, said + " " + word
    street, name = r.choice(STREETS)
    text, said = text + " " + street.title(), said + " " + name
    if r.random() < 0.4:
        state, short = r.choice(STATES)
        code = ndigits(r, 5)
        if r.random() < 0.75:
            text, said = text + ", Salem", said + ", Salem"
        if r.random() < 0.75:
            text, said = text + ", " + short, said + ", " + state
        text, said = text + " " + code, said + " " + en.spell(code)
    elif r.random() < 0.2:
        text += "."
    wanted = {canon(x + said) for x in house}
    return address(r, text, lambda out: canon(out) in wanted, [("", ""), ("see ", ""), ("He lives at ", "")])


def f_punctuation(r):
    """Punctuation stays as it is between words that need no conversion."""

    words = [r.choice(["cat", "saw", "blue", "tree", "house", "warm", "Then", "we"]) for _ in range(r.randint(2, 4))]
    text = words[0]
    for w in words[1:]:
        text += r.choice([", ", "; ", ": ", "! ", "? ", ". ", " > ", " < ", " -- ", " (", ") ", "... ", '" ', ' "', "' ", " '", " [", "] ", "?! ", "'", '", "', " >> "]) + w
    text += r.choice(["", ".", "!", "?", "...", '"', "'", "?!", ")", '."'])
    return address(r, text, lambda out: out == text, [("", "")])


MARKS = {}
for _mark, _name in table("en_tn_marks") + [["=", "equals"], ["~", "approximately"]]:
    if _mark != "/":
        MARKS.setdefault(_mark, set()).add(_name)


def f_mark(r):
    """A mark standing alone is named."""

    mark = r.choice(list(MARKS))
    return address(r, mark, lambda out: out in MARKS[mark], [("", ""), ("the cat saw ", ""), ("we had ", " today")])


def f_serial_forms(r):
    """A1/B2, AB12-34."""

    a, b = (str(r.randint(0, 99)) for _ in range(2))
    x, y = r.choice(["A", "AB", "XQ"]), r.choice(["B", "CD", "ZR"])
    if r.random() < 0.5:
        wanted = {"%s %s slash %s %s" % (x, m, y, n) for m in integers(a) for n in integers(b)}
        return address(r, "%s%s/%s%s" % (x, a, y, b), lambda out: canon(out) in {canon(w) for w in wanted}, [("", ""), ("see ", ""), ("we had ", " today")])
    if r.random() < 0.4:
        text = r.choice(["%s/%s" % (x, a), "%s/%s" % (a, x)])
        wanted = {" slash ".join(m if p == a else x for p in text.split("/")) for m in integers(a)}
        return address(r, text, lambda out: canon(out) in {canon(w) for w in wanted}, [("", ""), ("see ", ""), ("we had ", " today")])
    if r.random() < 0.4:
        wanted = {"%s-%s-%s" % (m, n, x) for m in integers(a) for n in integers(b)}
        return address(r, "%s-%s-%s" % (a, b, x), lambda out: spread(out) in {spread(w) for w in wanted}, [("", ""), ("see ", ""), ("we had ", " today")])
    wanted = {"%s %s-%s" % (x, m, n) for m in integers(a) for n in integers(b)}
    return address(r, "%s%s-%s" % (x, a, b), lambda out: spread(out) in {spread(w) for w in wanted}, [("", ""), ("see ", ""), ("we had ", " today")])


WORDS = [f_email, f_url, f_whitelist, f_acronym, f_state, f_serial, f_address, f_punctuation, f_mark, f_serial_forms]
