"""Reference model of Japanese text normalization."""

import re

from common import pick_int, table

D = "〇一二三四五六七八九"


def digits(s):
    return "".join(D[int(c)] for c in s)


def group(n, bare_thousand):
    """1..9999; 一 is dropped before 十 and 百, and before 千 unless it opens a 万 group (一千万)."""

    out = ""
    for power, name in ((1000, "千"), (100, "百"), (10, "十")):
        d = n // power % 10
        if d:
            out += ("" if d == 1 and (power < 1000 or bare_thousand) else D[d]) + name
    return out + (D[n % 10] if n % 10 else "")


def integer(n):
    """0..99999999, and multiples of 億 with an empty 万 group up to 9999億9999."""

    if n == 0:
        return "〇"
    out = ""
    for unit, name in ((10**8, "億"), (10**4, "万")):
        part = n // unit % 10**4
        if part:
            out += group(part, False) + name
    if n % 10**4:
        out += group(n % 10**4, True)
    return out


def number(s):
    out = ""
    if s[0] in "+-±":
        out = {"+": "プラス", "-": "マイナス", "±": "プラスマイナス"}[s[0]]
        s = s[1:]
    whole, _, part = s.replace(",", "").partition(".")
    return out + integer(int(whole)) + ("点" + digits(part) if part else "")


DATE_LIKE = re.compile(r"[1-9],?\d{3}[-/.](0[1-9])(\D|$)|(^|\D)(0[1-9])[-/.]([1-9],?\d{3}|0?[1-9]|[12]\d|3[01])(\D|$)|\d+[-/.]\d+[-/.]\d+")


def written(r, top=10**8, sign=0.15, decimal=0.3, comma=0.1):
    while True:
        n = pick_int(r, top)
        s = "{:,}".format(n) if r.random() < comma else str(n)
        if r.random() < decimal:
            s += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 4)))
        if r.random() < sign:
            s = r.choice("+-±") + s
        if not DATE_LIKE.search(s):
            return s


BEFORE = ["", "ねこ", "猫", "これは", "答え"]
AFTER = ["", "です", "猫", "、ね", "。", "ねこ"]


def wrap(r, text, spoken):
    a, b = r.choice(BEFORE), r.choice(AFTER)
    return a + text + b, a + spoken + b.replace("。", ".")


def f_integer(r):
    s = written(r, 10**8, 0, 0, 0.4)
    return wrap(r, s, number(s))


def f_small(r):
    s = written(r, 10**4, 0, 0)
    return wrap(r, s, number(s))


def f_number(r):
    s = written(r)
    return wrap(r, s, number(s))


def f_hundred_million(r):
    n = max(1, pick_int(r, 10**4)) * 10**8 + (pick_int(r, 10**4) if r.random() < 0.6 else 0)
    s = "{:,}".format(n) if r.random() < 0.6 else str(n)
    return wrap(r, s, number(s))


def f_long_digits(r):
    while True:
        s = "".join(r.choice("123456789") for _ in range(r.randint(9, 14)))
        return wrap(r, s, digits(s))


def f_fullwidth(r):
    s = written(r, 10**6, 0, 0, 0)
    return wrap(r, "".join(chr(ord(c) + 0xFEE0) for c in s), number(s))


def f_percent(r):
    s = written(r, 10**4)
    return wrap(r, s + "%", number(s) + "パーセント")


def f_fraction(r):
    while True:
        a, b = written(r, 10**4, 0, 0.1), written(r, 10**4, 0, 0)
        if not DATE_LIKE.search(a + "/" + b):
            break
    return wrap(r, a + r.choice(["/", " / "]) + b, number(b) + "分の" + number(a))


def kana(s):
    return "".join("ゼロ" if c == "0" else D[int(c)] for c in s)


def f_phone(r):
    head = "0" + r.choice("123456789") + r.choice(["", "0"])
    mid = "".join(r.choice("0123456789") for _ in range(r.choice([3, 4])))
    tail = "".join(r.choice("0123456789") for _ in range(4))
    said = "の".join(map(kana, (head, mid, tail)))
    k = r.random()
    if k < 0.5:
        return wrap(r, "%s-%s-%s" % (head, mid, tail), said)
    if k < 0.7:
        return plus81(r, head, mid, tail)
    if k < 0.85:
        return wrap(r, "%s-%s%s" % (head, mid, tail), kana(head) + "の" + kana(mid + tail))
    return plus81(r, head, "".join(r.choice("0123456789") for _ in range(4)), tail, True)


def plus81(r, head, mid, tail, bare=False):
    gap, said = r.choice([("-", "の"), ("- ", "の"), (" ", ""), ("", "")])
    number, spoken = (head + mid + tail, kana(head + mid + tail)) if bare else ("%s-%s-%s" % (head, mid, tail), "の".join(map(kana, (head, mid, tail))))
    return wrap(r, "+81" + gap + number, "プラス八一" + said + spoken)


def f_serial(r):
    k = r.random()
    if k < 0.4:
        parts = [str(r.randint(0, 999)) for _ in range(4)]
        return wrap(r, ".".join(parts), "点".join(map(digits, parts)))
    s = "".join(r.choice("0123456789") for _ in range(r.randint(1, 6)))
    if k < 0.7:
        p = r.choice(["No.", "番号", "番号は"])
        return wrap(r, p + s, p + digits(s))
    return wrap(r, s + "号室", digits(s) + "号室")


OPERATORS = [("×", "カケル"), ("-", "マイナス"), ("+", "プラス"), ("=", "イコール"), (">", "大なり"), ("<", "小なり"), ("≥", "大なりイコール"), ("≤", "小なりイコール"), (">=", "大なりイコール"),
             ("<=", "小なりイコール"), ("÷", "ワル"), ("~", "から")]


def f_compare(r):
    while True:
        a, b = written(r, 10**5, 0), written(r, 10**5, 0)
        op, said = r.choice(OPERATORS)
        gap = r.choice(["", " "])
        # 4598.1~8261.9 may also be a range of months.
        if not DATE_LIKE.search(a + op + b) and not (op == "~" and "." in a + b) and not (op == "-" and re.search("0[1-9]$", a)):
            return wrap(r, a + gap + op + gap + b, number(a) + said + number(b))


NUMBER = [f_integer, f_small, f_number, f_hundred_million, f_long_digits, f_fullwidth, f_percent, f_fraction, f_phone, f_serial, f_compare]


def f_date(r):
    y, m, d = r.randint(1000, 9999), r.randint(1, 12), r.randint(1, 31)
    sep = r.choice("/-.")
    mm, dd = r.choice(["%d", "%02d"]) % m, r.choice(["%d", "%02d"]) % d
    full = integer(y) + "年" + integer(m) + "月" + integer(d) + "日"
    k = r.random()
    if k < 0.5:
        return "%d%s%s%s%s" % (y, sep, mm, sep, dd), full
    if k < 0.75:
        return "%s%s%s%s%d" % (dd, sep, mm, sep, y), full
    m = r.randint(1, 9)
    if k < 0.83:
        return "%d%s%02d" % (y, sep, m), integer(y) + "年" + integer(m) + "月"
    if k < 0.91:
        return "%02d%s%d" % (m, sep, y), integer(y) + "年" + integer(m) + "月"
    return "%02d%s%s" % (m, sep, dd), integer(m) + "月" + integer(d) + "日"


def f_dates(r):
    text, said = f_date(r)
    return wrap(r, text, said)


def f_month_range(r):
    """Two months of years, or two days of months."""

    out, style, sep = [], r.randrange(3), r.choice("/-.")
    for _ in range(2):
        y, m, d = r.randint(1000, 9999), r.randint(1, 12), r.randint(1, 31)
        mm, dd = r.choice(["%d", "%02d"]) % m, r.choice(["%d", "%02d"]) % d
        month = integer(m) + "月"
        out.append([("%d%s%s" % (y, sep, mm), integer(y) + "年" + month), ("%s%s%d" % (mm, sep, y), integer(y) + "年" + month),
                    ("%s%s%s" % (mm, sep, dd), month + integer(d) + "日")][style])
    to = r.choice(["~", "から"] + (["-"] if sep == "/" else []))
    return wrap(r, out[0][0] + to + out[1][0], out[0][1] + "から" + out[1][1])


def f_date_range(r):
    out = []
    for _ in range(2):
        y, m, d = r.randint(1000, 9999), r.randint(1, 12), r.randint(1, 31)
        out.append(("%d/%d/%d" % (y, m, d), integer(y) + "年" + integer(m) + "月" + integer(d) + "日"))
    return wrap(r, out[0][0] + r.choice(["-", "~", "から"]) + out[1][0], out[0][1] + "から" + out[1][1])


NOONS = [("am", "午前"), ("a.m.", "午前"), ("AM", "午前"), ("A M", "午前"), ("a m", "午前"), ("pm", "午後"), ("p.m.", "午後"), ("PM", "午後"), ("P M", "午後"),
         ("p m", "午後")]


def clock(r, second):
    h, m, s = r.randint(0, 24), r.randint(0, 59), r.randint(1, 59)
    colon = r.choice(":::：")
    text = r.choice(["%02d", "%d"]) % h + colon + "%02d" % m
    said = integer(h) + "時" + (integer(m) + "分" if m else "")
    if second:
        text += colon + "%02d" % s
        said += integer(s) + "秒"
    return text, said


def f_time(r):
    text, said = clock(r, r.random() < 0.4)
    if r.random() < 0.4:
        noon, word = r.choice(NOONS)
        if r.random() < 0.3:
            h = r.randint(0, 24)
            return wrap(r, "%d%s" % (h, noon), word + integer(h) + "時")
        return wrap(r, text + r.choice(["", " "]) + noon, word + said)
    return wrap(r, text, said)


def f_time_range(r):
    (a, sa), (b, sb) = clock(r, False), clock(r, False)
    return wrap(r, a + r.choice(["-", "~", "から"]) + b, sa + "から" + sb)


DATES = [f_dates, f_date_range, f_month_range]
TIMES = [f_time, f_time_range]

UNITS_EN = table("ja_tn_units_en")
UNITS_JA = [row[0] for row in table("ja_tn_units_ja")]
CURRENCY = table("ja_tn_currency")
TEAMS = [row[0] for row in table("ja_tn_teams")]
WORDS = table("ja_tn_words")


def f_unit_en(r):
    # N/m² is also a newton per square metre.
    unit, said = r.choice([u for u in UNITS_EN if "/" not in u[0]])
    s = written(r, 10**5)
    return wrap(r, s + r.choice(["", "", " "]) + unit, number(s) + said)


def f_unit_ja(r):
    unit = r.choice(UNITS_JA)
    s = written(r, 10**5)
    return wrap(r, s + unit, number(s) + unit)


def f_unit_range(r):
    unit, said = r.choice([u for u in UNITS_EN if "/" not in u[0]] + [(u, u) for u in UNITS_JA])
    a, b = written(r, 10**4, 0), written(r, 10**4, 0)
    first = r.random() < 0.4
    return wrap(r, a + (unit if first else "") + r.choice(["-", "~", "から"]) + b + unit,
                number(a) + (said if first else "") + "から" + number(b) + said)


def f_unit_per(r):
    (u, su), (v, sv) = (r.choice([u for u in UNITS_EN if "/" not in u[0]]) for _ in range(2))
    a = written(r, 10**4, 0)
    return wrap(r, a + u + "/" + v, number(a) + su + "毎" + sv)


def f_money(r):
    code, said = r.choice(CURRENCY)
    s = written(r, 10**8, 0)
    return wrap(r, code + r.choice(["", " "]) + s, number(s) + said)


def f_score(r):
    team = r.choice(TEAMS)
    a, b = written(r, 200, 0, 0), written(r, 200, 0, 0)
    return wrap(r, team + r.choice(["", " "]) + a + r.choice(":-/") + b, team + number(a) + "対" + number(b))


def f_ratio(r):
    """A score without a team; what could be a time of day has a minute it cannot have."""

    a, b = r.choice([(r.randint(0, 300), r.randint(0, 9)), (r.randint(0, 300), r.randint(60, 300)), (r.randint(25, 999), r.randint(0, 300))])
    return wrap(r, "%d:%d" % (a, b), integer(a) + "対" + integer(b))


def f_word(r):
    word, said = r.choice(WORDS)
    return wrap(r, word, said)


UNITS = [f_unit_en, f_unit_ja, f_unit_range, f_unit_per, f_money, f_score, f_ratio, f_word]
