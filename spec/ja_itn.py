"""Reference model of Japanese inverse text normalization: spoken numerals to written numbers, dates, times, money and measures."""

from common import pick_int, table

D = "零一二三四五六七八九"
OPTIONS = {"enable_0_to_9": False, "enable_million": False, "enable_standalone_number": True}
BEFORE = ["", "猫", "これは", "ねこが", "答え、"]
AFTER = ["", "です", "猫", "、ね", "。", "ねこ"]


def slot(r, spoken, written, before=BEFORE, after=AFTER):
    a, b = r.choice(before), r.choice(after)
    return a + spoken + b, {a + w + b for w in (written if isinstance(written, set) else {written})}


def group(n):
    """1..9999"""

    out = ""
    for power, name in ((1000, "千"), (100, "百"), (10, "十")):
        d, n = divmod(n, power)
        if d:
            out += ("" if d == 1 else D[d]) + name
    return out + (D[n] if n else "")


def spoken(n):
    if n == 0:
        return "零"
    out = ""
    for power, name in ((10**12, "兆"), (10**8, "億"), (10**4, "万"), (1, "")):
        k, n = divmod(n, power)
        if k:
            out += group(k) + name
    return out


def written(n):
    """The documented written form: plain below a million, then 兆/億/万 stay and split the number."""

    if n < (10**8 if OPTIONS["enable_million"] else 10**6):
        return str(n)
    out = ""
    for power, name in ((10**12, "兆"), (10**8, "億"), (10**4, "万"), (1, "")):
        k, n = divmod(n, power)
        if k:
            out += str(k) + name
    return out


def digits(r, s):
    zero = r.choice("零〇")
    return "".join(zero if c == "0" else D[int(c)] for c in s)


def nd(r, k):
    return "".join(r.choice("0123456789") for _ in range(k))


SIGNS = [("マイナス", "-"), ("プラス", "+"), ("プラスマイナス", "±"), ("負の", "-")]


def f_integer(r):
    n = max(10, pick_int(r, 10**r.choice((2, 3, 4, 5, 6))))
    return slot(r, spoken(n), written(n))


def f_large(r):
    n = max(10**6, pick_int(r, 10**r.choice((7, 8, 10, 12, 15))))
    return slot(r, spoken(n), written(n))


def f_small(r):
    """One digit stays unless enable_0_to_9."""

    n = r.randint(0, 130)
    return slot(r, spoken(n), written(n) if n > 9 or OPTIONS["enable_0_to_9"] else spoken(n))


def f_signed(r):
    n = max(10, pick_int(r, 10**r.choice((2, 3, 4, 5, 6, 8, 10))))
    sign, mark = r.choice(SIGNS)
    # マイナス between two numbers is an operator; no carrier here ends in a number.
    return slot(r, sign + spoken(n), mark + written(n))


def f_decimal(r):
    n, part = pick_int(r, 10**r.choice((1, 2, 3, 5))), nd(r, r.randint(1, 5))
    sign, mark = r.choice([("", "")] * 3 + SIGNS)
    return slot(r, sign + spoken(n) + "点" + digits(r, part), "%s%d.%s" % (mark, n, part))


def f_percent(r):
    n = pick_int(r, 10**r.choice((1, 2, 3, 4)))
    s, w = spoken(n), str(n)
    if r.random() < 0.3:
        part = nd(r, r.randint(1, 2))
        s, w = s + "点" + digits(r, part), w + "." + part
    sign, mark = r.choice([("", "")] * 3 + SIGNS)
    return slot(r, sign + s + "パーセント", mark + w + "%")


def root(r, top):
    n = r.randint(1, top)
    k = r.random()
    if k < 0.7:
        return spoken(n), str(n)
    m = r.randint(2, 99)
    if k < 0.85:
        return r.choice(["ルート", "√"]) + spoken(m), "√%d" % m
    return spoken(n) + r.choice(["ルート", "√"]) + spoken(m), "%d√%d" % (n, m)


def f_fraction(r):
    """Numbers stay in plain digits in a fraction, below 10**8; a decimal or a root may stand on either side, and spaces round 分の are ignored."""

    (a, wa), (b, wb) = root(r, r.choice((9, 99, 9999, 10**8 - 1))), root(r, r.choice((9, 99, 9999, 10**8 - 1)))
    if r.random() < 0.2:
        part = nd(r, r.randint(1, 3))
        if r.random() < 0.5:
            n = r.randint(0, 9999)
            a, wa = spoken(n) + "点" + digits(r, part), "%d.%s" % (n, part)
        else:
            n = r.randint(0, 9999)
            b, wb = spoken(n) + "点" + digits(r, part), "%d.%s" % (n, part)
    sign, mark = r.choice([("", "")] * 3 + SIGNS)
    over = r.choice(["分の"] * 3 + [" 分 の ", "分 の ", "分 の\u3000", " 分 の\u3000"])
    return slot(r, sign + b + over + a, mark + wa + "/" + wb)


def f_ordinal(r):
    n = r.choice([r.randint(1, 9), r.randint(10, 99999)])
    if r.random() < 0.5:
        return slot(r, "第" + spoken(n), "第" + str(n))
    return slot(r, spoken(n) + "番目", "%d番目" % n)


def f_digits(r):
    s = nd(r, r.choice((3, 4, 5, 8, 11)))
    return slot(r, digits(r, s), s)


def f_ip(r):
    parts = [str(r.randint(1, 255)) for _ in range(4)]
    return slot(r, "点".join(digits(r, p) for p in parts), ".".join(parts))


OPERATORS = [("カケル", "×"), ("マイナス", "-"), ("プラス", "+"), ("イコール", "="), ("ワル", "÷"), ("から", "~"), ("対", ":")]


def f_math(r):
    def operand():
        n = r.randint(0, 9999)
        k = r.random()
        if k < 0.6:
            return spoken(n), str(n)
        if k < 0.8:
            part = nd(r, r.randint(1, 4))
            return spoken(n) + "点" + digits(r, part), "%d.%s" % (n, part)
        n = sparse(r)
        return spoken(n), written(n)

    s, w = operand()
    for _ in range(r.randint(1, 3)):
        word, mark = r.choice(OPERATORS)
        a, b = operand()
        s, w = s + word + a, w + mark + b
    return slot(r, s, w)


def sparse(r):
    """Any subset of the four groups 兆, 億, 万 and the rest, at least a million."""

    while True:
        n = 0
        for power in (10**12, 10**8, 10**4, 1):
            k = r.random()
            n += power * (0 if k < 0.45 else r.choice((1, 5, 10, 11, 20, 35, 100, 101, 110, 909, 1000, 1001, 1010, 2300)) if k < 0.75 else r.randint(1, 9999))
        if n >= 10**6:
            return n


def f_sparse(r):
    n = sparse(r)
    sign, mark = r.choice([("", "")] * 3 + SIGNS)
    return slot(r, sign + spoken(n), mark + written(n))


NUMBER = [f_integer, f_sparse, f_large, f_small, f_signed, f_decimal, f_percent, f_fraction, f_ordinal, f_digits, f_ip, f_math]

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def f_date(r):
    y, m = r.choice([r.randint(1, 99), r.randint(1000, 2999)]), r.randint(1, 12)
    d = r.randint(1, DAYS[m - 1])
    style = r.randrange(3)
    if style == 0:
        return slot(r, "%s年%s月%s日" % (spoken(y), spoken(m), spoken(d)), "%d年%d月%d日" % (y, m, d))
    if style == 1:
        return slot(r, "%s月%s日" % (spoken(m), spoken(d)), "%d月%d日" % (m, d))
    return slot(r, "%s年%s月" % (spoken(y), spoken(m)), "%d年%d月" % (y, m))


def f_date_range(r):
    m = r.randint(1, 12)
    a = r.randint(1, 27)
    b = r.randint(a + 1, 28)
    return slot(r, "%s月%sから%s日" % (spoken(m), spoken(a), spoken(b)), "%d月%d〜%d日" % (m, a, b))


ERAS = [("R", "令和"), ("H", "平成"), ("S", "昭和"), ("T", "大正"), ("M", "明治")]


def f_era(r):
    n = r.randint(1, 64)
    letter, name = r.choice(ERAS)
    when = r.choice(["今年は", "来年は", "再来年は", "去年は", "一昨年は", "おととしは"])
    return slot(r, when + letter + spoken(n), "%s%s%d" % (when, name, n), ["", "猫", "ねこ、"], ["", "です", "。"])


DATES = [f_date, f_date_range, f_era]


def f_time(r):
    h, m, s = r.randint(1, 24), r.randint(1, 59), r.randint(1, 59)
    style = r.randrange(6)
    hour, minute, second = spoken(h) + "時", spoken(m) + "分", spoken(s) + "秒"
    text, out = [(hour + minute, "%d時%d分" % (h, m)), (hour + minute + second, "%d時%d分%d秒" % (h, m, s)), (hour, "%d時" % h), (minute, "%d分" % m),
                 (second, "%d秒" % s), (minute + second, "%d分%d秒" % (m, s))][style]
    return slot(r, text, out, after=AFTER + ["過ぎ", "頃"])


TIMES = [f_time]

UNITS_EN = {}
for _name, _unit in table("ja_itn_units_en"):
    UNITS_EN.setdefault(_name, set()).add(_unit)


UNITS_JA = [row[0] for row in table("ja_itn_units_ja")]
CURRENCY = {}
for _name, _sign in table("ja_itn_currency"):
    CURRENCY.setdefault(_name, set()).add(_sign)
WORDS = [row[0] for row in table("ja_itn_words")]
MULTIPLIERS = tuple("十百千万億兆零〇一二三四五六七八九")


def amount(r, top=5):
    n = max(10, pick_int(r, 10**r.choice(range(2, top + 1))))
    s, w = spoken(n), str(n)
    if r.random() < 0.3:
        part = nd(r, r.randint(1, 2))
        s, w = s + "点" + digits(r, part), w + "." + part
    return s, w


def f_unit_en(r):
    name = r.choice([u for u in UNITS_EN if not u.startswith(MULTIPLIERS)])
    s, w = amount(r)
    sign, mark = r.choice([("", "")] * 4 + SIGNS)
    return slot(r, sign + s + name, {mark + w + u for u in UNITS_EN[name]})


def f_unit_ja(r):
    name = r.choice([u for u in UNITS_JA if not u.startswith(MULTIPLIERS)])
    s, w = amount(r)
    if s + name in WORDS:  # 二百十日 is the name of a day
        return f_unit_ja(r)
    return slot(r, s + name, {w + u for u in UNITS_EN.get(name, set()) | {name}})


def f_unit_per(r):
    name = r.choice(["キロメートル", "リットル", "ミリグラム", "センチメートル"])
    s, w = amount(r)
    if r.random() < 0.5:
        per, marks = r.choice([("時", {"h"}), ("分", {"min"}), ("秒", {"s"})])
    else:
        per = r.choice([u for u in UNITS_EN if not u.startswith(MULTIPLIERS)])
        marks = UNITS_EN[per]
    return slot(r, s + name + r.choice("每毎") + per, {w + u + "/" + mark for u in UNITS_EN[name] for mark in marks})


def f_money(r):
    name = r.choice(list(CURRENCY))
    s, w = amount(r)
    return slot(r, s + name, {u + w for u in CURRENCY[name]})


def f_word(r):
    word = r.choice(WORDS)
    return slot(r, word, word, ["", "猫", "これは"], ["", "です", "。"])


UNITS = [f_unit_en, f_unit_ja, f_unit_per, f_money, f_word]
