"""Reference model of Chinese text normalization: how written numbers, dates, times, money and measures are read."""

import re

from common import pick_int, table

D = "零一二三四五六七八九"


def digits(s):
    return "".join(D[int(c)] for c in s)


def yao(s):
    return digits(s).replace("一", "幺")


def under_10000(n, lead):
    """1..9999; `lead` says whether the group opens the number (十二, not 一十二, for 10..19)."""

    out = []
    started = zero = False
    for power, name in ((1000, "千"), (100, "百"), (10, "十"), (1, "")):
        d = n // power % 10
        if d == 0:
            zero = started
            continue
        if zero:
            out.append("零")
            zero = False
        if power == 10 and d == 1 and lead and not started:
            out.append("十")
        else:
            out.append(D[d] + name)
        started = True
    return "".join(out)


def plain(n):
    """Standard Mandarin reading of 0..10^12-1, with 二 throughout."""

    if n == 0:
        return "零"
    groups = [(n // 10**8, "亿"), (n // 10**4 % 10**4, "万"), (n % 10**4, "")]
    out = ""
    gap = False
    for value, name in groups:
        if value == 0:
            gap = bool(out)
            continue
        if out and (gap or value < 1000):
            out += "零"
        out += under_10000(value, not out) + name
        gap = False
    return out


def integer(n):
    """As plain(), but 两 for an opening 二百/二千/二万/二亿."""

    s = plain(n)
    if len(s) > 1 and s[0] == "二" and s[1] in "百千万亿":
        s = "两" + s[1:]
    return s


def number(s):
    """Reading of a written number: sign, integer, decimals."""

    out = ""
    if s[0] in "+-±":
        out = {"+": "正", "-": "负", "±": "正负"}[s[0]]
        s = s[1:]
    whole, _, part = s.partition(".")
    # 两 opens the number only when nothing precedes it.
    value = integer(int(whole)) if not out else plain(int(whole))
    return out + value + ("点" + digits(part) if part else "")


PHONES = [row[0] for row in table("zh_tn_phone")]


PHONE_RUN = re.compile("(%s|\\d{11})+" % "|".join(PHONES))


def is_phone(s):
    """Whether a digit string consists of well-known short numbers and 11-digit mobile numbers only."""

    return PHONE_RUN.fullmatch(s) is not None


# A hotline number may stand right before or after what looks like a date.
HOT = "(%s)" % "|".join(PHONES)
DATE_LIKE = re.compile((r"[1-9]\d{3}[-/.](0[1-9]|1[0-2])(\D|$|HOT)|(^|\D)HOT*(0[1-9]|1[0-2])[-/.]([1-9]\d{3}|0?[1-9]|[12]\d|3[01])(\D|$|HOT)|"
                       r"\d+[-/.]\d+[-/.]\d+").replace("HOT", HOT))


def written(r, top=10**9, sign=0.15, decimal=0.3):
    while True:
        s = str(pick_int(r, top))
        if is_phone(s):
            continue
        if r.random() < decimal:
            s += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 4)))
        if r.random() < sign:
            s = r.choice("+-±") + s
        if not DATE_LIKE.search(s):
            return s


BEFORE = ["", "看", "猫", "他说", "编码", "等了"]
AFTER = ["", "呢", "猫", "吧，对", "。", "的"]


def wrap(r, text, spoken, before=BEFORE, after=AFTER):
    a, b = r.choice(before), r.choice(after)
    return a + text + b, a + spoken + b.replace("，", ",").replace("。", ".")


def f_integer(r):
    s = written(r, 10**12 if r.random() < 0.3 else 10**8, sign=0, decimal=0)
    return wrap(r, s, number(s))


def f_number(r):
    s = written(r, 10**8)
    return wrap(r, s, number(s))


def f_small(r):
    s = written(r, 10**4, sign=0, decimal=0)
    return wrap(r, s, number(s))


def f_fullwidth(r):
    s = written(r, 10**6, sign=0, decimal=0)
    return wrap(r, "".join(chr(ord(c) + 0xFEE0) for c in s), number(s))


def f_percent(r):
    s = written(r, 10**4)
    # the percent sign is read first, so the number no longer opens the reading
    return wrap(r, s + "%", "百分之" + number(s))


def f_fraction(r):
    while True:
        a, b = written(r, 10**4, 0, 0.1), written(r, 10**4, 0, 0)
        if not DATE_LIKE.search(a + "/" + b):
            break
    return wrap(r, a + r.choice(["/", " / "]) + b, number(b) + "分之" + number(a))


def f_phone(r):
    k = r.random()
    if k < 0.35:
        s = r.choice(PHONES)
        return wrap(r, s, yao(s))
    if k < 0.75:
        s = "".join(r.choice("0123456789") for _ in range(11))
        return wrap(r, s, yao(s))
    s = "".join(r.choice("0123456789") for _ in range(4))
    p = "尾号" + r.choice(["", "是", "为"])
    return wrap(r, p + s, p + yao(s))


def f_serial(r):
    k = r.random()
    if k < 0.4:
        parts = [str(r.randint(0, 999)) for _ in range(4)]
        return wrap(r, ".".join(parts), "点".join(map(digits, parts)))
    if k < 0.7:
        parts = ["".join(r.choice("0123456789") for _ in range(n)) for n in (3, 8)]
    else:
        parts = ["".join(r.choice("0123456789") for _ in range(r.randint(5, 7))) for n in range(3)]
    return wrap(r, "-".join(parts), digits("".join(parts)))


def f_compare(r):
    ops = [("×", "乘"), ("+", "加"), ("=", "等于"), ("÷", "除"), ("≥", "大于等于"), ("≤", "小于等于"), (">=", "大于等于"), ("<=", "小于等于"), ("~", "到"), ("<", "小于"),
           (">", "大于")]
    a, b = written(r, 10**5, 0), written(r, 10**5, 0)
    op, said = r.choice(ops)
    gap = r.choice(["", " "])
    return wrap(r, a + gap + op + gap + b, number(a) + said + number(b))


def f_huge(r):
    """Sparse numbers of the 亿 range: every group of four may be empty or nearly so."""

    while True:
        n = max(1, pick_int(r, 10**4)) * 10**8
        n += pick_int(r, 10**4) * 10**4 if r.random() < 0.5 else 0
        n += pick_int(r, 10**4) if r.random() < 0.7 else 0
        if not is_phone(str(n)):
            return wrap(r, str(n), integer(n))


def f_ratio(r):
    """Two numbers with a colon; what could be a time of day has a minute it cannot have."""

    a, b = r.choice([(r.randint(0, 300), r.randint(0, 9)), (r.randint(0, 300), r.randint(60, 300)), (r.randint(25, 999), r.randint(0, 300))])
    if is_phone(str(a)) or is_phone(str(b)):
        a = b = 7
    return wrap(r, "%d:%d" % (a, b), integer(a) + "比" + integer(b))


def f_about(r):
    """约 and 人均 belong to the number; an operator that can be nothing else is read without numbers too."""

    k = r.random()
    if k < 0.2:
        op, said = r.choice([("×", "乘"), ("÷", "除"), ("≥", "大于等于"), ("≤", "小于等于"), (">=", "大于等于"), ("<=", "小于等于")])
        a, b = r.choice(["甲", "a", "猫"]), r.choice(["乙", "b", "狗"])
        return a + op + b, a + said + b
    if k < 0.5:
        a, b = written(r, 10**4, 0), written(r, 10**4, 0)
        op, said = r.choice([("~", "到"), ("=", "等于"), (">", "大于"), ("<", "小于"), ("≥", "大于等于")])
        return wrap(r, a + "%" + op + b + "%", "百分之" + number(a) + said + "百分之" + number(b))
    head = r.choice(["约", "人均", "约人均"])
    a = written(r, 10**4, 0)
    percent = r.random() < 0.4
    return wrap(r, head + a + "%" * percent, head + "百分之" * percent + (number(a) if percent or a[0] != "2" else number(a)), before=["", "看", "猫"])


NUMBER = [f_huge, f_ratio, f_about, f_integer, f_number, f_small, f_fullwidth, f_percent, f_fraction, f_phone, f_serial, f_compare]


# ---------------------------------------------------------------------------------------------------------------
# Dates, times


def year(y):
    return digits("%04d" % y) + "年"


def f_date(r):
    y, m, d = r.randint(1000, 9999), r.randint(1, 12), r.randint(1, 31)
    sep = r.choice("/-.")
    mm, dd = r.choice(["%d", "%02d"]) % m, r.choice(["%d", "%02d"]) % d
    k = r.random()
    if k < 0.45:
        s = "%d%s%s%s%s" % (y, sep, mm, sep, dd)
        said = year(y) + plain(m) + "月" + plain(d) + "日"
    elif k < 0.7:
        s = "%s%s%s%s%d" % (dd, sep, mm, sep, y)
        said = year(y) + plain(m) + "月" + plain(d) + "日"
    elif k < 0.8:
        s = "%d%s%02d" % (y, sep, m)
        said = year(y) + plain(m) + "月"
    elif k < 0.9:
        s = "%02d%s%d" % (m, sep, y)
        said = year(y) + plain(m) + "月"
    else:
        s = "%02d%s%02d" % (m, sep, d)
        said = plain(m) + "月" + plain(d) + "日"
    return s, said


def f_dates(r):
    s, said = f_date(r)
    return wrap(r, s, said)


def f_date_range(r):
    while True:
        y, m, d = r.randint(1000, 9999), r.randint(1, 12), r.randint(1, 31)
        y2, m2, d2 = r.randint(1000, 9999), r.randint(1, 12), r.randint(1, 31)
        s = "%d/%d/%d%s%d/%d/%d" % (y, m, d, r.choice("-~"), y2, m2, d2)
        said = year(y) + plain(m) + "月" + plain(d) + "日到" + year(y2) + plain(m2) + "月" + plain(d2) + "日"
        return wrap(r, s, said)


def hour(h):
    return ("两" if h == 2 else plain(h)) + "点"


def minute(m):
    return "" if m == 0 else ("零" if m < 10 else "") + plain(m) + "分"


NOONS = [("am", "上午"), ("a.m.", "上午"), ("AM", "上午"), ("pm", "下午"), ("p.m.", "下午"), ("PM", "下午"), ("A M", "上午"), ("a m", "上午"), ("P M", "下午"),
         ("p m", "下午")]


def clock(r, second):
    h, m, s = r.randint(0, 24), r.randint(0, 59), r.randint(1, 59)
    colon = r.choice("::::：")
    text = r.choice(["%02d", "%d" if h else "%02d"]) % h + colon + "%02d" % m
    said = hour(h) + minute(m)
    if second:
        text += colon + "%02d" % s
        said += plain(s) + "秒"
    return text, said


def f_time(r):
    text, said = clock(r, r.random() < 0.4)
    if r.random() < 0.35:
        noon, word = r.choice(NOONS)
        text += r.choice(["", " "]) + noon
        said = word + said
    return wrap(r, text, said)


def f_time_range(r):
    a, sa = clock(r, False)
    b, sb = clock(r, False)
    return wrap(r, a + r.choice("-~") + b, sa + "到" + sb)


def f_annual(r):
    y = "%04d" % r.randint(1000, 9999)
    unit = r.choice(["年", "年度", "赛季"])
    if r.random() < 0.3:
        y2 = "%04d" % r.randint(1000, 9999)
        return wrap(r, y + r.choice("-~到") + y2 + unit, digits(y) + "到" + digits(y2) + unit)
    return wrap(r, y + unit, digits(y) + unit)


DATES = [f_dates, f_date_range, f_annual]
TIMES = [f_time, f_time_range]

# ---------------------------------------------------------------------------------------------------------------
# Measures, money, scores, fixed words

UNITS_EN = table("zh_tn_units_en")
UNITS_ZH = [row[0] for row in table("zh_tn_units_zh")]
CURRENCY = table("zh_tn_currency")
# Names that end in a digit run into the score; 潟 is a traditional character.
TEAMS = [row[0] for row in table("zh_tn_teams") if not row[0][-1].isdigit() and "潟" not in row[0]]
WORDS = table("zh_tn_words")
ERHUA = [row[0] for row in table("zh_tn_erhua")]


def amount(s, unit):
    """A number before a unit: 两个, but 二两, 二月, 二号."""

    said = number(s.replace(",", ""))
    if said == "二" and unit[0] not in "两月号":
        said = "两"
    return said


def f_unit_en(r):
    unit, said = r.choice(UNITS_EN)
    s = written(r, 10**5)
    return wrap(r, s + r.choice(["", "", " "]) + unit, amount(s, said) + said)


def f_unit_zh(r):
    unit = r.choice(UNITS_ZH)
    s = written(r, 10**5)
    return wrap(r, s + unit, amount(s, unit) + unit)


def f_unit_two(r):
    unit, said = r.choice(UNITS_EN + [(u, u) for u in UNITS_ZH])
    return wrap(r, "2" + unit, ("二" if said[0] in "两月号" else "两") + said)


def f_unit_comma(r):
    s = "{:,}".format(max(1000, pick_int(r, 10**7)))
    unit, said = r.choice(UNITS_EN)
    return wrap(r, (s.replace(",", "，") if r.random() < 0.3 else s) + unit, amount(s, said) + said)


def f_unit_k(r):
    """3.5w人, 12k米."""

    unit = r.choice([u for u in UNITS_ZH if u[0] not in "两月号"])
    s = written(r, 10**4, 0)
    k, said = r.choice([("w", "万"), ("k", "千")])
    return wrap(r, s + k + unit, amount(s, said) + said + unit)


def f_unit_range(r):
    unit, said = r.choice(UNITS_EN + [(u, u) for u in UNITS_ZH])
    a, b = written(r, 10**4, 0), written(r, 10**4, 0)
    first = r.random() < 0.4 or (a == "2" and unit[0] in "两月号")  # 2到5月 as such is not settled
    text = a + (unit if first else "") + r.choice("-~到") + b + unit
    return wrap(r, text, amount(a, said) + (said if first else "") + "到" + amount(b, said) + said)


def f_unit_per(r):
    (u, su), (v, sv) = r.choice(UNITS_EN), r.choice(UNITS_EN)
    a = written(r, 10**4, 0)
    if r.random() < 0.3:
        # per several of them
        (u, su), (v, sv) = (r.choice([("元", "元"), ("个", "个"), ("块", "块"), ("kg", "千克"), ("ml", "毫升"), ("人", "人")]) for _ in range(2))
        b = str(r.randint(2, 300))
        return wrap(r, a + u + "/" + b + v, "每" + amount(b, sv) + sv + amount(a, su) + su, after=["", "呢", "猫", "的"])
    return wrap(r, a + u + "/" + v, "每" + sv + amount(a, su) + su)


def f_money(r):
    code, said = r.choice(CURRENCY)
    s = written(r, 10**8, 0)
    return wrap(r, code + r.choice(["", " "]) + s, number(s) + said)


def f_score(r):
    team = r.choice(TEAMS)
    a, b = written(r, 200, 0, 0), written(r, 200, 0, 0)
    text = team + r.choice(["", " "]) + a + r.choice(":-/") + b
    return wrap(r, text, team + number(a) + "比" + number(b))


def f_word(r):
    word, said = r.choice(WORDS)
    return wrap(r, word, said)


def f_erhua(r):
    if r.random() < 0.5:
        word = r.choice(ERHUA)
        return wrap(r, word, word)
    word = r.choice("花鸟活头味这那哪玩事")
    return wrap(r, word + "儿", word)


UNITS = [f_unit_en, f_unit_k, f_unit_zh, f_unit_two, f_unit_comma, f_unit_range, f_unit_per, f_money, f_score, f_word, f_erhua]
