"""Reference model of Chinese inverse text normalization: spoken numerals to written numbers, dates, times, money and measures."""

from common import pick_int, table
from zh_tn import digits, plain, yao

OPTIONS = {"enable_0_to_9": False, "enable_million": False, "enable_standalone_number": True}
BEFORE = ["", "看", "猫", "他说", "编码", "等了"]
AFTER = ["", "呢", "猫", "吧，对", "。", "的"]


def slot(r, spoken, written, before=BEFORE, after=AFTER):
    a, b = r.choice(before), r.choice(after)
    written = written if isinstance(written, set) else {written}
    return a + spoken + b, {a + w + b for w in written}


def below_yi(n):
    """Numbers under 一百万 are written out; above, 万 stays and splits the number."""

    if n < (10**8 if OPTIONS["enable_million"] else 10**6):
        return str(n)
    return "%d万%s" % (n // 10**4, n % 10**4 or "")


def written(n):
    if n < 10 and not OPTIONS["enable_0_to_9"]:
        return plain(n)
    return big(n)


def big(n):
    if n < 10**8:
        return below_yi(n)
    return "%d亿%s" % (n // 10**8, below_yi(n % 10**8) if n % 10**8 else "")


def spoken(r, n):
    """零-complete reading, sometimes with 两 for a leading 二."""

    s = plain(n)
    if len(s) > 1 and s[0] == "二" and s[1] in "千万亿" and r.random() < 0.5:
        s = "两" + s[1:]
    return s


def f_integer(r):
    n = pick_int(r, 10**r.choice((2, 3, 4, 5, 6)))
    return slot(r, spoken(r, n), written(n))


def f_large(r):
    n = max(10**6, pick_int(r, 10**r.choice((7, 8))))
    return slot(r, spoken(r, n), written(n))


def f_yi(r):
    a, b = r.randint(1, 9999), r.choice([0, r.randint(10**6, 10**8 - 1), r.randint(1000, 99999)])
    if b == 0:
        a = 10 + a % 9989  # 二亿 stays as it is
    return slot(r, spoken(r, a * 10**8 + b), written(a * 10**8 + b))


def f_small(r):
    n = r.randint(0, 130)
    return slot(r, plain(n), written(n))


def f_colloquial(r):
    """A last digit without its power of ten: 一百一, 三千五."""

    a, b = r.randint(1, 9), r.randint(1, 9)
    power, name = r.choice([(100, "百"), (1000, "千")])
    return slot(r, plain(a) + name + plain(b), str(a * power + b * power // 10))


def f_decimal(r):
    n = pick_int(r, 10**r.choice((1, 2, 3, 5)))
    part = "".join(r.choice("0123456789") for _ in range(r.randint(1, 5)))
    sign, mark = r.choice([("", "")] * 3 + [("负", "-"), ("正", "+"), ("正负", "±")])
    return slot(r, sign + spoken(r, n) + "点" + digits(part), "%s%d.%s" % (mark, n, part))


def f_signed(r):
    # Without enable_0_to_9 a sign alone before an integer stays a word.
    n = max(10, pick_int(r, 10**r.choice((2, 3, 4, 5))))
    sign, mark = r.choice([("负", "-"), ("正负", "±")])
    return slot(r, sign + spoken(r, n), mark + written(n) if OPTIONS["enable_0_to_9"] else {sign + written(n), mark + written(n)})


def f_percent(r):
    if r.random() < 0.6:
        n = r.choice([r.randint(0, 100), r.randint(0, 9999)])
        s, w = plain(n), str(n)
    else:
        n, part = r.randint(0, 99), "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
        s, w = plain(n) + "点" + digits(part), "%d.%s" % (n, part)
    sign = r.random() < 0.2
    if sign:
        return slot(r, r.choice(["负百分之", "百分之负"]) + s, "-" + w + "%")
    return slot(r, "百分之" + s, w + "%")


def f_fraction(r):
    a, b = r.randint(1, 120), r.randint(2, 999)
    sign = r.random() < 0.2
    return slot(r, ("负" if sign else "") + plain(b) + "分之" + plain(a), ("-" if sign else "") + "%d/%d" % (a, b))


def f_phone(r):
    s = "1" + r.choice("3578") + "".join(r.choice("0123456789") for _ in range(9))
    return slot(r, r.choice([digits, yao])(s), s, ["", "打", "电话", "他说"])


def f_digits(r):
    s = "".join(r.choice("0123456789") for _ in range(r.choice((3, 4, 5))))
    return slot(r, r.choice([digits, yao])(s), s)


def f_idcard(r):
    s = r.choice("123456") + "".join(r.choice("0123456789") for _ in range(16)) + r.choice("0123456789Xx")
    return slot(r, digits(s[:17]) + (s[17] if s[17] in "Xx" else digits(s[17])), s, ["", "身份证", "证号"])


def f_ip(r):
    parts = [str(r.randint(0, 255)) for _ in range(4)]
    return slot(r, "点".join(digits(p) for p in parts), ".".join(parts))


def f_plate(r):
    s = r.choice("ABCDEF") + "".join(r.choice("0123456789ABCXYZ") for _ in range(r.choice((5, 6))))
    while not any(c.isdigit() for c in s):
        s = s[:-1] + "7"
    province = r.choice(PROVINCES)
    return slot(r, province + "".join(digits(c) if c.isdigit() else c for c in s), province + s, ["", "车牌", "他说"], ["", "呢", "。"])


def f_math(r):
    a, b, c = (r.randint(0, 999) for _ in range(3))
    word, op = r.choice([("加", "+"), ("减", "-"), ("乘", "×"), ("除", "÷")])
    return slot(r, "%s%s%s等于%s" % (plain(a), word, plain(b), plain(c)), "%d%s%d=%d" % (a, op, b, c))


PAIRS = [(1, 2), (2, 3), (3, 4), (3, 5), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9)]


def approximate(r):
    """Two neighbouring numbers in one: 七八十 is seventy to eighty, 三百七八 is 370 to 380."""

    a, b = r.choice(PAIRS)
    style = r.randrange(7)
    if style == 0:
        s, w = D[a] + D[b], "%d~%d" % (a, b)
    elif style == 1:
        power, name = r.choice([(10, "十"), (100, "百"), (1000, "千")])
        s, w = D[a] + D[b] + name, "%d~%d" % (a * power, b * power)
        if a == 1 and power > 10 or (a, b) == (2, 3) and power > 10:
            s = s.replace("二", r.choice("二两")) if a == 1 else r.choice("二两") + s[1:]
    elif style == 2:
        k = r.randint(1, 9)
        s, w = ("" if k == 1 and r.random() < 0.7 else D[k]) + "十" + D[a] + D[b], "%d%d-%d" % (k, a, b)
    else:
        k = r.randint(1, 9)
        s, w = D[k], str(k)
        if style == 3:
            s, w = s + "百" + D[a] + D[b] + r.choice(["", "十"]), "%s%d0-%d0" % (w, a, b)
        elif style == 4:
            s, w = s + "千" + D[a] + D[b] + r.choice(["", "百"]), "%s%d00-%d00" % (w, a, b)
        elif style == 5:
            return s + "万" + D[a] + D[b], "%s%d000-%d000" % (w, a, b)
        else:
            s, w = s + "百" + D[a] + D[b] + "十", "%s%d0-%d0" % (w, a, b)
    if r.random() < 0.25:
        name = r.choice("万亿")
        return s + name, w + name
    return s, w


D = "零一二三四五六七八九"


def f_approximate(r):
    s, w = approximate(r)
    while len(s) == 2 or s in ("十三五", "十四五"):  # two digits alone stay as they are, and the others are names of plans
        s, w = approximate(r)
    return slot(r, s, w)


def f_repeat(r):
    """幺三八四个八: a repeated digit after at least one plain one."""

    head = "".join(r.choice("0123456789") for _ in range(r.randint(1, 6)))
    tail = "".join(r.choice("0123456789") for _ in range(r.choice((0, 0, 1, 3))))
    k, d = r.randint(3, 9), r.choice("0123456789")
    return slot(r, digits(head) + D[k] + "个" + D[int(d)] + digits(tail), head + d * k + tail)


TRAINS = dict(zip("高动特快直慢临", "GDTKZLL"))


def f_train(r):
    name = r.choice(list(TRAINS))
    s = "".join(r.choice("0123456789") for _ in range(r.randint(2, 4)))
    return slot(r, name + r.choice([digits, yao])(s), TRAINS[name] + s, ["", "乘", "坐", "他说"], ["", "呢", "。", "的"])


def f_percent_form(r):
    def part():
        if r.random() < 0.3:
            n, p = r.randint(0, 120), "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
            return plain(n) + "点" + digits(p), "%d.%s" % (n, p)
        n = r.choice([r.randint(0, 99), r.randint(100, 9999)])
        return plain(n), str(n)

    (a, wa), (b, wb) = part(), part()
    sign, mark = r.choice([("", "")] * 3 + [("负", "-"), ("正", "+"), ("负的", "-"), ("正的", "+")])
    style = r.randrange(4)
    if style == 0:
        s, w = "百分" + a, wa
    elif style == 1:
        s, w = "百分之百", "100"
    elif style == 2:
        s, w = "百分之" + a + r.choice(["到", "到百分之"]) + b, wa + "~" + wb
    else:
        s, w = "百分之" + a + r.choice(["到", "到百分之"]) + "百", wa + "~100"
    return slot(r, sign + s, mark + w + "%", after=["", "呢", "猫", "吧，对", "。"])


def f_math_form(r):
    """Any numbers, decimals and signs too, joined by any operator."""

    def part():
        k = r.random()
        n = pick_int(r, 10**r.choice((1, 2, 3, 5)))
        if k < 0.3:
            p = "".join(r.choice("0123456789") for _ in range(r.randint(1, 4)))
            return plain(n) + "点" + digits(p), "%d.%s" % (n, p)
        if k < 0.5:
            n = r.choice([r.randint(10**6, 10**8 - 1), r.randint(1, 9999) * 10**8 + r.choice([r.randint(10, 10**6 - 1), r.randint(10**6, 10**8 - 1)])])
            return plain(n), big(n)
        return plain(n), str(n)

    s, w = part()
    if r.random() < 0.2:
        s, w = "负" + s, "-" + w
    for _ in range(r.choice((1, 1, 2, 3))):
        name, op = r.choice(table("zh_itn_operator"))
        a, b = part()
        s, w = s + name + a, w + op + b
    return slot(r, s, w)


def f_zhao(r):
    """兆 and 亿 stay and split the number; 零 after them is not written."""

    a, b = r.randint(1, 9999), r.randint(1, 9999)
    n = r.choice([r.randint(10, 9999), r.randint(10**4, 10**6 - 1), r.randint(10**6, 10**8 - 1)])
    zero = "零" if n < 10**7 and r.random() < 0.7 else ""
    if n % 10 == 0 and n < 100:
        zero = "零"
    s, w = plain(a) + "兆", "%d兆" % a
    if r.random() < 0.5:
        s, w = s + ("零" if b < 1000 and r.random() < 0.5 else "") + plain(b) + "亿", w + "%d亿" % b
    return slot(r, s + zero + plain(n), w + below_yi(n))


def f_interjection(r):
    """呃 and 啊 go, whatever stands next to them."""

    n = max(10, pick_int(r, 10**r.choice((2, 3, 5))))
    a, b = r.choice(["", "呃", "啊", "猫啊"]), r.choice(["", "呃", "啊", "啊猫"])
    return slot(r, a + plain(n) + b, (a + str(n) + b).replace("呃", "").replace("啊", ""))


PROVINCES = [row[0] for row in table("zh_itn_province")]
NUMBER = [f_integer, f_large, f_yi, f_small, f_colloquial, f_decimal, f_signed, f_percent, f_fraction, f_phone, f_digits, f_idcard, f_ip, f_plate, f_math,
          f_approximate, f_repeat, f_train, f_percent_form, f_math_form, f_zhao, f_interjection]


def ymd(r):
    m = r.randint(1, 12)
    return r.randint(1000, 2999), m, r.randint(1, [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1])


def f_date(r):
    y, m, d = ymd(r)
    year = digits(str(y))
    day = plain(d) + r.choice("日号")
    style = r.randrange(4)
    if style == 0:
        return slot(r, "%s年%s月%s" % (year, plain(m), day), "%d/%02d/%02d" % (y, m, d))
    if style == 1:
        return slot(r, "%s月%s" % (plain(m), day), "%02d/%02d" % (m, d), ["", "在", "他说", "等到"])
    if style == 2:
        return slot(r, "%s年%s月" % (year, plain(m)), "%d/%02d" % (y, m))
    return slot(r, year + "年", "%d年" % y, after=["", "呢", "。", "的"])


def f_short_year(r):
    """Years of two or three digits: 零八年, 一六八年三月."""

    y = "%02d" % r.randint(0, 99) if r.random() < 0.6 else str(r.randint(100, 999))
    _, m, d = ymd(r)
    style = r.randrange(3)
    if style == 0:
        return slot(r, digits(y) + "年", y + "年", after=["", "呢", "。", "的"])
    if style == 1:
        return slot(r, digits(y) + "年" + plain(m) + "月", "%s/%02d" % (y, m))
    return slot(r, digits(y) + "年" + plain(m) + "月" + plain(d) + r.choice("日号"), "%s/%02d/%02d" % (y, m, d))


DATES = [f_date, f_short_year]

NOONS = [("上午", "a.m."), ("早上", "a.m."), ("早晨", "a.m."), ("下午", "p.m."), ("晚上", "p.m."), ("傍晚", "p.m.")]


def hour(h):
    return "两" if h == 2 else plain(h)


def f_time(r):
    h, m = r.randint(0, 24), r.randint(1, 59)
    noon, mark = r.choice(NOONS) if r.random() < 0.5 else ("", "")
    fen = "分" if m < 10 or r.random() < 0.5 else ""
    if m < 10:
        said = "零" + plain(m)
        if noon and r.random() < 0.4:
            fen = ""
    elif m == 30 and r.random() < 0.5:
        said, fen = "半", ""
    else:
        said = plain(m)
    text, out = "%s%s点%s%s" % (noon, hour(h), said, fen), {"%d:%02d" % (h, m), "%02d:%02d" % (h, m)}
    if fen and r.random() < 0.3:
        s = r.randint(1, 59)
        text += plain(s) + "秒"
        out = {"%s:%02d" % (x, s) for x in out}
    return slot(r, text, {x + mark for x in out}, ["", "在", "等到", "他说"], ["", "呢", "。", "的", "见面"])


TIMES = [f_time]

UNITS_EN = {}
for _name, _unit in table("zh_itn_units_en"):
    UNITS_EN.setdefault(_name, set()).add(_unit)
UNITS_ZH = [row[0] for row in table("zh_itn_units_zh")]
CURRENCY = {}
for _name, _sign in table("zh_itn_currency"):
    CURRENCY.setdefault(_name, set()).add(_sign)
for _name, _sign in table("zh_itn_code"):
    if _name not in CURRENCY:
        CURRENCY.setdefault(_name, set()).add(_sign)
CODES = {}
for _name, _sign in table("zh_itn_code"):
    CODES.setdefault(_name, set()).add(_sign)
WORDS = [row for row in table("zh_itn_words") if len(row) == 2]
MULTIPLIERS = tuple("十百千万亿兆零一二三四五六七八九两")


def amount(r, name=""):
    """A number of at least 10 or a decimal; not 四千 before 米, which may be 四 千米."""

    s, w = any_amount(r)
    while s[-1] + name in UNITS_EN or s[-1] + name in UNITS_ZH:
        s, w = any_amount(r)
    return s, w


def any_amount(r):
    if r.random() < 0.65:
        n = max(10, pick_int(r, 10**r.choice((2, 3, 4))))
        return plain(n), str(n)
    n, part = r.randint(0, 999), "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
    return plain(n) + "点" + digits(part), "%d.%s" % (n, part)


def f_unit_en(r):
    name = r.choice([u for u in UNITS_EN if not u.startswith(MULTIPLIERS)])
    s, w = amount(r, name)
    sign, mark = r.choice([("", "")] * 4 + [("负", "-")])
    return slot(r, sign + s + name, {mark + w + u for u in UNITS_EN[name]})


def f_unit_zh(r):
    name = r.choice([u for u in UNITS_ZH if not u.startswith(MULTIPLIERS)])
    # 分/秒/点/块/角/毛/月/日/号/年 next to numbers are times, money and dates too.
    s, w = amount(r, name)
    return slot(r, s + name, {w + u for u in UNITS_EN.get(name, set()) | {name}} | {u + w for u in CURRENCY.get(name, set())})


def f_unit_range(r):
    name = r.choice(["米", "公里", "千克", "分钟", "毫升", "平方米"])
    a, b = r.randint(10, 9999), r.randint(10, 9999)
    while plain(b)[-1] + name in UNITS_EN:
        b = r.randint(10, 9999)
    return slot(r, "%s到%s%s" % (plain(a), plain(b), name), {"%d~%d%s" % (a, b, u) for u in UNITS_EN[name]})


def f_per(r):
    name, per = r.choice(["米", "公里", "公斤", "毫升"]), r.choice(["小时", "秒", "分钟"])
    s, w = amount(r, name)
    return slot(r, "每%s%s%s" % (per, s, name), {"%s%s/%s" % (w, u, p) for u in UNITS_EN[name] for p in UNITS_EN[per]})


def f_money(r):
    name = r.choice(["元", "美元", "英镑", "欧元", "卢布"]) if r.random() < 0.6 else r.choice(list(CURRENCY))
    s, w = amount(r, name)
    return slot(r, s + name, {u + w for u in CURRENCY[name] | CODES.get(name, set())})


def f_mao(r):
    n, a, b = r.randint(10, 9999), r.randint(1, 9), r.randint(1, 9)
    if r.random() < 0.5:
        return slot(r, "%s元%s%s" % (plain(n), plain(a), r.choice("毛角")), "¥%d.%d" % (n, a))
    return slot(r, "%s元%s%s%s分" % (plain(n), plain(a), r.choice("毛角"), plain(b)), "¥%d.%d%d" % (n, a, b))


def f_word(r):
    a, b = r.choice(WORDS)
    return slot(r, a, b, ["", "看", "猫"], ["", "呢", "。"])


def f_unit_large(r):
    """兆, 亿 and 万 before a unit: 三十万米 is 30Wm, 三点五亿米 is 3.5亿米."""

    scale, mark = r.choice([("亿", "00M"), ("万", "W"), ("兆", "T")])
    name = r.choice([u for u in UNITS_EN if not u.startswith(MULTIPLIERS)])
    k = r.random()
    n = r.choice([10, 11, 15, 20, 45, 99, 100, 101, 250, 999, 1000, 3500, r.randint(10, 9999)])
    if k < 0.3:
        part = "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
        s, w = plain(n) + "点" + digits(part), "%d.%s" % (n, part)
        mark = scale if scale == "亿" else mark
    elif k < 0.5:
        m = r.randint(10, 9999)
        s, w = plain(n) + "到" + plain(m), "%d~%d" % (n, m)
        mark = scale if scale == "亿" else mark
    else:
        s, w = plain(n), str(n)
    full = {str(n * 10**4), "%d万" % n} if scale == "万" and k >= 0.5 else set()  # 30万m and 300000m say the same
    return slot(r, s + scale + name, {w + mark + u for u in UNITS_EN[name]} | {w + scale + u for u in UNITS_EN[name] | {name}} |
                {w + u for w in full for u in UNITS_EN[name] | {name}})


def f_unit_large_zh(r):
    scale = r.choice("亿万兆")
    name = r.choice([u for u in UNITS_ZH if not u.startswith(MULTIPLIERS) and u not in UNITS_EN])
    n = r.choice([10, 11, 15, 20, 45, 99, 100, 101, 250, 999, 1000, 3500, r.randint(10, 9999)])
    s, w = plain(n), str(n)
    if r.random() < 0.3:
        part = "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
        s, w = s + "点" + digits(part), w + "." + part
    full = {str(n * 10**4)} if scale == "万" and "." not in w else set()
    return slot(r, s + scale + name, {w + scale + name} | {v + name for v in full} |
                {u + v for u in CURRENCY.get(name, set()) for v in {w + scale} | full})


def f_unit_approximate(r):
    """十七八美元, 三百七八公里, 七八个."""

    s, w = approximate(r)
    if r.random() < 0.3 and s[-1] not in "万亿":
        name = r.choice(list(CURRENCY))
        if name.startswith(MULTIPLIERS):
            name = "元"
        zh = {w + name} if name in UNITS_ZH else set()
        return slot(r, s + name, {u + w for u in CURRENCY[name] | CODES.get(name, set())} | zh)
    name = r.choice([u for u in list(UNITS_EN) + UNITS_ZH if not u.startswith(MULTIPLIERS)])
    while s[-1] + name in UNITS_EN or s[-1] + name in UNITS_ZH or name == "年" and len(s) == 2:
        s, w = approximate(r)
    marks = UNITS_EN.get(name, set()) | {name}
    marks |= {{"万": "W", "亿": "00M"}[s[-1]] + u for u in UNITS_EN.get(name, set())} if s[-1] in "万亿" else set()
    return slot(r, s + name, {(w[:-1] if s[-1] in "万亿" and u[0] in "W0" else w) + u for u in marks} |
                {u + w for u in CURRENCY.get(name, set())})


def f_per_any(r):
    """每 any unit, a number or a range of any unit."""

    name = r.choice([u for u in UNITS_EN if not u.startswith(MULTIPLIERS)])
    per = r.choice([u for u in list(UNITS_EN) + UNITS_ZH if not u.startswith(MULTIPLIERS)])
    s, w = amount(r, name)
    if r.random() < 0.3:
        b, wb = amount(r, name)
        s, w = s + "到" + b, w + "~" + wb
    return slot(r, "每%s%s%s" % (per, s, name), {"%s%s/%s" % (w, u, p) for u in UNITS_EN[name] for p in UNITS_EN.get(per, {per})})


def f_round_then_unit(r):
    """一百一个 stays a round number before the digit and its unit: 100一个."""

    a, b = r.randint(1, 9), r.randint(1, 9)
    power, name = r.choice([(100, "百"), (1000, "千"), (10000, "万")])
    unit = r.choice(["年", "月", "个月", "周", "天", "位", "次", "个", "顿"])
    if unit == "月" or power == 1000 and unit == "年":
        unit = "天"
    return slot(r, D[a] + name + D[b] + unit, "%d%s%s" % (a * power, " %d" % b if OPTIONS["enable_0_to_9"] else D[b], unit))


def f_kuai(r):
    """十五块八, 三块五毛, 三块五角: what follows 块 is the tenth."""

    n, a = r.choice([r.randint(0, 9), r.randint(10, 9999)]), r.randint(1, 9)
    word = r.choice(["", "毛", "角"])
    return slot(r, "%s块%s%s" % (plain(n), plain(a), word), "%d块%d%s" % (n, a, "毛" if word == "毛" else ""))


UNITS = [f_unit_large, f_unit_large_zh, f_unit_approximate, f_per_any, f_round_then_unit, f_kuai, f_unit_en, f_unit_zh, f_unit_range, f_per, f_money, f_mao, f_word]
