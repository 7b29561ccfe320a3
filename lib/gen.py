"""Seeded workload generators: realistic, hostile and malformed texts for each pipeline."""

import os
import unicodedata

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")
_CACHE = {}


def corpus(name):
    if name not in _CACHE:
        with open(os.path.join(CORPUS, name + ".txt"), encoding="utf8") as f:
            _CACHE[name] = [line.rstrip("\n") for line in f if line.strip("\n")]
    return _CACHE[name]


ALL_CORPORA = ["zh_tn", "zh_itn", "ja_tn", "ja_itn", "en_tn", "en_itn"]

ASCII = [chr(i) for i in range(32, 127)]
SPACES = [" ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\u2003", "\u200b", "\x0b", "\x0c", "\x85", "\u2028", "\ufeff", "\x1f"]
WIDE = list("＄％＃＠１２３４５０ＡａＢｂＺｚ－／：．，。、「」『』（）《》【】！？；…—～·￥¥€£₩₹°℃℉㎡㎏㎞‰±×÷≈≤≥√½¼²³")
CJK = list("一二三四五六七八九十零〇两百千万亿億兆点點年月日号號时時分秒元块毛角个個第负正到至から約约大概左右多几数儿兒呃啊嗯的了是在我你他国國龍龙車车東东学學円時間半午前後上下")
KANA = list("あいうえおアイウエオンーっゃマイナスプラスからの番目パーセント")
ODD = ["\u0301", "\u200d", "\u202e", "\u2066", "😀", "👨\u200d👩\u200d👧", "𠀀", "𝟘", "\U0010ffff", "\ue000", "ß", "é", "İ", "ı", "Ω", "ж", "א", "ع", "ก",
       "\x01", "\x07", "\x1b", "\x7f", "\x80", "\uffff", "\ufffd", "ﬁ", "Ⅳ", "①", "٣", "५"]
WIRE = ['"', "\\", '\\"', '" }', "{", "}", ' { value: "', 'char { value: "x" }', ': "', "[", "]", "[BOS]", "[EOS]", "[32]", "\\[", "\\\\", '""', "<b>", "</b>", '<a="b">',
        '<a\\">', "<<", ">>", "preserve_order", "<unk>", "<epsilon>", "\\n", "\\x41", "&amp;", "$(x)", "%s", "${y}"]

EN_WORDS = ("the a of to in on at for and or is was be has had have with from by about cost costs weighs price meeting room page born died "
            "page chapter may march second third dr mr mrs st street km per hour email call phone number version section it's don't o'clock "
            "half quarter past noon am pm gmt usd pounds dollars cents percent minus plus times equals I II V X vs etc no. fig. approx").split()
EN_NUM = ("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen "
          "twenty thirty forty fifty sixty seventy eighty ninety hundred thousand million billion trillion and point minus negative oh o "
          "first second third fourth fifth twentieth thirtieth half quarter double triple dot at com plus").split()
EN_UNIT = "kg km cm mm m g mg lb oz mph km/h % °c °f ghz mb gb kw kwh ft in sq mi ha l ml s ms min h hz v w ma".split()
ZH_UNIT = "kg km cm m mm g 公里 千克 米 克 个 只 条 元 块 美元 岁 年 月 日 号 点 分 秒 小时 天 % ℃ ° ㎡ 平方米 万 亿 倍 次 m/s km/h GB MB kW 人 名 台 辆".split()
JA_UNIT = "kg km cm m mm g キロ メートル 個 円 ドル 人 年 月 日 時 分 秒 % ℃ ㎡ 万 億 回 歳 m/s km/h GB 番目 号室".split()


def number(r):
    k = r.random()
    if k < 0.25:
        return str(r.randint(0, 20))
    if k < 0.45:
        return str(r.randint(0, 10**r.randint(2, 5)))
    if k < 0.55:
        return str(r.randint(0, 10**r.randint(5, 18)))
    if k < 0.65:
        return "%d.%s" % (r.randint(0, 999), "".join(r.choice("0123456789") for _ in range(r.randint(1, 4))))
    if k < 0.72:
        return "{:,}".format(r.randint(1000, 10**r.randint(4, 10)))
    if k < 0.78:
        return "".join(r.choice("0123456789") for _ in range(r.randint(1, 13)))
    if k < 0.84:
        return r.choice("+-±") + str(r.randint(0, 9999))
    if k < 0.88:
        return str(r.randint(1, 9)) + "0" * r.randint(1, 9)
    if k < 0.92:
        return "%d%%" % r.randint(0, 120)
    if k < 0.96:
        return "%d/%d" % (r.randint(1, 99), r.randint(1, 99))
    return "".join(chr(ord(c) + 0xFEE0) for c in str(r.randint(0, 99999)))


def structured(r, lang):
    k = r.randint(0, 15)
    y, m, d = r.randint(1000, 2100), r.randint(1, 13), r.randint(0, 32)
    hh, mm, ss = r.randint(0, 25), r.randint(0, 61), r.randint(0, 61)
    n = number(r)
    if k == 0:
        return r.choice(["%d/%d/%d", "%d-%d-%d", "%d.%d.%d", "%d-%02d-%02d", "%d年%d月%d日", "%d/%02d/%02d"]) % (y, m, d)
    if k == 1:
        return r.choice(["%02d/%02d", "%d/%d", "%d月%d日", "%d月%d号", "%d.%d"]) % (m, d)
    if k == 2:
        return r.choice(["%d:%02d", "%02d:%02d", "%d点%02d分", "%d時%02d分", "%d:%02d pm", "%d:%02dam", "%d:%02d a.m."]) % (hh, mm)
    if k == 3:
        return "%d:%02d:%02d%s" % (hh, mm, ss, r.choice(["", " pm", "am", "p.m."]))
    if k == 4:
        return r.choice(["$", "¥", "￥", "€", "£", "US$", "₩", "USD", "CNY", "JPY "]) + n
    if k == 5:
        return n + r.choice(["", " "]) + r.choice({"zh": ZH_UNIT, "ja": JA_UNIT, "en": EN_UNIT}[lang])
    if k == 6:
        return n + r.choice(["-", "~", "到", "から", " to ", "–"]) + number(r) + r.choice({"zh": ZH_UNIT, "ja": JA_UNIT, "en": EN_UNIT}[lang] + [""])
    if k == 7:
        return n + r.choice(["+", "-", "*", "×", "÷", "=", "<", ">", ":", " + ", "≈"]) + number(r)
    if k == 8:
        return r.choice(
                ["13%09d" % r.randint(0, 10**9 - 1),
                 "010-%08d" % r.randint(0, 10**8 - 1),
                 "555-%03d-%04d" % (r.randint(0, 999), r.randint(0, 9999)),
                 "090-%04d-%04d" % (r.randint(0, 9999), r.randint(0, 9999))])
    if k == 9:
        return ".".join(str(r.randint(0, 255)) for _ in range(4))
    if k == 10:
        return r.choice(["abc%d@gmail.com", "www.x%d.com", "https://a.b/c?d=%d", "v%d.0", "A%d", "B%d-C", "No.%d", "第%d", "#%d", "@%d"]) % r.randint(0, 999)
    if k == 11:
        return str(r.randint(0, 130)) + r.choice(["st", "nd", "rd", "th", "TH"])
    if k == 12:
        return r.choice(["I", "II", "III", "IV", "IX", "XIV", "XL", "MCMXC"]) if lang == "en" else r.choice(["中国", "巴西", "火箭", "皇马"]) + "%d:%d" % (r.randint(0, 120), r.randint(0, 120))
    if k == 13:
        return r.choice(["january", "feb", "may", "July", "sept.", "Dec"]) + " %d%s" % (r.randint(0, 32), r.choice(["", ", %d" % y, "th", " %d" % y]))
    if k == 14:
        return n + r.choice(["kg/m", "km/h", "m/s", "元/kg", "円/kg"])
    return spoken(r, lang)


def spoken(r, lang):
    if lang == "en":
        return " ".join(r.choice(EN_NUM) for _ in range(r.randint(1, 7)))
    pool = "零一二三四五六七八九十百千万亿点两幺负分之元年月日号时" if lang == "zh" else "〇一二三四五六七八九十百千万億点分の円年月日時秒マイナス"
    return "".join(r.choice(pool) for _ in range(r.randint(1, 9)))


def sentence(r, lang):
    parts = []
    for _ in range(r.randint(1, 4)):
        if lang == "en":
            parts.append(" ".join(r.choice(EN_WORDS) for _ in range(r.randint(1, 3))))
        else:
            parts.append("".join(r.choice(CJK if lang == "zh" else CJK + KANA) for _ in range(r.randint(1, 4))))
        if r.random() < 0.7:
            parts.append(structured(r, lang))
    return (" " if lang == "en" or r.random() < 0.1 else "").join(parts) + r.choice(["", "", ".", "。", "!", "?", ","])


def mutate(r, text):
    chars = list(text)
    for _ in range(r.randint(1, 4)):
        i = r.randint(0, len(chars))
        k = r.random()
        if k < 0.45:
            chars[i:i] = [r.choice(r.choice([ASCII, WIDE, CJK, ODD, SPACES, WIRE]))]
        elif k < 0.65:
            del chars[i:i + r.randint(1, 3)]
        elif k < 0.8:
            chars[i:i + 1] = [r.choice(r.choice([ASCII, WIDE, CJK, ODD, SPACES]))]
        elif k < 0.9 and chars:
            j = r.randrange(len(chars))
            chars[i:i] = chars[j:j + r.randint(1, 5)]
        elif chars:
            j = r.randrange(len(chars))
            chars[j] = chars[j].swapcase()
    return "".join(chars)


def random_unicode(r, n):
    out = []
    while len(out) < n:
        hi = r.choice([0x7f, 0x17f, 0x3000, 0x30ff, 0x9fff, 0xffff, 0x10ffff])
        c = r.randint(1, hi)
        if not 0xd800 <= c < 0xe000:
            out.append(chr(c))
    return "".join(out)


def text(r, pipeline):
    """One text; never empty, never containing NUL or surrogates."""

    lang = pipeline[:2]
    while True:
        t = _text(r, pipeline, lang)
        if t and "\x00" not in t:
            return t[:400]


def _text(r, pipeline, lang):
    k = r.random()
    own = corpus(pipeline)
    if k < 0.16:
        return r.choice(own)
    if k < 0.22:
        return r.choice(corpus(r.choice(ALL_CORPORA)))
    if k < 0.36:
        return sentence(r, lang)
    if k < 0.46:
        return structured(r, lang)
    if k < 0.56:
        return mutate(r, structured(r, lang))
    if k < 0.66:
        return mutate(r, r.choice(own))
    if k < 0.74:
        return r.choice(own) + r.choice(["", " ", ",", "，", '"', "\\", "\n", r.choice(WIRE)]) + r.choice(own)
    if k < 0.80:
        return "".join(r.choice(r.choice([ASCII, WIDE, CJK, KANA, SPACES, ODD, WIRE])) for _ in range(r.randint(1, 12)))
    if k < 0.85:
        return "".join(r.choice("0123456789.,-/:%$¥ ~+") for _ in range(r.randint(1, 16)))
    if k < 0.90:
        return r.choice(["", " "]).join(r.choice([structured(r, lang), r.choice(WIRE), sentence(r, lang), r.choice(SPACES)]) for _ in range(r.randint(2, 5)))
    if k < 0.95:
        return random_unicode(r, r.randint(1, 8))
    if k < 0.97:
        return r.choice(SPACES) * r.randint(0, 3) + r.choice(own + [""]) + r.choice(SPACES) * r.randint(1, 3)
    if k < 0.985:
        return r.choice(["9", "0", "1,", "a", "“", "一", " ", "\\", '"', ".", "{", "½", "第"]) * r.randint(1, 40)
    return sentence(r, lang) * r.randint(2, 6)


def nbest_ok(text):
    """Whether n-best search over a text is cheap: ties between segmentations of long digit runs multiply exponentially."""

    run = same = 0
    last = None
    for c in text:
        run = run + 1 if c.isnumeric() or c in ",." else 0
        same = same + 1 if c == last else 1
        last = c
        if run > 11 or same > 8:
            return False
    return len(text) <= 60


def charclass(text):
    """A coarse shape of a text, used to count distinct kinds of input seen."""

    out = []
    for c in text:
        if c.isdigit():
            s = "9"
        elif c.isspace():
            s = "_"
        elif "a" <= c <= "z" or "A" <= c <= "Z":
            s = "a"
        elif ord(c) < 128:
            s = c
        else:
            s = unicodedata.category(c)
        if not out or out[-1] != s:
            out.append(s)
    return "".join(out[:12])
