"""English number words, written independently of the code under test."""

ONES = ("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen").split()
TENS = "_ _ twenty thirty forty fifty sixty seventy eighty ninety".split()
SCALES = ["", "thousand", "million", "billion", "trillion", "quadrillion", "quintillion", "sextillion"]
IRREGULAR = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}
MONTHS = "january february march april may june july august september october november december".split()


def below_1000(n):
    out = []
    if n >= 100:
        out += [ONES[n // 100], "hundred"]
    n %= 100
    if n >= 20:
        out.append(TENS[n // 10])
        n %= 10
        if n:
            out.append(ONES[n])
    elif n:
        out.append(ONES[n])
    return out


def cardinal(n):
    """Without any "and"."""

    if n == 0:
        return "zero"
    groups = []
    while n:
        groups.append(n % 1000)
        n //= 1000
    out = []
    for i in reversed(range(len(groups))):
        if groups[i]:
            out += below_1000(groups[i]) + ([SCALES[i]] if i else [])
    return " ".join(out)


def ordinal_word(word):
    if word in IRREGULAR:
        return IRREGULAR[word]
    return word[:-1] + "ieth" if word.endswith("y") else word + "th"


def ordinal(n):
    words = cardinal(n).split()
    return " ".join(words[:-1] + [ordinal_word(words[-1])])


def spell(s):
    return " ".join(ONES[int(c)] for c in s)


def two_digits(s):
    """A two-digit half of a year: twelve, oh five, hundred."""

    return "hundred" if s == "00" else ("zero " + ONES[int(s)] if s[0] == "0" else cardinal(int(s)))


def year(s):
    """Ways to say a four-digit year, oh counted as zero, without and."""

    out = {cardinal(int(s)), two_digits(s[:2]) + " " + two_digits(s[2:])}
    if s[1:3] == "00":
        out.add(" ".join([ONES[int(s[0])], "thousand"] + ([ONES[int(s[3])]] if s[3] != "0" else [])))
    return out


def plain(text):
    """Drops "and" and unifies the names of the digit zero."""

    return " ".join("zero" if w in ("oh", "o") else w for w in text.split() if w != "and")


def expand_thousand(text):
    """"thousand five" at the start of a number is "one thousand five"."""

    return "one " + text if text.startswith(("thousand", "hundred", "million")) else ("one " + text[2:] if text.startswith("a ") else text)


def integer_readings(s):
    """Readings of an unsigned digit string (commas removed)."""

    out = {cardinal(int(s)), spell(s)}
    if len(s) == 4 and s[0] != "0":
        out |= year(s)
    if len(s) > 1 and s[0] == "0":
        rest = s.lstrip("0")
        if rest:
            out.add(" ".join(["zero"] * (len(s) - len(rest)) + [cardinal(int(rest))]))
    return out


def says_integer(s, spoken):
    p = plain(spoken)
    readings = integer_readings(s)
    return p in readings or expand_thousand(p) in readings
