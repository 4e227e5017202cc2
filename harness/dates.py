"""C49: a date given as text means the moment it states."""
from datetime import date, datetime

from engine.api import case
from tfchain.internal.jsutils import epoch2HRDateTime, jsdatetime
from tfchain.types.ConditionTypes import ConditionLockTime, ConditionNil, OutputLock

MIN_TS = 500 * 1000 * 1000
BEFORE = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
LENGTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def table(ctx, m, xs):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = ctx.ite(m == k + 1, xs[k], r)
    return r


def leap(ctx, y):
    return ctx.all([y % 4 == 0, ctx.any([y % 100 != 0, y % 400 == 0])])


def day_number(ctx, y, m, d):
    """Days since 1970-01-01 in the Gregorian calendar."""
    p = y - 1
    return (p * 365 + p // 4 - p // 100 + p // 400 + table(ctx, m, BEFORE) + ctx.ite(ctx.all([m > 2, leap(ctx, y)]), 1, 0) + d - 719163)


def month_length(ctx, y, m):
    return table(ctx, m, LENGTH) + ctx.ite(ctx.all([m == 2, leap(ctx, y)]), 1, 0)


def real(ctx, y, m, d):
    return ctx.all([y >= 1, m >= 1, m <= 12, d >= 1, d <= month_length(ctx, y, m)])


def number(ctx, name, n):
    """(text, value) of n decimal digits."""
    t = ctx.str(name, n)
    v = 0
    for c in t:
        ctx.assume(ctx.all([c >= "0", c <= "9"]))
        v = v * 10 + (ord(c) - 48)
    return t, v


DATES = ["Y/m/d", "d/m/Y", "y/m/d"]
SIZES = [(1, 1), (2, 2), (1, 2), (2, 1)]


def date_text(ctx, form, nm, nd, years=4):
    (m, mv), (d, dv) = number(ctx, "month", nm), number(ctx, "day", nd)
    if form == "m/d":
        return m + "/" + d, None, mv, dv
    y, yv = number(ctx, "year", 2 if form[0] == "y" else 4)
    if form[0] == "y":
        yv = ctx.ite(yv <= 68, yv + 2000, yv + 1900)
    return "/".join({"Y": y, "y": y, "m": m, "d": d}[c] for c in form.split("/")), yv, mv, dv


def lock_of(ctx, text, ok, at, what):
    """The lock of a text that states the moment `at` if it is ok: an older moment than a lock can express is refused."""
    good, l = ctx.attempt(lambda: OutputLock(value=text))
    ctx.check(ctx.implies(good, ok), "only dates and times the calendar has are accepted")
    ctx.check(ctx.implies(ctx.all([ok, at >= MIN_TS]), good), "every date and time the calendar has is accepted")
    if good:
        ctx.check(l.value == at, what)
        ctx.check(ctx.any([l.is_timestamp, at == 0]), "a moment is never taken for a block height")


@case("C49", params=[dict(form=f, nm=a, nd=b) for f in DATES for a, b in SIZES])
def dates(ctx, form, nm, nd):
    """A date is the first second of its day."""
    text, y, m, d = date_text(ctx, form, nm, nd)
    at = day_number(ctx, y, m, d) * 86400
    lock_of(ctx, text, real(ctx, y, m, d), at, "a date is the first second of its day")


TIMES = ["H:M", "H:M:S", "Iam:M", "Ipm:M", "IAM:M", "IpM:M:S", "Iam:M:S"]


def time_text(ctx, form, n):
    """(text, is a time, seconds) of a time of day; n digits for its hour."""
    (h, hv), (mi, mv), (se, sv) = number(ctx, "hour", n), number(ctx, "minute", 2), number(ctx, "second", 2)
    if form[0] == "I":
        ok = ctx.all([hv >= 1, hv <= 12])
        v = ctx.ite(hv == 12, 0, hv) + (12 if form[1] in "pP" else 0)
        text = h + form[1:3] + ":" + mi
    else:
        ok, v, text = hv <= 23, hv, h + ":" + mi
    secs = form.endswith("S")
    if secs:
        ctx.assume(ctx.any([sv <= 59, sv >= 62]))  # leap seconds
        text = text + ":" + se
    return text, ctx.all([ok, mv <= 59, sv <= 59 if secs else True]), v * 3600 + mv * 60 + (sv if secs else 0)


@case("C49", params=[dict(form=f, t=t, n=n) for f, t, n in
                     [("Y/m/d", t, 2) for t in TIMES] + [("Y/m/d", "H:M", 1), ("Y/m/d", "Ipm:M", 1)] + [(f, t, 2) for f in ("d/m/Y", "y/m/d") for t in ("H:M:S", "Ipm:M")]])
def moments(ctx, form, t, n):
    """A date with a time is that second of that day."""
    day, y, m, d = date_text(ctx, form, 2, 2)
    time, ok, secs = time_text(ctx, t, n)
    at = day_number(ctx, y, m, d) * 86400 + secs
    text = day + ctx.choice("between", [" ", "  "]) + time
    lock_of(ctx, text, ctx.all([real(ctx, y, m, d), ok]), at, "a date with a time is that second of that day")


SOME_YEARS = [1986, 2000, 2019, 2024, 2038, 2100, 2106]
MORE_YEARS = [y for y in range(1986, 2107) if y not in SOME_YEARS]


def within(ctx, name, y):
    """Any moment of a year."""
    return ctx.int(name, plain_day(y) * 86400, plain_day(y + 1) * 86400 - 1)


def plain_day(y):
    return date(y, 1, 1).toordinal() - date(1970, 1, 1).toordinal()


@case("C49", params=[dict(nm=a, nd=b, t="", y=SOME_YEARS) for a, b in SIZES] + [dict(nm=2, nd=2, t=t, y=[2024, 2100]) for t in ("H:M", "H:M:S")],
      thorough=[dict(nm=a, nd=b, t=t, y=SOME_YEARS) for a, b in SIZES for t in ("H:M", "H:M:S")] + [dict(nm=2, nd=2, t="H:M", y=MORE_YEARS[k:k + 10]) for k in range(0, len(MORE_YEARS), 10)])
def this_year(ctx, nm, nd, t, y):
    """A date without a year is one of the current year."""
    ctx.exact_dates()
    y = ctx.choice("y", y)
    ctx.now(within(ctx, "now", y))
    day, _, m, d = date_text(ctx, "m/d", nm, nd)
    text, ok, secs = day, True, 0
    if t:
        time, ok, secs = time_text(ctx, t, 2)
        text = day + " " + time
    at = day_number(ctx, y, m, d) * 86400 + secs
    lock_of(ctx, text, ctx.all([real(ctx, y, m, d), ok]), at, "a date without a year is one of the current year")


@case("C49", params=[dict(unit=u, n=n) for u in "smhdwMY" for n in (1, 2)])
def from_now(ctx, unit, n):
    """A text of the form -4h is that long before now."""
    now = ctx.int("now", 2 ** 32, 2 ** 33)
    ctx.now(now)
    t, v = number(ctx, "n", n)
    size = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800, "M": 2628000, "Y": 31536000}[unit]
    ctx.check(OutputLock(value="-" + t + unit).value == now - v * size, "a span before now")
    ctx.check(jsdatetime.fromString("+" + t + unit) == now + v * size, "a span after now")
    if n == 1:
        part, quarters = ctx.choice("part", [("0.5", 2), ("1.25", 5), ("2.75", 11), (".5", 2), ("17.5", 70), ("0.75", 3)])
        ctx.check(OutputLock(value="-" + part + unit).value == now - quarters * size // 4, "a span of halves and quarters before now")
    ctx.check(jsdatetime.fromString(" '+" + t + unit + "'") == now + v * size, "whatever is around it")


@case("C49", params=[dict(shape=s) for s in ("X/01/02", "2020/X/02", "2020/01/X", "202X/01/02", "2020/01/02 X:30", "2020/01/02 10:X", "2020/01/02 10:3X",
                                             "2020/01/02 10:30:X", "2020/01X02", "2020/01/02X", "01X02", "X")])
def not_a_date(ctx, shape):
    """A text with anything but digits where a date has digits is refused."""
    x = ctx.str("x", 1)
    ctx.assume(ctx.all([x > " ", x < "\x7f"] + [x != c for c in "0123456789/:+-'\""]))
    text = x.join(shape.split("X"))
    ok, e = ctx.attempt(lambda: OutputLock(value=text))
    ctx.check(not ok, "a text that states no moment is refused")


@case("C49", params=[dict(ny=a, nm=b, nd=c) for a, b, c in
                     [(4, 3, 2), (4, 2, 3), (3, 2, 2), (5, 2, 2), (4, 0, 2), (4, 2, 0), (0, 2, 2), (2, 2, 3), (3, 3, 3), (4, 1, 4), (4, 4, 1)]])
def wrong_sizes(ctx, ny, nm, nd):
    """Years have 2 or 4 digits, months and days 1 or 2."""
    parts = [number(ctx, k, n)[0] for k, n in (("a", ny), ("b", nm), ("c", nd))]
    ok, e = ctx.attempt(lambda: OutputLock(value="/".join(parts)))
    ctx.check(not ok, "a text that states no date is refused")


@case("C49")
def more_shapes(ctx):
    text = ctx.choice("text", ["2020/01/02/03", "2020", "2020-01-02", "10:30", "2020/01/02 10", "2020/01/02 1:2:3:4", "2020/01/02 25:00", "2020/02/30",
                               "2019/02/29", "1900/02/29", "0000/01/01", "2020/13/01", "2020/00/10", "2020/01/00", "2020/04/31", "2020/01/02 24:00",
                               "2020/01/02 10:60", "2020/01/02 13pm:00", "2020/01/02 0am:10", "1985/11/05 00:53:19", "1980/01/01", "69/01/01", "1969/12/31"])
    ok, e = ctx.attempt(lambda: OutputLock(value=text))
    ctx.check(not ok, "a text that states no moment a lock can have is refused")


@case("C49")
def first_moments(ctx):
    text, at = ctx.choice("text", [("1985/11/05 00:53:20", MIN_TS), ("68/12/31 23:59:59", 3124223999), ("2000/02/29", 951782400), ("2100/03/01", 4107542400),
                                   (" 2020/12/30", 1609286400), ("'2020/12/30'", 1609286400), ('"2020/12/30 12am:00"', 1609286400),
                                   ("2020/12/30 12pm:00", 1609329600), ("9999/12/31 23:59:59", 253402300799), ("0", 0)])
    ctx.check(OutputLock(value=text).value == at, "the moment stated")
    ctx.check(ConditionLockTime(lock=text, condition=ConditionNil()).lock.value == at, "in a condition too")


@case("C49")
def old_datetimes(ctx):
    """A datetime too old for a lock on time does not become a lock on a height."""
    t = ctx.choice("t", [1, 1000, 315532800, MIN_TS - 1, -1, -86400])
    ok, e = ctx.attempt(lambda: OutputLock(value=datetime.fromtimestamp(t)))
    ctx.check(not ok, "a moment that a lock cannot have is refused")
    for t in (MIN_TS, MIN_TS + 1, 4102444800):
        ctx.check(OutputLock(value=datetime.fromtimestamp(t)).value == t, "a later one is kept")


@case("C49", params=[dict(y=y) for y in SOME_YEARS], thorough=[dict(y=y) for y in MORE_YEARS])
def shown(ctx, y):
    """The text of a moment states it: year, month, day, hours, minutes and seconds."""
    ctx.exact_dates()
    t = within(ctx, "t", y)
    l = OutputLock(value=t)
    for text in (str(l), repr(l), epoch2HRDateTime(t), jsdatetime.toString(t)):
        shape = "".join("9" if "0" <= c <= "9" else c for c in text)
        ctx.check(ctx.eq(shape, "9999/99/99 99:99:99"), "year/month/day hours:minutes:seconds")
        py, m, d, hh, mm, ss = [int(text[a:b]) for a, b in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19))]
        ctx.check(py == y, "the year of the moment")
        ctx.check(ctx.all([real(ctx, y, m, d), hh <= 23, mm <= 59, ss <= 59]), "a moment of the calendar")
        ctx.check(day_number(ctx, y, m, d) * 86400 + hh * 3600 + mm * 60 + ss == t, "that moment")
    ctx.check(OutputLock(value=str(l)).value == t, "the text of a moment reads as that moment")


@case("C49")
def heights_shown(ctx):
    h = ctx.int("h", 0, MIN_TS - 1)
    ctx.check(ctx.eq(str(OutputLock(value=h)), str(h)), "a height is shown as itself")
