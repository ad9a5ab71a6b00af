"C02: dates, times and zoned timestamps survive a round trip."

import datetime

from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonValueError
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from . import kit
from .api import Ob

UTC = datetime.timezone.utc


def digits(ctx, text, start, n):
    "The number written with n decimal digits at a position of a text."
    v = 0
    for c in text[start : start + n]:
        d = ord(c)
        ctx.check(ctx.all_of([d >= 48, d <= 57]), "not a decimal digit")
        v = v * 10 + (d - 48)
    return v


def check_date(ctx, text, d):
    ctx.check(len(text) >= 10, "date is shorter than YYYY-MM-DD")
    ctx.check(ctx.all_of([text[4] == "-", text[7] == "-"]), "separators of a date")
    ctx.check(digits(ctx, text, 0, 4) == d.year, "year")
    ctx.check(digits(ctx, text, 5, 2) == d.month, "month")
    ctx.check(digits(ctx, text, 8, 2) == d.day, "day")


def check_clock(ctx, text, t):
    "hh:mm:ss[.ffffff]; returns what follows."
    ctx.check(len(text) >= 8, "time is shorter than hh:mm:ss")
    ctx.check(ctx.all_of([text[2] == ":", text[5] == ":"]), "separators of a time")
    ctx.check(digits(ctx, text, 0, 2) == t.hour, "hour")
    ctx.check(digits(ctx, text, 3, 2) == t.minute, "minute")
    ctx.check(digits(ctx, text, 6, 2) == t.second, "second")
    if len(text) > 8 and text[8] == ".":
        ctx.check(len(text) >= 15, "fraction of a second has six digits")
        ctx.check(digits(ctx, text, 9, 6) == t.microsecond, "microsecond")
        return text[15:]
    ctx.check(t.microsecond == 0, "fraction of a second left out")
    return text[8:]


def check_offset(ctx, text, offset):
    "Z or +hh:mm[:ss]"
    zero = datetime.timedelta(0)
    if text == "Z":
        ctx.check(offset == zero, "Z written for another offset than zero")
        return
    ctx.check(offset != zero, "UTC is not written as Z")
    ctx.check(len(text) >= 6, "offset is shorter than +hh:mm")
    ctx.check(ctx.any_of([text[0] == "+", text[0] == "-"]), "sign of the offset")
    seconds = digits(ctx, text, 1, 2) * 3600 + digits(ctx, text, 4, 2) * 60
    if len(text) > 6:
        seconds = seconds + digits(ctx, text, 7, 2)
    ctx.check(len(text) <= 9, "text after the offset")
    if text[0] == "-":
        seconds = -seconds
    ctx.check(seconds == offset.days * 86400 + offset.seconds, "offset")


def write(typ, v, typed):
    return create_serializer(typ).generate(v) if typed else object_to_json(v)


def read(typ, j, typed):
    return create_deserializer(typ).parse(j) if typed else json_to_object(typ, j)


def date(ctx, typed):
    v = kit.gen_date(ctx, "v")
    j = write(datetime.date, v, typed)
    ctx.observe(j)
    w = read(datetime.date, j, typed)
    ctx.check(ctx.class_of(w) is datetime.date, "type changed")
    ctx.check_same(w, v, "date changed by the round trip")
    check_date(ctx, j, v)
    ctx.check(len(j) == 10, "length of a date")


def time(ctx, typed):
    v = kit.gen_time(ctx, "v")
    j = write(datetime.time, v, typed)
    ctx.observe(j)
    w = read(datetime.time, j, typed)
    ctx.check_same(w, v, "time changed by the round trip")
    ctx.check(len(check_clock(ctx, j, v)) == 0, "text after a time")


def time_zoned(ctx, typed, kind):
    v = kit.gen_time(ctx, "v", kit.gen_tz(ctx, "v", kind))
    j = write(datetime.time, v, typed)
    ctx.observe(j)
    w = read(datetime.time, j, typed)
    ctx.check_same(w, v, "time changed by the round trip")
    check_clock(ctx, j, v)


def timestamp(ctx, typed, kind, edges):
    v = kit.gen_datetime(ctx, "v", kind=kind, edges=edges)
    j = write(datetime.datetime, v, typed)
    ctx.observe(j)
    w = read(datetime.datetime, j, typed)
    ctx.check(ctx.class_of(w) is datetime.datetime, "type changed")
    ctx.check(w.replace(tzinfo=None) == v.replace(tzinfo=None), "date or time changed by the round trip")
    ctx.check(w.utcoffset() == v.utcoffset(), "offset changed by the round trip")
    check_date(ctx, j, v)
    ctx.check(j[10] == "T", "T between date and time")
    check_offset(ctx, check_clock(ctx, j[11:], v), v.utcoffset())


def naive_write(ctx, typed):
    v = kit.gen_datetime(ctx, "v", None)
    try:
        write(datetime.datetime, v, typed)
    except JsonValueError:
        ctx.label("refused")
        return
    ctx.fail("timestamp without a time zone serialized")


def text_of(ctx, zone):
    "A timestamp in a notation accepted by the parser, composed of its components."
    d = kit.gen_date(ctx, "v")
    h, mi, s = ctx.int("h", 0, 23), ctx.int("mi", 0, 59), ctx.int("s", 0, 59)
    text = "%04d-%02d-%02dT%02d:%02d:%02d" % (d.year, d.month, d.day, h, mi, s)
    us = 0
    if ctx.flag("fraction"):
        us = ctx.int("us", 0, 999999)
        text = text + ".%06d" % us
    return datetime.datetime(d.year, d.month, d.day, h, mi, s, us), text + zone


def naive_read(ctx, typed):
    _, text = text_of(ctx, "")
    try:
        read(datetime.datetime, text, typed)
    except JsonValueError:
        ctx.label("refused")
        return
    ctx.fail("timestamp without a time zone accepted")


def zulu_read(ctx, typed):
    v, text = text_of(ctx, "Z")
    w = read(datetime.datetime, text, typed)
    ctx.check(w.replace(tzinfo=None) == v, "timestamp in UTC misread")
    ctx.check(w.tzinfo is not None and w.utcoffset() == datetime.timedelta(0), "Z is not UTC")


def offset_read(ctx, typed):
    sign = ctx.choice("sign", ["+", "-"])
    h, m = ctx.int("zone.h", 0, 23), ctx.int("zone.m", 0, 59)
    v, text = text_of(ctx, sign + "%02d:%02d" % (h, m))
    w = read(datetime.datetime, text, typed)
    ctx.check(w.replace(tzinfo=None) == v, "timestamp with an offset misread")
    o = datetime.timedelta(hours=h, minutes=m)
    ctx.check(w.utcoffset() == (o if sign == "+" else -o), "offset misread")


def fixed_subtypes(ctx):
    "A time of day and a date do not turn into one another."
    v = kit.gen_date(ctx, "v")
    j = object_to_json(v)
    w = json_to_object(datetime.date, j)
    ctx.check(ctx.class_of(w) is datetime.date, "a date reads back as something else")


def obligations():
    obs = []
    for typed in (True, False):
        n = "typed" if typed else "generic"
        obs.append(Ob(f"date-{n}", date, typed))
        obs.append(Ob(f"time-{n}", time, typed))
        for i, kind in enumerate(kit.ZONES):
            obs.append(Ob(f"time-zoned-{kind}-{n}", time_zoned, typed, kind, cost=5 + i, seconds=100))
            if kind == "utc":
                obs.append(Ob(f"timestamp-{kind}-{n}", timestamp, typed, kind, False))
            else:
                obs.append(Ob(f"timestamp-edges-{kind}-{n}", timestamp, typed, kind, True, cost=10 + i, seconds=100))
                obs.append(Ob(f"timestamp-{kind}-{n}", timestamp, typed, kind, False, cost=20 + i, seconds=200, tier="thorough"))
        obs.append(Ob(f"naive-write-{n}", naive_write, typed, expect=["refused"]))
        obs.append(Ob(f"naive-read-{n}", naive_read, typed, expect=["refused"]))
        obs.append(Ob(f"zulu-read-{n}", zulu_read, typed))
        obs.append(Ob(f"offset-read-{n}", offset_read, typed, cost=2))
    obs.append(Ob("date-class", fixed_subtypes))
    return obs
