"C03: durations are written and read as exact ISO 8601 amounts."

import datetime

from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonValueError
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from . import kit
from .api import Ob

LARGEST = 999999999 * 86400 + 86399  # seconds in the largest duration
UNITS = [("W", 604800), ("D", 86400), ("H", 3600), ("M", 60), ("S", 1)]


def micros(v):
    return (v.days * 86400 + v.seconds) * 1000000 + v.microseconds


def amount(text):
    """
    The documented notation, read character by character.

    :returns: None for a text of another form, else the whole seconds, and the fraction in nanoseconds.
    """

    n = len(text)
    if n == 0 or text[0] != "P":
        return None
    i = 1
    seconds = nanos = 0
    timed = False
    unit = 0  # units up to here are used up
    count = 0
    after = False  # whether a component follows T
    while i < n:
        if text[i] == "T":
            if timed:
                return None
            timed = True
            unit = max(unit, 2)
            i = i + 1
            continue
        value, digits = 0, 0
        while i < n and is_digit(text[i]):
            value = value * 10 + (ord(text[i]) - 48)
            digits = digits + 1
            i = i + 1
        if digits == 0 or i >= n:
            return None
        fraction = 0
        places = 0
        if text[i] == ".":
            i = i + 1
            while i < n and is_digit(text[i]):
                fraction = fraction * 10 + (ord(text[i]) - 48)
                places = places + 1
                i = i + 1
            if places == 0 or places > 9 or i >= n or text[i] != "S":
                return None
        found = None
        for k in range(unit, 5 if timed else 2):
            if text[i] == UNITS[k][0]:
                found = k
                break
        if found is None:
            return None
        unit = found + 1
        seconds = seconds + value * UNITS[found][1]
        nanos = fraction * 10 ** (9 - places)
        count = count + 1
        after = after or timed
        i = i + 1
    if count == 0 or (timed and not after):
        return None
    return seconds, nanos


def is_digit(c):
    d = ord(c)
    return d >= 48 and d <= 57


def write(v, typed):
    return create_serializer(datetime.timedelta).generate(v) if typed else object_to_json(v)


def read(j, typed):
    return create_deserializer(datetime.timedelta).parse(j) if typed else json_to_object(datetime.timedelta, j)


def verify(ctx, text, typed):
    "Reads a text and compares the outcome with the sum of its components."
    a = amount(text)
    try:
        v = read(text, typed)
    except JsonValueError:
        v = None
    if v is None:
        ctx.label("refused")
        if a is not None:
            ok = ctx.any_of([a[1] % 1000 != 0, a[0] > LARGEST])
            ctx.check(ok, "well-formed duration refused")
        return
    ctx.label("accepted")
    ctx.check(a is not None, "malformed duration accepted")
    ctx.check(ctx.class_of(v) is datetime.timedelta, "type of a duration")
    ctx.check(a[1] % 1000 == 0, "fraction finer than a microsecond accepted")
    ctx.check(micros(v) == a[0] * 1000000 + a[1] // 1000, "duration misread")


def roundtrip(ctx, typed, days):
    s = ctx.int("v.seconds", 0, 86399)
    us = ctx.int("v.micros", 0, 999999)
    v = datetime.timedelta(days=ctx.int("v.days", 0, days), seconds=s, microseconds=us)
    j = write(v, typed)
    ctx.observe(j)
    w = read(j, typed)
    ctx.check(ctx.class_of(w) is datetime.timedelta, "type changed")
    ctx.check_same(w, v, "duration changed by the round trip")


def written(ctx, typed, days):
    "The components that are written add up to the duration."
    s = ctx.int("v.seconds", 0, 86399)
    us = ctx.int("v.micros", 0, 999999)
    d = ctx.int("v.days", 0, days)
    v = datetime.timedelta(days=d, seconds=s, microseconds=us)
    j = write(v, typed)
    ctx.observe(j)
    a = amount(j)
    ctx.check(a is not None, "not an ISO 8601 duration")
    ctx.check(a[0] * 1000000000 + a[1] == (d * 86400 + s) * 1000000000 + us * 1000, "components do not add up")


def components(ctx, typed, width, fraction):
    "A text composed of any choice of components, each of any digits."
    text = "P"
    count = 0
    for i, (letter, _) in enumerate(UNITS):
        if i == 2:
            timed = ctx.flag("T")
            if not timed:
                break
            text = text + "T"
        if ctx.flag(f"has.{letter}"):
            text = text + ctx.text(f"{letter}.digits", width, 1, "0123456789")
            if letter == "S" and fraction and ctx.flag("fraction"):
                text = text + "." + ctx.text("S.fraction", fraction, fraction, "0123456789")
            text = text + letter
    verify(ctx, text, typed)


def free(ctx, typed, n, alphabet=None):
    verify(ctx, ctx.text("t", n, alphabet=alphabet), typed)


def huge(ctx, typed, letter):
    "Amounts about the end of the range."
    text = ("P" if letter in "WD" else "PT") + ctx.text("digits", 15, 8, "0123456789") + letter
    verify(ctx, text, typed)


def obligations():
    obs = []
    for typed in (True, False):
        n = "typed" if typed else "generic"
        obs.append(Ob(f"written-{n}", written, typed, 999999999, expect=[], cost=5, seconds=100))
        obs.append(Ob(f"roundtrip-{n}", roundtrip, typed, 999999999, cost=5, seconds=100))
        obs.append(Ob(f"components-{n}", components, typed, 1, 0, expect=["accepted", "refused"], cost=3))
    for f in range(1, 11):
        obs.append(Ob(f"fraction-{f}", components, True, 1, f, expect=["accepted", "refused"], cost=3, tier="quick" if f in (1, 3, 6, 7, 9, 10) else "thorough"))
    obs.append(Ob("free-text", free, True, 4, expect=["accepted", "refused"], cost=4))
    obs.append(Ob("free-letters", free, True, 5, "PTWDHMS.07", expect=["accepted", "refused"], cost=4))
    obs.append(Ob("free-letters-7", free, True, 7, "PTWDHMS.07", expect=["accepted", "refused"], cost=40, tier="thorough", seconds=300))
    for letter in "WDHMS":
        obs.append(Ob(f"huge-{letter}", huge, True, letter, expect=["accepted"]))
    return obs
