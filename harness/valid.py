"""
Validity under a JSON schema, written from the JSON Schema standard for the keywords that describe data. Keywords that
only annotate (`format` and `contentEncoding` included, unless asked for) do not restrict data.
"""

import base64
import datetime
import decimal
import ipaddress
import re
import uuid

NOTES = ("title", "description", "default", "examples", "$schema", "$id", "$comment", "definitions", "$defs", "readOnly", "deprecated", "discriminator", "format", "contentEncoding")


class Unsupported(Exception):
    "A keyword this module does not know of."


class Validity:
    """
    :param root: Schema that references are relative to.
    :param formats: Whether the text of a formatted string has to be well-formed, and an integer written without a fraction.
    """

    def __init__(self, ctx, root, formats=False):
        self.ctx, self.root, self.formats = ctx, root, formats

    def resolve(self, ref):
        if not ref.startswith("#"):
            raise Unsupported(ref)
        node = self.root
        for part in ref[1:].split("/")[1:]:
            node = node[part.replace("~1", "/").replace("~0", "~")]
        return node

    def valid(self, j, schema):
        "Whether a JSON value is valid; kinds of values are decided, other conditions are combined."
        ctx = self.ctx
        if schema is True:
            return True
        if schema is False:
            return False
        conds = []
        if "$ref" in schema:
            conds.append(self.valid(j, self.resolve(schema["$ref"])))
        for word, arg in schema.items():
            if word in NOTES or word in ("$ref", "properties", "additionalProperties", "patternProperties", "prefixItems", "items", "uniqueItems"):
                continue
            c = self.keyword(word, arg, j)
            if c is False:
                return False
            conds.append(c)
        if "properties" in schema or "additionalProperties" in schema or "patternProperties" in schema:
            c = self.members(j, schema)
            if c is False:
                return False
            conds.append(c)
        if "items" in schema or "prefixItems" in schema:
            c = self.elements(j, schema)
            if c is False:
                return False
            conds.append(c)
        if "uniqueItems" in schema:
            conds.append(self.keyword("uniqueItems", schema["uniqueItems"], j))
        if self.formats:
            for word in ("format", "contentEncoding"):
                if word in schema:
                    conds.append(self.well_formed(j, schema[word]))
        return ctx.all_of(conds)

    def agrees(self, j, schema):
        "Whether a third-party validator is of the same opinion (plain values only)."
        import jsonschema

        whole = {**self.root, **schema}
        ours = bool(self.valid(j, schema))
        theirs = jsonschema.Draft202012Validator(whole).is_valid(j)
        return ours == theirs

    def kind(self, j, name):
        ctx = self.ctx
        if type(j) is Dec:
            return name == "number"
        if name == "null":
            return j is None
        if name == "boolean":
            return ctx.is_a(j, bool)
        if name == "string":
            return ctx.is_a(j, str)
        if name == "array":
            return ctx.is_a(j, list)
        if name == "object":
            return ctx.is_a(j, dict)
        if name == "number":
            # beyond that, numbers have no counterpart in floating point
            return ctx.is_a(j, float) or (ctx.is_a(j, int) and (not self.formats or bool(abs(j) < 2**1023)))
        if name == "integer":
            # integers written with a fraction of zero are integers as well
            return ctx.is_a(j, int) or (not self.formats and ctx.is_a(j, float) and j.is_integer())
        raise Unsupported(name)

    def number(self, j):
        return type(j) is Dec or self.ctx.is_a(j, int) or self.ctx.is_a(j, float)

    def keyword(self, word, arg, j):
        ctx = self.ctx
        if word == "type":
            return self.kind(j, arg) if isinstance(arg, str) else any([self.kind(j, t) for t in arg])
        if word == "const":
            return self.equal(j, arg)
        if word == "enum":
            return ctx.any_of([self.equal(j, v) for v in arg])
        if word == "oneOf":
            n = 0
            for s in arg:
                if self.valid(j, s):
                    n = n + 1
            return n == 1
        if word == "anyOf":
            return any([bool(self.valid(j, s)) for s in arg])
        if word == "allOf":
            return all([bool(self.valid(j, s)) for s in arg])
        if word == "not":
            return not self.valid(j, arg)
        if word == "minimum":
            return not self.number(j) or j >= arg
        if word == "maximum":
            return not self.number(j) or j <= arg
        if word == "exclusiveMinimum":
            return not self.number(j) or j > arg
        if word == "exclusiveMaximum":
            return not self.number(j) or j < arg
        if word == "multipleOf":
            return not self.number(j) or multiple(j, arg)
        if word == "minLength":
            return not ctx.is_a(j, str) or len(j) >= arg
        if word == "maxLength":
            return not ctx.is_a(j, str) or len(j) <= arg
        if word == "pattern":
            return not ctx.is_a(j, str) or search(arg, j)
        if word == "minItems":
            return not ctx.is_a(j, list) or len(j) >= arg
        if word == "maxItems":
            return not ctx.is_a(j, list) or len(j) <= arg
        if word == "uniqueItems":
            return not arg or not ctx.is_a(j, list) or self.unique(j)
        if word == "minProperties":
            return not ctx.is_a(j, dict) or len(j) >= arg
        if word == "maxProperties":
            return not ctx.is_a(j, dict) or len(j) <= arg
        if word == "required":
            return not ctx.is_a(j, dict) or all([n in j for n in arg])
        if word == "propertyNames":
            return not ctx.is_a(j, dict) or ctx.all_of([self.valid(n, arg) for n in j])
        raise Unsupported(word)

    def members(self, j, schema):
        ctx = self.ctx
        if not ctx.is_a(j, dict):
            return True
        props = schema.get("properties", {})
        patterns = schema.get("patternProperties", {})
        other = schema.get("additionalProperties", True)
        conds = []
        for name, value in j.items():
            known = False
            for p, s in props.items():
                if name == p:
                    known = True
                    c = self.valid(value, s)
                    if c is False:
                        return False
                    conds.append(c)
                    break
            for p, s in patterns.items():
                if search(p, name):
                    known = True
                    conds.append(self.valid(value, s))
            if not known and other is not True:
                c = self.valid(value, other)
                if c is False:
                    return False
                conds.append(c)
        return ctx.all_of(conds)

    def elements(self, j, schema):
        ctx = self.ctx
        if not ctx.is_a(j, list):
            return True
        prefix = schema.get("prefixItems", [])
        rest = schema.get("items", True)
        conds = []
        for i, value in enumerate(j):
            s = prefix[i] if i < len(prefix) else rest
            if s is not True:
                c = self.valid(value, s)
                if c is False:
                    return False
                conds.append(c)
        return ctx.all_of(conds)

    def unique(self, j):
        for i in range(len(j)):
            for k in range(i):
                if self.equal(j[i], j[k]):
                    return False
        return True

    def equal(self, a, b):
        "Equality of JSON values."
        ctx = self.ctx
        if a is None or b is None:
            return a is None and b is None
        if ctx.is_a(a, bool) or ctx.is_a(b, bool):
            return ctx.is_a(a, bool) and ctx.is_a(b, bool) and a == b
        if ctx.is_a(a, str) or ctx.is_a(b, str):
            return ctx.is_a(a, str) and ctx.is_a(b, str) and a == b
        if self.number(a) or self.number(b):
            return self.number(a) and self.number(b) and a == b
        if ctx.is_a(a, list) or ctx.is_a(b, list):
            if not (ctx.is_a(a, list) and ctx.is_a(b, list)) or len(a) != len(b):
                return False
            return all([bool(self.equal(x, y)) for x, y in zip(a, b)])
        if len(a) != len(b):
            return False
        return all([k in b and bool(self.equal(a[k], b[k])) for k in a])

    def well_formed(self, j, name):
        if not self.ctx.is_a(j, str):
            return True
        try:
            if name == "base64":
                base64.b64decode(j, validate=True)
            elif name == "date":
                datetime.date.fromisoformat(j)
            elif name == "time":
                datetime.time.fromisoformat(j)
            elif name == "date-time":
                t = datetime.datetime.fromisoformat(j[:-1] + "+00:00" if j.endswith("Z") else j)
                return t.tzinfo is not None
            elif name == "duration":
                return duration(j)
            elif name == "uuid":
                uuid.UUID(j)
            elif name == "ipv4":
                ipaddress.IPv4Address(j)
            elif name == "ipv6":
                ipaddress.IPv6Address(j)
        except ValueError:
            return False
        return True


def duration(j):
    "A duration of the documented form that is within the range of the Python type."
    m = re.match(r"P(?=T?[0-9])(?:([0-9]{1,6})W)?(?:([0-9]{1,6})D)?(?:T(?=[0-9])(?:([0-9]{1,6})H)?(?:([0-9]{1,6})M)?(?:([0-9]{1,6})(?:[.][0-9]{1,6})?S)?)?\Z", j)
    return m is not None


def search(pattern, text):
    "Search for a regular expression of ECMAScript, where a dollar sign stands for the end of the text only."
    if pattern.endswith("$") and not pattern.endswith("\\$"):
        pattern = pattern[:-1] + "\\Z"
    return re.search(pattern, text) is not None


class Dec:
    "A decimal number: an integer and how many of its digits are after the decimal point."

    def __init__(self, n, places):
        self.n, self.unit = n, 10**places

    def __gt__(self, o):
        return self.n > o * self.unit

    def __lt__(self, o):
        return self.n < o * self.unit

    def __ge__(self, o):
        return self.n >= o * self.unit

    def __le__(self, o):
        return self.n <= o * self.unit


def multiple(x, unit):
    "Whether a number is a multiple of another, both taken as the decimal number they are written as."
    places = 0
    while unit != int(unit):
        unit = decimal.Decimal(repr(unit)) * 10 if isinstance(unit, float) else unit * 10
        places = places + 1
    unit = int(unit)
    if isinstance(x, Dec):
        return x.n * 10**places % (unit * x.unit) == 0
    if isinstance(x, float):
        raise Unsupported("multiple of a floating-point number")
    return x * 10**places % unit == 0
