"""
Native execution of a harness on concrete inputs, against the uninstrumented code in the repository.

As a server: reads one JSON request per line, runs it in a forked child, answers with one JSON line.
As a command: native.py REPLAY_FILE runs the counterexample in a file; exits with 1 if the property is violated.
"""

import enum
import importlib
import json
import math
import os
import signal
import struct
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from se.codec import dec, enc  # noqa: E402


class Failed(BaseException):
    pass


class Rejected(BaseException):
    pass


class Ctx:
    native = True

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []
        self.labels = []
        self.checks = 0

    def _get(self, name):
        if name not in self.inputs:
            raise Rejected(f"no input {name}")
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Rejected(name)
        return v

    def bool(self, name):
        return self._get(name)

    def float(self, name, finite=True):
        return self._get(name)

    def str(self, name, minlen=0, maxlen=None):
        return self._get(name)

    def text(self, name, maxlen, minlen=0, alphabet=None):
        self._get(name + ".len")
        return self._get(name)

    def size(self, name, hi, lo=0):
        return self._get(name)

    def choice(self, name, options):
        return options[self._get(name)]

    def flag(self, name):
        return self._get(name)

    def bytes(self, name, maxlen, minlen=0):
        return self._get(name)

    def json(self, name, depth=2, width=2, kinds=None, keys=None, extra=True):
        return self._get(name)

    def subset(self, name, items):
        flags = [self.bool(f"{name}.{i}") for i in range(len(items))]
        return {x for x, f in zip(items, flags) if f}, flags

    def has(self, s, x):
        return x in s

    def assume(self, c):
        if not c:
            raise Rejected("assumption")

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise Failed(msg)

    def fail(self, msg):
        raise Failed(msg)

    def same(self, a, b):
        return same(a, b)

    def check_same(self, a, b, msg):
        self.checks += 1
        if not same(a, b):
            raise Failed(f"{msg}: {short(a)} / {short(b)}")

    def all_of(self, cs):
        return all([bool(c) for c in cs])

    def any_of(self, cs):
        return any([bool(c) for c in cs])

    def not_(self, c):
        return not c

    def observe(self, x):
        self.observed.append(x)

    def label(self, name):
        self.labels.append(name)

    def snapshot(self, x):
        return snapshot(x)

    def unchanged(self, x, snap):
        return same(x, snap, True)

    def containers(self, x):
        out = {}
        _containers(x, out)
        return out

    def shares(self, x, y):
        a, b = {}, {}
        _containers(x, a)
        _containers(y, b)
        return any(k in b for k in a)

    def once(self, key, fn):
        return fn()

    def reached(self, n, at, name):
        return n == at

    def isolated(self, fn, key=None):
        "Runs a function in a process of its own."
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = json.dumps(enc(fn())).encode()
            except BaseException as ex:
                data = json.dumps({"$failed": f"{type(ex).__name__}: {ex}"}).encode()
            while data:
                data = data[os.write(w, data) :]
            os._exit(0)
        os.close(w)
        chunks = []
        while c := os.read(r, 65536):
            chunks.append(c)
        os.close(r)
        os.waitpid(pid, 0)
        data = json.loads(b"".join(chunks))
        if type(data) is dict and "$failed" in data:
            raise Failed(f"unexpected {data['$failed']}")
        return dec(data)

    def class_of(self, x):
        return type(x)

    def is_a(self, x, typ):
        return type(x) is typ


def short(x):
    r = repr(x)
    return r if len(r) < 200 else r[:200] + "..."


class Snap:
    "What the attributes of an object were."

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


VALUES = ("datetime", "uuid", "ipaddress", "decimal", "builtins", "enum", "typing", "types")


def _opaque(t):
    return t.__module__ in VALUES or t.__module__.startswith(("se_shadow", "_py")) or issubclass(t, (type, enum.Enum))


def snapshot(x):
    t = type(x)
    if t is dict:
        return {k: snapshot(v) for k, v in x.items()}
    if t in (list, tuple):
        return t(snapshot(v) for v in x)
    if t is set:
        return set(x)
    if not _opaque(t):
        if issubclass(t, tuple):
            return t(*[snapshot(v) for v in x])
        a = attributes(x)
        if a is not None:
            return Snap(t, {k: snapshot(v) for k, v in a.items()})
    return x


def _containers(x, out):
    if isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out[id(x)] = x
        for v in x:
            _containers(v, out)
    elif isinstance(x, dict):
        out[id(x)] = x
        for k, v in x.items():
            _containers(k, out)
            _containers(v, out)
    elif isinstance(x, (set, frozenset)):
        if isinstance(x, set):
            out[id(x)] = x
        for v in x:
            _containers(v, out)
    elif not _opaque(type(x)):
        a = attributes(x)
        if a is not None and id(x) not in out:
            out[id(x)] = x
            for v in a.values():
                _containers(v, out)


def same(a, b, order=False):
    if a is b:
        return True
    if type(b) is Snap:
        attrs = attributes(a)
        return type(a) is b.cls and list(attrs) == list(b.attrs) and all(same(v, b.attrs[k], order) for k, v in attrs.items())
    ca, cb = type(a), type(b)
    if ca is not cb:
        return False
    if ca is float:
        return struct.pack(">d", a) == struct.pack(">d", b) or (math.isnan(a) and math.isnan(b))
    if issubclass(ca, (enum.Enum, type)):
        return False
    if issubclass(ca, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, order) for x, y in zip(a, b))
    if issubclass(ca, dict):
        if len(a) != len(b):
            return False
        if order:
            return all(same(k, l, order) and same(v, w, order) for (k, v), (l, w) in zip(a.items(), b.items()))
        keys = {k: k for k in b}
        return all(k in b and same(k, keys[k]) and same(v, b[k]) for k, v in a.items())
    if issubclass(ca, (set, frozenset)):
        return a == b
    if ca.__module__ in ("datetime", "uuid", "ipaddress", "decimal"):
        if a != b:
            return False
        if ca.__name__ in ("datetime", "time"):
            return (a.tzinfo is None) == (b.tzinfo is None) and (a.tzinfo is None or a.utcoffset() == b.utcoffset())
        return True
    if issubclass(ca, (str, int, float, bytes)):
        return a == b
    x, y = attributes(a), attributes(b)
    if x is not None:
        return list(x) == list(y) and all(same(v, y[k], order) for k, v in x.items())
    return bool(a == b)


def attributes(x):
    d = getattr(x, "__dict__", None)
    out = {}
    if type(d) is dict:
        out.update(sorted(d.items()))
    slots = False
    for c in type(x).__mro__:
        sl = c.__dict__.get("__slots__")
        if sl is not None:
            slots = True
            for n in (sl,) if isinstance(sl, str) else sl:
                if n not in ("__weakref__", "__dict__") and hasattr(x, n):
                    out[n] = getattr(x, n)
    if type(d) is not dict and not slots:
        return None
    return out


def plain(x):
    t = type(x)
    if x is None or t in (bool, int, str, float, bytes):
        return x
    if issubclass(t, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if t in (list, tuple):
        return t(plain(v) for v in x)
    if issubclass(t, (set, frozenset)):
        return sorted((plain(v) for v in x), key=repr)
    if issubclass(t, type):
        return x.__name__
    if issubclass(t, BaseException):
        return t.__name__
    if issubclass(t, enum.Enum):
        return f"{t.__name__}.{x.name}"
    return None


def find(module, name):
    m = importlib.import_module("harness." + module)
    for ob in m.obligations():
        if ob.name == name:
            return ob
    raise KeyError(name)


def execute(module, name, inputs):
    try:
        ob = find(module, name)
    except Exception as ex:
        return {"r": "error", "msg": f"unexpected {type(ex).__name__}: {str(ex)[:200]}"}
    ctx = Ctx(inputs)
    try:
        ob.fn(ctx, *ob.args)
    except Failed as ex:
        return {"r": "fail", "msg": str(ex)}
    except Rejected as ex:
        return {"r": "rejected", "msg": str(ex)}
    except Exception as ex:
        import traceback

        tb = traceback.extract_tb(ex.__traceback__)
        where = " < ".join(f"{f.name}:{f.lineno}" for f in reversed(tb[-4:]))
        return {"r": "fail", "msg": f"unexpected {type(ex).__name__}: {str(ex)[:200]} [{where}]"}
    obs = []
    for x in ctx.observed:
        try:
            obs.append(enc(plain(x)))
        except Exception:
            obs.append(None)
    return {"r": "ok", "observed": obs, "labels": ctx.labels, "checks": ctx.checks}


def serve():
    mods = set()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        if req["mod"] not in mods:
            mods.add(req["mod"])
            try:
                importlib.import_module("harness." + req["mod"])
            except Exception:
                pass
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, req.get("timeout", 20))
            signal.alarm(6 * req.get("timeout", 20))
            try:
                res = execute(req["mod"], req["ob"], {k: dec(v) for k, v in req["inputs"].items()})
            except BaseException as ex:
                res = {"r": "error", "msg": f"{type(ex).__name__}: {ex}"}
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(w, data) :]
            os._exit(0)
        os.close(w)
        chunks = []
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            chunks.append(c)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        data = b"".join(chunks)
        if not data and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF:
            data = json.dumps({"r": "hang", "msg": "did not end"}).encode()
        out.write((data.decode() if data else json.dumps({"r": "crash", "msg": f"exit status {status} (timed out or crashed)"})) + "\n")
        out.flush()


def main():
    if len(sys.argv) > 1:
        with open(sys.argv[1], encoding="utf-8") as f:
            req = json.load(f)
        res = execute(req["mod"], req["ob"], {k: dec(v) for k, v in req["inputs"].items()})
        print(json.dumps(res, indent=1))
        sys.exit(1 if res["r"] == "fail" else 0)
    serve()


if __name__ == "__main__":
    main()
