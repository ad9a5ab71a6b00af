"JSON text of values with symbolic parts: the encoder of the standard library, in pure Python, is executed symbolically."

import importlib.util
import json
import json.encoder
import types

PURE = None


def pure():
    global PURE
    if PURE is None:
        from . import instrument

        path = json.encoder.__file__
        with open(path, encoding="utf-8") as f:
            code = instrument.transform(f.read(), path, "json.encoder", False, True)
        m = types.ModuleType("se_shadow_json_encoder")
        m.__file__ = path
        m.__dict__.update(instrument.helpers())
        exec(code, m.__dict__)
        m.c_make_encoder = m.c_encode_basestring = m.c_encode_basestring_ascii = None
        m.encode_basestring, m.encode_basestring_ascii = m.py_encode_basestring, m.py_encode_basestring_ascii
        PURE = m
    return PURE


def encode(self, o):
    return pure().JSONEncoder.encode(self, o)


def iterencode(self, o, _one_shot=False):
    return pure().JSONEncoder.iterencode(self, o, _one_shot)


def encoder(cls=None, **kw):
    return (cls or json.JSONEncoder)(**kw)


def dumps(obj, **kw):
    e = encoder(**kw)
    if type(e).encode is not json.JSONEncoder.encode:
        return e.encode(obj)
    return encode(e, obj)


def dump(obj, fp, **kw):
    from .models import se_call

    e = encoder(**kw)
    if type(e).iterencode is not json.JSONEncoder.iterencode:
        chunks = e.iterencode(obj)
    else:
        chunks = iterencode(e, obj)
    for chunk in chunks:
        se_call(fp.write, chunk)
