"Plain Python values as JSON, for replay files and the native process."


def enc(x):
    t = type(x)
    if x is None or t in (bool, str):
        return x
    if t is int:
        return x if abs(x) < 2**53 else {"$i": str(x)}
    if t is float:
        return {"$f": x.hex()}
    if t is bytes:
        return {"$b": x.hex()}
    if t is list:
        return [enc(v) for v in x]
    if t is tuple:
        return {"$t": [enc(v) for v in x]}
    if t is dict:
        return {"$d": [[enc(k), enc(v)] for k, v in x.items()]}
    raise TypeError(t)


def dec(x):
    if isinstance(x, list):
        return [dec(v) for v in x]
    if isinstance(x, dict):
        ((k, v),) = x.items()
        if k == "$i":
            return int(v)
        if k == "$f":
            return float.fromhex(v)
        if k == "$b":
            return bytes.fromhex(v)
        if k == "$t":
            return tuple(dec(y) for y in v)
        if k == "$d":
            return {dec(a): dec(b) for a, b in v}
    return x
