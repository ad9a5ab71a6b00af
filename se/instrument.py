"""
Instrumentation of Python source: calls, subscripts, identity / membership tests, displays and format operations inside
function bodies are routed through the dispatcher in models.py, so that built-in code never sees a symbolic value.

The source is read anew from the repository on every run; nothing is cached on disk.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import inspect
import os
import sys
import textwrap
import types

SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}
FRAME_CALLS = {("inspect", "currentframe"), ("sys", "_getframe")}
SHADOWED = {"datetime": "_pydatetime", "uuid": "uuid", "ipaddress": "ipaddress", "base64": "base64"}
SHADOW_PREFIX = "se_shadow_"


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Transformer(ast.NodeTransformer):
    def __init__(self, module, shadow=True, enter=True):
        self.module = module
        self.depth = 0  # nesting of function bodies
        self.stack = []
        self.shadow = shadow
        self.enter = enter

    # ---- scopes

    def _function(self, node):
        node.decorator_list = list(node.decorator_list)  # evaluated natively
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        self.stack.append(node.name)
        self.depth += 1
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        self.depth -= 1
        if self.enter:
            i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
            body.insert(i, ast.Expr(_call("_se_enter", ast.Constant(f"{self.module}:{'.'.join(self.stack)}"))))
        self.stack.pop()
        node.body = body
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.stack.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.stack.pop()
        self.depth = depth
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # ---- imports

    def visit_Import(self, node):
        if not self.shadow:
            return node
        out = []
        for a in node.names:
            if a.name in SHADOWED:
                out.append(ast.Import(names=[ast.alias(name=SHADOW_PREFIX + a.name, asname=a.asname or a.name)]))
            else:
                out.append(ast.Import(names=[a]))
        return [ast.copy_location(o, node) for o in out]

    def visit_ImportFrom(self, node):
        if self.shadow and node.level == 0 and node.module in SHADOWED:
            node.module = SHADOW_PREFIX + node.module
        return node

    # ---- expressions

    def visit_Call(self, node):
        if self.depth == 0:
            return self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "_se_point":
            return node
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            return self.generic_visit(node)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id, f.attr) in FRAME_CALLS:
            node = self.generic_visit(node)
            node.func = _name("_se_currentframe")
            return node
        node = self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name("_se_call"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if self.depth == 0 or len(node.ops) != 1:
            return node
        h = {ast.Is: "_se_is", ast.IsNot: "_se_is_not", ast.In: "_se_in", ast.NotIn: "_se_not_in"}.get(type(node.ops[0]))
        if h is None:
            return node
        return ast.copy_location(_call(h, node.left, node.comparators[0]), node)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return ast.copy_location(_call("_se_not", node.operand), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("_se_mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        if self.depth == 0:
            return self.generic_visit(node)
        return ast.copy_location(self._fstr(node), node)

    def _fstr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                spec = ast.Constant("") if v.format_spec is None else self._fstr(v.format_spec)
                args.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return _call("_se_fstr", *args)

    def _index(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(func=_name("_se_slice"), args=[s.lower or n, s.upper or n, s.step or n], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._index(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if self.depth == 0 or not isinstance(node.ctx, ast.Load):
            return node
        if isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in node.slice.elts):
            return node
        return ast.copy_location(_call("_se_getitem", node.value, self._index(node.slice)), node)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if self.depth == 0:
            return node
        args = []
        for k, v in zip(node.keys, node.values):
            args.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return ast.copy_location(_call("_se_dict", *args), node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        if self.depth == 0:
            return node
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_call("_se_dictcomp", gen), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if self.depth == 0:
            return node
        return ast.copy_location(_call("_se_set", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        if self.depth == 0:
            return node
        return ast.copy_location(_call("_se_set", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    # ---- statements

    def visit_Return(self, node):
        node = self.generic_visit(node)
        if self.depth and self.stack and self.stack[-1] == "__bool__" and node.value is not None:
            node.value = _call("_se_truth", node.value)
        return node

    def visit_Assign(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            value = self.visit(node.value)
            o, k = self.visit(t.value), self._index(self.visit(t.slice))
            return ast.copy_location(ast.Expr(_call("_se_setitem", o, k, value)), node)
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        if self.depth and isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            value = self.visit(node.value)
            return ast.copy_location(ast.Assign(targets=[node.target], value=_call("_se_mod", _name(node.target.id), value)), node)
        return self.generic_visit(node)

    def visit_Delete(self, node):
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_call("_se_delitem", self.visit(t.value), self._index(self.visit(t.slice)))), node)
        return self.generic_visit(node)

    def visit_Match(self, node):
        node = self.generic_visit(node)
        if self.depth:
            node.subject = _call("_se_subject", node.subject)
        return node


def transform(source, filename, module, shadow=True, enter=True, points=None):
    tree = ast.parse(source, filename)
    if points:
        tree = points.insert(tree)
    # generic_visit on function signatures would rewrite annotations; _function leaves them alone
    tree = Transformer(module, shadow, enter).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


def helpers():
    from . import models

    return dict(models.HELPERS, _se_slice=slice)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, package, shadow, enter):
        self.fullname, self.path, self.package, self.shadow, self.enter = fullname, path, package, shadow, enter

    def create_module(self, spec):
        return None

    def get_source(self, fullname):
        with open(self.path, encoding="utf-8") as f:
            return f.read()

    def exec_module(self, module):
        points = None
        if sys.modules.get("se.threads") and sys.modules["se.threads"].ENABLED and self.fullname.split(".")[0] == "strong_typing":
            points = sys.modules["se.threads"]
        code = transform(self.get_source(self.fullname), self.path, self.fullname, self.shadow, self.enter, points)
        module.__dict__.update(helpers())
        if points:
            module.__dict__[points.POINT] = points.point
        exec(code, module.__dict__)
        LOADED.append(module)


LOADED = []


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # top-level package name -> directory that holds it

    def find_spec(self, fullname, path=None, target=None):
        root = fullname.split(".")[0]
        if root.startswith(SHADOW_PREFIX):
            name = SHADOWED[root[len(SHADOW_PREFIX) :]]
            file = os.path.join(os.path.dirname(os.__file__), name + ".py")
            return importlib.util.spec_from_file_location(fullname, file, loader=Loader(fullname, file, False, False, True))
        base = self.roots.get(root)
        if base is None:
            return None
        p = os.path.join(base, *fullname.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            file = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, file, loader=Loader(fullname, file, True, True, True), submodule_search_locations=[p]
            )
        if os.path.isfile(p + ".py"):
            return importlib.util.spec_from_file_location(fullname, p + ".py", loader=Loader(fullname, p + ".py", False, True, True))
        return None


INSTALLED = False


def install(roots):
    global INSTALLED
    INSTALLED = True
    sys.meta_path.insert(0, Finder(roots))


def function_copy(fn):
    "Instrumented copy of one pure Python function; the function itself if that is not possible."
    try:
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
    except (OSError, TypeError, SyntaxError):
        return fn
    node = tree.body[0]
    if not isinstance(node, ast.FunctionDef) or fn.__code__.co_freevars:
        return fn
    node.decorator_list = []
    for a in [*node.args.args, *node.args.kwonlyargs, *node.args.posonlyargs, node.args.vararg, node.args.kwarg]:
        if a is not None:
            a.annotation = None
    node.returns = None
    node.args.defaults = [ast.Constant(None) for _ in node.args.defaults]
    node.args.kw_defaults = [None if d is None else ast.Constant(None) for d in node.args.kw_defaults]
    t = Transformer(fn.__module__, False, True)
    t.stack = fn.__qualname__.split(".")[:-1]
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    g = dict(fn.__globals__)
    g.update(helpers())
    ns = {}
    exec(compile(tree, inspect.getsourcefile(fn) or "<copy>", "exec", dont_inherit=True), g, ns)
    new = ns[node.name]
    new = types.FunctionType(new.__code__, g, fn.__name__, fn.__defaults__, new.__closure__)
    new.__kwdefaults__ = fn.__kwdefaults__
    return new


# ------------------------------------------------------------------------------------------------- state between paths


class State:
    """Contents of module globals, class attributes and module-level objects of the loaded modules, restored before each
    path so that re-execution is deterministic and paths do not affect one another."""

    def __init__(self, modules):
        self.modules = modules
        self.saved = []
        self.caches = []
        seen = set()
        for m in modules:
            for name, v in list(m.__dict__.items()):
                self._object(v, m.__name__, seen, 0)

    def _container(self, v, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, dict):
            self.saved.append(("dict", v, list(v.items())))
        elif isinstance(v, list):
            self.saved.append(("list", v, list(v)))
        elif isinstance(v, set):
            self.saved.append(("set", v, list(v)))

    def _object(self, v, module, seen, depth):
        if isinstance(v, (dict, list, set)):
            if type(v).__name__ in ("WeakValueDictionary", "WeakKeyDictionary"):
                return
            if id(v) not in seen:
                self._container(v, seen)
                if depth < 3 and isinstance(v, dict) and len(v) < 500:
                    for x in v.values():
                        if isinstance(x, (dict, list, set)) or hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType, types.FunctionType)):
                            self._object(x, module, seen, depth + 1)
            return
        if hasattr(v, "cache_clear"):
            if id(v) not in seen:
                seen.add(id(v))
                self.caches.append(v)
            return
        if isinstance(v, type):
            if id(v) in seen or "_se_call" not in getattr(sys.modules.get(v.__module__), "__dict__", ()):
                return
            seen.add(id(v))
            self._save_ns(dict(v.__dict__), lambda n, x, c=v: type.__setattr__(c, n, x), lambda n, c=v: type.__delattr__(c, n), v)
            for x in list(v.__dict__.values()):
                x = getattr(x, "__func__", x)
                if isinstance(x, property):
                    x = x.fget
                if isinstance(x, (dict, list, set, types.FunctionType)) or hasattr(x, "cache_clear"):
                    self._object(x, module, seen, depth + 1)
                elif hasattr(x, "__dict__") and not isinstance(x, (type, types.ModuleType)):
                    self._object(x, module, seen, depth + 1)
            return
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict) and not isinstance(v, (types.ModuleType, types.FunctionType)):
            if "_se_call" in getattr(sys.modules.get(type(v).__module__), "__dict__", ()) and id(v) not in seen:
                seen.add(id(v))
                self.saved.append(("dict", d, list(d.items())))
                for x in list(d.values()):
                    self._object(x, module, seen, depth + 1)
        elif isinstance(v, types.FunctionType) and id(v) not in seen and v.__module__ == module:
            seen.add(id(v))
            if v.__dict__:
                self.saved.append(("dict", v.__dict__, list(v.__dict__.items())))
            inner = list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())
            for c in v.__closure__ or ():
                try:
                    inner.append(c.cell_contents)
                except ValueError:
                    pass
            for x in inner:
                if isinstance(x, (dict, list, set, types.FunctionType)):
                    self._object(x, module, seen, depth + 1)

    def _save_ns(self, ns, setter, deleter, owner=None):
        self.saved.append(("ns", owner, dict(ns), setter, deleter))

    def restore(self):
        for s in self.saved:
            if s[0] == "ns":
                owner, ns, setter, deleter = s[1:]
                cur = owner.__dict__
                for n in list(cur):
                    if n not in ns and n not in ("__weakref__", "__dict__", "__abstractmethods__", "_abc_impl"):
                        try:
                            deleter(n)
                        except (AttributeError, TypeError):
                            pass
                for n, v in ns.items():
                    if cur.get(n) is not v:
                        try:
                            setter(n, v)
                        except (AttributeError, TypeError):
                            pass
            elif s[0] == "dict":
                _, d, items = s
                if len(d) != len(items) or any(a is not c or b is not e for (a, b), (c, e) in zip(d.items(), items)):
                    d.clear()
                    for k, v in items:
                        d[k] = v
            elif s[0] == "list":
                s[1][:] = s[2]
            elif s[0] == "set":
                s[1].clear()
                s[1].update(s[2])
        for m, ns in self.module_ns:
            for n in list(m.__dict__):
                if n not in ns:
                    del m.__dict__[n]
            for n, v in ns.items():
                if m.__dict__.get(n) is not v:
                    m.__dict__[n] = v
        for c in self.caches:
            c.cache_clear()


def snapshot(modules):
    st = State(modules)
    st.module_ns = [(m, dict(m.__dict__)) for m in modules]
    return st
