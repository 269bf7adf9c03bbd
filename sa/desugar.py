"""Memoising decorators and attribute dictionaries rewritten to the code they stand for, before analysis."""
import ast

HELPERS = '''
def _sa_memo(f):
    store = {}

    def wrapper(*args, **kwargs):
        key = (args, tuple(kwargs.items()))
        if key in store:
            return store[key]
        r = f(*args, **kwargs)
        store[key] = r
        return r
    return wrapper


def _sa_setdefault(o, n, v):
    if not hasattr(o, n):
        setattr(o, n, v)
    return getattr(o, n)

'''


def names(tree):
    """What the names of a module stand for, as far as functools is concerned."""
    m = {}
    for s in ast.walk(tree):
        if isinstance(s, ast.ImportFrom) and s.module == "functools":
            for a in s.names:
                m[a.asname or a.name] = "functools." + a.name
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.name == "functools":
                    m[a.asname or a.name] = "functools"
    return m


def dotted(e, m):
    if isinstance(e, ast.Name):
        return m.get(e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, m)
        return b + "." + e.attr if b else None
    return None


class Memo(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m
        self.used = False

    def cache(self, d):
        n = dotted(d, self.m)
        if n in ("functools.lru_cache", "functools.cache"):
            return ast.Name("_sa_memo", ast.Load())
        if isinstance(d, ast.Call) and dotted(d.func, self.m) == "functools.lru_cache":
            if d.args and not isinstance(d.args[0], ast.Constant):
                return ast.Call(ast.Name("_sa_memo", ast.Load()), d.args[:1], [])
            return ast.Name("_sa_memo", ast.Load())
        return None

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for i, d in enumerate(n.decorator_list):
            r = self.cache(d)
            if r is not None:
                n.decorator_list[i] = ast.copy_location(r, d)
                ast.fix_missing_locations(n.decorator_list[i])
                self.used = True
            elif dotted(d, self.m) == "functools.cached_property":
                return self.prop(n, i, d)
        return n

    def prop(self, n, i, d):
        """cached_property: the value of the first access stays with the object, until it is set or deleted."""
        me = n.args.args[0].arg if n.args.args else "self"
        f = "_sa_cached_" + n.name
        inner = ast.FunctionDef(**dict({k: getattr(n, k) for k in n._fields}, name="_sa_compute", decorator_list=[]))
        src = '''
@property
def %(n)s(%(s)s):
    if hasattr(%(s)s, "%(f)s"):
        return %(s)s.%(f)s
    %(s)s.%(f)s = _sa_compute(%(s)s)
    return %(s)s.%(f)s

@%(n)s.setter
def %(n)s(%(s)s, value):
    %(s)s.%(f)s = value

@%(n)s.deleter
def %(n)s(%(s)s):
    del %(s)s.%(f)s
''' % {"n": n.name, "s": me, "f": f}
        new = ast.parse(src).body
        new[0].body.insert(0, inner)
        for x in new:
            relocate(x, d)
        return new

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, n):
        self.generic_visit(n)
        f = dotted(n.func, self.m)
        if isinstance(n.func, ast.Attribute) and not n.keywords and n.args and lit_name(n.args[0]):
            o = attrs_of(n.func.value)
            if o is not None:
                r = None
                if n.func.attr == "get" and len(n.args) <= 2:
                    r = call("getattr", n, o, n.args[0], n.args[1] if len(n.args) == 2 else ast.Constant(None))
                elif n.func.attr == "setdefault" and len(n.args) == 2:
                    self.used = True
                    r = call("_sa_setdefault", n, o, *n.args)
                elif n.func.attr == "__setitem__" and len(n.args) == 2:
                    r = call("setattr", n, o, *n.args)
                if r is not None:
                    return r
        if f in ("functools.lru_cache", "functools.cache"):        # name = lru_cache(...)(function)
            self.used = True
            lit = not n.args or isinstance(n.args[0], ast.Constant)
            r = ast.Name("_sa_memo", ast.Load()) if f.endswith("lru_cache") and lit else ast.Call(ast.Name("_sa_memo", ast.Load()), n.args[:1], [])
            return ast.fix_missing_locations(ast.copy_location(r, n))
        return n


    def visit_Subscript(self, n):
        self.generic_visit(n)
        o = attrs_of(n.value)
        if o is not None and lit_name(n.slice):
            return ast.copy_location(ast.Attribute(o, n.slice.value, n.ctx), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and lit_name(n.left):
            o = attrs_of(n.comparators[0])
            if o is not None:
                r = call("hasattr", n, o, n.left)
                return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n


def lit_name(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, str)


def attrs_of(e):
    """The object whose attribute dictionary the expression is."""
    if isinstance(e, ast.Attribute) and e.attr == "__dict__":
        return e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "vars" and len(e.args) == 1:
        return e.args[0]
    return None


def call(f, at, *args):
    return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name(f, ast.Load()), list(args), []), at))


def relocate(x, d):
    for y in ast.walk(x):
        if isinstance(y, ast.FunctionDef) and y.name == "_sa_compute":
            continue
        if hasattr(y, "lineno") and y.lineno < d.lineno:
            y.lineno, y.end_lineno = d.lineno, d.lineno
    ast.fix_missing_locations(x)


def desugar(tree):
    m = names(tree)
    if not m and not any(isinstance(x, ast.Attribute) and x.attr == "__dict__" or isinstance(x, ast.Name) and x.id == "vars"
                         for x in ast.walk(tree)):
        return tree
    t = Memo(m)
    tree = t.visit(tree)
    if t.used:
        h = ast.parse(HELPERS).body
        i = 0
        while i < len(tree.body) and (isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant) or
                                      isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__"):
            i += 1
        tree.body[i:i] = h
    return tree
