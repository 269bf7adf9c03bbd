#!/usr/bin/env python3
"""Whole-package behaviour-preserving rewrites: refactor.py [-k NAME[,NAME]] [-t] [CHECK...]

Each transformation rewrites every module of a scratch copy of /repo/pycose; with -t the repository's stable tests are run on
the copy first (a transformation that loses one is not behaviour preserving and is reported as BAD).  Every check must then
exit 0 on the copy."""
import argparse, ast, concurrent.futures as cf, copy, glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef,)
cnt = [0]


def fresh(p="_t"):
    cnt[0] += 1
    return "%s%d" % (p, cnt[0])


def nm(s, store=False):
    return ast.Name(s, ast.Store() if store else ast.Load())


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


class StmtT(ast.NodeTransformer):
    """rewrites statement lists through `stmts`, only inside functions"""
    depth = 0

    def stmts(self, body):
        return body

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.depth or isinstance(n, FN):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(n, f, self.stmts(b))
        return n


class Id(ast.NodeTransformer):
    pass


class RetTemp(StmtT):
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                t = fresh("_res")
                o += [ast.Assign([nm(t, 1)], s.value), ast.Return(nm(t))]
            else:
                o.append(s)
        return o


class IfInvert(StmtT):
    def stmts(self, b):
        for s in b:
            if isinstance(s, ast.If) and s.orelse:
                s.test = ast.UnaryOp(ast.Not(), s.test)
                s.body, s.orelse = s.orelse, s.body
        return b


class GuardNest(StmtT):
    """if c: raise/return ; rest  ->  if c: ... else: rest"""
    def stmts(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)) and b[i + 1:]:
                s.orelse = self.stmts(b[i + 1:])
                return b[:i + 1]
        return b


class Unelse(StmtT):
    """if c: ...return ; else: rest -> if c: ...return ; rest"""
    def stmts(self, b):
        o = []
        for i, s in enumerate(b):
            o.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                r, s.orelse = s.orelse, []
                o += self.stmts(r)
        return o


class AndSplit(StmtT):
    def stmts(self, b):
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                v = s.test.values
                s.test = v[0]
                s.body = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), s.body, [])]
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) \
                    and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                v = s.test.values
                s.test = v[0]
                s.orelse = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.Or(), v[1:]), copy.deepcopy(s.body), [])]
        return b


class InOr(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set)) \
                and simple(n.left) and n.comparators[0].elts and not any(isinstance(e, ast.Starred) for e in n.comparators[0].elts):
            neg = isinstance(n.ops[0], ast.NotIn)
            vs = [ast.Compare(copy.deepcopy(n.left), [ast.NotEq() if neg else ast.Eq()], [e]) for e in n.comparators[0].elts]
            return vs[0] if len(vs) == 1 else ast.BoolOp(ast.And() if neg else ast.Or(), vs)
        return n


class OrIn(ast.NodeTransformer):
    """membership containers: list -> tuple -> set-free"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = n.comparators[0]
            if isinstance(c, (ast.List, ast.Set)):
                n.comparators[0] = ast.Tuple(c.elts, ast.Load())
            elif isinstance(c, ast.Tuple):
                n.comparators[0] = ast.List(c.elts, ast.Load())
            if isinstance(n.ops[0], ast.NotIn):
                n.ops[0] = ast.In()
                return ast.UnaryOp(ast.Not(), n)
        return n


class IsInst(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass") and isinstance(n.args[1], ast.Tuple) and simple(n.args[0]):
            return ast.BoolOp(ast.Or(), [ast.Call(nm(n.func.id), [copy.deepcopy(n.args[0]), e], []) for e in n.args[1].elts])
        return n


class FStr(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            elif isinstance(v, ast.FormattedValue):
                if v.format_spec:
                    return n
                fmt += "{%s}" % ("" if v.conversion == -1 else "!" + chr(v.conversion))
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


class Noop(StmtT):
    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        k = 1 if isdoc(n.body[0]) else 0
        n.body[k:k] = ast.parse("_unused = None\nif _unused:\n    pass").body
        return n


class DocStrip(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        if isdoc(n.body[0]):
            n.body = n.body[1:] or [ast.Pass()]
        return n


class Super(ast.NodeTransformer):
    def __init__(self):
        self.cls, self.fn = [], []

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and len(self.fn) == 1 and self.cls:
            if n.args:
                n.args = []
            else:
                n.args = [nm(self.cls[-1]), nm(self.fn[-1].args.args[0].arg)]
        return n


class Ternary(StmtT):
    def stmts(self, b):
        o = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.IfExp):
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = v.body, v.orelse
                o.append(ast.If(v.test, [a], [c]))
            else:
                o.append(s)
        return o


class IfTernary(StmtT):
    """if c: return a / x = a ; else: ... -> one statement with a conditional expression"""
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value and y.value:
                    s = ast.Return(ast.IfExp(s.test, x.value, y.value))
                elif isinstance(x, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], ast.Name):
                    s = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
            o.append(s)
        return o


class CompLoop(StmtT):
    """x = [e for ..]/{k: v for ..} in an assignment or return -> loop"""
    def stmts(self, b):
        o = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1:
                g = v.generators[0]
                t = fresh("_acc")
                names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                ren = {x: fresh("_it") for x in names}

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.Name(ren.get(n.id, n.id), n.ctx)
                inner = lambda e: R().visit(copy.deepcopy(e))
                if isinstance(v, ast.ListComp):
                    add = ast.Expr(ast.Call(ast.Attribute(nm(t), "append", ast.Load()), [inner(v.elt)], []))
                    init = ast.List([], ast.Load())
                else:
                    add = ast.Assign([ast.Subscript(nm(t), inner(v.key), ast.Store())], inner(v.value))
                    init = ast.Dict([], [])
                body = [add]
                for c in reversed(g.ifs):
                    body = [ast.If(inner(c), body, [])]
                o += [ast.Assign([nm(t, 1)], init), ast.For(inner(g.target), g.iter, body, [])]
                s.value = nm(t)
            o.append(s)
        return o


class LoopComp(StmtT):
    """x = []; for t in it: x.append(e)   ->   x = [e for t in it]"""
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.For) and len(s.body) == 1 and not s.orelse and o and isinstance(o[-1], ast.Assign):
                c, p = s.body[0], o[-1]
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Attribute) \
                        and c.value.func.attr == "append" and ast.unparse(c.value.func.value) == ast.unparse(p.targets[0]) \
                        and isinstance(p.value, ast.List) and not p.value.elts:
                    p.value = ast.ListComp(c.value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                    continue
            o.append(s)
        return o


class Hoist(StmtT):
    """arguments that are calls are computed into temporaries first (evaluation order kept)"""
    def stmts(self, b):
        o = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(v, ast.Call) and simple(v.func):
                for i, a in enumerate(v.args):
                    if isinstance(a, ast.Starred):
                        break
                    if not isinstance(a, ast.Constant):
                        t = fresh("_arg")
                        o.append(ast.Assign([nm(t, 1)], a))
                        v.args[i] = nm(t)
                else:
                    for k in v.keywords:
                        if k.arg and not isinstance(k.value, ast.Constant):
                            t = fresh("_arg")
                            o.append(ast.Assign([nm(t, 1)], k.value))
                            k.value = nm(t)
            o.append(s)
        return o


class CondTemp(StmtT):
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                t = fresh("_cond")
                o.append(ast.Assign([nm(t, 1)], s.test))
                s.test = nm(t)
            o.append(s)
        return o


class Inline(StmtT):
    """t = e; <next statement uses t once and nothing else later>  -> inlined (e pure enough: next statement only)"""
    def visit_FunctionDef(self, n):
        self.depth += 1
        StmtT.generic_visit(self, n)
        self.depth -= 1
        uses = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                uses.setdefault(x.id, []).append(x)
        for m in ast.walk(n):
            for f in ("body", "orelse"):
                b = getattr(m, f, None)
                if not isinstance(b, list):
                    continue
                i = 0
                while i + 1 < len(b):
                    s, r = b[i], b[i + 1]
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                            and len(uses.get(s.targets[0].id, [])) == 2 and isinstance(r, ast.Return) and r.value is not None:
                        t = s.targets[0].id
                        if isinstance(r.value, ast.Name) and r.value.id == t:
                            r.value = s.value
                            del b[i]
                            continue
                    i += 1
        return n


class CmpSwap(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and (simple(n.left) or simple(n.comparators[0])):
            n.left, n.comparators = n.comparators[0], [n.left]
        elif len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            n.ops = [{ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]()]
            n.left, n.comparators = n.comparators[0], [n.left]
        return n


class CmpNot(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        inv = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
        if len(n.ops) == 1 and type(n.ops[0]) in inv:
            n.ops = [inv[type(n.ops[0])]()]
            return ast.UnaryOp(ast.Not(), n)
        return n


class DictBuild(StmtT):
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and s.value.keys and all(s.value.keys):
                t = fresh("_d")
                o.append(ast.Assign([nm(t, 1)], ast.Dict([], [])))
                o += [ast.Assign([ast.Subscript(nm(t), k, ast.Store())], v) for k, v in zip(s.value.keys, s.value.values)]
                s.value = nm(t)
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and s.value.elts \
                    and not any(isinstance(e, ast.Starred) for e in s.value.elts):
                t = fresh("_l")
                o.append(ast.Assign([nm(t, 1)], ast.List([], ast.Load())))
                o += [ast.Expr(ast.Call(ast.Attribute(nm(t), "append", ast.Load()), [e], [])) for e in s.value.elts]
                s.value = nm(t)
            o.append(s)
        return o


class AppendPlus(StmtT):
    """x.append(e) on a local -> x += [e];   x = x + .. untouched"""
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                    and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1:
                s = ast.AugAssign(nm(s.value.func.value.id, 1), ast.Add(), ast.List([s.value.args[0]], ast.Load()))
            o.append(s)
        return o


class LocalRename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        glob_ = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        params = {a.arg for m in ast.walk(n) if isinstance(m, (ast.FunctionDef, ast.Lambda))
                  for a in m.args.args + m.args.kwonlyargs + [x for x in (m.args.vararg, m.args.kwarg) if x]}
        hn = {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler)}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc - params - glob_ - hn:
                x.id = "local_" + x.id
        return n


class ParamCopy(ast.NodeTransformer):
    """parameters copied into locals first"""
    def visit_FunctionDef(self, n):
        ps = [a.arg for a in n.args.args if a.arg not in ("self", "cls")]
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n for x in ast.walk(n)) or not ps:
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars") for x in ast.walk(n)):
            return n
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, ast.Name) and x.id in ps:
                x.id = "in_" + x.id
        n.body[0:0] = [ast.Assign([nm("in_" + p, 1)], nm(p)) for p in ps]
        return n


class Impl(ast.NodeTransformer):
    """every undecorated method / property body moves to a helper method `_x_impl`"""
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        o = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(s)) \
                    and s.name not in ("__new__", "__init_subclass__"):
                dec = [ast.unparse(d) for d in s.decorator_list]
                if all(d in ("classmethod", "staticmethod", "property") or d.endswith(".setter") for d in dec) \
                        and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and False for x in ast.walk(s)):
                    h = copy.deepcopy(s)
                    set_ = any(d.endswith(".setter") for d in dec)
                    h.name = "_impl_%s%s_%s" % ("set_" if set_ else "", s.name.strip("_"), n.name.lower())
                    h.decorator_list = [d for d in h.decorator_list if ast.unparse(d) in ("classmethod", "staticmethod")]
                    for a in h.args.defaults:
                        pass
                    st = "staticmethod" in dec
                    args = [a.arg for a in s.args.args]
                    base = nm(n.name) if st else nm(args[0])
                    call = ast.Call(ast.Attribute(base, h.name, ast.Load()),
                                    [nm(a) for a in (args if st else args[1:])] + ([ast.Starred(nm(s.args.vararg.arg), ast.Load())] if s.args.vararg else []),
                                    [ast.keyword(a.arg, nm(a.arg)) for a in s.args.kwonlyargs] + ([ast.keyword(None, nm(s.args.kwarg.arg))] if s.args.kwarg else []))
                    s.body = ([s.body[0]] if isdoc(s.body[0]) else []) + [ast.Return(call)]
                    o.append(h)
            o.append(s)
        n.body = o
        return n


class NestedFn(ast.NodeTransformer):
    """every function body becomes a nested closure which is called"""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.FunctionDef, ast.Lambda)) and x is not n for x in ast.walk(n)):
            return n
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args for x in ast.walk(n)):
            return n
        ps = {a.arg for a in n.args.args}
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in ps for x in ast.walk(n)):
            return n
        if len(n.body) == 1:
            return n
        t = fresh("_inner")
        f = ast.FunctionDef(t, ast.arguments([], [], None, [], [], None, []), n.body, [], None)
        f.type_params = []
        n.body = [f, ast.Return(ast.Call(nm(t), [], []))]
        return n


class PropCall(ast.NodeTransformer):
    """@property def x -> def _get_x ; x = property(_get_x[, _set_x])"""
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        o = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and len(s.decorator_list) == 1:
                d = ast.unparse(s.decorator_list[0])
                if d == "property":
                    x = s.name
                    s.decorator_list = []
                    s.name = "_get_" + x
                    o += [s, ast.Assign([nm(x, 1)], ast.Call(nm("property"), [nm(s.name)], []))]
                    continue
                if d == s.name + ".setter":
                    x = s.name
                    s.decorator_list = []
                    s.name = "_set_" + x
                    o += [s, ast.Assign([nm(x, 1)], ast.Call(ast.Attribute(nm(x), "setter", ast.Load()), [nm(s.name)], []))]
                    continue
            o.append(s)
        n.body = o
        return n


class ImportAs(ast.NodeTransformer):
    """from m import N -> from m import N as N_x (module level, renamed throughout)"""
    def visit_Module(self, n):
        if any(isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == "__all__" for x in n.body):
            return n
        ren = {}
        for s in n.body:
            if isinstance(s, ast.ImportFrom) and s.module and s.module.startswith("pycose"):
                for a in s.names:
                    if a.name != "*" and not a.asname:
                        a.asname = a.name + "_x"
                        ren[a.name] = a.asname
        # a name bound anywhere else keeps its meaning: skip those modules
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id in ren or isinstance(x, ast.arg) and x.arg in ren:
                raise Skip
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        # re-exported for callers of this module
        n.body += [ast.Assign([nm(k, 1)], nm(v)) for k, v in ren.items() if self.reexport]
        return n
    reexport = True


class Skip(Exception):
    pass


class ExcSplit(ast.NodeTransformer):
    def visit_Try(self, n):
        self.generic_visit(n)
        hs = []
        for h in n.handlers:
            if isinstance(h.type, ast.Tuple):
                hs += [ast.ExceptHandler(e, h.name, copy.deepcopy(h.body)) for e in h.type.elts]
            else:
                hs.append(h)
        n.handlers = hs
        return n


class TryElse(ast.NodeTransformer):
    """statements after the first one of a try body stay; `return` in try is moved to a temp + after? (kept simple)"""


class ForWhile(StmtT):
    """for x in it: -> for i, x in enumerate(it):"""
    def stmts(self, b):
        for s in b:
            if isinstance(s, ast.For):
                s.target = ast.Tuple([nm(fresh("_i"), 1), s.target], ast.Store())
                s.iter = ast.Call(nm("enumerate"), [s.iter], [])
        return b


class ForList(StmtT):
    """for x in it: -> for x in list(it)"""
    def stmts(self, b):
        for s in b:
            if isinstance(s, ast.For):
                s.iter = ast.Call(nm("list"), [s.iter], [])
        return b


class FnAlias(StmtT):
    """lib.f(...) -> _f = lib.f; _f(...) for attribute calls on plain module names"""
    mods = {"cbor2", "utils", "headers", "os", "cosemessage"}

    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(getattr(s, "value", None), ast.Call):
                f = s.value.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.mods | {"self"}:
                    t = fresh("_f")
                    o.append(ast.Assign([nm(t, 1)], f))
                    s.value.func = nm(t)
            o.append(s)
        return o


class AttrLocal(StmtT):
    """x = self.attr read into a local before use in conditions: `if self.key is None` -> k = self.key; if k is None"""
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Attribute) and simple(s.test.left):
                t = fresh("_v")
                o.append(ast.Assign([nm(t, 1)], s.test.left))
                s.test.left = nm(t)
            o.append(s)
        return o


class Getattr(ast.NodeTransformer):
    """reads of self.x -> getattr(self, 'x')"""
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and not n.attr.startswith("__"):
            return ast.Call(nm("getattr"), [n.value, ast.Constant(n.attr)], [])
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n


class DelPop(StmtT):
    """del d[k] -> d.pop(k) is not the same on mappings without pop; `d[k] = v` -> d.__setitem__(k, v)"""
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and not isinstance(s.targets[0].slice, ast.Slice):
                t = s.targets[0]
                s = ast.Expr(ast.Call(ast.Attribute(t.value, "__setitem__", ast.Load()), [t.slice, s.value], []))
            o.append(s)
        return o


class LenZero(ast.NodeTransformer):
    """truth tests spelled out: `if x` keeps; `not a == b` etc; `len(x)` in a condition -> len(x) != 0"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.Call) and isinstance(n.test.func, ast.Name) and n.test.func.id == "len":
            n.test = ast.Compare(n.test, [ast.Gt()], [ast.Constant(0)])
        return n

    visit_IfExp = visit_If


class BoolAnd(ast.NodeTransformer):
    """if tests wrapped in not not"""
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), ast.UnaryOp(ast.Not(), n.test))
        return n


class SelfRenamed(ast.NodeTransformer):
    """self -> this"""
    def visit_FunctionDef(self, n):
        if n.args.args and n.args.args[0].arg in ("self", "cls"):
            old = n.args.args[0].arg
            new = {"self": "this", "cls": "klass"}[old]
            n.args.args[0].arg = new
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id == old:
                    x.id = new
        return n


class PrivRename:
    """private names renamed package wide (attributes, methods and module-level functions)"""
    def package(self, trees):
        names = set()
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    names.add(x.name)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add(x.attr)
                elif isinstance(x, ast.Assign):
                    names |= {y.id for y in x.targets if isinstance(y, ast.Name)}
        strs = {x.value for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        names = {n for n in names if re.match(r"_[a-zA-Z]", n) and n not in strs and n not in ("_Enc", "_")}
        tests = "".join(open(f).read() for f in glob.glob("/repo/tests/**/*.py", recursive=True))
        for t in trees.values():
            for x in ast.walk(t):
                for f in ("name", "attr", "id", "asname"):
                    v = getattr(x, f, None)
                    if isinstance(v, str) and v in names and not re.search(r"\b%s\b" % v, tests):
                        setattr(x, f, v + "_p")
        return trees


class TableSplit(ast.NodeTransformer):
    """class-level / module-level dict and list literals move to a module constant"""
    def visit_Module(self, n):
        o = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                for k in s.body:
                    if isinstance(k, ast.Assign) and isinstance(k.value, (ast.Constant, ast.List, ast.Dict)):
                        t = fresh("_CONST")
                        o.append(ast.Assign([nm(t, 1)], k.value))
                        k.value = nm(t)
            o.append(s)
        n.body = o
        return n


class RaiseTemp(StmtT):
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call) and not s.cause:
                t = fresh("_e")
                o += [ast.Assign([nm(t, 1)], s.exc), ast.Raise(nm(t), None)]
            else:
                o.append(s)
        return o


class KwArgs:
    """positional arguments of calls of package constructors/functions by unique name -> keywords"""
    def package(self, trees):
        sig = {}
        for t in trees.values():
            for c in ast.walk(t):
                if isinstance(c, ast.ClassDef):
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef) and f.name not in ("__init__",) and not f.name.startswith("__"):
                            st = any(ast.unparse(d) == "staticmethod" for d in f.decorator_list)
                            a = [x.arg for x in f.args.args][0 if st else 1:]
                            sig.setdefault(f.name, set()).add((tuple(a), bool(f.args.vararg)))
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and len(sig.get(x.func.attr, ())) == 1 \
                        and not any(isinstance(a, ast.Starred) for a in x.args) and isinstance(x.func.value, ast.Name) \
                        and x.func.value.id in ("self", "cls"):
                    names, va = next(iter(sig[x.func.attr]))
                    if va or len(x.args) > len(names):
                        continue
                    x.keywords = [ast.keyword(n, a) for n, a in zip(names, x.args)] + x.keywords
                    x.args = []
        return trees


class Walrus(StmtT):
    """x = e; if x ...: -> if (x := e) ...:"""
    def stmts(self, b):
        o = []
        for s in b:
            if isinstance(s, ast.If) and o and isinstance(o[-1], ast.Assign) and isinstance(o[-1].targets[0], ast.Name):
                t = o[-1].targets[0].id
                e = s.test
                if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and e.left.id == t:
                    e.left = ast.NamedExpr(nm(t, 1), o.pop().value)
            o.append(s)
        return o


class Lambda1(ast.NodeTransformer):
    """one-expression static/class-free helpers: string constants joined: 'abc' -> 'a' 'bc' is a no-op; bytes b'' -> bytes()"""
    def visit_Constant(self, n):
        if n.value == b"":
            return ast.Call(nm("bytes"), [], [])
        return n

    def visit_arguments(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) for s in n.body if True]
        return n

    def visit_MatchValue(self, n):
        return n


class MergeHandlers(StmtT):
    """x = d.get(k) / d.get(k, default) on plain names -> d[k] if k in d else default"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and simple(n.func.value) and len(n.args) in (1, 2) \
                and all(simple(a) for a in n.args) and not n.keywords:
            d = n.func.value
            k = n.args[0]
            return ast.IfExp(ast.Compare(copy.deepcopy(k), [ast.In()], [copy.deepcopy(d)]),
                             ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
        return n


T = {"unparse": Id, "rettemp": RetTemp, "ifinvert": IfInvert, "guardnest": GuardNest, "unelse": Unelse, "andsplit": AndSplit, "inor": InOr,
     "orin": OrIn, "isinst": IsInst, "fstr": FStr, "noop": Noop, "docstrip": DocStrip, "super": Super, "ternary": Ternary, "iftern": IfTernary,
     "comploop": CompLoop, "loopcomp": LoopComp, "hoist": Hoist, "condtemp": CondTemp, "inline": Inline, "cmpswap": CmpSwap, "cmpnot": CmpNot,
     "dictbuild": DictBuild, "appendplus": AppendPlus, "localren": LocalRename, "paramcopy": ParamCopy, "impl": Impl, "nestedfn": NestedFn,
     "propcall": PropCall, "importas": ImportAs, "excsplit": ExcSplit, "enumerate": ForWhile, "forlist": ForList, "fnalias": FnAlias,
     "attrlocal": AttrLocal, "getattr": Getattr, "setitem": DelPop, "lenzero": LenZero, "notnot": BoolAnd, "selfren": SelfRenamed,
     "privren": PrivRename, "tablesplit": TableSplit, "raisetemp": RaiseTemp, "kwargs": KwArgs, "walrus": Walrus, "bytesctor": Lambda1,
     "getsub": MergeHandlers}


def transform(name, d):
    files = sorted(glob.glob(d + "/pycose/**/*.py", recursive=True))
    src = {f: open(f).read() for f in files}
    trees = {f: ast.parse(s) for f, s in src.items()}
    changed = 0
    tr = T[name]
    ref = {f: ast.unparse(t) for f, t in trees.items()}
    if hasattr(tr, "package"):
        trees = tr().package(trees)
    else:
        for f in files:
            try:
                trees[f] = tr().visit(trees[f])
            except Skip:
                trees[f] = ast.parse(src[f])
    for f in files:
        ast.fix_missing_locations(trees[f])
        s = ast.unparse(trees[f])
        changed += s != ref[f]
        open(f, "w").write(s + "\n")
        compile(s, f, "exec")
    return changed


def edit(edits, d):
    for f, old, new in edits:
        p = d + "/pycose/" + f
        s = open(p).read()
        if old not in s:
            print("NOT APPLICABLE", f, old[:80], flush=True)
            return None
        s = s.replace(old, new, 1)
        compile(s, p, "exec")
        open(p, "w").write(s)
    return len({e[0] for e in edits})


def tests(d):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    out = d + "/../junit.xml"
    env = dict(os.environ, PYTHONPATH="/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PATH="/opt/venv/bin:/usr/bin:/bin")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-ra", "-o", "addopts=", "-p", "no:cacheprovider", "-p", "stable_ids",
                    "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"],
                   cwd=d, env=env, capture_output=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/../res.json", "junit:" + out], cwd=d, capture_output=True)
    r = json.load(open(d + "/../res.json"))
    return stable - set(r.get("passed", r.get("pass")))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k")
    ap.add_argument("-f", help="handwritten refactorings: list B of (name, [(file, old, new)]) in this file")
    ap.add_argument("-t", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("checks", nargs="*")
    a = ap.parse_args()
    allc = sorted(re.sub(r"\.py$", "", x).upper() for x in os.listdir(V + "/sa/rules") if re.match(r"c\d+\.py$", x))
    hand = {}
    if a.f:
        ns = {}
        exec(open(a.f).read(), ns)
        hand = {b[0]: b[1] for b in ns["B"]}
    for name in (a.k.split(",") if a.k else hand or T):
        tmp = tempfile.mkdtemp(prefix="rf", dir="/tmp")
        try:
            d = tmp + "/repo"
            os.mkdir(d)
            for x in ("pycose", "tests", "pytest.ini", "setup.py"):
                if os.path.isdir("/repo/" + x):
                    shutil.copytree("/repo/" + x, d + "/" + x, ignore=shutil.ignore_patterns("__pycache__"))
                elif os.path.exists("/repo/" + x):
                    shutil.copy("/repo/" + x, d)
            ch = edit(hand[name], d) if name in hand else transform(name, d)
            if ch is None:
                continue
            if a.t:
                m = tests(d)
                if m:
                    print("%-11s BAD: loses %d tests, e.g. %s" % (name, len(m), sorted(m)[0]), flush=True)
                    continue
            if a.checks == ["none"]:
                print("%-11s %2d files ok" % (name, ch), flush=True)
                continue
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=tmp + "/ev")

            def one(c):
                r = subprocess.run([sys.executable, V + "/check.py", c], env=env, capture_output=True, text=True, timeout=900)
                return c, r.returncode, r.stdout + r.stderr
            with cf.ThreadPoolExecutor(a.j) as ex:
                res = list(ex.map(one, a.checks or allc))
            bad = ["%s=%d" % (c, rc) for c, rc, o in res if rc]
            und = ["%s:%s" % (c, re.search(r"(\d+) undecided", o).group(1)) for c, rc, o in res if re.search(r"[1-9]\d* undecided", o)]
            print("%-11s %2d files  %-8s %s und=%s" % (name, ch, "ALARM" if bad else "quiet", " ".join(bad), " ".join(und)), flush=True)
            if a.v:
                for c, rc, o in res:
                    if rc:
                        print("\n".join(x[:400] for x in o.splitlines()[:12]))
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
