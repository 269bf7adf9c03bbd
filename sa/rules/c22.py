"""C22: removing parameters never leaves an invalid key."""
from .common import *      # noqa
from .c20 import K, KP, CLS
from .c21 import label, pclass

RULE = ("after del, pop, popitem or clear on any valid key, completed or refused, the key still has its type, its curve, and the "
        "parameters that make it a key (EC2, OKP: x or d; RSA: all it had; symmetric: k); a completed removal removes the "
        "parameter and, apart from the public coordinates of an EC2 key that has its private value, nothing else; optional "
        "parameters can be removed")
EXPLAIN = ("The removal operations of the four key classes are analysed on an arbitrary valid key, for every parameter and each of "
           "its labels; presence of the parameters in the resulting state, and in the state in which an exception leaves, is compared "
           "with the rule.  The mixin methods of MutableMapping are taken to act through __delitem__.")
IDS = {"EC2": [-1, -2, -3, -4], "OKP": [-1, -2, -4], "RSA": list(range(-1, -13, -1)), "Symmetric": [-1]}
UNKNOWN = (-70001, "proprietary")       # labels nobody registered
KEEP = {"EC2": [1, -1], "OKP": [1, -1], "RSA": [1] + list(range(-1, -13, -1)), "Symmetric": [1, -1]}


def present(c, obj, cls, st=None):
    c2 = Ctx(c.lab, (st or c.st).copy())
    r = c2.run(obj, "__contains__", cls)
    if not sat(r.pc):
        return None
    return B.Or(*[B.And(g, g_truthy(x)) for g, x in r.value])


def valid(lab, c, k, kt):
    """refine an arbitrary instance to a valid key; returns {label: presence before}"""
    pre = {}
    for i in [1, 2, 3, 4, 5] + IDS[kt]:
        pre[i] = present(c, k, lab.name(pclass(kt, i)))
        if pre[i] is None or has_lost(pre[i]):
            raise AnalysisError("presence of %s in a key is not visible" % pclass(kt, i))
    inv = invariant(kt, pre, pre)
    c.st.pc = B.And(c.st.pc, inv)
    return pre


def has_lost(g):
    return imprecise(g)


def invariant(kt, now, pre):
    g = now[1]
    if kt in ("EC2", "OKP"):
        g = B.And(g, now[-1], B.Or(now[-2], now[-4]))
    elif kt == "Symmetric":
        g = B.And(g, now[-1])
    else:
        g = B.And(g, now[-1], now[-2])
        for i in range(-3, -13, -1):
            g = B.And(g, B.Or(now[i], B.Not(pre[i])))
    return g


def one_op(lab, rep, kt, op, i, form):
    nm = "" if i is None else "an unregistered parameter" if i in UNKNOWN else pclass(kt, i).rsplit(".", 1)[-1]
    what = "%s: %s %s%s" % (CLS[kt], op, nm, " by " + form if form else "")
    key = "%s|%s %s" % (kt, op, nm)
    where = K + CLS[kt] + ".__delitem__"
    with rep.case(what):
        c = lab.ctx()
        k = c.inst(K + CLS[kt], "key")
        pre = valid(lab, c, k, kt)
        before = c.st.pc
        lb = const(i) if i in UNKNOWN else label(lab, c, kt, i, form) if i is not None else None
        if i in UNKNOWN:
            pre[i] = present(c, k, lb)
            before = c.st.pc
        if lb is None and i is not None:
            rep.undecided(what + ": name of the parameter")
            return
        if i is not None:
            c.st.pc = B.And(c.st.pc, pre[i])
        if op == "del":
            r = c.rundel(k, lb)
        elif op == "pop":
            r = c.run(k, "pop", lb)
        elif op == "pop default":
            r = c.run(k, "pop", lb, NONE)
        else:
            r = c.run(k, op)
        optional = i in (2, 3, 4, 5) or i in UNKNOWN
        clsof = lambda j: const(j) if j in UNKNOWN else lab.name(pclass(kt, j))
        must_keep = i in KEEP[kt]
        if sat(r.pc):
            c2 = Ctx(lab, r.state)
            c2.st.pc = r.pc
            now = {j: present(c2, k, clsof(j)) for j in pre}
            inv = invariant(kt, now, pre)
            ok_guard(rep, B.And(r.pc, B.Not(inv)), key, what + ": the key stays valid", where)
            if i is not None:
                if must_keep:
                    ok_guard(rep, r.pc, key, what + ": refused", where)
                else:
                    ok_guard(rep, B.And(r.pc, now[i]), key + "|stays", what + ": removed", where)
                for j in pre:
                    if j == i or (kt == "EC2" and i in (-2, -3) and j in (-2, -3)):
                        continue
                    ok_guard(rep, B.And(r.pc, pre[j], B.Not(now[j])), key + "|others", "%s: parameter %d stays" % (what, j), where)
                    ok_guard(rep, B.And(r.pc, B.Not(pre[j]), now[j]), key + "|others", "%s: parameter %d does not appear" % (what, j), where)
        for e in r.raises:
            if not sat(e[0]):
                continue
            if optional and (op == "del" or i not in UNKNOWN or isinstance(i, str)):
                ok_guard(rep, B.And(e[0], before), key + "|refused", what + ": an optional parameter can be removed", where)
            st = State(e[0], {}, dict(e[2]))
            if True:
                now = {j: present(c, k, clsof(j), st) for j in pre}
                if any(v is None for v in now.values()):
                    continue
                ok_guard(rep, B.And(e[0], B.Not(invariant(kt, now, pre))), key + "|after refusal",
                         what + ": the key is valid after the refusal", where)


def run(lab, rep, tier):
    for kt in CLS:
        for i in [1, 2, 3, 4, 5] + IDS[kt]:
            for form in ("class", "id", "name", "lower", "upper"):
                for op in ("del", "pop", "pop default"):
                    one_op(lab, rep, kt, op, i, form)
        for i in UNKNOWN:
            for op in ("del", "pop", "pop default"):
                one_op(lab, rep, kt, op, i, "label")
        for op in ("popitem", "clear"):
            one_op(lab, rep, kt, op, None, None)
    rep.floor("removals", rep.obligations, 300)
