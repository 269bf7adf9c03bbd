#!/usr/bin/env python3
"""Mutate /repo/pycose mechanically; report the changes that neither the tests nor the checks notice.

automut.py OUT.jsonl [-n MUTANTS] [-s SEED] [-j WORKERS] [-f FILE-SUBSTRING]"""
import argparse, ast, warnings, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_FUN = {"__repr__", "__str__", "_truncate", "__hash__"}
SWAP = [("phdr", "uhdr"), ("encrypt", "decrypt"), ("d", "x"), ("x", "y"), ("phdr", "_uhdr"), ("external_aad", "payload"),
        ("phdr_encoded", "payload"), ("EncryptOp", "DecryptOp"), ("SignOp", "VerifyOp"), ("MacCreateOp", "MacVerifyOp"),
        ("WrapOp", "UnwrapOp"), ("DeriveKeyOp", "DeriveBitsOp"), ("target", "local_key"), ("local_key", "peer_key"),
        ("append", "extend"), ("n", "e"), ("p", "q"), ("dp", "dq"), ("SHA256", "SHA384"), ("key_bytes", "payload")]
SW = {}
for a, b in SWAP:
    SW.setdefault(a, []).append(b)
    SW.setdefault(b, []).append(a)
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    bs = src.encode()
    for l in bs.split(b"\n"):
        off.append(off[-1] + len(l) + 1)
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def rep(n, new, kind):
        a, b = span(n)
        t = new if isinstance(new, str) else ast.unparse(new)
        old = bs[a:b].decode()
        if old != t:
            out.append((kind, n.lineno, old, t, bs[:a] + t.encode() + bs[b:]))

    def copyof(n, **kw):
        m = ast.copy_location(type(n)(**{f: getattr(n, f) for f in n._fields}), n)
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def walk(n, fun):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in SKIP_FUN:
                return
            for s in n.body:
                walk(s, n.name)
            for d in list(n.args.defaults) + [x for x in n.args.kw_defaults if x]:
                walk(d, n.name)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.AnnAssign)) and not getattr(n, "value", None):
            return
        if isinstance(n, ast.Raise):
            rep(n, "pass", "drop-raise")
            return
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, ast.UnaryOp(ast.Not(), n.test) if False else "not (%s)" % ast.unparse(n.test), "negate")
            rep(n.test, "True", "true")
            rep(n.test, "False", "false")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fun:
            rep(n, "pass", "drop-call")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fun and isinstance(getattr(n, "targets", [None])[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", "drop-assign")
        if isinstance(n, ast.Return) and n.value is not None and fun:
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                pass
            elif isinstance(n.value, (ast.Compare, ast.BoolOp)):
                rep(n.value, "True", "ret-true")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, "(" + ast.unparse(copyof(n, ops=[CMP[type(n.ops[0])]()])) + ")", "cmp")
        if isinstance(n, ast.BoolOp):
            rep(n, "(" + ast.unparse(copyof(n, op=ast.And() if isinstance(n.op, ast.Or) else ast.Or())) + ")", "andor")
            for i in range(len(n.values)):
                v = n.values[:i] + n.values[i + 1:]
                rep(n, "(" + ast.unparse(v[0] if len(v) == 1 else copyof(n, values=v)) + ")", "operand")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a = list(n.args)
                    a[i], a[i + 1] = a[i + 1], a[i]
                    rep(n, copyof(n, args=a), "swap-args")
            for i in range(len(n.keywords)):
                rep(n, copyof(n, keywords=n.keywords[:i] + n.keywords[i + 1:]), "drop-kw")
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2 and fun:
            for i in range(len(n.elts) - 1):
                e = list(n.elts)
                e[i], e[i + 1] = e[i + 1], e[i]
                rep(n, copyof(n, elts=e), "swap-elts")
        if isinstance(n, ast.Attribute) and n.attr in SW and isinstance(n.ctx, ast.Load):
            for b in SW[n.attr]:
                rep(n, copyof(n, attr=b), "attr")
        if isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
            for b in SW[n.id]:
                rep(n, b, "name")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "const")
            elif isinstance(v, int):
                rep(n, str(v + 1), "const")
                rep(n, str(v - 1), "const")
            elif isinstance(v, bytes):
                rep(n, "b'\\x00'" if not v else "b''", "const")
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if h.type is not None and len(h.body) == 1:
                    rep(h.body[0], "raise" if not isinstance(h.body[0], ast.Raise) else "pass", "handler")
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            walk(c, fun)

    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            for t in s.body:
                walk(t, t.name if isinstance(t, ast.FunctionDef) else None)
        elif isinstance(s, ast.FunctionDef):
            walk(s, s.name)
    good = []
    for k, l, o, t, b in out:
        try:
            warnings.simplefilter("ignore")
            compile(b, path, "exec")
            good.append((k, l, o, t, b))
        except SyntaxError:
            pass
    return good


CHECKS = "C10 C26 C07 C08 C21 C20 C04 C18 C22 C25 C24 C19 C28 C02 C06 C01 C14 C11 C23 C03 C09 C17 C15 C12 C05 C27 C29 C13 C16".split()


def one(a):
    f, (kind, line, old, new, b) = a
    d = tempfile.mkdtemp(prefix="am", dir="/tmp/am")
    r = dict(file=f, line=line, kind=kind, old=old, new=new)
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
        open(d + "/repo/" + f, "wb").write(b)
        env = dict(os.environ, PYTHONPATH=d + "/repo:/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", "-p", "stable_ids",
                            "--timeout=120", "tests"], cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            r["state"] = "tests"
            return r
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d + "/ev")
        r["und"] = []
        for c in CHECKS:
            p = subprocess.run([sys.executable, H + "/check.py", c], env=env, capture_output=True, text=True, timeout=900)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                r["state"] = "caught " + c
                return r
            if p.returncode != 0:
                r["und"].append("%s rc=%d" % (c, p.returncode))
            if " 0 undecided" not in p.stdout:
                r["und"].append(c)
        r["state"] = "missed"
        return r
    except Exception as e:
        r["state"] = "error %s" % e
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-j", type=int, default=6); ap.add_argument("-f", default=""); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    os.makedirs("/tmp/am", exist_ok=True)
    allm = []
    for root, _, fs in os.walk("/repo/pycose"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith(".py") and a.f in p:
                allm += [(os.path.relpath(p, "/repo"), m) for m in mutants(p)]
    random.Random(a.s).shuffle(allm)
    print(len(allm), "mutants")
    if a.list:
        return
    with open(a.out, "a") as o, cf.ProcessPoolExecutor(a.j) as ex:
        for r in ex.map(one, allm[:a.n]):
            o.write(json.dumps(r) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
