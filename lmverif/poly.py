"""Integer polynomials over access paths: normal form of index and size expressions, independent of how they are written."""
from .prog import kids
from .interp import Interp, Frame

MAXTERMS = 40


def mul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def plus(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def poly(it, fr, e, depth=0):
    """{monomial: coefficient} or None"""
    if e is None or depth > 14:
        return None
    k = e["k"]
    c = e.get("c", [])
    if k in ("Cast", "InitList", "Construct", "ParenExpr"):
        ks = [x for x in kids(e) if x["k"] != "DefaultArg"]
        return poly(it, fr, ks[0], depth + 1) if len(ks) == 1 else ({} if not ks and k == "InitList" else None)
    if k == "Int":
        v = int(e["v"])
        return {(): v} if v else {}
    if k == "UnaryExprOrTypeTraitExpr" and e.get("v"):
        return {(): int(e["v"])}
    if k == "BinOp" and e["op"] in ("+", "-", "*"):
        a, b = poly(it, fr, c[0], depth + 1), poly(it, fr, c[1], depth + 1)
        if a is None or b is None:
            return None
        r = mul(a, b) if e["op"] == "*" else plus(a, b, 1 if e["op"] == "+" else -1)
        return r if len(r) <= MAXTERMS else None
    if k == "UnOp" and e["op"] == "-":
        a = poly(it, fr, c[0], depth + 1)
        return None if a is None else {m: -v for m, v in a.items()}
    if k == "UnOp" and e["op"] == "+":
        return poly(it, fr, c[0], depth + 1)
    if k == "DeclRefExpr":
        if e.get("dk") in ("local", "param", "binding"):
            f, how = fr.lookup(e["d"])
            if how == "var":
                v = f.fn.vars[e["d"]]
                init = (v.get("c") or [None])[0]
                if v.get("k") == "Var" and e["d"] not in f.fn.assigned_vars() and init is not None and not v.get("st"):
                    r = poly(it, f, init, depth + 1)
                    if r is not None:
                        return r
            elif how in ("env", "param") and f.up is not None and f.call is not None:
                i = next((i for i, p in enumerate(f.fn.params) if p["d"] == e["d"]), None)
                a = it.p.call_args(f.call)
                if i is not None and i < len(a) and a[i] is not None and e["d"] not in f.fn.assigned_vars():
                    r = poly(it, f.up, a[i], depth + 1)
                    if r is not None:
                        return r
            elif how in ("env", "param"):
                i = next((i for i, p in enumerate(f.fn.params) if p["d"] == e["d"]), None)
                if i is not None and e["d"] not in f.fn.assigned_vars():
                    return {(("arg", i),): 1}
            return {(("var", e["d"]),): 1}
        return {(("sym", e.get("qn") or e.get("d")),): 1}
    if k == "MemberExpr":
        ps = it.resolve(fr, e)
        return {(("path", next(iter(ps))),): 1} if len(ps) == 1 else None
    if k in ("MCall", "Call", "OpCall"):
        tg = it.targets(fr, e)
        if len(tg) == 1 and tg[0] in it.p.funcs and fr.depth < 8:
            f = it.p.funcs[tg[0]]
            rets = [m for m in f.walk() if m["k"] == "ReturnStmt" and kids(m)]
            if f.body and len(rets) == 1:
                return poly(it, it.enter(fr, e, f), kids(rets[0])[0], depth + 1)
        if k == "MCall" and e.get("mname") in ("size", "length") and len(c) == 1:
            ps = it.resolve(fr, c[0])
            return {(("size", next(iter(ps))),): 1} if len(ps) == 1 else None
    return None
