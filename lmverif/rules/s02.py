"""S02: every component reference is enumerated by foreach_underlying, with the right ownership flag."""
from ..core import *
from ..prog import kids, walk


def ref_leaves(ctx, t, path, depth=0):
    """[(path, type, weak)] of component references reachable by value inside type t."""
    P = ctx.P
    if depth > 5:
        return []
    if ctx.is_comp_ptr(t):
        return [(path, t, True)]
    if ctx.is_comp_uptr(t):
        return [(path, t, False)]
    x = P.ty(P.strip_ref(t))
    if x["k"] == "array":
        return ref_leaves(ctx, x["to"], add(path, "[]"), depth + 1)
    if x["k"] != "rec":
        return []
    rec = x.get("rec", "")
    ta = x.get("targs", [])
    if rec in ("std::vector", "std::array", "std::deque", "std::list", "std::set", "std::unordered_set") and ta:
        return ref_leaves(ctx, ta[0], add(path, "[]"), depth + 1)
    if rec in ("std::unordered_map", "std::map") and len(ta) > 1:
        return ref_leaves(ctx, ta[1], add(add(path, "[]"), "second"), depth + 1)
    if rec in ("std::optional", "std::unique_ptr", "std::shared_ptr") and ta:
        return ref_leaves(ctx, ta[0], add(path, "*"), depth + 1)
    if rec in ("std::pair", "std::tuple"):
        out = []
        for i, a in enumerate(ta):
            out += ref_leaves(ctx, a, add(path, ("first", "second")[i] if rec == "std::pair" and i < 2 else "[]"), depth + 1)
        return out
    if x.get("full") in P.records and not P.derives(x["full"], "lm::Component"):
        out = []
        for _, f in P.all_fields(x["full"]):
            out += ref_leaves(ctx, f["t"], add(path, f["n"]), depth + 1)
        return out
    return []


def discriminators(P):
    """(struct, enum field, sub-field) -> enumerators under which the sub-field is populated."""
    out = {}
    for f in P.funcs.values():
        enums, subs = {}, {}
        for n in f.walk():
            if (n["k"] in ("BinOp", "OpCall")) and n.get("op") == "=":
                l = n["c"][0]
                chain = []
                x = l
                while x is not None and x["k"] == "MemberExpr" and x.get("dk") == "field":
                    chain.append(x)
                    x = x["c"][0] if x.get("c") else None
                for i, m in enumerate(chain):
                    cls = m["cls"]
                    if i == 0 and n["c"][1]["k"] == "DeclRefExpr" and n["c"][1].get("dk") == "enum":
                        enums.setdefault(cls, []).append((m["n"], n["c"][1]["qn"]))
                    elif i >= 1 or P.ty(m.get("t", -1))["k"] in ("ptr", "rec"):
                        subs.setdefault(cls, set()).add(m["n"])
        for cls, es in enums.items():
            for fld, e in es:
                for s in subs.get(cls, ()):
                    out.setdefault((cls, fld, s), set()).add(e)
    return out


class Visit:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.flags = []
        self.disc = ctx.memo("disc", lambda: discriminators(ctx.P))

    def is_visitor_call(self, n):
        P = self.P
        if n["k"] != "OpCall" or n.get("op") != "()" or not n["c"]:
            return False
        t = P.tstr(P.strip_ref(n["c"][0].get("t", -1)))
        return "std::function<void (lm::Component *&, bool)>" in t

    def on_node(self, it, fr, n, st):
        P = self.P
        if n["k"] == "Call" and n.get("fn") == "lm::comp::visit" and len(n["c"]) >= 3:
            return self.visited(it, fr, n["c"][2], it.resolve(fr, n["c"][2]), True, st), True
        if n["k"] in ("BinOp", "OpCall") and n.get("op") == "=" and any(f[0] == "pend" for f in st.facts):
            # a visited copy of a weak reference is stored back
            ds = {m["d"] for m in walk(n["c"][1]) if m["k"] == "DeclRefExpr" and "d" in m}
            lhs = it.resolve(fr, n["c"][0])
            return st.with_facts(("vis", f[1]) for f in st.facts if f[0] == "pend" and f[1] in lhs and f[2] in ds), True
        if self.is_visitor_call(n):
            a, w = n["c"][1], n["c"][2] if len(n["c"]) > 2 else None
            ps = set(it.resolve(fr, a))
            for p in list(ps):
                if isinstance(p[0], tuple) and p[0][0] == "v" and len(p) == 1:
                    f, how = fr.lookup(p[0][1])
                    if how == "var":
                        init = (f.fn.vars[p[0][1]].get("c") or [None])[0]
                        if init is not None:
                            ps |= it.resolve(f, init)
            if w is not None and w["k"] == "Bool":
                for p in ps:
                    self.flags.append((p, bool(w["v"]), fr.fn.where(n)))
            return self.visited(it, fr, a, ps, not (w is not None and w["k"] == "Bool" and not w["v"]), st), True
        return None

    def visited(self, it, fr, e, ps, weak, st):
        """visiting a by-value copy of a weak reference counts once the copy is stored back"""
        e = it.bare(e)
        copy = None
        if weak and e is not None and e["k"] == "DeclRefExpr" and e.get("d"):
            f, how = fr.lookup(e["d"])
            t = None
            if how == "var":
                t = f.fn.vars[e["d"]].get("t")
            elif how in ("param", "env"):
                t = next((p["t"] for p in f.fn.params if p["d"] == e["d"]), None)
            if t is not None and self.P.ty(t)["k"] == "ptr":
                copy = e["d"]
        return st.with_facts((("vis", p) if copy is None else ("pend", p, copy)) for p in ps if it.each_elem(p))

    def on_assume(self, it, fr, cond, sense, st):
        # variant discriminator: on the branch where X.kind differs, the sub-object is unpopulated
        if st is None or cond["k"] not in ("BinOp", "OpCall") or cond.get("op") not in ("==", "!="):
            return st
        a, b = cond["c"][0], cond["c"][1]
        if a["k"] == "DeclRefExpr" and a.get("dk") == "enum":
            a, b = b, a
        if not (b["k"] == "DeclRefExpr" and b.get("dk") == "enum" and a["k"] == "MemberExpr"):
            return st
        eq = (cond["op"] == "==") == sense
        nulls = set()
        for (cls, fld, sub), es in self.disc.items():
            if cls == a["cls"] and fld == a["n"]:
                # value known equal e: sub absent if e not in es; known different from e: absent if es == {e}
                if (eq and b["qn"] not in es) or (not eq and es == {b["qn"]}):
                    for p in it.resolve(fr, a["c"][0]):
                        base = add(p, "*") if a.get("arrow") and a["c"][0]["k"] not in ("CXXThisExpr", "OpCall") else p
                        nulls.add(add(base, sub))
        return st.with_null(nulls)

    def inline(self, it, fr, n, f):
        if f.is_lambda:
            return True
        return any("std::function<void (lm::Component *&, bool)>" in self.P.tstr(p["t"]) for p in f.params)


def visits(ctx, cls):
    P = ctx.P
    owner, m = P.find_method(cls, "foreach_underlying")
    f = P.funcs.get(m["f"]) if m else None
    if f is None:
        return None, None, None
    h = Visit(ctx)
    it = Interp(P, h)
    it.elem1 = "[1]"
    fr = Frame(f, {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}, frozenset({("this",)}), cls)
    st = it.run_fn(fr, St())
    return f, h, st


def check(ctx):
    P = ctx.P
    R = Result()
    roots = [(c, w) for c, k, w in ctx.asset_components()]
    # the user context is the root of the tree: the class that registers itself as root component
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] == "Call" and n.get("fn") == "lm::comp::detail::register_root_comp" and f.cls and f.cls in P.records:
                roots.append((f.cls, f.where()))
                R.count("root_components")
    for cls, where in sorted(set(roots)):
        leaves = []
        for owner, fl in ctx.fields(cls):
            for p, t, weak in ref_leaves(ctx, fl["t"], ("this", fl["n"])):
                leaves.append((owner, fl, p, t, weak))
        R.count("component_classes")
        if not leaves:
            continue
        f, h, st = visits(ctx, cls)
        for owner, fl, p, t, weak in leaves:
            R.count("references")
            R.count("weak_references" if weak else "owned_references")
            ok = st is not None and ("vis", p) in st.facts
            R.oblige(ok, "%s/%s" % (cls, pstr(p)), "%s: %s reference %s is not enumerated by foreach_underlying on every path%s" % (
                cls, "weak" if weak else "owned", pstr(p), "" if f and f.cls != "lm::Component" else " (not overridden)"),
                f.where() if f and f.cls != "lm::Component" else "%s:%d" % (P.rel(P.records[owner]["file"]), fl["l"]),
                sample="%s enumerates %s (%s)" % (f.qn if f else "?", pstr(p), "weak" if weak else "owned"))
            for fp, flag, w in (h.flags if h else []):
                if fp == p:
                    R.oblige(flag == weak, "%s/%s/flag" % (cls, pstr(p)), "%s: %s is reported with weak=%s" % (cls, pstr(p), flag), w)
    R.floor("component_classes", 40)
    R.floor("references", 45)
    # the enumeration helpers pass the right ownership flag, and write relinked weak pointers back
    for f in P.fns("lm::comp::visit"):
        if not f.body or len(f.params) != 2:
            continue
        R.count("visit_helpers")
        weak = ctx.is_comp_ptr(f.params[1]["t"])
        h = Visit(ctx)
        calls = [n for n in f.walk() if h.is_visitor_call(n)]
        flags = [n["c"][2] for n in calls if len(n["c"]) > 2]
        ok = len(calls) >= 1 and all(b["k"] == "Bool" and bool(b["v"]) == weak for b in flags)
        R.oblige(ok, "visit/flag/%s" % P.tstr(f.params[1]["t"]), "comp::visit(%s) does not report weak=%s" % (P.tstr(f.params[1]["t"]), weak), f.where(),
                 sample="comp::visit<%s> passes weak=%s" % (P.tstr(f.params[1]["t"])[:60], weak))
        if weak:
            class W:
                def on_node(self, it, fr, n, st):
                    if n["k"] == "BinOp" and n["op"] == "=":
                        return st.with_facts(("w", p) for p in it.resolve(fr, n["c"][0]) ) if any(f == ("called", ()) for f in st.facts) else st, True
                    if h.is_visitor_call(n):
                        return st.with_facts([("called", ())]), True
                    return None
            it = Interp(P, W())
            arg = (("v", "arg1", 0),)
            fr = Frame(f, {f.params[1]["d"]: frozenset({arg})})
            st = it.run_fn(fr, St())
            R.oblige(st is not None and ("w", arg) in st.facts, "visit/update/%s" % P.tstr(f.params[1]["t"]),
                     "comp::visit(%s) does not store the relinked pointer back into the reference" % P.tstr(f.params[1]["t"]), f.where())
    R.floor("visit_helpers", 8)
    return R
