"""S03: a child component created under a locator is found again under that locator."""
from ..core import *
from ..prog import kids, walk

CREATE = ("lm::comp::create", "lm::comp::create_without_construct")


def strip(n):
    while n is not None and n["k"] in ("Construct", "Cast", "InitList") and len([c for c in n.get("c", []) if c and c["k"] != "DefaultArg"]) == 1:
        n = [c for c in n["c"] if c and c["k"] != "DefaultArg"][0]
    return n


def ntext(n):
    """Structural text of an expression (declaration identities, not spelling)."""
    n = strip(n)
    if n is None:
        return ""
    k = n["k"]
    if k == "DeclRefExpr":
        return "ref:%s" % n.get("d")
    if k == "MemberExpr":
        return ntext(kids(n)[0] if kids(n) else None) + "." + n["n"]
    if k in ("Int", "Str", "Flt", "Bool", "Char"):
        return "%s:%s" % (k, n["v"])
    return "%s:%s(%s)" % (k, n.get("op") or n.get("mname") or n.get("fn") or "", ",".join(ntext(c) for c in kids(n)))


def lit(fn, n, depth=0):
    n = strip(n)
    if n is None or depth > 4:
        return None
    if n["k"] == "Str":
        return n["v"]
    if n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in fn.vars and n["d"] not in fn.assigned_vars():
        v = fn.vars[n["d"]]
        return lit(fn, (v.get("c") or [None])[0], depth + 1)
    return None


def loc_arg(P, n):
    """NAME of a make_loc(NAME) / make_loc(loc(), NAME) locator argument, or None."""
    n = strip(n)
    if n is not None and n["k"] == "MCall" and n.get("fn") == "lm::Component::make_loc":
        return n["c"][-1]
    return None


class Und:
    """Interpret underlying(name) for a concrete (or unknown) name."""

    def __init__(self, P, name):
        self.P, self.name, self.rets = P, name, []
        self.maps = set()

    def on_node(self, it, fr, n, st):
        if n["k"] == "MCall" and n.get("mname") in ("at", "find", "count") and n["c"]:
            for p in it.resolve(fr, n["c"][0]):
                if p[0] == "this" and len(p) == 2:
                    self.maps.add(p[1])
        if n["k"] == "OpCall" and n.get("op") == "[]":
            for p in it.resolve(fr, n["c"][0]):
                if p[0] == "this" and len(p) == 2:
                    self.maps.add(p[1])
        return None

    def on_assume(self, it, fr, cond, sense, st):
        if st is None or self.name is None:
            return st
        if cond["k"] in ("OpCall", "BinOp") and cond.get("op") in ("==", "!="):
            a, b = cond["c"][0], cond["c"][1]
            for x, y in ((a, b), (b, a)):
                s = lit(fr.fn, y)
                if s is not None and (("v", "arg0", 0),) in it.resolve(fr, x):
                    eq = (s == self.name)
                    if cond["op"] == "!=":
                        eq = not eq
                    return st if eq == sense else None
        return st

    def on_return(self, it, fr, n, st):
        e = strip(kids(n)[0]) if kids(n) else None
        if e is None:
            return st
        if self.P.ty(fr.fn.get("ret", -1))["k"] != "ptr":
            return st
        if e["k"] == "CXXNullPtrLiteralExpr":
            self.rets.append(("null", fr.fn.where(n)))
        elif e["k"] in ("MCall", "Call") and any(t in self.P.funcs for t in self.P.targets(e)) and not e.get("fn", "").startswith("std::"):
            pass    # inlined: its own returns were recorded
        elif e["k"] == "ConditionalOperator":
            # decide the arms through the same assumption
            a, b = it.assume(fr, e["c"][0], st)
            for s, x in ((a, e["c"][1]), (b, e["c"][2])):
                if s is not None:
                    x = strip(x)
                    self.rets.append(("null", fr.fn.where(n)) if x["k"] == "CXXNullPtrLiteralExpr" else (it.resolve(fr, x), fr.fn.where(n)))
        else:
            self.rets.append((it.resolve(fr, e), fr.fn.where(n)))
        return st


def run_underlying(ctx, cls, name):
    P = ctx.P
    owner, m = P.find_method(cls, "underlying")
    f = P.funcs.get(m["f"]) if m else None
    if f is None:
        return None, None
    h = Und(P, name)
    it = Interp(P, h)
    env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
    it.run_fn(Frame(f, env, frozenset({("this",)}), cls), St())
    return f, h


def member_of(it_paths):
    return {p[1] for p in it_paths if p and p[0] == "this" and len(p) > 1 and isinstance(p[1], str)}


class Sites:
    """Creation sites of child components: (function, call node, name expr, name fn, destination members)."""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P

    def mem(self, f, n):
        """member field(s) of the enclosing object an lvalue expression denotes"""
        it = Interp(self.P, None)
        env = {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}
        fr = Frame(f, env, frozenset({("this",)}), f.cls)
        if f.is_lambda:
            # captured variables resolve in the enclosing frames
            chain, g = [], f
            while g is not None and g.is_lambda:
                g = self.P.lambda_parent(g)
                if g is not None:
                    chain.append(g)
            lex = None
            for g in reversed(chain):
                lex = Frame(g, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in g.params}, frozenset({("this",)}), g.cls, lex=lex)
            fr.lex = lex
        return member_of(it.resolve(fr, n))

    def dests(self, f, n, depth=0):
        """Members into which the value of expression node n is stored."""
        out = set()
        if depth > 6:
            return out
        p = f.parent(n)
        while p is not None and p["k"] in ("Construct", "Cast", "InitList", "Call", "ConditionalOperator", "ExprWithCleanups") and (p["k"] != "Call" or p.get("fn") in ("std::move", "std::forward")):
            p = f.parent(p)
        if p is None:
            return out
        if p["k"] in ("BinOp", "OpCall") and p.get("op") == "=":
            out |= self.mem(f, p["c"][0])
            l = p["c"][0]
            if l["k"] == "DeclRefExpr" and l.get("dk") == "local":
                out |= self.var_dests(f, l["d"], depth)
        elif p["k"] == "Var":
            out |= self.var_dests(f, p["d"], depth)
        elif p["k"] == "MCall" and p.get("mname") in ("push_back", "emplace_back", "emplace", "insert", "reset", "swap", "try_emplace", "insert_or_assign"):
            out |= self.mem(f, p["c"][0])
        elif p["k"] == "ReturnStmt":
            for g, c in self.P.callers().get(f.key, ()):
                if c["k"] != "Lambda":
                    out |= self.dests(g, c, depth + 1)
        elif p["k"] in ("Call", "MCall") and p.get("f") in self.P.funcs:
            # handed over to a helper that stores its parameter
            g = self.P.funcs[p["f"]]
            for prm, a in zip(g.params, self.P.call_args(p)):
                if a is not None and any(x.get("id") == n.get("id") for x in walk(a)):
                    out |= self.var_dests(g, prm["d"], depth + 1)
        return out

    def var_dests(self, f, d, depth):
        out = set()
        for m in f.walk():
            if m["k"] == "DeclRefExpr" and m.get("d") == d:
                q = f.parent(m)
                if q is not None and q["k"] == "Call" and q.get("fn") == "std::move":
                    out |= self.dests(f, q, depth + 1)
                elif q is not None and q["k"] == "ReturnStmt":
                    out |= self.dests(f, m, depth + 1)
                elif q is not None and q["k"] == "Construct" and f.parent(q) is not None and f.parent(q)["k"] == "ReturnStmt":
                    out |= self.dests(f, m, depth + 1)
        return out

    def names(self, f, e, depth=0):
        """[(function, name expression)] after following helper parameters."""
        s = strip(e)
        if s is not None and s["k"] == "DeclRefExpr" and s.get("dk") == "param" and depth < 4 and not f.is_lambda:
            i = next((i for i, p in enumerate(f.params) if p["d"] == s["d"]), None)
            out = []
            for g, c in self.P.callers().get(f.key, ()):
                a = self.P.call_args(c)
                if i is not None and i < len(a) and a[i] is not None:
                    out += self.names(g, a[i], depth + 1)
            if out:
                return out
        return [(f, e)]

    def of_class(self, cls):
        out = []
        fs = []
        for c in [cls] + self.P.bases_of(cls):
            if c == "lm::Component":
                continue
            for f in self.P.by_cls.get(c, ()):
                if f.body and not f.is_lambda:
                    fs.append(f)
                    fs += self.ctx.lambdas_of(f)
        seen = set()
        for f in fs:
            for n in f.walk():
                if (f.key, n.get("id")) in seen:
                    continue
                if n["k"] == "Call" and n.get("fn") in CREATE and len(n["c"]) >= 3:
                    a = loc_arg(self.P, n["c"][2])
                    if a is not None:
                        seen.add((f.key, n["id"]))
                        for g, e in ([(f, a)] if keyed_maps(self.P, f, ntext(a)) else self.names(f, a)):
                            out.append((f, n, g, e, self.dests(f, n)))
                elif n["k"] == "Call" and n.get("fn") in ("lm::serial::load_comp",) and len(n["c"]) >= 4:
                    a = loc_arg(self.P, n["c"][3])
                    if a is not None:
                        seen.add((f.key, n["id"]))
                        for g, e in ([(f, a)] if keyed_maps(self.P, f, ntext(a)) else self.names(f, a)):
                            out.append((f, n, g, e, self.mem(f, n["c"][2])))
        return out


def keyed_maps(P, f, text, depth=0):
    """members used as map with key expression `text` in f or in helpers of the same object given it."""
    out = set()
    for n in f.walk():
        if n["k"] == "MCall" and depth < 3 and n.get("f") in P.funcs and n["c"] and Interp.bare(n["c"][0]) is not None and Interp.bare(n["c"][0])["k"] == "CXXThisExpr":
            g = P.funcs[n["f"]]
            if g.body:
                for prm, a in zip(g.params, P.call_args(n)):
                    if a is not None and ntext(a) == text and prm["d"] not in g.assigned_vars():
                        out |= keyed_maps(P, g, "ref:%s" % prm["d"], depth + 1)
        key, cont = None, None
        if n["k"] == "OpCall" and n.get("op") == "[]" and len(n["c"]) > 1:
            cont, key = n["c"][0], n["c"][1]
        elif n["k"] == "MCall" and n.get("mname") in ("emplace", "try_emplace", "insert_or_assign", "insert") and len(n["c"]) > 1:
            cont, key = n["c"][0], n["c"][1]
        if cont is None or cont["k"] != "MemberExpr":
            continue
        par = f.parent(n)
        if n["k"] == "OpCall" and not (par is not None and par["k"] in ("BinOp", "OpCall") and par.get("op") == "=" and par["c"][0].get("id") == n["id"]):
            continue
        if any(ntext(x) == text for x in walk(key)) or ntext(key) == text:
            out.add(cont["n"])
    return out


def positions(f):
    return {n["id"]: i for i, n in enumerate(f.walk()) if "id" in n}


def size_expr(f, e, pos, depth=0):
    """(container text, offset, position of evaluation) of an expression  C.size() [- 1]"""
    e = Interp.bare(e)
    if e is None or depth > 3:
        return None
    if e["k"] == "MCall" and e.get("mname") == "size" and e["c"]:
        return ntext(e["c"][0]), 0, pos.get(e.get("id"), 0)
    if e["k"] == "BinOp" and e["op"] in ("-", "+") and Interp.bare(e["c"][1])["k"] == "Int":
        r = size_expr(f, e["c"][0], pos, depth + 1)
        v = int(Interp.bare(e["c"][1])["v"])
        return (r[0], r[1] + (v if e["op"] == "+" else -v), r[2]) if r else None
    if e["k"] == "DeclRefExpr" and e.get("dk") == "local" and e["d"] in f.vars and e["d"] not in f.assigned_vars():
        return size_expr(f, (f.vars[e["d"]].get("c") or [None])[0], pos, depth + 1)
    return None


def block_of(f, n):
    p = f.parent(n)
    while p is not None and p["k"] != "CompoundStmt":
        p = f.parent(p)
    return p["id"] if p is not None else None


def index_entries(f):
    """(map assignment node, ok): where a lookup table receives the index of an element added in the same block, the index is that element's"""
    pos = positions(f)
    pushes = [n for n in f.walk() if n["k"] == "MCall" and n.get("mname") in ("push_back", "emplace_back") and n["c"]]
    for n in f.walk():
        val = None
        if n["k"] in ("BinOp", "OpCall") and n.get("op") == "=" and len(n["c"]) == 2:
            l = strip(n["c"][0])
            if l is not None and l["k"] == "OpCall" and l.get("op") == "[]" and "map" in l.get("cls", ""):
                val = n["c"][1]
        elif n["k"] == "MCall" and n.get("mname") in ("emplace", "try_emplace", "insert_or_assign") and "map" in n.get("cls", "") and len(n["c"]) > 2:
            val = n["c"][2]
        if val is None:
            continue
        se = size_expr(f, val, pos)
        if se is None:
            continue
        here = [m for m in pushes if ntext(m["c"][0]) == se[0] and block_of(f, m) == block_of(f, n)]
        if len(here) != 1:
            continue
        yield n, (se[1] == 0 if se[2] < pos[here[0]["id"]] else se[1] == -1)


class Walker:
    """a lookup that descends with underlying(): x = True while a found child has not become the current component"""

    def __init__(self, P, cur):
        self.P, self.cur, self.bads, self.steps = P, cur, [], 0

    def merge_x(self, a, b):
        return bool(a) or bool(b)

    def inline(self, it, fr, n, f):
        return False

    def on_node(self, it, fr, n, st):
        if n["k"] == "MCall" and n.get("mname") == "underlying" and Interp.bare(n["c"][0]) is not None and Interp.bare(n["c"][0]).get("d") == self.cur:
            self.steps += 1
            return st.with_x(True), True
        if n["k"] == "BinOp" and n["op"] == "=" and Interp.bare(n["c"][0]).get("d") == self.cur:
            return st.with_x(False), True
        return None

    def on_return(self, it, fr, n, st):
        e = Interp.bare(kids(n)[0]) if kids(n) else None
        if st.x and e is not None and any(m.get("d") == self.cur for m in walk(e)):
            self.bads.append(n)
        return st


def lookups(P):
    """functions that walk down the tree with a local current component"""
    for f in P.funcs.values():
        if not f.body:
            continue
        for n in f.walk():
            if n["k"] == "MCall" and n.get("mname") == "underlying" and P.derives(n.get("cls", ""), "lm::Component"):
                o = Interp.bare(n["c"][0])
                if o is not None and o["k"] == "DeclRefExpr" and o.get("dk") == "local" and o["d"] in f.vars and o["d"] in f.assigned_vars():
                    yield f, o["d"]
                    break


class Located:
    """create_without_construct: the locator is stored before the instance is handed out"""

    def __init__(self, P, loc):
        self.P, self.loc, self.bads, self.rets = P, loc, [], 0

    def inline(self, it, fr, n, f):
        return False

    def on_node(self, it, fr, n, st):
        if n["k"] in ("BinOp", "OpCall") and n.get("op") == "=" and any(m["k"] in ("Call", "MCall") and m.get("fn", "").endswith("Access::loc") for m in walk(n["c"][0])):
            r = Interp.bare(n["c"][1])
            if r is not None and any(m.get("d") == self.loc for m in walk(r)) and not any(m["k"] in ("ConditionalOperator", "BinOp") for m in walk(r)):
                return st.with_facts([("loc", ())]), True
        if n["k"] == "MCall" and n.get("mname") == "construct" and ("loc", ()) not in st.facts and self.P.derives(n.get("cls", ""), "lm::Component"):
            self.bads.append(n)
        return None

    def on_return(self, it, fr, n, st):
        e = kids(n)[0] if kids(n) else None
        if any(m["k"] in ("DeclRefExpr", "MCall") for m in walk(e) if e):
            self.rets += 1
            if ("loc", ()) not in st.facts:
                self.bads.append(n)
        return st


def check(ctx):
    P = ctx.P
    R = Result()
    S = Sites(ctx)
    # the generic lookup and the generic creation
    for f, cur in lookups(P):
        h = Walker(P, cur)
        Interp(P, h).run_fn(Frame(f, {}, frozenset({("this",)}), f.cls), St(x=False))
        R.count("lookups")
        R.oblige(not h.bads, f.qn + "/descend", "%s: when a name is not found under a component, the lookup goes on with (or returns) the component it started from instead of reporting that nothing was found" % f.qn,
                 f.where(h.bads[0]) if h.bads else f.where(), sample="%s: the current component is always the looked-up child" % f.qn)
    R.floor("lookups", 1)
    for f in P.fns("lm::comp::create_without_construct"):
        if not f.body or len(f.params) < 2:
            continue
        h = Located(P, f.params[1]["d"])
        Interp(P, h).run_fn(Frame(f, {}), St())
        R.count("creation_functions")
        R.oblige(h.rets and not h.bads, "create/loc", "%s: an instance is handed out on a path on which its locator was not stored" % f.qn, f.where(h.bads[0]) if h.bads else f.where())
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        # other functions that make an instance under a given locator (Python wrappers)
        if f.qn.startswith("lm::comp::create_without_construct") or not f.body or f.is_lambda or not f.file.startswith(P.root):
            continue
        if not any(n["k"] == "Call" and n.get("fn") == "lm::comp::detail::create_comp" for n in f.walk()):
            continue
        ps = [p["d"] for p in f.params if p["n"] == "loc" or any(n["k"] in ("BinOp", "OpCall") and n.get("op") == "=" and any(m.get("fn", "").endswith("Access::loc") for m in walk(n["c"][0])) and any(m.get("d") == p["d"] for m in walk(n["c"][1])) for n in f.walk())]
        if len(ps) != 1:
            continue
        h = Located(P, ps[0])
        Interp(P, h).run_fn(Frame(f, {}), St())
        h.bads = [b for b in h.bads if b["k"] == "MCall" or any(m.get("d") in f.vars for m in walk(b))]
        R.count("creation_functions")
        R.oblige(not h.bads, "create/loc/" + f.name, "%s: an instance is constructed or handed out before its locator is stored" % f.qn, f.where(h.bads[0]) if h.bads else f.where(),
                 sample="%s: locator is stored before construction" % f.name)
    R.floor("creation_functions", 1)
    classes = [(c, w) for c, k, w in ctx.asset_components()]
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] == "Call" and n.get("fn") == "lm::comp::detail::register_root_comp" and f.cls in P.records:
                classes.append((f.cls, f.where()))
    for cls, where in sorted(set(classes)):
        for f, n, g, e, dest in S.of_class(cls):
            R.count("creation_sites")
            name = lit(g, e)
            if not dest:
                R.count("untracked_destination")
                continue
            uf, h = run_underlying(ctx, cls, name)
            dn = "/".join(sorted(dest))
            key = "%s/%s/%s" % (cls, dn, name if name is not None else "<dynamic>")
            rets = h.rets if h else []
            if name is not None:
                hit = [r for r in rets if r[0] != "null" and member_of(r[0]) & dest]
                miss = [r for r in rets if r not in hit and not (r[0] != "null" and not r[0])]
                ok = bool(hit) and not miss
                R.oblige(ok, key, "%s creates its child '%s' (member %s) under its own locator, but looking that locator up %s" % (
                    cls, name, dn, "returns null" if any(r[0] == "null" for r in miss) or not rets else "yields another component"),
                    uf.where() if uf and uf.cls != "lm::Component" else f.where(n), [f.where(n)],
                    sample="%s: underlying(\"%s\") returns %s" % (cls, name, dn))
            else:
                text = ntext(e)
                maps = keyed_maps(P, g, text) | (keyed_maps(P, f, text) if g is not f else set())
                if g is not f:
                    # helper: the map may be filled in the helper under its own parameter
                    a = loc_arg(P, n["c"][2])
                    if a is not None:
                        maps |= keyed_maps(P, f, ntext(a))
                direct = any(r[0] != "null" and member_of(r[0]) & (dest | maps) for r in rets)
                ok = direct and bool(maps & (h.maps if h else set()))
                R.oblige(ok, key + "@" + f.name, "%s creates a child component under a computed name and stores it in %s, but the lookup does not find it under that name" % (cls, dn),
                         f.where(n), [uf.where() if uf else ""],
                         sample="%s: computed child name is entered into %s used by underlying" % (cls, "/".join(sorted(maps))))
    R.floor("creation_sites", 15)
    for cls, where in sorted(set(classes)):
        # an unknown name finds nothing
        owner, m = P.find_method(cls, "underlying")
        if m is not None and owner != "lm::Component":
            uf, h = run_underlying(ctx, cls, "\0no such child")
            if h is not None:
                R.count("name_lookups")
                bad = [r for r in h.rets if r[0] != "null" and member_of(r[0]) and not h.maps and not any("[]" in p or "*" in p for p in r[0])]
                R.oblige(not bad, cls + "/unknown-name", "%s: looking up a name that is none of its children yields member %s instead of nothing" % (cls, "/".join(sorted(member_of(bad[0][0]))) if bad else ""),
                         bad[0][1] if bad else uf.where(), sample="%s: unknown names yield nothing" % cls)
        for c in [cls] + P.bases_of(cls):
            for f in P.by_cls.get(c, ()) if c != "lm::Component" else ():
                if not f.body or f.is_lambda:
                    continue
                for g in [f] + ctx.lambdas_of(f):
                    for n, ok in index_entries(g):
                        R.count("index_entries")
                        R.oblige(ok, "%s/%s/index" % (cls, g.where(n)), "%s: the lookup table entry made here does not hold the index of the element added next to it" % cls, g.where(n),
                                 sample="%s: table entry is the index of the added element" % g.where(n))
    return R
