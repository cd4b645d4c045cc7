"""S01: serialization is complete and save/load agree."""
from ..core import *
from ..prog import kids, walk

ARCH = ("cereal::InputArchive<", "cereal::OutputArchive<")


def is_archive_call(n):
    return n["k"] == "OpCall" and n.get("op") == "()" and n.get("cls", "").startswith(ARCH)


def archive_args(P, n):
    out = []
    for a in n["c"][1:]:
        while a is not None and a["k"] in ("Call", "Construct", "Cast") and ("make_nvp" in a.get("fn", "") or "NameValuePair" in P.tstr(a.get("t", -1))) and kids(a):
            a = kids(a)[-1]
        if a is not None:
            out.append(a)
    return out


def bare(n):
    while n["k"] in ("Cast", "Construct", "InitList") and len(kids(n)) == 1:
        n = kids(n)[0]
    return n


def truth(n):
    return bool(n["v"]) if n["k"] == "Bool" else n.get("v") not in ("0", 0)


def agree(a, b):
    """item sequences of save and load: every sequence of one side is possible on the other"""
    def m(x, y):
        return len(x) == len(y) and all(p[:2] == q[:2] and (len(p) < 3 or len(q) < 3 or p[2] is None or q[2] is None or p[2] == q[2]) for p, q in zip(x, y))
    return frozenset(x for x in a if not any(m(x, y) for y in b)), frozenset(y for y in b if not any(m(x, y) for x in a))


WIDTH = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8, "long double": 16}


def narrower(P, local, member):
    """a value of the member's type does not fit the local it passes through"""
    a, b = (P.tstr(P.strip_ref(t)).replace("const ", "").strip() for t in (local, member))
    if a not in WIDTH or b not in WIDTH:
        return False
    fl = ("float", "double", "long double")
    return WIDTH[a] < WIDTH[b] or (a in fl) < (b in fl)


class ArIt(Interp):
    """records archive operations that depend on conditions the loading side cannot know"""

    def stmt(self, fr, n, st, loops):
        if n is None or st is None or n["k"] not in ("IfStmt", "SwitchStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") or n.get("cx") or self.h.dir != "load":
            return super().stmt(fr, n, st, loops)
        n0 = self.h.nops
        cells = list(self.h.cond_facts)
        self.h.cond_facts.append(set())
        r = super().stmt(fr, n, st, loops)
        self.h.cond_facts = cells
        if self.h.nops > n0 and n["k"] in ("IfStmt", "SwitchStmt"):
            c = n["c"]
            facts = st.facts
            if n["k"] == "IfStmt" and any(m["k"] in ("Call", "MCall", "OpCall") and is_archive_call(m) for m in walk(c[2])):
                return r
            bad = self.h.unknown(self, fr, c[2], facts)
            if bad is not None:
                self.h.uncontrolled.append((bad, fr.fn.where(n)))
        return r


class Arch:
    """Interp handler: facts ('ar', path) + set of possible archive traces in st.x."""

    def __init__(self, P, direction):
        self.P = P
        self.dir = direction
        self.locals = []     # (path, type, where) archived locals
        self.nops = 0
        self.cond_facts = []
        self.uncontrolled = []   # (name, where): items read only under a condition not determined by what was read
        self.narrow = []

    def unknown(self, it, fr, cond, facts, depth=0):
        """a name in the condition whose value the archive does not determine"""
        for m in walk(cond):
            if m["k"] == "MemberExpr" and m.get("dk") == "field":
                ps = [p for p in it.resolve(fr, m) if p[0] == "this" or (isinstance(p[0], tuple) and p[0][0] == "v")]
                if ps and not any(("ar", p[:i]) in facts for p in ps for i in range(1, len(p) + 1)):
                    return m.get("n")
            elif m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param", "binding"):
                ps = it.resolve(fr, m)
                if any(("ar", p[:i]) in facts for p in ps for i in range(1, len(p) + 1)):
                    continue
                if "Archive" in self.P.tstr(m.get("t", -1)):
                    continue
                f, how = fr.lookup(m.get("d"))
                if how == "var" and depth < 4:
                    init = (f.fn.vars[m["d"]].get("c") or [None])[0]
                    if init is None:
                        return m.get("n")
                    b = self.unknown(it, f, init, facts, depth + 1)
                    if b is not None:
                        return b
                elif any(p[0] == ("v", "arg1", 0) for p in ps) or how == "param" and not ps:
                    return m.get("n")
        return None

    CAP = 64

    def token(self, it, fr, a):
        ps = it.resolve(fr, a)
        ps = frozenset(p for p in ps)
        named = sorted(pstr(p) for p in ps if p[0] == "this")
        t = self.P.tstr(self.P.strip_ref(a.get("t", -1)))
        t = t.replace("const ", "").strip()
        val, d = None, None
        b = bare(a)
        if b["k"] in ("Bool", "Int"):
            val = truth(b)
        elif b["k"] == "DeclRefExpr" and b.get("dk") in ("local", "param") and not named:
            d = b.get("d")
        return ps, (named[0] if named else "", t, val, d)

    def on_assume(self, it, fr, cond, sense, st):
        """loading: a branch on a value just read fixes that value in the item sequences"""
        if st is None or self.dir != "load" or not st.x:
            return st
        c = bare(cond)
        d, v = None, sense
        if c["k"] == "DeclRefExpr":
            d = c.get("d")
        elif c["k"] == "BinOp" and c["op"] in ("==", "!="):
            l, r = bare(c["c"][0]), bare(c["c"][1])
            if r["k"] == "DeclRefExpr":
                l, r = r, l
            if l["k"] == "DeclRefExpr" and r["k"] in ("Bool", "Int") and (r["k"] == "Bool" or r.get("v") in ("0", "1")):
                d, v = l.get("d"), (sense == (c["op"] == "==")) == truth(r)
        if d is None:
            return st
        out = set()
        for tr in st.x:
            idx = [i for i, t in enumerate(tr) if len(t) > 3 and t[3] == d]
            if not idx:
                out.add(tr)
                continue
            i = idx[-1]
            if tr[i][2] is not None and tr[i][2] != v:
                continue
            out.add(tr[:i] + (tr[i][:2] + (v, d),) + tr[i + 1:])
        return st.with_x(frozenset(out)) if out else None

    def on_node(self, it, fr, n, st):
        if is_archive_call(n):
            self.nops += 1
            facts = []
            x = st.x
            for a in archive_args(self.P, n):
                ps, tok = self.token(it, fr, a)
                for p in ps:
                    facts.append(("ar", p))
                    # a local copy of a member stands for the member when saving
                    if p and isinstance(p[0], tuple) and p[0][0] == "v":
                        f, how = fr.lookup(p[0][1])
                        if how == "var":
                            v = f.fn.vars[p[0][1]]
                            init = (v.get("c") or [None])[0]
                            for m in walk(init) if init else ():
                                if m["k"] in ("MemberExpr",) and not narrower(self.P, v["t"], m.get("t", -1)):
                                    for q in it.resolve(f, m):
                                        facts.append(("ar", q))
                        self.locals.append((p, a, fr.fn.where(n)))
                if not ps or all(isinstance(p[0], tuple) and p[0][0] == "?" for p in ps):
                    # expression over members (casts, conversions)
                    for m in walk(a):
                        if m["k"] == "MemberExpr" and m.get("dk") == "field" and not narrower(self.P, a.get("t", -1), m.get("t", -1)):
                            for q in it.resolve(fr, m):
                                facts.append(("ar", q))
                x = frozenset(s + (tok,) if len(s) < 60 else s for s in x)
            return st.with_facts(facts).with_x(x), True
        if n["k"] in ("MCall",) and n.get("mname") in ("save", "load") and n.get("virt") and n["c"] and n["c"][0]["k"] != "CXXThisExpr":
            return st.with_x(frozenset(s + (("", "<virtual>"),) for s in st.x)), True
        # load direction: member assigned from an archived local
        if (n["k"] == "BinOp" and n["op"] == "=") or (n["k"] == "OpCall" and n.get("op") == "="):
            srcs = set()
            for m in walk(n["c"][1]):
                if m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param", "binding"):
                    srcs |= it.resolve(fr, m)
            st = st.with_facts(("set", p) for p in it.resolve(fr, n["c"][0]))
            if any(("ar", s) in st.facts for s in srcs if isinstance(s[0], tuple) and s[0][0] == "v"):
                loc = [m for m in walk(n["c"][1]) if m["k"] == "DeclRefExpr"]
                if not any(narrower(self.P, m.get("t", -1), n["c"][0].get("t", -1)) for m in loc):
                    return st.with_facts(("ar", p) for p in it.resolve(fr, n["c"][0])), True
            return st, True
        if n["k"] == "MCall" and n.get("mname") == "add_weakptr":
            ps = set()
            for m in walk(n):
                if m["k"] == "UnOp" and m["op"] == "&":
                    ps |= it.resolve(fr, m["c"][0])
            return st.with_facts(("set", p) for p in ps), True
        if n["k"] == "MCall" and not n.get("cls", "").startswith("lm::") and n.get("mname") in ("push_back", "emplace_back", "insert", "emplace", "assign", "store", "reset"):
            srcs = set()
            for a in n["c"][1:]:
                for m in walk(a) if a else ():
                    if m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param", "binding"):
                        srcs |= it.resolve(fr, m)
            if n["mname"] in ("assign", "store", "reset", "emplace"):
                st = st.with_facts(("set", p) for p in it.resolve(fr, n["c"][0]))
            if any(("ar", s) in st.facts for s in srcs if isinstance(s[0], tuple) and s[0][0] == "v"):
                return st.with_facts(("ar", p) for p in it.resolve(fr, n["c"][0])), True
            return st, True
        return None

    def merge_x(self, a, b):
        s = a | b
        return s if len(s) <= self.CAP else frozenset(sorted(s, key=repr)[:self.CAP])

    def inline(self, it, fr, n, f):
        # only helpers that can see an archive matter
        return any("Archive" in self.P.tstr(p["t"]) for p in f.params) or f.is_lambda or self.mentions_archive(f)

    def mentions_archive(self, f):
        return False


def run_serial(P, fn, direction, dyn=None, this=frozenset({("this",)})):
    h = Arch(P, direction)
    it = ArIt(P, h)
    env = {}
    for i, p in enumerate(fn.params):
        env[p["d"]] = frozenset({(("v", "arg%d" % i, 0),)})
    fr = Frame(fn, env, this, dyn or fn.cls)
    st = it.run_fn(fr, St(x=frozenset({()})))
    return h, it, st


def loop_norm(st):
    return st.x if st is not None else frozenset()


def covered(P, ctx, facts, path, t, depth=0):
    if ("ar", path) in facts:
        return True
    x = P.ty(P.strip_ref(t))
    if x["k"] == "rec" and x.get("full") in P.records and depth < 4:
        fs = P.all_fields(x["full"])
        if fs and all(covered(P, ctx, facts, add(path, f["n"]), f["t"], depth + 1) for _, f in fs):
            return True
    if x["k"] == "rec" and x.get("rec", "") in ("std::vector", "std::array", "std::optional", "std::unique_ptr") and x.get("targs") and depth < 4:
        for e in ("[]", "*"):
            if ("ar", add(path, e)) in facts:
                return True
        et = x["targs"][0]
        if covered_elem(P, ctx, facts, add(path, "[]"), et, depth + 1):
            return True
    if x["k"] == "array" and ("ar", add(path, "[]")) in facts:
        return True
    if x.get("rec", "").startswith("glm::"):
        return ("ar", add(path, "[]")) in facts or all(("ar", add(path, c)) in facts for c in ("x", "y", "z"))
    return False


def covered_elem(P, ctx, facts, path, t, depth):
    if ("ar", path) in facts:
        return True
    x = P.ty(P.strip_ref(t))
    if x["k"] == "rec" and x.get("full") in P.records:
        fs = P.all_fields(x["full"])
        return bool(fs) and all(covered(P, ctx, facts, add(path, f["n"]), f["t"], depth) for _, f in fs)
    return False


WRITERS = {"clear", "assign", "resize", "reset", "emplace", "push_back", "emplace_back", "insert", "swap", "store", "operator=", "init", "add", "norm"}
SYNC = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable", "std::thread", "std::once_flag")


class Access:
    """Reads of members before a whole-value overwrite (for scratch members)."""

    def __init__(self, P):
        self.P = P
        self.exposed = {}

    def on_node(self, it, fr, n, st):
        P = self.P
        if (n["k"] == "BinOp" and n["op"] == "=") or (n["k"] == "OpCall" and n.get("op") == "="):
            return st.with_facts(("w", p) for p in it.resolve(fr, n["c"][0])), True
        if n["k"] == "MCall" and n.get("mname") in ("clear", "assign") and not n.get("cls", "").startswith("lm::"):
            return st.with_facts(("w", p) for p in it.resolve(fr, n["c"][0])), True
        if n["k"] == "MemberExpr" and n.get("dk") == "field":
            par = fr.fn.parent(n)
            if par is not None and ((par["k"] in ("BinOp", "OpCall") and par.get("op") == "=" and par["c"][0] is n) or
                                    (par["k"] == "MCall" and par.get("mname") in ("clear", "assign") and par["c"][0] is n)):
                return None
            for p in it.resolve(fr, n):
                if p[0] == "this" and len(p) >= 2:
                    top = p[:2]
                    if ("w", top) not in st.facts and ("w", p) not in st.facts:
                        self.exposed.setdefault(top, (fr.fn.where(n), fr.fn.qn))
        return None

    def inline(self, it, fr, n, f):
        o = P_obj = self.P.call_obj(n)
        return f.is_lambda or (o is not None and o["k"] == "CXXThisExpr")


SERIAL_NAMES = ("load", "save", "serialize", "serialize_", "construct")


def state_use(ctx, cls):
    """member -> reasons it is behaviour-affecting state: read (before overwrite) outside
    construction/serialization, and written outside its default initialiser."""
    P = ctx.P
    h = Access(P)
    for f in ctx.methods(cls):
        if f.name in SERIAL_NAMES or f.get("ctor") or f.get("dtor") or f.get("implicit") or f.get("defaulted"):
            continue
        # private helpers used only during construction are analysed too (harmless)
        it = Interp(P, h)
        env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
        it.run_fn(Frame(f, env, frozenset({("this",)}), cls), St())
        for g in ctx.lambdas_of(f):
            # lambdas handed to other code (parallel loops, callbacks)
            lex = Frame(f, env, frozenset({("this",)}), cls)
            it.run_fn(Frame(g, {p["d"]: frozenset({(("v", "larg%d" % i, 0),)}) for i, p in enumerate(g.params)}, None, None, up=lex, lex=lex), St())
    return h.exposed


def only_used_by_construct(ctx, cls):
    """names of methods reachable only from construct/load of the class (setup helpers)."""
    P = ctx.P
    ms = {f.key: f for f in ctx.methods(cls)}
    callers = P.callers()
    out = set()
    changed = True
    while changed:
        changed = False
        for k, f in ms.items():
            if k in out or f.get("virtual") or f.name in SERIAL_NAMES:
                continue
            cs = callers.get(k, [])
            if not cs:
                continue
            ok = True
            for g, _ in cs:
                o = P.outer(g)
                if o.name in SERIAL_NAMES or o.key in out:
                    continue
                ok = False
            if ok:
                out.add(k)
                changed = True
    return out


def written_fields(ctx, cls):
    """members assigned anywhere except default member initialisers / constructors."""
    P = ctx.P
    out = set()
    for f in ctx.methods(cls):
        if f.get("ctor") or f.get("implicit"):
            continue
        for g in [f] + ctx.lambdas_of(f):
            for n in g.walk():
                if n["k"] == "MemberExpr" and n.get("dk") == "field":
                    # conservative: any non-const appearance that is not a plain rvalue read
                    par = g.parent(n)
                    x = n
                    while par is not None and par["k"] in ("MemberExpr", "ArraySubscriptExpr") or (par is not None and par["k"] == "OpCall" and par.get("op") in ("[]", "->", "*") and par["c"][0] is x):
                        x, par = par, g.parent(par)
                    if par is None:
                        continue
                    if par["k"] in ("BinOp", "CAssign", "OpCall") and par.get("op", "").endswith("=") and par.get("op") not in ("==", "!=", "<=", ">=") and par["c"][0] is x:
                        out.add(n["n"])
                    elif par["k"] == "MCall" and par["c"][0] is x and not par.get("mconst"):
                        out.add(n["n"])
                    elif par["k"] == "UnOp" and par["op"] in ("++", "--", "&"):
                        out.add(n["n"])
                    elif par["k"] in ("Call", "MCall", "Construct", "OpCall"):
                        args = P.call_args(par)
                        for a, pt in zip(args, par.get("pt", [])):
                            if a is x:
                                tt = P.ty(pt)
                                if tt["k"] == "ref" and not P.ty(tt["to"]).get("const"):
                                    out.add(n["n"])
                    elif par["k"] == "Var":
                        tt = P.ty(par["t"])
                        if tt["k"] == "ref" and not P.ty(tt["to"]).get("const"):
                            out.add(n["n"])
    return out


def serial_fn(ctx, cls, name):
    P = ctx.P
    owner, m = P.find_method(cls, name, lambda m: any("Archive" in P.tstr(t) for t in m["pt"]))
    if not m:
        return None
    return P.funcs.get(m["f"])


def check(ctx):
    P = ctx.P
    R = Result()
    # ---- components
    for cls, key, where in ctx.asset_components():
        if P.recname_is_test(cls) if hasattr(P, "recname_is_test") else False:
            continue
        rec = P.records[cls]
        R.count("component_classes")
        fs = ctx.fields(cls)
        sv, ld = serial_fn(ctx, cls, "save"), serial_fn(ctx, cls, "load")
        fstates = {}
        for d, f in (("save", sv), ("load", ld)):
            if f is None:
                fstates[d] = None
                continue
            fstates[d] = run_serial(P, f, d, cls)
        setup = only_used_by_construct(ctx, cls)
        exposed = None
        written = written_fields(ctx, cls)
        if fs:
            h = Access(P)
            for f in ctx.methods(cls):
                if f.name in SERIAL_NAMES or f.name in ("foreach_underlying",) or f.get("ctor") or f.get("dtor") or f.get("implicit") or f.get("defaulted") or f.key in setup:
                    continue
                it = Interp(P, h)
                env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
                root = Frame(f, env, frozenset({("this",)}), cls)
                it.run_fn(root, St())
                for g in ctx.lambdas_of(f):
                    par = P.lambda_parent(g)
                    lex = root if par is f else Frame(par, {}, None, cls, up=root, lex=root) if par else root
                    it.run_fn(Frame(g, {p["d"]: frozenset({(("v", "larg%d" % i, 0),)}) for i, p in enumerate(g.params)}, None, None, up=lex, lex=lex), St())
            exposed = h.exposed
        for owner, f in fs:
            t = P.ty(f["t"])
            if t["k"] == "rec" and t["s"].startswith(SYNC):
                continue
            top = ("this", f["n"])
            if top not in exposed:
                R.count("members_not_state")
                continue
            if f["n"] not in written:
                R.count("members_never_written")
                continue
            R.count("state_members")
            for d in ("save", "load"):
                s = fstates[d]
                ok = s is not None and s[2] is not None and covered(P, ctx, s[2].facts, top, f["t"])
                R.oblige(ok, "%s::%s/%s" % (cls, f["n"], d),
                         "%s: member '%s' determines behaviour (read in %s at %s) but is not %s on every path" % (
                             cls, f["n"], exposed[top][1], exposed[top][0], "saved" if d == "save" else "restored"),
                         "%s:%d" % (P.rel(rec["file"]) if owner == cls else P.rel(P.records[owner]["file"]), f["l"]),
                         sample="%s.%s %sd by %s" % (cls, f["n"], d, (sv or ld).qn if (sv or ld) else "-"))
        if sv is not None and ld is not None and fstates["save"][2] is not None and fstates["load"][2] is not None:
            a, b = loop_norm(fstates["save"][2]), loop_norm(fstates["load"][2])
            da, db = agree(a, b)
            R.oblige(not da and not db, "%s/order" % cls, "%s: the sequence of items written by save differs from the sequence read by load: %s vs %s" % (cls, fmt(da), fmt(db)),
                     sv.where(), sample="%s: save and load process the same item sequence" % cls)
            weak_local(R, P, ctx, fstates["load"][0], cls)
            controlled(R, fstates["load"][0], cls, ld)
        elif (sv is None) != (ld is None):
            R.bad("%s/pair" % cls, "%s overrides only one of save/load" % cls, where)
    R.floor("component_classes", 40)
    R.floor("state_members", 60)
    # ---- value types with a serialize member
    seen = {}
    for f in P.by_name.get("serialize", []):
        if not f.cls or not f.params or "Archive" not in P.tstr(f.params[0]["t"]):
            continue
        d = "load" if "Input" in P.tstr(f.params[0]["t"]) else "save"
        seen.setdefault(f.cls, {})[d] = f
    for cls, ds in sorted(seen.items()):
        if cls not in P.records:
            continue
        R.count("value_types")
        runs = {d: run_serial(P, f, d, cls) for d, f in ds.items()}
        for owner, fl in P.all_fields(cls):
            for d, (h, it, st) in runs.items():
                R.oblige(st is not None and covered(P, ctx, st.facts, ("this", fl["n"]), fl["t"]), "%s::%s/%s" % (cls, fl["n"], d),
                         "%s: member '%s' is not %s by serialize() on every path" % (cls, fl["n"], "saved" if d == "save" else "restored"),
                         "%s:%d" % (P.rel(P.records[owner]["file"]), fl["l"]), sample="%s.%s (%s)" % (cls, fl["n"], d))
        if len(runs) == 2 and all(r[2] is not None for r in runs.values()):
            da, db = agree(runs["save"][2].x, runs["load"][2].x)
            R.oblige(not da and not db, "%s/order" % cls, "%s: serialize() writes and reads different item sequences: %s vs %s" % (cls, fmt(da), fmt(db)), ds["save"].where())
        if "load" in runs:
            controlled(R, runs["load"][0], cls, ds["load"])
    R.floor("value_types", 12)
    # ---- free serialization functions (cereal namespace)
    free_pairs(ctx, R)
    # ---- archives: weak references recovered after load
    weak_recovery(ctx, R)
    pairs_kept(ctx, R)
    return R


def fmt(s):
    s = sorted(s, key=repr)[:2]
    return "; ".join("(" + ", ".join((t[0] or t[1].split("<")[0]) for t in x) + ")" for x in s) or "-"


def weak_local(R, P, ctx, h, what):
    for p, a, where in h.locals:
        t = a.get("t", -1)
        if ctx.is_comp_ptr(t):
            R.bad("%s/weaklocal" % what, "%s: weak reference is restored through a temporary whose address is recorded for later relinking" % what, where)


def controlled(R, h, what, f):
    R.oblige(not h.uncontrolled, "%s/condition" % what,
             "%s: whether items are read depends on '%s', which is not determined by what was read before" % (what, h.uncontrolled[0][0] if h.uncontrolled else ""),
             h.uncontrolled[0][1] if h.uncontrolled else f.where())


def free_pairs(ctx, R):
    P = ctx.P
    groups = {}
    for name in ("save", "load", "serialize", "save_owned"):
        for f in P.by_name.get(name, []):
            if f.cls or len(f.params) != 2 or "Archive" not in P.tstr(f.params[0]["t"]):
                continue
            d = "load" if "InputArchive" in P.tstr(f.params[0]["t"]) else "save"
            t = P.strip_ref(f.params[1]["t"])
            ts = P.tstr(t).replace("const ", "")
            if ts.startswith(("cereal::", "float", "int", "unsigned", "double", "bool", "long", "char", "short", "signed")):
                continue
            if name == "save_owned":
                continue
            groups.setdefault(ts, {})[d] = f
    for ts, ds in sorted(groups.items()):
        R.count("library_types")
        runs = {d: run_serial(P, f, d, None, frozenset()) for d, f in ds.items()}
        # glm: all components
        m = glm_dim(ts)
        for d, f in ds.items():
            st = runs[d][2]
            arg = (("v", "arg1", 0),)
            if m:
                got = glm_covered(P, f, st, arg, m)
                R.oblige(got, "%s/%s" % (ts, d), "%s: %s does not process all %d components" % (ts, d, m), f.where(), sample="%s: all %d components (%s)" % (ts, m, d))
        if len(runs) == 2 and all(r[2] is not None for r in runs.values()):
            strip = lambda x: frozenset(tuple(("", norm_t(t[1])) + tuple(t[2:3]) for t in s) for s in x)
            da, db = agree(strip(runs["save"][2].x), strip(runs["load"][2].x))
            R.oblige(not da and not db, "%s/order" % ts, "%s: archive item sequences of save and load differ: %s vs %s" % (ts, fmt(da), fmt(db)), ds["save"].where(),
                     sample="%s: save/load item sequences agree" % ts[:60])
        if "load" in runs and not m:
            controlled(R, runs["load"][0], ts, ds["load"])
            st = runs["load"][2]
            arg = (("v", "arg1", 0),)
            ok = st is not None and (any(f[0] in ("set", "ar") and f[1] == arg for f in st.facts) or covered(P, ctx, st.facts, arg, ds["load"].params[1]["t"]))
            R.oblige(ok, "%s/restored" % ts, "%s: loading leaves the previous value in place on some path" % ts, ds["load"].where(), sample="%s: load sets the value on every path" % ts[:60])
    R.floor("library_types", 8)


def norm_t(t):
    t = t.replace("const ", "").strip()
    if t in ("unsigned char", "uint8_t"):
        return "u8"
    if t.startswith("std::basic_string"):
        return "string"
    return t


def glm_dim(ts):
    import re
    m = re.match(r"glm::vec<(\d+)", ts)
    if m:
        return int(m.group(1))
    m = re.match(r"glm::mat<(\d+)", ts)
    if m:
        return int(m.group(1))
    return None


def glm_covered(P, f, st, arg, n):
    # loop 0..n over [] or all components individually
    if st is None:
        return False
    if ("ar", add(arg, "[]")) in st.facts:
        for x in f.walk():
            if x["k"] == "ForStmt":
                cond = x["c"][2]
                init = x["c"][0]
                lo = None
                if init is not None and kids(init):
                    e = (kids(init)[0].get("c") or [None])[0]
                    lo = int(e["v"]) if e is not None and e["k"] == "Int" else None
                r = cond["c"][1] if cond and cond.get("op") in ("<", "!=", "<=") else None
                if r is not None and r["k"] == "Int" and lo is not None:
                    cnt = int(r["v"]) - lo + (1 if cond["op"] == "<=" else 0)
                    return cnt == n and lo == 0
        # explicit indices
        idx = set()
        for x in f.walk():
            if x["k"] == "OpCall" and x.get("op") == "[]" and len(x["c"]) > 1 and x["c"][1]["k"] == "Int":
                idx.add(int(x["c"][1]["v"]))
        if idx:
            return idx == set(range(n))
        return True
    return all(("ar", add(arg, c)) in st.facts for c in "xyzw"[:n])


class Weak:
    """typestate of an InputArchive: after reading, foreach_weakptr with a relinking callback"""

    def __init__(self, P):
        self.P = P
        self.ops = []

    def on_node(self, it, fr, n, st):
        if is_archive_call(n) and "InputArchive" in n["cls"]:
            ps = it.resolve(fr, n["c"][0])
            for p in ps:
                self.ops.append((p, fr.fn.where(n)))
            return St(frozenset(f for f in st.facts if not (f[0] == "relinked" and f[1] in ps)), st.nulls, st.x), True
        if n["k"] == "MCall" and n.get("fn") == "lm::InputArchive::foreach_weakptr":
            ok = False
            for a in n["c"][1:]:
                for m in walk(a):
                    lam = []
                    if m["k"] == "Lambda":
                        lam = [m["f"]] + m.get("specs", [])
                    elif m["k"] == "DeclRefExpr" and m.get("dk") == "func":
                        lam = [m["d"]]
                    elif m["k"] == "DeclRefExpr" and m.get("dk") == "local":
                        f, how = fr.lookup(m["d"])
                        if how == "var":
                            for q in walk(f.fn.vars[m["d"]]):
                                if q["k"] == "Lambda":
                                    lam += [q["f"]]
                    for k in lam:
                        g = self.P.funcs.get(k)
                        if g and relinks(self.P, g):
                            ok = True
            if ok:
                return st.with_facts(("relinked", p) for p in it.resolve(fr, n["c"][0])), True
            return st, True
        return None

    def inline(self, it, fr, n, f):
        return f.is_lambda or any("InputArchive" in self.P.tstr(p["t"]) for p in f.params) and f.name not in ("load", "serialize")


class Relink:
    """callback(address, locator): on every path the pointer at the address gets the component found under the locator"""

    def __init__(self, P):
        self.P = P

    def on_node(self, it, fr, n, st):
        P = self.P
        if n["k"] in ("BinOp", "OpCall") and n.get("op") == "=":
            if n["c"][0]["k"] in ("UnOp", "ArraySubscriptExpr", "DeclRefExpr"):
                if self.lookup(fr, n["c"][1]):
                    return st.with_facts({("done", ())}), True
        if n["k"] in ("Call",) and "update_weak_ref" in n.get("fn", ""):
            return st.with_facts({("done", ())}), True
        return None

    def lookup(self, fr, e, depth=0):
        for m in walk(e):
            if m["k"] in ("Call", "MCall") and ("comp::get" in m.get("fn", "") or "comp::detail::get" in m.get("fn", "")):
                return True
            if m["k"] == "DeclRefExpr" and depth < 3:
                f, how = fr.lookup(m.get("d"))
                if how == "var":
                    init = (f.fn.vars[m["d"]].get("c") or [None])[0]
                    if init is not None and self.lookup(f, init, depth + 1):
                        return True
        return False

    def inline(self, it, fr, n, f):
        return f.is_lambda or any("uintptr_t" in self.P.tstr(p["t"]) or "unsigned long" in self.P.tstr(p["t"]) or "Component **" in self.P.tstr(p["t"]) or "Component *&" in self.P.tstr(p["t"]) for p in f.params)


def relinks(P, g):
    it = Interp(P, Relink(P))
    st = it.run_fn(Frame(g, {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(g.params)}), St())
    return st is not None and ("done", ()) in st.facts


class EachPair:
    def __init__(self, P, fparam):
        self.P, self.fp = P, fparam

    def on_node(self, it, fr, n, st):
        if n["k"] == "OpCall" and n.get("op") == "()" and any(p[0] == ("v", "arg0", 0) for p in it.resolve(fr, n["c"][0])):
            out = set()
            for a in n["c"][1:]:
                for m in walk(a):
                    ps = it.resolve(fr, m) if m["k"] in ("MemberExpr", "DeclRefExpr") else ()
                    if m["k"] == "DeclRefExpr":
                        f, how = fr.lookup(m.get("d"))
                        if how == "var" and (f.fn.vars[m["d"]].get("c") or [None])[0] is not None:      # element copied into a local
                            ps = ps | it.resolve(f, bare(f.fn.vars[m["d"]]["c"][0]))
                    for p in ps:
                        if p[0] == "this" and len(p) > 2 and it.each_elem(p):
                            out.add(("called", p))
            return st.with_facts(out), True
        return None

    def inline(self, it, fr, n, f):
        return f.is_lambda or (self.P.call_obj(n) is not None and self.P.call_obj(n)["k"] == "CXXThisExpr")


def pairs_kept(ctx, R):
    """add_weakptr keeps every pair, foreach_weakptr hands every pair out"""
    P = ctx.P
    for f in P.fns("lm::InputArchive::foreach_weakptr"):
        if not f.body:
            continue
        R.count("weak_reference_tables")
        it = Interp(P, EachPair(P, None))
        it.elem1 = "[1]"
        st = it.run_fn(Frame(f, {f.params[0]["d"]: frozenset({(("v", "arg0", 0),)})}, frozenset({("this",)}), f.cls), St())
        conts = {x[1][1] for x in (st.facts if st else ()) if x[0] == "called"}
        R.oblige(bool(conts), "foreach_weakptr", "not every recorded weak reference is handed to the relinking callback on every path", f.where(), sample="foreach_weakptr visits every recorded pair")
        for g in P.fns("lm::InputArchive::add_weakptr"):
            if not g.body:
                continue

            class Add:
                def on_node(s, it, fr, n, st):
                    if n["k"] == "MCall" and n.get("mname") in ("push_back", "emplace_back") and not n.get("cls", "").startswith("lm::"):
                        return st.with_facts(("kept", p) for p in it.resolve(fr, n["c"][0])), True
                    return None

                def inline(s, it, fr, n, f):
                    return False
            it = Interp(P, Add())
            st = it.run_fn(Frame(g, {}, frozenset({("this",)}), g.cls), St())
            R.oblige(st is not None and any(x[0] == "kept" and x[1][:2] == ("this", c) for x in st.facts for c in conts), "add_weakptr",
                     "a weak reference read from the archive is not recorded for relinking on every path", g.where())


def weak_recovery(ctx, R):
    P = ctx.P
    for f in P.funcs.values():
        if f.is_lambda or not f.body:
            continue
        vs = [v for v in f.vars.values() if v["k"] == "Var" and P.ty(v["t"]).get("rec") == "lm::InputArchive"]
        if not vs:
            continue
        R.count("input_archives")
        h = Weak(P)
        it = Interp(P, h)
        fr = Frame(f, {}, frozenset({("this",)}) if f.cls else None, f.cls)
        st = it.run_fn(fr, St())
        for v in vs:
            p = (("v", v["d"], fr.id),)
            used = any(o[0] == p for o in h.ops)
            R.oblige(not used or (st is not None and ("relinked", p) in st.facts), "%s/relink" % f.qn,
                     "%s: data is read from the archive but recorded weak references are not relinked to the loaded components on every path" % f.qn,
                     f.where(v), sample="%s relinks weak references after load" % f.qn)
    R.floor("input_archives", 1)
