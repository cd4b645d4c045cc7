"""S11: a component saved by itself is self-contained and can be loaded under another name."""
from ..core import *
from ..prog import kids, walk
from ..interp import Interp, Frame, St, add, starts
from .s01 import is_archive_call, archive_args, bare


class Deps:
    """data dependence of a locator expression on: LOC (the component's locator), ROOT (the archive's root locator), AR (a value read from the archive)"""

    def __init__(self, P):
        self.P = P

    def of(self, it, fr, e, depth=0, seen=None):
        P = self.P
        seen = seen if seen is not None else set()
        out = set()
        if e is None or depth > 8:
            return out
        stack = [e]
        while stack:
            m = stack.pop()
            if m is None:
                continue
            k = m["k"]
            if k in ("MCall", "Call"):
                nm = m.get("mname") or m.get("fn", "").rsplit("::", 1)[-1]
                if nm == "root_loc":
                    out.add("ROOT")
                    continue
                if nm == "loc" and (m.get("fn", "").startswith("lm::")):
                    out.add("LOC")
                    continue
            if k in ("Char", "Str") and str(m.get("v")) in (".", "46"):
                out.add("DOT")
            if k == "Int" and str(m.get("v")) == "1":
                out.add("ONE")
            if k in ("Call", "MCall", "OpCall"):
                f = P.funcs.get(m.get("f"))
                if f is not None and f.body and (f.is_lambda or any("Archive" in P.tstr(p["t"]) for p in f.params) or "string" in P.tstr(f.get("ret", -1))) and f.key not in seen:
                    seen = seen | {f.key}
                    nf = it.enter(fr, m, f)
                    for r in f.walk():
                        if r["k"] == "ReturnStmt" and kids(r):
                            out |= self.of(it, nf, kids(r)[0], depth + 1, seen)
                    if f.is_lambda or any("Archive" in P.tstr(p["t"]) for p in f.params):
                        continue
            if k == "DeclRefExpr" and m.get("dk") in ("local", "param", "binding"):
                out |= self.decl(it, fr, m, depth, seen)
                continue
            stack.extend(m.get("c", ()))
        return out

    def decl(self, it, fr, m, depth, seen):
        P = self.P
        f, how = fr.lookup(m.get("d"))
        key = (m.get("d"), f.id)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        if how == "param" or (how == "env" and m.get("dk") == "param"):
            i = next((i for i, p in enumerate(f.fn.params) if p["d"] == m["d"]), None)
            if f.call is not None and f.up is not None and i is not None:
                args = P.call_args(f.call)
                if i < len(args) and args[i] is not None:
                    out |= self.of(it, f.up, args[i], depth + 1, seen)
        v = f.fn.vars.get(m["d"])
        if v is not None and (v.get("c") or [None])[0] is not None:
            out |= self.of(it, f, v["c"][0], depth + 1, seen)
        # later changes of the variable, values read into it
        for g in [f.fn]:
            for n in g.walk():
                c = n.get("c", [])
                if n["k"] == "MCall" and c and bare(c[0]).get("d") == m["d"] and not n.get("mconst"):
                    for a in c[1:]:
                        out |= self.of(it, f, a, depth + 1, seen)
                elif n["k"] in ("BinOp", "CAssign", "OpCall") and n.get("op") in ("=", "+=") and c and bare(c[0]).get("d") == m["d"]:
                    for a in c[1:]:
                        out |= self.of(it, f, a, depth + 1, seen)
                elif is_archive_call(n) and "InputArchive" in n.get("cls", ""):
                    if any(bare(a).get("d") == m["d"] for a in archive_args(P, n)):
                        out.add("AR")
        return out


PREFIX = ("rfind", "find", "compare", "substr", "starts_with", "equal", "mismatch", "operator==", "strncmp")


class Save:
    def __init__(self, P):
        self.P, self.D = P, Deps(P)
        self.locs = []       # (deps, tested, where)
        self.saves = []

    def on_node(self, it, fr, n, st):
        P = self.P
        if is_archive_call(n):
            for a in archive_args(P, n):
                if "basic_string" not in P.tstr(P.strip_ref(a.get("t", -1))):
                    continue
                d = self.D.of(it, fr, a)
                if "LOC" in d:
                    noroot = any(p in self.rootpaths for p in st.nulls)
                    tested = any(f[0] == "sub" for f in st.facts)
                    nodot = any(f[0] == "nodot" for f in st.facts)
                    self.locs.append((d, tested, nodot, noroot, fr.fn, n))
            return st, True
        if n["k"] == "MCall" and n.get("mname") == "save" and n.get("virt"):
            self.saves.append((any(f[0] == "lookup" for f in st.facts), fr.fn, n))
            return st, True
        return None

    rootpaths = frozenset()

    def on_var(self, it, fr, v, st):
        init = (v.get("c") or [None])[0]
        if init is not None and any(m["k"] == "MCall" and m.get("mname") == "root_loc" for m in walk(init)):
            self.rootpaths = self.rootpaths | {(("v", v["d"], fr.id),)}
        if init is not None and "LOC" in self.D.of(it, fr, init):
            self.locpaths = self.locpaths | {(("v", v["d"], fr.id),)} | frozenset(it.resolve(fr, init))
        return st

    locpaths = frozenset({("none",)})

    def on_assume(self, it, fr, cond, sense, st):
        if st is None:
            return st
        P = self.P
        # closure of the condition: itself plus helpers it calls
        nodes, todo, seen = [], [cond], set()
        while todo:
            e = todo.pop()
            for m in walk(e):
                nodes.append(m)
                if m["k"] in ("Call", "MCall") and m.get("f") in P.funcs and m["f"] not in seen and P.funcs[m["f"]].body and len(seen) < 6:
                    seen.add(m["f"])
                    todo.append(P.funcs[m["f"]].body)
                if m["k"] == "DeclRefExpr" and m.get("dk") == "local":
                    f, how = fr.lookup(m["d"])
                    if how == "var" and m["d"] not in seen and P.ty(f.fn.vars[m["d"]]["t"])["k"] == "bool":
                        seen.add(m["d"])
                        todo.append((f.fn.vars[m["d"]].get("c") or [None])[0] or {"k": ""})
        names = {m.get("mname") or m.get("fn", "").rsplit("::", 1)[-1] for m in nodes if m["k"] in ("MCall", "Call")}
        dot = any(m["k"] in ("Char", "Str") and str(m.get("v")) in (".", "46") for m in nodes)
        d = self.D.of(it, fr, cond)
        for m in walk(cond):
            if m["k"] in ("Call", "MCall"):
                for a in self.P.call_args(m):
                    d |= self.D.of(it, fr, a)
        fs = set()
        if {"LOC", "ROOT"} <= d and names & set(PREFIX):
            fs.add(("sub" if dot else "nodot", (sense,)))
        if "get" in names or any("comp::get" in m.get("fn", "") for m in nodes) or self.lookup_local(fr, cond):
            # excused where the component has no locator
            for q in self.locpaths:
                fs.add(("lookup", q + (sense,)))
        return st.with_facts(fs)

    def lookup_local(self, fr, cond):
        for m in walk(cond):
            if m["k"] == "DeclRefExpr" and m.get("dk") == "local":
                f, how = fr.lookup(m["d"])
                if how == "var":
                    init = (f.fn.vars[m["d"]].get("c") or [None])[0]
                    if init is not None and any("comp::get" in y.get("fn", "") for y in walk(init) if y["k"] == "Call"):
                        return True
        return False

    def inline(self, it, fr, n, f):
        return f.is_lambda or any("Archive" in self.P.tstr(p["t"]) for p in f.params) or n["k"] == "Call" and f.qn.startswith(("cereal::", "lm::serial")) and self.P.ty(f.get("ret", -1))["k"] == "void"


def check(ctx):
    P = ctx.P
    R = Result()
    outs, ins = [], []
    for f in P.funcs.values():
        if f.is_lambda or not f.body or not f.params or f.cls:
            continue
        t = P.tstr(f.params[0]["t"])
        if "OutputArchive" in t and len(f.params) == 2 and ("Component" in P.tstr(f.params[1]["t"]) or ctx.is_comp_ptr(P.strip_ref(f.params[1]["t"]))) and f.name in ("save_owned", "serialize"):
            outs.append(f)
        if "InputArchive" in t and len(f.params) == 2 and f.name in ("load", "serialize"):
            ins.append(f)
    P.need(outs, "no function saving component references found")
    conv = {}
    for f in sorted(outs, key=lambda f: f.key):
        h = Save(P)
        it = Interp(P, h)
        env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
        it.run_fn(Frame(f, env), St())
        if not h.locs:
            continue
        R.count("locator_writers")
        what = "%s(%s)" % (f.qn, P.tstr(P.strip_ref(f.params[1]["t"])))
        rel = [l for l in h.locs if "ROOT" in l[0]]
        R.oblige(bool(rel), what + "/relative", "%s: the locator is never written relative to the saved component, so the file can only be loaded under the name it was saved with" % what, f.where(), sample=what + ": locator written relative to the root")
        for d, tested, nodot, noroot, g, n in h.locs:
            if noroot:
                continue
            R.oblige("ROOT" in d, what + "/rel2", "%s: with a root locator given, the absolute locator is written" % what, g.where(n))
            R.oblige(tested or nodot, what + "/outside", "%s: a reference to a component outside of the saved subtree is not rejected before it is written" % what, g.where(n), sample=what + ": outside references rejected")
            R.oblige(tested or not nodot, what + "/boundary", "%s: the test for belonging to the saved subtree accepts components whose name merely starts with the root's name" % what, g.where(n))
            conv.setdefault("save", set()).add("ONE" in d)
        for found, g, n in h.saves:
            R.oblige(found, what + "/resolves", "%s: a component whose locator does not lead back to it is saved without an error" % what, g.where(n))
    R.floor("locator_writers", 2)
    for f in sorted(ins, key=lambda f: f.key):
        D = Deps(P)
        it = Interp(P, None)
        env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
        fr = Frame(f, env)
        for n in f.walk():
            tgt = None
            if n["k"] == "Call" and n.get("fn") == "lm::comp::create_without_construct":
                tgt = P.call_args(n)[1]
            elif n["k"] == "MCall" and n.get("mname") == "add_weakptr":
                tgt = n["c"][2] if len(n["c"]) > 2 else None
            if tgt is None:
                continue
            R.count("locator_readers")
            what = "%s(%s)" % (f.qn, P.tstr(P.strip_ref(f.params[1]["t"])))
            d = D.of(it, fr, tgt)
            R.oblige("AR" in d, what + "/read", "%s: the locator of the loaded component does not come from the file" % what, f.where(n))
            R.oblige("ROOT" in d, what + "/rebase", "%s: the locator read from the file is not placed under the root the component is loaded at" % what, f.where(n), sample=what + ": locator = root + relative locator")
            conv.setdefault("load", set()).add("DOT" in d)
    R.floor("locator_readers", 2)
    R.oblige(conv.get("save") == conv.get("load") or not conv.get("save") or not conv.get("load"), "separator", "saving and loading disagree on whether the separator belongs to the relative locator", "include/lm/serial.h")
    # the archives carry the root they were given; top-level save and load use the component's own locator
    for nm in ("lm::OutputArchive", "lm::InputArchive"):
        for f in P.fns(nm + "::root_loc"):
            rets = [kids(r)[0] for r in f.walk() if r["k"] == "ReturnStmt" and kids(r)]
            fld = {m["n"] for r in rets for m in walk(r) if m["k"] == "MemberExpr" and m.get("dk") == "field"}
            R.count("archive_roots")
            for c in P.by_cls.get(nm, ()):
                if not c.get("ctor") or not c.body or c.get("implicit") or c.get("defaulted"):
                    continue
                sp = [p for p in c.params if "basic_string" in P.tstr(p["t"])]
                if not sp:
                    continue
                ok = any(i.get("field") in fld or i.get("n") in fld or i.get("m") in fld for i in c.get("inits", []) if any(m.get("d") == sp[0]["d"] for m in walk(i.get("e") or {"k": ""})))
                ok = ok or any(n["k"] in ("BinOp", "OpCall") and n.get("op") == "=" and n["c"][0].get("n") in fld and any(m.get("d") == sp[0]["d"] for m in walk(n["c"][1])) for n in c.walk())
                R.oblige(ok, nm + "/root", "%s does not keep the root locator it is given" % nm, c.where())
    R.floor("archive_roots", 2)
    for f in P.funcs.values():
        if not f.body:
            continue
        for v in f.vars.values():
            if v["k"] == "Var" and P.ty(v["t"]).get("rec") in ("lm::OutputArchive", "lm::InputArchive") and f.qn.startswith("lm::serial"):
                init = (v.get("c") or [None])[0]
                args = [a for a in (kids(init) if init else [])]
                R.count("archives")
                ok = len(args) > 1 and args[1]["k"] != "DefaultArg" and bool(kids(args[1]) or args[1]["k"] == "DeclRefExpr")
                ok = ok and (any(m["k"] in ("MCall", "Call") and (m.get("mname") == "loc" or m.get("fn", "").endswith("::loc")) for m in walk(args[1])) or any(m["k"] == "DeclRefExpr" and m.get("dk") in ("param", "local") for m in walk(args[1])))
                R.oblige(ok, "%s/archive" % f.qn, "%s: the archive is opened without the locator of the component it saves or loads" % f.qn, f.where(v))
    R.floor("archives", 2)
    return R
