"""S12: a failure to open, read, parse or write a file reaches the caller."""
from ..core import *
from ..prog import kids, walk
from .s13 import strip
from .s24 import local

ZERO_FAILS = {"std::filesystem::create_directories", "std::filesystem::create_directory"}     # result 0/false/null is a failure
NONZERO_FAILS = {"fclose", "fflush", "fseek", "fsetpos", "rename", "remove", "std::fclose", "std::fflush", "std::rename"}
COUNT = {"fwrite", "fread", "std::fwrite", "std::fread"}
NEGATIVE = {"fprintf", "vfprintf", "fputs", "fputc", "std::fprintf", "std::fputs", "fscanf"}
NULLFAILS = {"fopen", "std::fopen", "fdopen", "dlopen", "tmpfile"}
OUT = ("std::basic_ofstream", "std::basic_fstream")
IN = ("std::basic_ifstream", "std::basic_fstream")
TESTS_OK = ("operator bool", "good")
QUIET = ("flush", "close", "is_open", "eof", "rdstate", "exceptions", "imbue", "precision", "width", "setf", "tellp", "tellg", "seekg", "seekp", "clear")
TESTS_BAD = ("operator!", "fail", "bad")


def stdstream(n):
    """fprintf(stderr, ...) and the like report, they do not write files"""
    return any(x["k"] == "DeclRefExpr" and x.get("n") in ("stderr", "stdout") for x in walk(n))


class Status:
    def __init__(self, ctx):
        self.P = P = ctx.P
        self.repo = {}        # keys of repo functions whose false result is a failure
        fs = [f for f in P.funcs.values() if f.body and f.file.startswith(P.root) and "/ext/" not in f.file and not f.is_lambda and f.get("ret") is not None and P.ty(f.get("ret"))["k"] == "bool"]
        changed = True
        while changed:
            changed = False
            for f in fs:
                if f.key in self.repo:
                    continue
                why = None
                for n in f.walk():
                    if self.kind(n):
                        why = n
                    if n["k"] == "Var" and P.tstr(n["t"]).startswith(IN + OUT):
                        why = n
                if why is not None:
                    self.repo[f.key] = why
                    for o in self.family(f):
                        self.repo.setdefault(o, why)
                    changed = True

    def family(self, f):
        """the virtual operations f implements, and their other implementations"""
        P = self.P
        out = set()
        for b in P.bases_of(f.cls) if f.cls in P.records else ():
            for m in P.records.get(b, {}).get("methods", ()):
                if m["n"] == f.name and m.get("v") and P.ty(m["ret"])["k"] == "bool" and [P.tstr(t) for t in m.get("pt", [])] == [P.tstr(p["t"]) for p in f.params]:
                    out.add(m["f"])
                    out |= set(P.all_overriders(m["f"]))
        return out

    def kind(self, n):
        """how the result of call n tells failure"""
        if n["k"] not in ("Call", "MCall"):
            return None
        fn = n.get("fn", "")
        if fn.startswith("stbi_write_") and "func" not in fn and not fn.startswith("stbi_write_set"):
            return "zero"
        if fn in ZERO_FAILS or fn.startswith(("std::filesystem::create_director", "std::experimental::filesystem::v1::create_director", "std::experimental::filesystem::create_director")):
            return "zero"
        if fn in NULLFAILS:
            return "zero"
        if fn in NONZERO_FAILS:
            return "nonzero"
        if fn in COUNT:
            return "count"
        if fn in NEGATIVE and not stdstream(n):
            return "negative"
        if any(t in self.repo for t in self.P.targets(n)) or n.get("f") in self.repo:
            return "zero"
        return None


def failing(kind, op, k, sense):
    """does `call op k` being `sense` mean that the call failed? (True failed, False succeeded, None unknown)"""
    if op is None:      # tested for truth
        if kind == "zero":
            return not sense
        if kind == "nonzero":
            return sense
        return None
    if kind == "zero":
        if k == 0 and op in ("==", "!="):
            return sense == (op == "==")
        if k == 1 and op in ("==", "!="):
            return sense == (op == "!=")
        return None
    if kind == "nonzero":
        if k == 0 and op in ("==", "!="):
            return sense == (op == "!=")
        if k == -1 and op in ("==", "!="):
            return sense == (op == "==")
        return sense if op in ("<", ">") else None
    if kind == "negative":
        if op in ("<", "<="):
            return sense
        if op in (">", ">="):
            return not sense
        if k == -1 and op in ("==", "!="):
            return sense == (op == "==")
        return None
    if kind == "count":
        if op == "==":
            return not sense
        if op in ("!=", "<", "<="):
            return sense
        if op in (">=", ">"):
            return not sense
    return None


def const(n):
    n = strip(n)
    if n is None:
        return None
    if n["k"] == "Int":
        return int(n["v"])
    if n["k"] == "Bool":
        return 1 if n["v"] else 0
    if n["k"] == "CXXNullPtrLiteralExpr" or n["k"] == "GNUNullExpr":
        return 0
    if n["k"] == "UnOp" and n.get("op") == "-" and const(n["c"][0]) is not None:
        return -const(n["c"][0])
    return None


def callback(n):
    return n["k"] == "OpCall" and n.get("op") == "()" and n.get("cls", "").startswith("std::function<bool")


class H:
    def __init__(self, P, S):
        self.P, self.S = P, S
        self.bad = []          # (frame, return node or None, reason, origin)
        self.untested = []
        self._flags = {}
        self._writes = {}

    def merge_x(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def inline(self, it, fr, n, f):
        return f.file.startswith(self.P.root) and f.key not in self.S.repo and any(self.stream(a) for a in self.P.call_args(n) if a is not None)

    def stream(self, n):
        return n is not None and any(s in self.P.tstr(n.get("t", -1)) for s in OUT + IN + ("std::basic_ostream<", "std::basic_istream<", "std::basic_ios<", "std::basic_iostream<"))

    def writes(self, key, depth=0):
        """does a function of the repository write to a stream it is given?"""
        if key in self._writes:
            return self._writes[key]
        self._writes[key] = False
        f = self.P.funcs[key]
        r = False
        for n in f.walk():
            if n["k"] not in ("Call", "MCall", "OpCall", "Construct"):
                continue
            if not any(a is not None and self.stream(a) for a in n.get("c", [])):
                continue
            name = n.get("mname") or n.get("fn", "").split("::")[-1]
            if name in TESTS_OK + TESTS_BAD + QUIET:
                continue
            ts = [t for t in self.P.targets(n) if t in self.P.funcs and self.P.funcs[t].file.startswith(self.P.root)] if n["k"] != "Construct" else []
            r = r or not ts or any(self.writes(t, depth + 1) for t in ts)
        self._writes[key] = r
        return r

    def which(self, it, fr, n):
        """access paths of file streams expression n denotes"""
        n = strip(n)
        while n is not None and n["k"] in ("MCall", "OpCall", "Call") and self.stream(n):
            a = [x for x in n["c"] if x is not None and x.get("dk") != "func" and self.stream(x)]
            if not a:
                return frozenset()
            n = strip(a[0])
        return it.resolve(fr, n) if n is not None else frozenset()

    def filevar(self, it, fr, paths):
        return frozenset(p for p in paths if p in self.files)

    files = frozenset()

    def status(self, fr, n):
        """(call node, kind) whose status expression n is"""
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "DeclRefExpr":
            n = local(fr.fn, n)
        if n is not None and n["k"] == "BinOp" and n.get("op") == "=":
            n = strip(n["c"][1])
        if n is None:
            return None
        k = self.S.kind(n)
        if k is None and callback(n) and fr.fn.key in self.S.repo:
            k = "zero"
        return (n, k) if k else None

    def flags(self, f):
        """local variables that keep the outcome of file operations: {decl: what its truth means (True: failed)}"""
        r = self._flags.get(f.key)
        if r is not None:
            return r
        r = self._flags[f.key] = {}
        for n in f.walk():
            if not self.S.kind(n):
                continue
            cur, p = n, f.parent(n)
            s = True            # the truth of cur corresponds to `s` of the status test
            known = None
            while p is not None and p["k"] in ("ParenExpr", "Cast", "BinOp", "UnOp", "ExprWithCleanups", "ConditionalOperator") and p.get("op") not in ("=",):
                if p["k"] == "BinOp" and p["op"] in ("==", "!=", "<", "<=", ">", ">=") and known is None:
                    first = p["c"][0] is not None and p["c"][0].get("id") == cur.get("id")
                    op = p["op"] if first else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(p["op"], p["op"])
                    known = failing(self.S.kind(n), op, const(p["c"][1 if first else 0]), True)
                elif p["k"] == "UnOp" and p["op"] == "!":
                    if known is None:
                        known = failing(self.S.kind(n), None, None, True)
                    known = not known if known is not None else None
                cur, p = p, f.parent(p)
            if p is None:
                continue
            if known is None:
                known = failing(self.S.kind(n), None, None, True)
            d = p["d"] if p["k"] == "Var" else p["c"][0].get("d") if p["k"] in ("BinOp", "CAssign") and p["c"] and p["c"][0] is not None and p["c"][0]["k"] == "DeclRefExpr" else None
            if d is not None and d in f.vars and self.P.ty(f.vars[d]["t"])["k"] == "bool" and known is not None:
                r[d] = known
        return r

    def branch(self, f, n):
        """is the value of condition n used to decide where control goes (and not stored)?"""
        p = f.parent(n)
        while p is not None and p["k"] in ("ParenExpr", "Cast", "BinOp", "UnOp", "ExprWithCleanups", "OpCall") and p.get("op") not in ("=",):
            p = f.parent(p)
        return p is not None and p["k"] in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt", "ConditionalOperator", "SwitchStmt")

    def on_assume(self, it, fr, cond, sense, st):
        if st is None:
            return st
        n = strip(cond)
        x = st.x or frozenset()
        if n["k"] == "DeclRefExpr" and n.get("d") in self.flags(fr.fn):
            if not self.branch(fr.fn, cond):
                return st
            bad = sense == self.flags(fr.fn)[n["d"]]
            e = {("status", n["d"], "a file operation")}
            return st.with_x(x | e if bad else x - e)
        # streams
        if n["k"] in ("MCall", "OpCall") and n.get("mname") in TESTS_OK + TESTS_BAD and "std::basic_ios" in n.get("cls", "") + n.get("fn", ""):
            ok = sense == (n["mname"] in TESTS_OK)
            ps = self.filevar(it, fr, self.which(it, fr, n["c"][0]))
            inner = strip(n["c"][0])
            if any(y["k"] in ("MCall", "Call", "OpCall") and (y.get("mname") or y.get("fn", "").split("::")[-1]) in ("getline", "read", "operator>>", "get") for y in walk(inner)):
                # a reading loop: leaving it is fine only at the end of the file
                if not ok:
                    return st.with_x(x | {("ended", p) for p in ps})
                return st.with_x(x - {("ended", p) for p in ps})
            if ok:
                drop = {("flushed", p) for p in ps} | {("ended", p) for p in ps}
                if n["mname"] == "bad":
                    drop = {("ended", p) for p in ps} | {("flushed", p) for p in ps}
                return St(st.facts | {("tested", p) for p in ps}, st.nulls, x - drop)
            return st.with_x((x | {("failed", p) for p in ps}) - {(k, p) for p in ps for k in ("flushed", "dirty", "ended")})
        if n["k"] == "MCall" and n.get("mname") == "is_open":
            ps = self.filevar(it, fr, self.which(it, fr, n["c"][0]))
            return St(st.facts | {("tested", p) for p in ps}, st.nulls, x) if sense else st.with_x(x | {("failed", p) for p in ps})
        if n["k"] == "MCall" and n.get("mname") == "eof":
            ps = self.filevar(it, fr, self.which(it, fr, n["c"][0]))
            return st.with_x(x - {("ended", p) for p in ps}) if sense else st.with_x((x - {("ended", p) for p in ps}) | {("failed", p) for p in ps if ("ended", p) in x})
        # status results
        if not self.branch(fr.fn, cond):
            return st
        op = k = None
        s = None
        if n["k"] == "BinOp" and n.get("op") in ("==", "!=", "<", "<=", ">", ">="):
            s = self.status(fr, n["c"][0])
            op, k = n["op"], const(n["c"][1])
            if s is None:
                s = self.status(fr, n["c"][1])
                op, k = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n["op"], n["op"]), const(n["c"][0])
        else:
            s = self.status(fr, n)
        if s is not None:
            r = failing(s[1], op, k, sense)
            c = s[0]
            if r is True:
                return st.with_x(x | {("status", c["id"], c.get("mname") or c.get("fn", ""))})
            if r is False:
                return st.with_x(frozenset(e for e in x if not (e[0] == "status" and e[2] == (c.get("mname") or c.get("fn", "")))))
        return st

    def on_node(self, it, fr, n, st):
        x = st.x or frozenset()
        k = n["k"]
        if k == "Call" and n.get("fn") == "lm::log::log" and fr.fn.key in self.S.repo and any(y["k"] == "DeclRefExpr" and y.get("n") == "Err" for y in walk(n)):
            return st.with_x(x | {("logged", n.get("l", 0))}), True
        if k in ("MCall", "Call", "OpCall", "Construct") and not n.get("noreturn"):
            name = n.get("mname") or n.get("fn", "").split("::")[-1]
            if k in ("MCall", "OpCall") and n["c"] and self.stream(n["c"][0]) and name in ("flush", "close"):
                ps = self.filevar(it, fr, self.which(it, fr, n["c"][0]))
                if ps:
                    thr = {p for p in ps if ("throws", p) in x}
                    return st.with_x((x - {("dirty", p) for p in ps}) | {("flushed", p) for p in ps - thr if ("dirty", p) in x}), True
            if k == "MCall" and n["c"] and self.stream(n["c"][0]) and name == "exceptions" and len(n["c"]) > 1:
                ps = self.filevar(it, fr, self.which(it, fr, n["c"][0]))
                return St(st.facts | {("tested", p) for p in ps}, st.nulls, x | {("throws", p) for p in ps}), True
            if k in ("MCall", "OpCall") and name in TESTS_OK + TESTS_BAD + QUIET:
                return None
            args = [a for a in (n["c"] if k != "Construct" else n.get("c", [])) if a is not None and a.get("dk") != "func" and self.stream(a)]
            for a in args:
                ps = self.filevar(it, fr, self.which(it, fr, a))
                for p in ps:
                    kind = self.files_kind.get(p, "")
                    tg = [t for t in it.targets(fr, n) if t in self.P.funcs and self.P.funcs[t].file.startswith(self.P.root)] if k != "Construct" else []
                    if kind in ("out", "both") and not (kind == "both" and name in ("read", "getline", "operator>>", "get")):
                        if not tg or any(self.writes(t) for t in tg):
                            st = st.with_x((st.x or frozenset()) | {("dirty", p)})
                    if kind in ("in", "both") and ("tested", p) not in st.facts and name in ("read", "getline", "operator>>", "get", "rdbuf"):
                        self.untested.append((fr, n))
            return st, False
        return None

    def on_return(self, it, fr, n, st):
        if fr.up is not None:
            return st
        self.exit(fr, n, st)
        return st

    def exit(self, fr, n, st):
        x = st.x or frozenset()
        if not x:
            return
        e = strip(kids(n)[0]) if n is not None and kids(n) else None
        ret = self.P.ty(fr.fn.get("ret")) if fr.fn.get("ret") is not None else {"k": "void"}
        if ret["k"] == "bool":
            if e is not None and not (e["k"] == "Bool" and e["v"]):
                if e["k"] == "Bool":
                    return                       # reports failure
                bad = {y for y in x if y[0] in ("dirty", "flushed", "ended")}
                if e["k"] in ("MCall", "OpCall") and e.get("mname") in TESTS_OK + TESTS_BAD:
                    bad = {y for y in bad if y[0] == "dirty"}
                elif not (e["k"] in ("Call", "MCall") or e["k"] == "DeclRefExpr" or e["k"] in ("BinOp", "UnOp", "Cast", "ConditionalOperator")) or any(y["k"] in ("MCall", "OpCall") and y.get("mname") in TESTS_OK + TESTS_BAD for y in walk(e)):
                    bad = {y for y in bad if y[0] == "dirty"}
                x = bad
        elif e is not None:
            empty = e["k"] == "CXXNullPtrLiteralExpr" or const(e) in (0, -1) or e["k"] == "InitList" and not e.get("c") or e["k"] == "DeclRefExpr" and e.get("n") == "nullopt" or \
                e["k"] == "Construct" and not [c for c in e.get("c", []) if c is not None and c["k"] != "DefaultArg"]
            if empty:
                x = {y for y in x if y[0] in ("dirty",)}
        for y in sorted(x, key=repr):
            self.bad.append((fr, n, y))


def discarded(f, n):
    """is the value of call n thrown away?"""
    p = f.parent(n)
    while p is not None and p["k"] in ("ParenExpr", "ExprWithCleanups", "Construct") and len(kids(p)) == 1:
        p = f.parent(p)
    if p is None:
        return True
    if p["k"] == "Cast":
        return f_void(p)
    if p["k"] in ("CompoundStmt", "ForStmt", "WhileStmt", "DoStmt", "IfStmt", "CaseStmt", "DefaultStmt", "LabelStmt", "CXXForRangeStmt"):
        if p["k"] == "IfStmt":
            return p["c"][2] is None or p["c"][2].get("id") != n.get("id")
        if p["k"] in ("WhileStmt", "DoStmt", "ForStmt"):
            return not any(c is not None and c.get("id") == n.get("id") for c in p["c"][:3]) if p["k"] == "ForStmt" else (kids(p)[0] if p["k"] == "WhileStmt" else kids(p)[-1]).get("id") != n.get("id")
        return True
    if p["k"] == "Var":
        d = p["d"]
        return not any(m["k"] == "DeclRefExpr" and m.get("d") == d for m in f.walk())
    if p["k"] == "BinOp" and p.get("op") == ",":
        return True
    return False


def f_void(p):
    return p.get("ckk") == "ToVoid"


def status_var_lost(f, n):
    """the status goes into a variable that is overwritten before anything looks at it"""
    p = f.parent(n)
    while p is not None and p["k"] in ("ParenExpr", "Cast", "BinOp", "UnOp", "ExprWithCleanups") and not (p["k"] == "BinOp" and p.get("op") == "="):
        p = f.parent(p)
    if p is None:
        return None
    if p["k"] == "BinOp" and p.get("op") == "=" and p["c"][0] is not None and p["c"][0]["k"] == "DeclRefExpr":
        d = p["c"][0]["d"]
    elif p["k"] == "Var":
        d = p["d"]
    else:
        return None
    inside = {m.get("id") for m in walk(p)}

    def first(n, out):
        """what happens to d first in n, in source order: appends 'use', a node (overwritten) or None per path; True if every path decided"""
        if n is None or n.get("id") in inside:
            return False
        k = n["k"]
        if k == "BinOp" and n.get("op") == "=" and n["c"][0] is not None and n["c"][0].get("d") == d:
            if first(n["c"][1], out):
                return True
            out.append(n)
            return True
        if k == "DeclRefExpr" and n.get("d") == d:
            out.append("use")
            return True
        if k == "Lambda":
            out.append("use")
            return False
        if k == "IfStmt":
            c = n["c"]
            for x in c[:3]:
                if first(x, out):
                    return True
            a = first(c[3] if len(c) > 3 else None, out)
            b = first(c[4] if len(c) > 4 else None, out)
            return a and b
        if k in ("ReturnStmt", "Throw"):
            for x in n.get("c", ()):
                if first(x, out):
                    return True
            out.append("left")
            return True
        if k in ("WhileStmt", "ForStmt", "CXXForRangeStmt", "SwitchStmt"):
            for x in n.get("c", ()):
                first(x, out)
            return False
        for x in n.get("c", ()):
            if first(x, out):
                return True
        return False

    out = []
    cur = p
    while True:
        up = f.parent(cur)
        if up is None:
            return True if not out or all(o == "left" for o in out) else next((o for o in out if o not in ("use", "left")), None)
        done = False
        if up["k"] == "CompoundStmt":
            i = next(i for i, x in enumerate(up["c"]) if x is not None and x.get("id") == cur.get("id"))
            for x in up["c"][i + 1:]:
                if first(x, out):
                    done = True
                    break
        elif up["k"] in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
            first(up, out)
            out = [o if o in ("use", "left") else "use" for o in out]
        if done:
            over = [o for o in out if o not in ("use", "left")]
            return over[0] if over else None if "use" in out else True
        cur = up


def check(ctx):
    P = ctx.P
    R = Result()
    S = Status(ctx)
    R.count("functions_reporting_by_result", len([k for k in S.repo if k in P.funcs]))
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.body or not f.file.startswith(P.root) or "/ext/" in f.file or P.rel(f.file).startswith(("test/", "functest/", "example/")):
            continue
        streams = {n["d"]: ("both" if "basic_fstream" in P.tstr(n["t"]) else "out" if P.tstr(n["t"]).startswith("std::basic_ofstream") else "in")
                   for n in f.walk() if n["k"] == "Var" and P.tstr(n["t"]).startswith(OUT + IN)}
        calls = [(n, S.kind(n)) for n in f.walk() if S.kind(n)]
        # (1) no status is ignored
        for n, k in calls:
            if k == "zero" and n.get("fn") in NULLFAILS:
                continue
            R.count("status_results")
            name = n.get("mname") or n.get("fn", "")
            lost = discarded(f, n) or status_var_lost(f, n) is not None
            inlam = f.is_lambda
            R.oblige(not lost, "%s/%s/ignored" % (f.label(), name), "%s ignores whether %s failed" % (f.label(), name), f.where(n),
                     sample="%s looks at the result of %s" % (f.label(), name))
        # (2) a failure never ends in success
        cb = [n for n in f.walk() if n["k"] == "OpCall" and n.get("op") == "()" and n.get("cls", "").startswith("std::function<bool") and f.key in S.repo]
        for n in cb:
            R.count("callback_results")
            R.oblige(not discarded(f, n), "%s/callback/ignored" % f.label(), "%s ignores whether its callback failed" % f.label(), f.where(n))
        if not calls and not streams:
            continue
        R.count("functions_doing_io")
        h = H(P, S)
        it = Interp(P, h)
        it.refix = False
        fr = Frame(f, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}, frozenset({("this",)}), f.cls)
        # access paths of the stream variables
        h.files_kind = {}
        for n in f.walk():
            if n["k"] == "DeclRefExpr" and n.get("d") in streams:
                for p in it.resolve(fr, n):
                    h.files_kind[p] = streams[n["d"]]
        h.files = frozenset(h.files_kind)
        R.count("file_streams", len(streams))
        end = it.stmt(fr, f.body, St(x=frozenset()), [])
        if end is not None:
            h.exit(fr, None, end)
        seen = set()
        for fr2, n, y in h.bad:
            what = {"dirty": "what was written to a file may be lost when it is closed: the stream is not flushed and checked before success is reported",
                    "flushed": "a file is flushed but nobody checks whether that worked",
                    "ended": "reading stops at the first read error as if the file ended there: the stream is not checked after the loop",
                    "failed": "an operation on a file failed, but success is reported",
                    "logged": "an error is found and logged, but success is reported",
                    "status": "%s failed, but success is reported" % (y[2] if len(y) > 2 else "")}[y[0]]
            key = "%s/%s%s" % (f.label(), y[0], "/" + y[2] if y[0] == "status" else "")
            if key in seen:
                continue
            seen.add(key)
            R.oblige(False, key, "%s: %s" % (f.label(), what), f.where(n) if n is not None else f.where())
        for fr2, n in h.untested[:1]:
            R.oblige(False, f.label() + "/unopened", "%s reads from a file without checking that it could be opened" % f.label(), f.where(n))
        if not h.bad and not h.untested:
            R.oblige(True, f.label() + "/paths", "", f.where(), sample="%s: every failing path reports the failure" % f.label())
        # ---- exceptions are not swallowed
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.body or not f.file.startswith(P.root) or "/ext/" in f.file:
            continue
        for n in f.walk():
            if n["k"] != "CXXCatchStmt" or f.name == "PyInit_pylm" or "PyInit" in f.name:
                continue
            R.count("handlers")
            ok = any(m["k"] == "Throw" or m["k"] == "Call" and (m.get("fn") in ("std::current_exception", "std::rethrow_exception", "std::terminate", "abort") or m.get("noreturn")) or
                     m["k"] == "ReturnStmt" and kids(m) and (const(kids(m)[0]) == 0 or strip(kids(m)[0])["k"] in ("CXXNullPtrLiteralExpr",)) for m in walk(n))
            R.oblige(ok, f.label() + "/swallow", "%s swallows an exception: its caller is told that everything worked" % f.label(), f.where(n), sample="%s passes the exception on" % f.label())
    R.floor("file_streams", 4)
    R.floor("status_results", 6)
    return R
