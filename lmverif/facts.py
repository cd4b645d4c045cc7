"""Run the extractor over /repo's current tree and load the resulting program model."""
import hashlib, json, os, pickle, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LMVERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("LMVERIF_BUILD", os.path.join(VERIF, "build"))

CXXFLAGS = ["-DFMT_HEADER_ONLY=1", "-DGLM_FORCE_INTRINSICS", "-DLM_EXPORTS", "-DLM_USE_CONFIG_RELEASE",
            "-DNDEBUG", "-std=gnu++17", "-fPIC", "-fopenmp", "-isystem", "/usr/include/python3.12"]


class AnalysisError(Exception):
    """The analysis could not be carried out (exit code 2, never 0 or 1)."""


def tree_hash(repo):
    h = hashlib.sha256()
    for top in ("src", "include", "plugin", "pch"):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".cpp", ".h", ".hpp", ".txt", ".in", ".cmake")):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("CMakeLists.txt",):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    for f in (os.path.join(VERIF, "tool", "lmfacts.cpp"), os.path.join(VERIF, "lmverif", "facts.py")):
        h.update(open(f, "rb").read())
    return h.hexdigest()


def header_hash(repo):
    h = hashlib.sha256(open(os.path.join(VERIF, "tool", "lmfacts.cpp"), "rb").read())
    for d in ("include", "src", "plugin", "pch"):
        for root, ds, fs in sorted(os.walk(os.path.join(repo, d))):
            for f in sorted(fs):
                if not f.endswith((".cpp", ".py", ".md")):
                    h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    return h.digest()


def compile_db(repo, scratch):
    """compile_commands.json for the repo's own build configuration (cmake configure only)."""
    out = os.path.join(scratch, "cdb")
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS"):
        env.pop(k, None)
    cmd = ["cmake", "-S", repo, "-B", out, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
           "-DCMAKE_MODULE_PATH=/opt/vp/cmake", "-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/project_hook.cmake",
           "-DLM_EXTERNAL_DIR=/opt/vp/external", "-DPYTHON_EXECUTABLE=/opt/vp/venv/bin/python",
           "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    db = os.path.join(out, "compile_commands.json")
    if r.returncode != 0 or not os.path.exists(db):
        raise AnalysisError("cmake configure failed:\n" + r.stdout[-2000:])
    entries = json.load(open(db))
    keep, seen = [], set()
    for e in entries:
        f = os.path.realpath(os.path.join(e["directory"], e["file"]))
        rel = os.path.relpath(f, repo)
        if not (rel.startswith("src/") or rel.startswith("plugin/")) or f in seen:
            continue
        if rel.startswith("plugin/accel_nanort/") and not os.path.exists(os.path.join(repo, "plugin/accel_nanort/nanort/nanort.h")):
            continue  # third-party submodule absent: not buildable in this sandbox
        seen.add(f)
        keep.append(f)
    return out, sorted(keep)


def ensure_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tool = os.path.join(BUILD, "lmfacts")
    if r.returncode != 0 or not os.path.exists(tool):
        raise AnalysisError("cannot build extractor:\n" + r.stdout[-2000:])
    return tool


def run_tool(repo, cdb, files, scratch, jobs=8):
    tool = ensure_tool()
    files = sorted(files, key=lambda f: -os.path.getsize(f))
    heavy = [f for f in files if f.endswith("pylm.cpp")]
    rest = [f for f in files if f not in heavy]
    n = max(1, min(jobs, len(rest)))
    groups = [rest[i::n] for i in range(n)]
    groups = [[f] for f in heavy] + groups
    outs = []
    cdir = os.environ.get("LMVERIF_CACHE")      # development only: reuse facts of translation units that did not change
    if cdir:
        os.makedirs(cdir, exist_ok=True)
        hd = header_hash(repo)
        names = {f: os.path.join(cdir, "tu_" + hashlib.sha256(hd + f.encode() + open(f, "rb").read()).hexdigest() + ".jsonl") for f in files}
        outs = [names[f] for f in files if os.path.exists(names[f])]
        groups = [[f] for f in files if not os.path.exists(names[f])]

    def one(i):
        o = os.path.join(scratch, "facts%d.jsonl" % i)
        r = subprocess.run([tool, repo, o, cdb] + groups[i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout, o

    with ThreadPoolExecutor(jobs + 1) as ex:
        res = list(ex.map(one, range(len(groups))))
    for rc, log, o in res:
        if rc != 0:
            errs = [l for l in log.splitlines() if "error" in l]
            raise AnalysisError("source does not type-check with clang:\n" + "\n".join(errs[:20] or log.splitlines()[-20:]))
        outs.append(o)
    if cdir:
        for i, g in enumerate(groups):
            o = os.path.join(scratch, "facts%d.jsonl" % i)
            shutil.copy(o, names[g[0]])
    return outs


def load_raw(outs):
    types, tmap_s = [], {}
    funcs, records, gvars, tus = {}, {}, {}, []
    for o in outs:
        raw = [json.loads(l) for l in open(o)]
        local = {}
        ts = [r for r in raw if r["rec_kind"] == "type"]
        for t in ts:
            if t["s"] in tmap_s:
                local[t["id"]] = tmap_s[t["s"]]
            else:
                g = len(types)
                tmap_s[t["s"]] = g
                local[t["id"]] = g
                types.append(None)
        for t in ts:
            g = local[t["id"]]
            if types[g] is None:
                u = dict(t)
                u["id"] = g
                if "to" in u:
                    u["to"] = local.get(u["to"], -1)
                if "targs" in u:
                    u["targs"] = [local.get(x, -1) for x in u["targs"]]
                types[g] = u
        loc = lambda x: local.get(x, -1)

        def fix(n):
            st = [n]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    for k in ("t", "nt", "ct", "base"):
                        if k in x and isinstance(x[k], int):
                            x[k] = loc(x[k])
                    for k in ("pt", "ta"):
                        if k in x:
                            x[k] = [loc(y) for y in x[k]]
                    for k in ("c", "caps", "bind", "clauses"):
                        v = x.get(k)
                        if v:
                            st.extend(v)
                    for k in ("init", "e"):
                        v = x.get(k)
                        if isinstance(v, dict):
                            st.append(v)
        for r in raw:
            k = r["rec_kind"]
            if k == "func":
                if r["key"] in funcs:
                    continue
                r["ret"] = loc(r["ret"])
                for p in r["params"]:
                    p["t"] = loc(p["t"])
                if "ta" in r:
                    r["ta"] = [loc(x) for x in r["ta"]]
                fix(r["body"])
                for i in r.get("inits", []):
                    if "base" in i:
                        i["base"] = loc(i["base"])
                    fix(i.get("e"))
                for b in r.get("cfg", []):
                    for e in b["e"]:
                        if isinstance(e, dict) and "t" in e:
                            e["t"] = loc(e["t"])
                funcs[r["key"]] = r
            elif k == "record":
                kk = r["full"] + "@" + r["file"] + ":" + str(r["line"])
                if kk in records:
                    continue
                r["bases"] = [loc(x) for x in r["bases"]]
                for f in r["fields"]:
                    f["t"] = loc(f["t"])
                for m in r["methods"]:
                    m["ret"] = loc(m["ret"])
                    m["pt"] = [loc(x) for x in m["pt"]]
                records[kk] = r
            elif k == "var":
                kk = r["key"] + r["file"]
                if kk in gvars:
                    continue
                r["t"] = loc(r["t"])
                fix(r.get("init"))
                gvars[kk] = r
            elif k == "tu":
                tus.append(r["file"])
    return dict(types=types, funcs=funcs, records=records, vars=gvars, tus=sorted(tus))


def collect(repo=REPO, cache=True):
    repo = os.path.realpath(repo)
    h = tree_hash(repo) + hashlib.sha256(repo.encode()).hexdigest()[:8]
    cdir = os.environ.get("LMVERIF_CACHE")
    if cache and cdir:
        p = os.path.join(cdir, h + ".pickle")
        if os.path.exists(p):
            return pickle.load(open(p, "rb"))
    scratch = tempfile.mkdtemp(prefix="lmverif_")
    try:
        cdb, files = compile_db(repo, scratch)
        if len(files) < 20:
            raise AnalysisError("only %d translation units found" % len(files))
        raw = load_raw(run_tool(repo, cdb, files, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if cache and cdir:
        os.makedirs(cdir, exist_ok=True)
        pickle.dump(raw, open(p + ".tmp", "wb"), protocol=4)
        os.rename(p + ".tmp", p)
    return raw


def collect_files(files, root, flags=None):
    """Facts for stand-alone self-test sources (analysed, never run)."""
    scratch = tempfile.mkdtemp(prefix="lmverif_st_")
    try:
        cdb = os.path.join(scratch, "cdb")
        os.makedirs(cdb)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "pch")]
        json.dump([{"directory": cdb, "file": f, "arguments": ["/usr/bin/g++"] + CXXFLAGS + inc + (flags or []) + ["-c", f]} for f in files],
                  open(os.path.join(cdb, "compile_commands.json"), "w"))
        return load_raw(run_tool(root, cdb, files, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    raw = collect()
    print({k: len(v) for k, v in raw.items()}, "%.1fs" % (time.time() - t))
