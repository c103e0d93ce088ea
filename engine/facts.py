"""Facts about /repo: run the extractor over every translation unit and index the result.

Nothing of /repo is executed. The extractor (extract.cpp, clang front end) writes the type-checked
program; this module loads it, normalises names and offers lookups.
"""
import hashlib, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("YAGA_REPO", "/repo")
BUILD = os.environ.get("YAGA_VERIF_BUILD", os.path.join(VERIF, "build"))
EXTRACT = os.path.join(VERIF, "build", "extract")
INCDIRS = ["", "bool", "lra", "uf", "variable_order", "terms", "utils", "parser"]


class AnalysisBroken(Exception):
    """The analysis cannot answer (anchor vanished, parse failure): an error exit, not a verdict."""


def build_extractor():
    src = os.path.join(HERE, "extract.cpp")
    stamp = EXTRACT + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
    flags = [f for f in flags if not f.startswith("-std=")]
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-O1", "-std=c++17", *flags, "-fno-rtti", src, "-o", EXTRACT + ".tmp",
           "-L/usr/lib/llvm-18/lib", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-lLLVM-18"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken("extractor does not build: " + p.stderr[-2000:])
    os.replace(EXTRACT + ".tmp", EXTRACT)
    open(stamp, "w").write(h)


def repo_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")) and not f.endswith("_test.cpp"):
                out.append(os.path.join(d, f))
    return out


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()


def header_hash():
    hs = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        hs += [os.path.join(d, f) for f in sorted(files) if not f.endswith((".cpp", ".txt", ".ll"))]
    return sha(*hs, os.path.join(HERE, "extract.cpp"))


def flags():
    return ["-std=gnu++20", "-x", "c++"] + ["-I" + os.path.join(REPO, "src", d).rstrip("/") for d in INCDIRS]


def extract_all():
    """Returns {tu: path of its facts}. A unit is parsed again whenever it or any header changed."""
    build_extractor()
    cache = os.path.join(BUILD, "facts")
    os.makedirs(cache, exist_ok=True)
    hh = header_hash()
    tus = repo_sources() + [os.path.join(HERE, "instantiate.cpp")]
    res, todo = {}, []
    for tu in tus:
        out = os.path.join(cache, hashlib.sha256((hh + sha(tu)).encode()).hexdigest()[:32] + ".jsonl")
        res[tu] = out
        if not os.path.exists(out):
            todo.append((tu, out))
    for old in os.listdir(cache):
        if os.path.join(cache, old) not in res.values() and not old.endswith(".tmp"):
            try:
                os.unlink(os.path.join(cache, old))
            except OSError:
                pass

    def one(job):
        tu, out = job
        tmp = f"{out}.{os.getpid()}.tmp"
        p = subprocess.run([EXTRACT, tmp, tu, os.path.join(REPO, "src") + "/", "--", *flags()], capture_output=True, text=True)
        if p.returncode == 0:
            os.replace(tmp, out)
        return tu, p.returncode, p.stderr

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for tu, rc, err in ex.map(one, todo):
            if rc:
                errs = "\n".join(l for l in err.splitlines() if "error:" in l)[:1500]
                raise AnalysisBroken(f"cannot parse {tu}: {errs}")
    return res


def strip_targs(s):
    """std::vector<X>::push_back -> std::vector::push_back (operator<, <=>, ->, << are kept)."""
    m = re.search(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)", s)
    tail = ""
    if m:
        tail = "operator" + m.group(1)
        s = s[: m.start()]
    out, depth = [], 0
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out) + tail


class Program:
    def __init__(self, paths=None):
        self.fns = {}       # id -> fn record
        self.by_name = {}   # stripped qualified name -> [fn]
        self.recs = {}      # stripped qualified name -> [rec]
        self.enums = {}
        self.vars = {}
        self.over = {}      # fn id -> set of ids overriding it (transitively)
        self.tus = []
        self.dups = 0
        self._load(paths or extract_all())

    def _load(self, paths):
        n = 0
        for tu, p in sorted(paths.items()):
            n += 1
            self.tus.append(tu)
            for line in open(p):
                d = json.loads(line)
                k = d["k"]
                if k == "fn":
                    if d["id"] in self.fns:
                        self.dups += 1
                        continue
                    d["q"] = strip_targs(d["n"])
                    d["tu"] = n
                    self.fns[d["id"]] = d
                    self.by_name.setdefault(d["q"], []).append(d)
                elif k == "rec":
                    d["q"] = strip_targs(d["n"])
                    lst = self.recs.setdefault(d["q"], [])
                    if not any(r["id"] == d["id"] for r in lst):
                        lst.append(d)
                elif k == "enum":
                    self.enums[d["n"]] = d
                elif k == "var":
                    if d["q"] not in self.vars or "x" in d and "x" not in self.vars[d["q"]]:
                        self.vars[d["q"]] = d
        for f in self.fns.values():
            for b in f.get("over", ()):
                self.over.setdefault(b, set()).add(f["id"])

    # ------------------------------------------------------------------ lookup
    def fn(self, q, **kw):
        c = self.find(q, **kw)
        if not c:
            raise AnalysisBroken(f"anchor vanished: no definition of {q}")
        return c[0]

    def find(self, q, nparams=None, pred=None, file=None):
        c = self.by_name.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f["ps"]) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if file:
            c = [f for f in c if f["file"].endswith(file)]
        return c

    def rec(self, q):
        r = self.recs.get(q)
        if not r:
            raise AnalysisBroken(f"anchor vanished: no class {q}")
        return r[0]

    def enum(self, q):
        e = self.enums.get(q)
        if not e:
            raise AnalysisBroken(f"anchor vanished: no enum {q}")
        return {x["n"]: int(x["v"]) for x in e["es"]}

    def overriders(self, fid):
        """Every definition a virtual call to fid may reach (including itself)."""
        out, work = set(), [fid]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            work.extend(self.over.get(x, ()))
        return [self.fns[x] for x in sorted(out) if x in self.fns]

    def bases(self, cls):
        """All base classes, nearest first."""
        out, work = {}, [cls]
        while work:
            c = work.pop(0)
            for r in self.recs.get(c, []):
                for b in r["bases"]:
                    b = strip_targs(b)
                    if b not in out:
                        out[b] = None
                        work.append(b)
        return list(out)

    def subclasses(self, cls):
        return [q for q in self.recs if cls in self.bases(q)]


def rel(path):
    p = path[len(REPO):].lstrip("/") if path.startswith(REPO) else path
    return p


# ---------------------------------------------------------------------- tree walking
def children(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield v
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield v


def walk(n, into_lambdas=True):
    """Every dict node below n (including n)."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            if not into_lambdas and x.get("e") == "lambda":
                continue
        stack.extend(children(x))


def calls(n):
    for x in walk(n):
        if x.get("e") in ("call", "mcall", "ctor"):
            yield x


def callee(x):
    q = x.get("_q")
    if q is None:
        q = x["_q"] = strip_targs(x.get("n", ""))
    return q


def loc(fn, node=None):
    return f"{rel(fn['file'])}:{(node or {}).get('l', fn['line'])} in {fn['q']}"
