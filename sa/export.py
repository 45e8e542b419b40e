"""Configure /repo into a scratch directory, dump the type-checked trees of the
needed translation units with vexport and load them as one Program."""
import json, os, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EXPORTER_SRC = os.path.join(VERIF, "exporter", "vexport.cpp")
EXPORTER = os.path.join(VERIF, "build", "vexport")


class BrokenAnalysis(Exception):
    """The analysis itself cannot run (vanished anchor, build failure): error exit."""


def build_exporter(force=False):
    stamp = EXPORTER + ".sha"
    h = hashlib.sha256(open(EXPORTER_SRC, "rb").read()).hexdigest()
    if not force and os.path.exists(EXPORTER) and os.path.exists(stamp) and open(stamp).read() == h:
        return EXPORTER
    os.makedirs(os.path.dirname(EXPORTER), exist_ok=True)
    ll = "/usr/lib/llvm-18"
    tmp = EXPORTER + ".%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + ll + "/include", EXPORTER_SRC, "-o", tmp,
           "-L" + ll + "/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1", "-Wl,-rpath," + ll + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BrokenAnalysis("cannot build the exporter:\n" + r.stdout[-4000:])
    os.rename(tmp, EXPORTER)
    open(stamp, "w").write(h)
    return EXPORTER


TUS = {
    "PathName": "FileUtilities/PathName.cpp",
    "FileUtilities": "FileUtilities/FileUtilities.cpp",
    "Base64": "TestingFramework/tfBase64.cpp",
    "RegressionTest": "TestingFramework/tfRegressionTest.cpp",
    "Measurement": "TestingFramework/tfMeasurement.cpp",
    "MeasurementVisitor": "TestingFramework/tfMeasurementVisitor.cpp",
    "Diff": "TestingFramework/tfDiff.cpp",
    "PipeToXML": "TestingFramework/tfPipeToXML.cxx",
    "itkRegression": "itktf/itktfRegression.cxx",
    "itkCompareVisitor": "itktf/itktfCompareVisitor.cxx",
    "itkDifferenceVisitor": "itktf/itktfDifferenceVisitor.cxx",
    "itkImageCompare": "itktf/itktfImageCompare.cxx",
}
CORE = ["PathName", "FileUtilities", "Base64", "RegressionTest", "Measurement", "MeasurementVisitor", "Diff"]
ITK = ["itkRegression", "itkCompareVisitor", "itkDifferenceVisitor", "itkImageCompare"]


def bare(n):
    """a tree without positions"""
    if isinstance(n, dict):
        return {k: bare(v) for k, v in n.items() if k not in ("l", "ord")}
    if isinstance(n, list):
        return [bare(x) for x in n]
    return n


def only(n):
    """the one statement a block consists of"""
    while isinstance(n, dict) and n.get("k") == "seq" and len(n["s"]) == 1:
        n = n["s"][0]
    return n


def unrotate(n):
    """'if (c) do S while (c)' is 'while (c) S': undo the inversion of loops"""
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo += [y for y in x if isinstance(y, (dict, list))]
            continue
        if x.get("k") == "if" and x.get("el") is None and x.get("init") is None and x.get("cv") is None:
            d = only(x.get("th"))
            if isinstance(d, dict) and d.get("k") == "do" and bare(d["c"]) == bare(x["c"]):
                c, l = x["c"], x.get("l")
                x.clear()
                x.update({"k": "while", "l": l, "c": c, "b": d["b"]})
        todo += [y for y in x.values() if isinstance(y, (dict, list))]


class Program:
    def __init__(self):
        self.functions, self.classes, self.globals = {}, {}, {}
        self.tus = []
        self.witness = set()

    def add(self, d):
        self.tus.append(d["tu"])
        for k, f in d["functions"].items():
            if k not in self.functions:
                if f.get("body"):
                    unrotate(f["body"])
                self.functions[k] = f
        for k, c in d["classes"].items():
            o = self.classes.get(k)
            if o is None or (not o.get("root") and c.get("root")):
                self.classes[k] = c
        for k, g in d["globals"].items():
            o = self.globals.get(k)
            if o is None or ("init" not in o and "init" in g):
                self.globals[k] = g

    # -- hierarchy ---------------------------------------------------------
    def bases(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            for b in self.classes.get(x, {}).get("bases", []):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def is_a(self, c, b):
        return c == b or b in self.bases(c)

    def derived(self, b):
        return [c for c in self.classes if c == b or b in self.bases(c)]

    def concrete(self, b):
        return sorted(c for c in self.derived(b) if self.classes[c].get("root") and not self.classes[c].get("abstract"))

    def method_of(self, cls, name):
        """methods called `name` declared in cls"""
        return [m for m in self.classes.get(cls, {}).get("methods", []) if m["n"] == name]

    def find_method(self, cls, name, pred=None):
        for c in [cls] + self.bases(cls):
            for m in self.method_of(c, name):
                if pred is None or pred(m):
                    return m
        return None

    def final_overrider(self, cls, key):
        """the function that a virtual call to `key` reaches on an object whose exact class is cls"""
        if not hasattr(self, "_fo"):
            self._fo = {}
        r = self._fo.get((cls, key))
        if r is not None:
            return r
        r = key
        for c in [cls] + self.bases(cls):
            for m in self.classes.get(c, {}).get("methods", []):
                if m["f"] == key or self._overrides(m, key):
                    r = m["f"]
                    self._fo[(cls, key)] = r
                    return r
        self._fo[(cls, key)] = r
        return r

    def _overrides(self, m, key):
        todo = list(m.get("over", []))
        seen = set()
        while todo:
            k = todo.pop()
            if k == key:
                return True
            if k in seen:
                continue
            seen.add(k)
            todo.extend(self.meth(k).get("over", []) if self.meth(k) else [])
        return False

    def meth(self, key):
        if not hasattr(self, "_mk"):
            self._mk = {}
            for cn, c in self.classes.items():
                for m in c.get("methods", []):
                    self._mk[m["f"]] = dict(m, cls=cn)
        return self._mk.get(key)

    def fn(self, qual, nparams=None, cls=None):
        r = [f for f in self.functions.values() if f["qual"] == qual and (nparams is None or len(f["params"]) == nparams)]
        return r

    def where(self, f, line=None):
        return "%s:%s" % (rel(f["file"]), line or f["line"])


def rel(p):
    if p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return p


_scratch = None


def configure(keep=None):
    """cmake-configure /repo in a scratch directory, return that directory"""
    global _scratch
    if _scratch:
        return _scratch
    d = tempfile.mkdtemp(prefix="vsa_")
    _scratch = d
    import atexit
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    env = dict(os.environ, PATH="/usr/local/bin:/usr/bin:/bin", HOME="/root", LC_ALL="C.UTF-8", CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    inc = "/opt/vp/itk5-names.cmake"
    if not os.path.exists(inc):
        inc = os.path.join(VERIF, "exporter", "itk5-names.cmake")
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug", "-DBUILD_TESTING=ON",
           "-DCMAKE_PROJECT_INCLUDE=" + inc, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
           "-DCMAKE_CXX_FLAGS=-Wno-error -Wno-deprecated-declarations -include numeric"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        raise BrokenAnalysis("cmake configure failed:\n" + r.stdout[-3000:])
    return d


def load(names, witness=None):
    """export the named TUs (and the witness TU) of the current tree"""
    exe = build_exporter()
    d = configure()
    db = json.load(open(os.path.join(d, "compile_commands.json")))
    by = {os.path.abspath(os.path.join(e["directory"], e["file"])): e for e in db}
    jobs = []
    for n in names:
        f = os.path.join(REPO, TUS[n])
        if not os.path.exists(f) or f not in by:
            raise BrokenAnalysis("translation unit %s is no longer part of the build" % TUS[n])
        jobs.append((d, f))
    # further repo TUs that the build has and we do not know by name (split files): always included
    known = {os.path.join(REPO, v) for v in TUS.values()}
    extra = [f for f in by if f.startswith(REPO + "/") and f not in known and "/tests/" not in f and "/Testing/" not in f]
    for f in sorted(extra):
        jobs.append((d, f))
    roots = [REPO + "/FileUtilities/", REPO + "/TestingFramework/", REPO + "/itktf/"]
    for sub in os.listdir(REPO):
        p = os.path.join(REPO, sub)
        if os.path.isdir(p) and not sub.startswith(".") and not sub.startswith("_build") and p + "/" not in roots:
            roots.append(p + "/")
    if witness:
        wd = os.path.join(d, "witness")
        os.makedirs(wd, exist_ok=True)
        base = by[os.path.join(REPO, TUS["itkRegression"])]
        ent = dict(base)
        ent["file"] = witness
        ent["command"] = base["command"].replace(os.path.join(REPO, TUS["itkRegression"]), witness)
        json.dump([ent], open(os.path.join(wd, "compile_commands.json"), "w"))
        jobs.append((wd, witness))
        roots.append(os.path.dirname(witness) + "/")

    def run(j):
        r = subprocess.run([exe, "-p", j[0], "--root=" + ",".join(roots), j[1], "--extra-arg=-w"], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        if r.returncode or not r.stdout.strip():
            raise BrokenAnalysis("cannot parse %s:\n%s" % (j[1], r.stderr[-3000:]))
        return json.loads(r.stdout)

    p = Program()
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(run, jobs):
            p.add(res)
    return p
