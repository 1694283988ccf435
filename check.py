#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property by symbolic execution of the code in /repo's working tree.
C++ code is compiled to LLVM IR and executed by build/symir, Python code is
executed by pysym; every counterexample is replayed on the real code before it
is reported.  Exit 0: held within the bounds.  Exit 1: VIOLATION line printed.
Exit 2: the check could not run.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv"
Z3 = PYVENV + "/lib/python3.12/site-packages/z3"
CXX = "clang++-18"
RT = REPO + "/polytracker/src/compiler-rt"
FLAGS = ("-std=c++20 -g1 -DNDEBUG -fno-exceptions -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -w "
         "-D_GLIBCXX_EXTERN_TEMPLATE=0 -include algorithm -include cstdlib -include utility").split()
INC = ["-I" + HERE + "/stubs", "-I" + HERE + "/harness", "-I" + REPO + "/polytracker/include",
       "-I" + RT + "/include", "-I" + RT + "/lib"]
SRC = {
    "dag": [REPO + "/polytracker/src/taintdag/*.cpp"],
    "main": [REPO + "/polytracker/src/polytracker/*.cpp"],
    "sources": [REPO + "/polytracker/src/taint_sources/*.cpp"],
    "dfsan": [RT + "/lib/dfsan/dfsan.cpp"],
    "custom": [RT + "/lib/dfsan/dfsan_custom.cpp"],
    "thread": [RT + "/lib/dfsan/dfsan_thread.cpp"],
}
DFSAN_FLAGS = ["-fno-rtti", "-fno-builtin"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_symir():
    out = HERE + "/build/symir"
    src = HERE + "/symir/symir.cpp"
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(HERE + "/build", exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = run([CXX, "-std=c++20", "-O2", "-w", "-I/usr/lib/llvm-18/include", "-I" + Z3 + "/include", src, "-o", tmp,
             "-L/usr/lib/llvm-18/lib", "-lLLVM-18", Z3 + "/lib/libz3.so", "-Wl,-rpath," + Z3 + "/lib"])
    if r.returncode:
        raise SystemExit("cannot build symir:\n" + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


class Harness:
    """One harness file: its entries are the jobs."""

    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        m = re.search(r"^// @sources (.*)$", self.text, re.M)
        self.sources = m.group(1).split() if m else ["dag"]
        m = re.search(r"^// @assume (.*)$", self.text, re.M)
        self.assumptions = [x.strip() for x in re.findall(r"^// @assume (.*)$", self.text, re.M)]
        self.bounds = [x.strip() for x in re.findall(r"^// @bound (.*)$", self.text, re.M)]
        m = re.search(r"^// @unit (.*)$", self.text, re.M)
        self.entries = []
        starts = [m.start() for m in re.finditer(r"^(?://[^\n]*\n)*VF_ENTRY ", self.text, flags=re.M)]
        for a, b in zip(starts, starts[1:] + [len(self.text)]):
            p = self.text[a:b]
            m = re.search(r"^VF_ENTRY (\w+)\(", p, re.M)
            if not m:
                continue
            head, body = p[:m.start()], p[m.start():]
            first = body.split("\n", 1)[0]
            body = first if first.rstrip().endswith("}") else body.split("\n}", 1)[0]
            p = head + body
            o = re.search(r"^// @symir (.*)$", p, re.M)
            thorough_only = re.search(r"^// @thorough", p, re.M) is not None
            self.entries.append(dict(name=m.group(1), covers=sorted(set(re.findall(r'vf_cover\("([^"]*)"\)', p))),
                                     opts=o.group(1).split() if o else [], thorough_only=thorough_only,
                                     paths=re.search(r"^// @paths", p, re.M) is not None))


def compile_one(args):
    src, out, tier, olevel, extra = args
    cmd = [CXX, "-O%d" % olevel] + FLAGS + INC + extra + (["-DVF_THOROUGH"] if tier == "thorough" else []) + \
        ["-emit-llvm", "-c", src, "-o", out]
    r = run(cmd)
    return src, out, r.returncode, r.stdout


def build_module(h, tmp, tier, olevel, pool):
    """Links the harness, the support code and the code under test."""
    jobs = []
    k = 0
    files = []
    for s in sorted(h.sources, key=lambda s: s not in ("dfsan", "custom", "thread")):  # their weak definitions give way
        for pat in SRC[s]:
            for f in sorted(glob.glob(pat)):
                if os.path.basename(f) in ("print.cpp",):
                    continue
                files.append((f, DFSAN_FLAGS if s in ("dfsan", "custom", "thread") else []))
    files.append((HERE + "/harness/rt.cpp", ["-fno-builtin"]))
    files.append((h.path, []))
    for f, extra in files:
        jobs.append((f, "%s/o%d_%d_%s.bc" % (tmp, olevel, k, os.path.basename(f)), tier, olevel, extra))
        k += 1
    outs = []
    for src, out, rc, msg in pool.map(compile_one, jobs):
        if rc:
            raise RuntimeError("compiling %s failed:\n%s" % (src, msg[:800]))
        outs.append(out)
    linked = "%s/linked%d.bc" % (tmp, olevel)
    r = run(["llvm-link-18", outs[0]] + ["--override=" + o for o in outs[1:]] + ["-o", linked])
    if r.returncode:
        raise RuntimeError("linking failed:\n" + r.stdout[-3000:])
    return linked


def build_native(symir, linked, tmp, olevel, asan):
    nat = linked + ".native.bc"
    exe = linked + (".asan" if asan else ".exe")
    r = run([symir, linked, "--native", nat])
    if r.returncode or not os.path.exists(nat):
        return None, r.stdout[-2000:]
    fl = ["-fsanitize=address"] if asan else []
    r = run([CXX, "-O1", "-w", "-std=c++20", "-I" + HERE + "/harness"] + fl +
            [nat, HERE + "/harness/vf_native.cpp", "-o", exe, "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-ldl", "-lpthread"])
    if r.returncode:
        return None, r.stdout[-2000:]
    return exe, ""


def native_run(exe, entry, inputs, tmp, timeout=60):
    f = tempfile.NamedTemporaryFile("w", suffix=".in", dir=tmp, delete=False)
    for n, v in inputs:
        f.write("%s %s\n" % (n.replace(" ", "_"), v))
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="exitcode=66:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1")
    d = tempfile.mkdtemp(dir=tmp)
    try:
        r = run([exe, f.name, entry], timeout=timeout, cwd=d, env=env)
        return r.returncode, r.stdout[-2000:]
    except subprocess.TimeoutExpired:
        return -999, "timeout"


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=self._builddir())
        self.results = []
        self.viol = []
        self.unconfirmed = []
        self.errors = []
        self.validated = 0
        self.mismatch = []
        self.assumptions = []
        self.bounds = []
        self.samples = []

    def _builddir(self):
        os.makedirs(HERE + "/build", exist_ok=True)
        return HERE + "/build"

    # ---- C++ side
    def run_entry(self, symir, linked, h, e, suffix=""):
        out = "%s/%s%s.json" % (self.tmp, e["name"], suffix)
        limit = 240 if self.tier == "quick" else 2400
        opts = list(e["opts"])
        if "--time" not in opts:
            opts += ["--time", str(limit)]
        if self.tier == "thorough" and "--preempt" in opts:
            i = opts.index("--preempt")
            opts[i + 1] = str(int(opts[i + 1]) + 1)
        if e["paths"]:
            opts += ["--paths", "%s/%s.paths" % (self.tmp, e["name"])]
        cmd = [symir, linked, "--entry", e["name"], "--out", out, "--max-viol", "4"] + opts
        try:
            r = run(cmd, timeout=limit + 120)
        except subprocess.TimeoutExpired:
            return dict(entry=e["name"], crashed="time limit")
        if not os.path.exists(out):
            return dict(entry=e["name"], crashed=r.stdout[-1500:])
        d = json.load(open(out))
        d["entry"] = e["name"]
        return d

    def do_cpp(self, path):
        h = Harness(path)
        self.assumptions += h.assumptions
        self.bounds += h.bounds
        symir = build_symir()
        ents = [e for e in h.entries if self.tier == "thorough" or not e["thorough_only"]]
        only = os.environ.get("VF_ONLY")
        if only:
            ents = [e for e in ents if re.search(only, e["name"])]
        with cf.ThreadPoolExecutor(8) as pool:
            linked = build_module(h, self.tmp, self.tier, 2, pool)
            natfut = pool.submit(build_native, symir, linked, self.tmp, 2, False)
            res = list(pool.map(lambda e: self.run_entry(symir, linked, h, e), ents))
            exe, natmsg = natfut.result()
            if exe is None:
                self.errors.append("native build: " + natmsg)
            # a construct the executor does not know at -O2 may not appear at -O1
            redo = [i for i, d in enumerate(res) if "crashed" in d or
                    any("unsupported" in x.lower() for x in d.get("incomplete", []))]
            if redo:
                try:
                    l1 = build_module(h, self.tmp, self.tier, 1, pool)
                    for i, d in zip(redo, pool.map(lambda i: self.run_entry(symir, l1, h, ents[i], "_O1"), redo)):
                        if "crashed" not in d and len(d.get("incomplete", [])) <= len(res[i].get("incomplete", ["x"])):
                            if not (res[i].get("violations") and not d.get("violations")):
                                res[i] = d
                except RuntimeError as x:
                    self.errors.append(str(x))
        asan = None
        for e, d in zip(ents, res):
            if "crashed" in d:
                self.errors.append("%s: executor ended: %s" % (e["name"], d["crashed"]))
                continue
            self.results.append(d)
            for v in d.get("violations", []):
                how = ""
                rc, log = (None, "")
                ok = False
                if exe and v["threads"] == 1:
                    rc, log = native_run(exe, e["name"], v["inputs"], self.tmp)
                    ok = (v["kind"] == "assert" and rc == 1) or (v["kind"] != "assert" and (rc in (1, 3) or rc < 0 and rc != -999))
                    if not ok and v["kind"] in ("assert", "loop") and rc == -999:
                        ok = True
                    how = "native replay, status %s" % rc
                    if not ok and v["kind"] not in ("assert",):
                        if asan is None:
                            asan = build_native(symir, linked, self.tmp, 2, True)[0] or False
                        if asan:
                            rc, log = native_run(asan, e["name"], v["inputs"], self.tmp)
                            ok = rc in (66, 1, 3) or (rc < 0 and rc != -999)
                            how = "native replay under AddressSanitizer, status %s" % rc
                if not ok and (v["threads"] > 1 or v["kind"] != "assert"):
                    ok = self.interp_replay(symir, linked, e, v)
                    if ok:
                        how = "re-executed with the inputs%s fixed" % (" and the schedule" if v["threads"] > 1 else "")
                rec = dict(entry=e["name"], kind=v["kind"], msg=v["msg"], where=v["where"], inputs=v["inputs"],
                           schedule=list(zip(v["schedule"], v["schedule_at"])), confirmed=how, log=v.get("log", []), replay_log=log)
                (self.viol if ok else self.unconfirmed).append(rec)
            missing = [c for c in e["covers"] if not d["covers"].get(c)]
            if missing and not d.get("violations") and not d.get("incomplete"):
                self.errors.append("%s: never reached: %s" % (e["name"], missing))
            if exe:
                for w in d.get("witnesses", [])[:3]:
                    rc, log = native_run(exe, e["name"], w, self.tmp)
                    if rc == 0:
                        self.validated += 1
                    else:
                        self.mismatch.append(dict(entry=e["name"], inputs=w, status=rc, log=log))
                for w in d.get("witnesses", [])[:1]:
                    self.samples.append(dict(entry=e["name"], inputs=w[:40]))

    def interp_replay(self, symir, linked, e, v):
        f = tempfile.NamedTemporaryFile("w", suffix=".in", dir=self.tmp, delete=False)
        for n, x in v["inputs"]:
            f.write("%s %s\n" % (n, x))
        f.close()
        out = f.name + ".json"
        cmd = [symir, linked, "--entry", e["name"], "--out", out, "--inputs", f.name, "--time", "60"]
        cmd += [o for o in e["opts"] if False]
        if v["threads"] > 1:
            cmd += ["--sched", ",".join("%d@%d" % (a, b) for a, b in zip(v["schedule"], v["schedule_at"])) or "none"]
        try:
            run(cmd, timeout=120)
            d = json.load(open(out))
        except Exception:
            return False
        return any(x["kind"] == v["kind"] for x in d.get("violations", []))

    # ---- Python side
    def do_py(self, path):
        out = self.tmp + "/py.json"
        env = dict(os.environ, PYTHONPATH=HERE + ":" + REPO, VF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   VF_TMP=self.tmp, VF_TIER=self.tier)
        limit = 420 if self.tier == "quick" else 3000
        try:
            r = run(["/opt/vp/venv/bin/python", "-W", "ignore", HERE + "/pysym/main.py", path, out, self.tier], timeout=limit, env=env)
        except subprocess.TimeoutExpired:
            self.errors.append("%s: time limit" % path)
            return
        if not os.path.exists(out):
            self.errors.append("%s: %s" % (os.path.basename(path), r.stdout[-3000:]))
            return
        d = json.load(open(out))
        self.assumptions += d["assumptions"]
        self.bounds += d["bounds"]
        for j in d["jobs"]:
            self.results.append(j)
            self.viol += j.get("confirmed_violations", [])
            self.unconfirmed += j.get("unconfirmed", [])
            self.validated += j.get("validated", 0)
            self.mismatch += j.get("mismatch", [])
            self.samples += j.get("samples", [])[:1]
            if j.get("missing") and not j.get("confirmed_violations") and not j.get("incomplete"):
                self.errors.append("%s: never reached: %s" % (j["entry"], j["missing"]))
            if j.get("error"):
                self.errors.append("%s: %s" % (j["entry"], j["error"]))

    def finish(self, meta):
        known = []
        kf = HERE + "/known_findings.jsonl"
        findings = []
        if os.path.exists(kf):
            findings = [json.loads(l) for l in open(kf) if l.strip()]
        new = []
        for v in self.viol:
            hit = None
            for f in findings:
                if f.get("status") == "known" and f["property"] == self.prop and f["entry"] == v["entry"] and f["msg"] == v["msg"]:
                    hit = f
            (known if hit else new).append((v, hit))
        R = self.results
        tot = lambda k: sum(d.get(k, 0) for d in R)
        funcs = sorted({f for d in R for f in d.get("functions", {}) if not f.startswith(("vf", "std::", "__gnu", "void std", "bool std"))})
        inc = {d["entry"]: d["incomplete"] for d in R if d.get("incomplete")}
        ev = dict(
            property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=meta["level"],
            coverage=dict(
                states=tot("forks") + len(R), transitions=tot("instructions"),
                traces_validated_against_impl=self.validated,
                samples=self.samples[:6],
                paths=tot("paths"), queries=tot("queries"), queries_unsat=tot("unsat"), queries_sat=tot("sat"), queries_unknown=tot("unknown"),
                solver_s=round(tot("solver_s"), 2), assertions_checked=tot("assertions"), memory_accesses_checked=tot("memory_checks"),
                functions_encoded=len(funcs), functions=funcs[:120], bounds=sorted(set(self.bounds)),
                harnesses=[dict(entry=d["entry"], paths=d.get("paths"), queries=d.get("queries"), solver_s=d.get("solver_s"),
                                covers=d.get("covers"), complete=not d.get("incomplete")) for d in R],
                incomplete=inc, exhaustive=not inc and not self.errors, unconfirmed=self.unconfirmed[:5],
                replay_mismatches=self.mismatch[:5], known_findings=[k[1]["what"] for k in known], errors=self.errors),
            assumptions=sorted(set(self.assumptions)) + meta.get("assumptions", []),
            wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (HERE, self.prop), "w"), indent=1)
        for v, f in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if new:
            d = HERE + "/evidence/replays"
            os.makedirs(d, exist_ok=True)
            for i, (v, _) in enumerate(new):
                p = "%s/%s-%d.json" % (d, self.prop, i)
                json.dump(v, open(p, "w"), indent=1)
                print("%s: %s" % (v["entry"], v["msg"]))
                print("  inputs: %s" % " ".join("%s=%s" % (a, b) for a, b in v["inputs"][:40]))
                print("  confirmed by: %s" % v["confirmed"])
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s %s: %d harnesses, %d paths, %d queries (%d unsat), %.1f s solver, %.1f s" % (
            self.prop, self.tier, len(R), tot("paths"), tot("queries"), tot("unsat"), tot("solver_s"), time.time() - self.t0))
        for k, x in inc.items():
            print("  not complete: %s: %s" % (k, x))
        for u in self.unconfirmed:
            print("  not confirmed (not reported): %s: %s" % (u["entry"], u["msg"]))
        for m in self.mismatch:
            print("  replay mismatch: %s status %s" % (m["entry"], m["status"]))
        if self.errors:
            for e in self.errors:
                print("ERROR %s" % e)
            return 2
        return 0


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    meta = dict(level="model_checking")
    found = False
    try:
        for f in sorted(glob.glob(HERE + "/harness/h_%s*.cpp" % prop)):
            found = True
            c.do_cpp(f)
        for f in sorted(glob.glob(HERE + "/pyharness/h_%s*.py" % prop)):
            found = True
            c.do_py(f)
    except RuntimeError as x:
        c.errors.append(str(x))
    if not found:
        c.errors.append("no harness for " + prop)
    return c.finish(meta)


if __name__ == "__main__":
    sys.exit(main())
