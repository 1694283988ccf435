"""main.py HARNESS OUT.json TIER           explore every entry of the harness
   main.py --replay HARNESS IN.json OUT.json TIER   run entries on the real code with given inputs"""
import importlib.util, io, itertools, json, multiprocessing as mp, os, re, signal, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)
os.environ.setdefault("TQDM_DISABLE", "1")

TMP = os.environ.get("VF_TMP", "/tmp")


def load_harness(path, api):
    import builtins
    spec = importlib.util.spec_from_file_location("harness", path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.dirname(path))
    m.__dict__.update(api)
    builtins.VF = type("VF", (), {k: staticmethod(v) if callable(v) else v for k, v in api.items()})
    spec.loader.exec_module(m)
    return m


def entries_of(path, tier):
    txt = open(path).read()
    r = []
    for m in re.finditer(r"^((?:# @\w+.*\n)*)@entry\ndef (\w+)\(", txt, re.M):
        d = m.group(1)
        if "@thorough" in d and tier != "thorough":
            continue
        body = txt[m.end():]
        n = re.search(r"^@entry|^(# @\w+.*\n)+@entry", body, re.M)
        body = body[:n.start()] if n else body
        r.append((m.group(2), sorted(set(re.findall(r'cover\("([^"]+)"\)', body)))))
    only = os.environ.get("VF_ONLY")
    return [e for e in r if not only or re.search(only, e[0])]


class Violation(Exception):
    pass


# ------------------------------------------------------------------ concrete replay
def replay(path, inp, out, tier):
    jobs = json.load(open(inp))
    state = {}

    class Skip(BaseException):
        pass

    def fresh(name):
        k = state["counts"].get(name, 0)
        state["counts"][name] = k + 1
        return "%s#%d" % (name, k)

    def value(name, lo, hi):
        v = state["inputs"].get(fresh(name), lo)
        if not lo <= v <= hi:
            raise Skip()
        return v

    def check(c, msg):
        if not c:
            state["failed"].append(msg)

    def assume(c):
        if not c:
            raise Skip()

    def open_trace(data):
        """A file with these contents ([(offset, bytes)], size) or bytes"""
        f = tempfile.TemporaryFile(dir=TMP)
        if isinstance(data, tuple):
            ext, size = data
            for off, b in ext:
                f.seek(off)
                f.write(bytes(b))
            f.truncate(size)
        else:
            f.write(bytes(data))
        f.flush()
        f.seek(0)
        return f

    def from_paths(name):
        """outputs of the C++ harness entry for the same inputs: taken from the model"""
        return {k: v for k, v in state["outs"]}

    api = dict(entry=lambda f: f, cover=lambda n: state["covers"].add(n), check=check, assume=assume, symbolic=False,
               sym=lambda name, lo, hi, wide=False: value(name, lo, hi), choose=lambda name, n: value(name, 0, n - 1),
               u64=lambda name: value(name, 0, 2**64 - 1), flag=lambda name: bool(value(name, 0, 1)),
               sym_bytes=lambda name, n: bytes(value(name, 0, 255) for _ in range(n)), conj=lambda *a: all(a), disj=lambda *a: any(a),
               neg=lambda x: not x, ite=lambda c, a, b: a if c else b, open_trace=open_trace, make_bytes=bytes, THOROUGH=tier == "thorough",
               raw_text=lambda s: os.fsencode(s) if isinstance(s, str) else bytes(s), cpp_outputs=lambda name: state["outs"], note=lambda k, v: state["notes"].append((k, _plain(v))))
    h = load_harness(path, api)
    res = []
    for j in jobs:
        state.update(counts={}, inputs=dict(map(tuple, j["inputs"])), failed=[], covers=set(), notes=[],
                     outs={k: ([bytes(x) for x in v] if v and isinstance(v[0], list) else bytes(v)) for k, v in (j.get("outs") or {}).items()})

        def alarm(*a):
            raise TimeoutError("does not end")
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            getattr(h, j["entry"])()
        except Skip:
            state["failed"].append("(assumption)")
        except Exception as x:
            state["failed"].append("raises " + type(x).__name__)
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.append(dict(failed=state["failed"], covers=sorted(state["covers"]), notes=state["notes"]))
    json.dump(res, open(out, "w"))


def _plain(v):
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, bool):
        return int(v)
    return v


# ------------------------------------------------------------------ exploration
class Explorer:
    def __init__(self):
        self.pending = []
        self.reset()

    def reset(self):
        self.solver_s = 0.0
        self.queries = self.sat = self.unsat = self.unknown = self.forks = self.assertions = self.paths = 0

    def push(self, prefix):
        self.pending.append(prefix)


H = None
EX = None
FUNCS = {}
LINES = [0]
CPP = {}


def setup(path, tier):
    """in a worker: the shimmed package and the harness"""
    global H, EX
    import engine, shims
    from engine import SymInt, SymBool, SymBytes, SparseBytes, conj, disj, neg, ite, z3
    shims.install(REPO)
    EX = Explorer()

    def new(name, lo, hi, wide=False):
        """wide: used as a key, but too many values to enumerate"""
        r = engine.CTX
        n = r.fresh(name)
        if lo == hi:
            return lo
        w = engine.width_for(lo, hi)
        v = z3.BitVec("py:" + n, w)
        s = SymInt(v, lo, hi, wide)
        if lo != 0 or hi + 1 != 1 << (w - 1):
            r.add(v >= lo)
            r.add(v <= hi)
        else:
            r.add(z3.Extract(w - 1, w - 1, v) == 0)
        r.inputs.append((n, s, w))
        return s

    def check(c, msg):
        r = engine.CTX
        EX.assertions += 1
        if isinstance(c, SymInt):
            c = c != 0
        if not isinstance(c, SymBool):
            if not c:
                raise Violation(msg)
            return
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return
        ok = False
        if not z3.is_false(e):
            t = r.check(z3.Not(e))
            if t == z3.unsat:
                ok = True
            elif t == z3.unknown:
                return
        if not ok:
            if z3.is_false(e):
                raise Violation(msg)
            m = r.solver.model()
            r.found.append((msg, engine.inputs_of(r, m), outs_of(m)))
            r.add(e)  # and where it holds
            if r.check() != z3.sat:
                raise engine.Infeasible()

    def assume(c):
        r = engine.CTX
        if isinstance(c, SymInt):
            c = c != 0
        if isinstance(c, SymBool):
            r.add(c.e)
            if r.pos >= len(r.prefix) and r.model is None and r.check() != z3.sat:
                raise engine.Infeasible()
        elif not c:
            raise engine.Infeasible()

    def outs_of(m):
        r = engine.CTX
        if r.cpp is None:
            return None
        ev = lambda bs: [int(m.eval(x.e, model_completion=True).as_signed_long()) if isinstance(x, SymInt) else int(x) for x in bs]
        return {k: [ev(b) for b in v] if isinstance(v, list) else ev(v) for k, v in r.cpp.items()}

    def open_trace(data):
        if isinstance(data, tuple):
            ext, size = data
            return shims.SymFile(SparseBytes([(o, b if isinstance(b, SymBytes) else SymBytes(b)) for o, b in ext], size))
        return shims.SymFile(data if isinstance(data, SymBytes) else SymBytes(data))

    def cpp_outputs(name):
        """The outputs of one path of a C++ harness entry, as symbolic bytes under the path's
        condition; all paths are explored."""
        r = engine.CTX
        if name not in CPP:
            CPP[name] = [json.loads(l) for l in open(os.path.join(TMP, name + ".paths")) if l.strip()]
        ps = CPP[name]
        k = choose("cpp-path", len(ps))
        p = ps[k]
        if p["smt"]:
            for e in z3.parse_smt2_string(p["smt"]):
                r.add(e)
        out = {}
        for n, bs in p["outs"]:
            v = SymBytes([b if isinstance(b, int) else SymInt(z3.ZeroExt(1, z3.BitVec(b, 8)), 0, 255) for b in bs])
            if n in out:
                if not isinstance(out[n], list):
                    out[n] = [out[n]]
                out[n].append(v)
            else:
                out[n] = v
        r.cpp = out
        r.model = None
        return out

    def choose(name, n):
        v = new(name, 0, n - 1)
        if isinstance(v, int):
            return v
        old, engine.ENUM_LIMIT = engine.ENUM_LIMIT, 1 << 20
        try:
            return engine.CTX.concretize(v, "index")
        finally:
            engine.ENUM_LIMIT = old

    def raw_text(s):
        if isinstance(s, shims.SymPath):
            s = s.s
        if isinstance(s, engine.SymStr):
            return s.raw if not s.lossy else SymBytes([300])
        return os.fsencode(s)

    api = dict(entry=lambda f: f, cover=lambda n: engine.CTX.covers.add(n), check=check, assume=assume, symbolic=True, sym=new, choose=choose,
               u64=lambda name: new(name, 0, 2**64 - 1), flag=lambda name: new(name, 0, 1) == 1,
               sym_bytes=lambda name, n: SymBytes([new(name, 0, 255) for _ in range(n)]), conj=conj, disj=disj, neg=neg, ite=ite,
               open_trace=open_trace, make_bytes=lambda xs: SymBytes(list(xs)), THOROUGH=tier == "thorough", raw_text=raw_text,
               cpp_outputs=cpp_outputs, note=lambda k, v: engine.CTX.notes.append((k, v)))
    H = load_harness(path, api)
    mon = sys.monitoring
    mon.use_tool_id(3, "vf")

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + "/"):
            FUNCS[code.co_qualname] = FUNCS.get(code.co_qualname, 0) + 1
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def ev_notes(notes, m):
    import engine
    def f(v):
        if isinstance(v, engine.SymInt):
            return m.eval(v.e, model_completion=True).as_signed_long()
        if isinstance(v, engine.SymBool):
            return int(engine.z3.is_true(m.eval(v.e, model_completion=True)))
        if isinstance(v, (list, tuple, engine.SymBytes)):
            return [f(x) for x in v]
        if isinstance(v, (bytes, bytearray)):
            return list(v)
        if isinstance(v, bool):
            return int(v)
        return v
    return [(k, f(v)) for k, v in notes]


def one_path(name, prefix):
    import engine
    r = engine.Run(EX, prefix)
    r.found, r.covers, r.notes, r.cpp = [], set(), [], None
    engine.CTX = r
    wit = None
    done = False

    def alarm(*a):
        raise engine.PathTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 30)
    outs = lambda m: None if r.cpp is None else {k: [_ev(b, m) for b in v] if isinstance(v, list) else _ev(v, m) for k, v in r.cpp.items()}
    _ev = lambda bs, m: [x if isinstance(x, int) else m.eval(x.e, model_completion=True).as_signed_long() for x in bs]

    def fail(msg):
        try:
            m = r.get_model()
            r.found.append((msg, engine.inputs_of(r, m), outs(m)))
        except engine.Infeasible:
            pass
    try:
        getattr(H, name)()
        done = True
    except engine.Infeasible:
        pass
    except engine.Unsupported as x:
        r.incomplete.append("unsupported: %s" % x)
    except engine.PathTimeout:
        signal.setitimer(signal.ITIMER_REAL, 0)
        r.incomplete.append("time limit of one path")
        fail("does not end")
    except Violation as x:
        signal.setitimer(signal.ITIMER_REAL, 0)
        fail(str(x))
    except RecursionError:
        r.incomplete.append("recursion limit")
    except Exception as x:
        signal.setitimer(signal.ITIMER_REAL, 0)
        t = str(x)
        if isinstance(x, (TypeError, AttributeError)) and re.search(r"Sym(Int|Bool|Bytes|Str|Path)|SparseBytes", t):
            r.incomplete.append("unsupported: " + t)
        elif os.environ.get("VF_DEBUG"):
            traceback.print_exc()
            fail("raises " + type(x).__name__)
        else:
            fail("raises " + type(x).__name__)
    signal.setitimer(signal.ITIMER_REAL, 0)
    EX.paths += 1
    if done and not r.found and EX.paths <= 4:
        try:
            m = r.get_model()
            wit = (engine.inputs_of(r, m), ev_notes(r.notes, m), outs(m))
        except engine.Infeasible:
            pass
    return dict(found=r.found, covers=r.covers, incomplete=r.incomplete, witness=wit)


def worker(args):
    name, prefixes, budget = args
    EX.reset()
    EX.pending = list(prefixes)
    t = time.time()
    found, covers, inc, wits = [], {}, [], []
    while EX.pending and time.time() - t < budget:
        d = one_path(name, EX.pending.pop())
        for f in d["found"]:
            if len(found) < 6:
                found.append(f)
        for c in d["covers"]:
            covers[c] = covers.get(c, 0) + 1
        for i in d["incomplete"]:
            if i not in inc:
                inc.append(i)
        if d["witness"]:
            wits.append(d["witness"])
        if len(found) >= 6:
            break
    fn = dict(FUNCS)
    return dict(entry=name, pending=EX.pending, found=found, covers=covers, incomplete=inc, wits=wits, funcs=fn,
                stats={k: getattr(EX, k) for k in ("solver_s", "queries", "sat", "unsat", "unknown", "forks", "assertions", "paths")})


def explore(path, out, tier):
    txt = open(path).read()
    ents = entries_of(path, tier)
    limit = 200 if tier == "quick" else 2400
    t0 = time.time()
    ncpu = 8
    ctx = mp.get_context("fork")
    jobs = {n: dict(entry=n, paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, assertions=0, covers={},
                    functions={}, incomplete=[], found=[], wits=[], want=c) for n, c in ents}
    with ctx.Pool(ncpu, initializer=setup, initargs=(path, tier)) as pool:
        queue = [(n, [[]]) for n, _ in ents]
        running = []
        while queue or running:
            while queue and len(running) < ncpu:
                n, pre = queue.pop(0)
                if len(jobs[n]["found"]) >= 6:
                    continue
                idle = ncpu - len(running)
                b = 0.3 if len(queue) < idle else 3.0
                running.append(pool.apply_async(worker, ((n, pre, b),)))
            done = [r for r in running if r.ready()]
            if not done:
                if time.time() - t0 > limit + 120:
                    break
                time.sleep(0.005)
                continue
            for r in done:
                running.remove(r)
                d = r.get()
                j = jobs[d["entry"]]
                for k, v in d["stats"].items():
                    j[k] += v
                j["found"] += d["found"]
                j["wits"] += d["wits"]
                for c, v in d["covers"].items():
                    j["covers"][c] = j["covers"].get(c, 0) + v
                for i in d["incomplete"]:
                    if i not in j["incomplete"]:
                        j["incomplete"].append(i)
                j["functions"].update(d["funcs"])
                p = d["pending"]
                if p and time.time() - t0 > limit:
                    if "time limit of the exploration reached" not in j["incomplete"]:
                        j["incomplete"].append("time limit of the exploration reached")
                elif p:
                    k = max(1, min(len(p), ncpu))
                    for i in range(k):
                        queue.append((d["entry"], p[i::k]))
    # replay on the real code
    batch, what = [], []
    for n, j in jobs.items():
        seen = set()
        for msg, ins, outs in j["found"]:
            if msg in seen:
                continue
            seen.add(msg)
            batch.append(dict(entry=n, inputs=ins, outs=outs))
            what.append((n, "v", msg, ins))
        for ins, notes, outs in j["wits"][:3]:
            batch.append(dict(entry=n, inputs=ins, outs=outs))
            what.append((n, "w", notes, ins))
    res = []
    if batch:
        import subprocess
        f = tempfile.mkdtemp(dir=TMP)
        json.dump(batch, open(f + "/in.json", "w"))
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--replay", path, f + "/in.json", f + "/out.json", tier],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONHASHSEED="0"))
        if os.path.exists(f + "/out.json"):
            res = json.load(open(f + "/out.json"))
        else:
            for j in jobs.values():
                j["error"] = "replay: " + r.stdout[-800:]
    for j in jobs.values():
        j.update(confirmed_violations=[], unconfirmed=[], validated=0, mismatch=[], samples=[])
    for (n, kind, x, ins), r in zip(what, res):
        j = jobs[n]
        if kind == "v":
            rec = dict(entry=n, msg=x, inputs=[[a, str(b)] for a, b in ins], confirmed="the harness on the real code with these inputs", log=r["failed"])
            (j["confirmed_violations"] if x in r["failed"] or (x == "does not end" and "raises TimeoutError" in r["failed"]) else j["unconfirmed"]).append(rec)
        else:
            if r["failed"] or json.loads(json.dumps(x)) != r["notes"]:
                j["mismatch"].append(dict(entry=n, inputs=[[a, str(b)] for a, b in ins], status=r["failed"] or "different result"))
            else:
                j["validated"] += 1
                j["samples"].append(dict(entry=n, inputs=[[a, str(b)] for a, b in ins][:40]))
    for j in jobs.values():
        j["instructions"] = j["paths"] + j["forks"] + j["assertions"]
        j["missing"] = [c for c in j.pop("want") if not j["covers"].get(c)]
        j["solver_s"] = round(j["solver_s"], 3)
        del j["found"], j["wits"]
    json.dump(dict(assumptions=re.findall(r"^# @assume (.*)$", txt, re.M), bounds=re.findall(r"^# @bound (.*)$", txt, re.M), jobs=list(jobs.values())), open(out, "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(*sys.argv[2:6])
    else:
        explore(*sys.argv[1:4])
