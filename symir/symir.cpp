// symir: bounded symbolic execution of LLVM IR with an SMT solver.
//
// Executes a harness function of a linked bitcode module.  Inputs made with
// vf_sym* are bit-vector variables, every feasible branch is explored, every
// vf_assert and every memory access is turned into a solver query that decides
// it for all values of the inputs on that path.  Threads made with vf_spawn are
// interleaved at every access to shared memory, the schedule being a choice
// that is explored within a preemption bound.
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <chrono>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>

using namespace llvm;
using u64 = uint64_t;
using std::shared_ptr;
using std::string;
using std::vector;

static z3::context *Z;
static const DataLayout *DL;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options
struct Options {
  string input, entry, out, paths_out;
  unsigned preempt = 2;
  u64 max_inst = 20000000;      // per path
  double max_time = 600;        // whole run, seconds
  unsigned solver_ms = 60000;   // per query
  unsigned max_enum = 300;      // values a concretisation may take
  unsigned max_viol = 1;
  bool verbose = false;
  string inputs_file, native_out;
  bool fixed_sched = false;
  vector<unsigned> sched;
  vector<u64> schedAt;
  unsigned samples = 3;
} opt;
static std::map<string, string> fixedInputs;

// ---------------------------------------------------------------- statistics
struct Stats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, insts = 0, forks = 0;
  u64 paths_done = 0, paths_exit = 0, paths_assumed = 0, asserts = 0, asserts_const = 0, memchecks = 0;
  u64 schedules = 0;
  double solver_s = 0;
  std::map<string, u64> covers;
  std::map<string, u64> funcs;
  std::set<string> incomplete;
  std::map<string, u64> assertion_msgs;
} st;

struct Unsupported {
  string what;
};

// ---------------------------------------------------------------- values
struct V {
  unsigned w = 0;                // width, 0 for an aggregate
  APInt a{1, 0};
  std::optional<z3::expr> e;     // symbolic if set
  vector<V> el;                  // aggregate
  bool conc() const { return !e; }
};

static V mk(unsigned w, u64 v) {
  V r;
  r.w = w;
  r.a = APInt(w, v);
  return r;
}
static V mka(APInt a) {
  V r;
  r.w = a.getBitWidth();
  r.a = std::move(a);
  return r;
}
static string apstr(const APInt &a) {
  SmallString<40> s;
  a.toString(s, 10, false);
  return string(s.str());
}
static z3::expr num(const APInt &a) {
  if (a.getBitWidth() <= 64)
    return Z->bv_val((uint64_t)a.getZExtValue(), a.getBitWidth());
  return Z->bv_val(apstr(a).c_str(), a.getBitWidth());
}
static z3::expr ex(const V &v) { return v.e ? *v.e : num(v.a); }
static bool numeral_of(const z3::expr &e, APInt &out) {
  if (!e.is_numeral())
    return false;
  unsigned w = e.get_sort().bv_size();
  u64 u;
  if (w <= 64 && e.is_numeral_u64(u)) {
    out = APInt(w, u);
    return true;
  }
  out = APInt(w, e.get_decimal_string(0), 10);
  return true;
}
static V mke(const z3::expr &e0, bool simp = false) {
  z3::expr e = simp ? e0.simplify() : e0;
  V r;
  r.w = e.get_sort().bv_size();
  APInt a(r.w, 0);
  if (numeral_of(e, a)) {
    r.a = a;
    return r;
  }
  r.e = e;
  return r;
}
static z3::expr boolOf(const V &v) { // i1 -> Bool
  return ex(v) == Z->bv_val(1, 1);
}
static V fromBool(const z3::expr &b0) {
  z3::expr b = b0.simplify();
  if (b.is_true())
    return mk(1, 1);
  if (b.is_false())
    return mk(1, 0);
  V r;
  r.w = 1;
  r.e = z3::ite(b, Z->bv_val(1, 1), Z->bv_val(0, 1));
  return r;
}

// ---------------------------------------------------------------- memory
struct Cell {          // one symbolic byte: byte idx of src
  std::optional<z3::expr> src;
  unsigned idx = 0;
};
struct Obj {
  u64 base = 0, size = 0;
  bool freed = false, constant = false, heap = false, chunk = false;
  int owner = -1;      // thread that owns this stack object, -1 otherwise
  string name;
  vector<uint8_t> b;
  vector<uint8_t> kind; // 0 concrete, 1 symbolic (cells), 2 uninitialised; empty: all concrete
  std::map<u64, Cell> sym;
  // array mode
  std::optional<z3::expr> arr;
  unsigned ew = 0; // element width in bytes
  void ensureKind() {
    if (kind.empty())
      kind.assign(size, 0);
  }
};
using OP = shared_ptr<Obj>;

struct Frame {
  Function *F;
  BasicBlock *bb, *prev;
  BasicBlock::iterator it;
  vector<V> regs;
  vector<u64> allocas;
  vector<V> varargs;
  CallBase *site;
};
struct Thread {
  vector<Frame> st;
  u64 waiting = 0; // mutex address
  bool done = false;
  bool scheduled = false;
  bool joinall = false;
};

struct Out {
  string name;
  vector<z3::expr> bytes;
};

struct State {
  vector<Thread> th;
  unsigned cur = 0;
  std::map<u64, OP> mem; // mutable objects, by base
  vector<std::pair<u64, u64>> lazy; // large zeroed mappings, cut into chunks on use
  vector<z3::expr> pc;
  shared_ptr<z3::model> m;
  std::map<string, unsigned> names;
  std::map<u64, int> locks; // mutex -> owner+1
  unsigned preempts = 0;
  std::optional<V> exitOk;
  u64 insts = 0;
  u64 nextHeap = 0, nextStack = 0;
  vector<Out> outs;
  vector<unsigned> sched;
  vector<u64> at;
  u64 points = 0;
  std::set<string> cov;
  vector<string> log;
};
using SP = std::unique_ptr<State>;

struct Abort {}; // path ends
struct Switched {}; // another thread runs now

static std::map<u64, OP> constMem;
static std::map<const GlobalValue *, u64> gaddr;
static std::map<u64, Function *> faddr;
static u64 nextGlobal = 0x10000000;
static std::map<const GlobalValue *, std::vector<u64>> tlsCopies; // of the threads after the first
struct FnInfo {
  DenseMap<const Value *, unsigned> idx;
  unsigned n = 0;
  string dem;
};
static std::map<const Function *, FnInfo> fninfo;
static vector<SP> work;
static vector<string> violations; // JSON
static vector<std::pair<string, z3::expr>> inputs; // name, const
static std::set<string> inputNames;
static std::unordered_map<string, z3::expr> inputByName;
static std::ofstream pathsFile;
static unsigned pathNo = 0;

static FnInfo &info(Function *F) {
  auto &i = fninfo[F];
  if (!i.n) {
    for (auto &A : F->args())
      i.idx[&A] = i.n++;
    for (auto &I : instructions(F))
      if (!I.getType()->isVoidTy())
        i.idx[&I] = i.n++;
    i.n++;
    i.dem = demangle(F->getName().str());
  }
  return i;
}

static string js(const string &s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else if (c >= 127) {
      r += '?';
    } else
      r += c;
  }
  return r + "\"";
}

// ---------------------------------------------------------------- solver
struct Solver {
  z3::solver s;
  vector<z3::expr> stack;
  Solver() : s(*Z) {
    z3::params p(*Z);
    p.set("timeout", 3000u);
    s.set(p);
  }
  static bool same(const z3::expr &a, const z3::expr &b) { return z3::eq(a, b); }
  void align(const vector<z3::expr> &pc) {
    size_t k = 0;
    while (k < stack.size() && k < pc.size() && same(stack[k], pc[k]))
      k++;
    if (stack.size() > k) {
      s.pop(stack.size() - k);
      stack.erase(stack.begin() + k, stack.end());
    }
    for (; k < pc.size(); k++) {
      s.push();
      s.add(pc[k]);
      stack.push_back(pc[k]);
    }
  }
};
static Solver *sv;

// 1 sat, 0 unsat, -1 unknown
static int check(const vector<z3::expr> &pc, const z3::expr &c, shared_ptr<z3::model> *mo) {
  double t = now();
  st.queries++;
  int r = -1;
  sv->align(pc);
  sv->s.push();
  sv->s.add(c);
  try {
    auto q = sv->s.check();
    if (q == z3::sat) {
      r = 1;
      if (mo)
        *mo = std::make_shared<z3::model>(sv->s.get_model());
    } else if (q == z3::unsat)
      r = 0;
  } catch (z3::exception &) {
  }
  sv->s.pop();
  if (r == -1) {
    // second, non-incremental attempt
    try {
      bool arr = false;
      z3::tactic t1 = z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "solve-eqs") &
                      z3::tactic(*Z, arr ? "smt" : "qfaufbv");
      z3::solver f = t1.mk_solver();
      z3::params p(*Z);
      p.set("timeout", opt.solver_ms);
      f.set(p);
      for (auto &x : pc)
        f.add(x);
      f.add(c);
      auto q = f.check();
      if (q == z3::sat) {
        r = 1;
        if (mo)
          *mo = std::make_shared<z3::model>(f.get_model());
      } else if (q == z3::unsat)
        r = 0;
    } catch (z3::exception &) {
    }
  }
  st.solver_s += now() - t;
  if (r == 1)
    st.sat++;
  else if (r == 0)
    st.unsat++;
  else {
    st.unknown++;
    st.incomplete.insert("solver gave no answer on a query within its time limit");
  }
  return r;
}

static bool evalTrue(State &S, const z3::expr &c) {
  if (!S.m)
    return false;
  return S.m->eval(c, true).is_true();
}

static void addpc(State &S, const z3::expr &c0) {
  z3::expr c = c0.simplify();
  if (c.is_true())
    return;
  S.pc.push_back(c);
}

// ---------------------------------------------------------------- reporting
static string where(State &S) {
  string r;
  auto &T = S.th[S.cur];
  for (int i = (int)T.st.size() - 1; i >= 0 && i >= (int)T.st.size() - 8; i--) {
    Frame &f = T.st[i];
    r += info(f.F).dem;
    BasicBlock::iterator it = f.it;
    if (it != f.bb->end())
      if (auto dl = it->getDebugLoc())
        r += "@" + std::to_string(dl.getLine());
    r += " <- ";
  }
  return r;
}

static string inputsOf(State &S, shared_ptr<z3::model> m) {
  std::ostringstream o;
  bool first = true;
  for (auto &in : inputs) {
    // only the inputs of this path
    auto pos = in.first.rfind('#');
    string base = in.first.substr(0, pos);
    unsigned k = std::stoul(in.first.substr(pos + 1));
    auto itn = S.names.find(base);
    if (itn == S.names.end() || itn->second <= k)
      continue;
    APInt a(1, 0);
    if (in.second.get_sort().is_array())
      continue;
    z3::expr v = m ? m->eval(in.second, true) : in.second;
    if (!numeral_of(v, a))
      continue;
    if (!first)
      o << ",";
    first = false;
    o << "[" << js(in.first) << "," << js(apstr(a)) << "]";
  }
  return o.str();
}

static std::set<string> seenViol;
static vector<string> witness;
static void report(State &S, const string &kind, const string &msg, shared_ptr<z3::model> m) {
  if (!seenViol.insert(kind + "|" + msg).second)
    return;
  std::ostringstream o;
  o << "{\"kind\":" << js(kind) << ",\"msg\":" << js(msg) << ",\"where\":" << js(where(S)) << ",\"threads\":" << S.th.size()
    << ",\"inputs\":[" << inputsOf(S, m) << "],\"schedule\":[";
  for (size_t i = 0; i < S.sched.size(); i++)
    o << (i ? "," : "") << S.sched[i];
  o << "],\"schedule_at\":[";
  for (size_t i = 0; i < S.at.size(); i++)
    o << (i ? "," : "") << S.at[i];
  o << "],\"log\":[";
  for (size_t i = 0; i < S.log.size(); i++)
    o << (i ? "," : "") << js(S.log[i]);
  o << "]}";
  violations.push_back(o.str());
  if (opt.verbose)
    std::cerr << "VIOL " << o.str() << "\n";
}

// ---------------------------------------------------------------- memory ops
static constexpr u64 CHUNK = 512;
static OP *findObj(State &S, u64 a) {
  auto it = S.mem.upper_bound(a);
  if (it != S.mem.begin()) {
    --it;
    auto &o = it->second;
    if (a >= o->base && a < o->base + std::max<u64>(o->size, 1))
      return &it->second;
  }
  auto ic = constMem.upper_bound(a);
  if (ic != constMem.begin()) {
    --ic;
    auto &o = ic->second;
    if (a >= o->base && a < o->base + std::max<u64>(o->size, 1))
      return &ic->second;
  }
  for (auto &z : S.lazy)
    if (a >= z.first && a - z.first < z.second) {
      auto o = std::make_shared<Obj>();
      u64 lo = z.first + (a - z.first) / CHUNK * CHUNK, hi = std::min(lo + CHUNK, z.first + z.second);
      auto nx = S.mem.lower_bound(a);
      if (nx != S.mem.end())
        hi = std::min(hi, nx->first);
      if (nx != S.mem.begin()) {
        auto pv = std::prev(nx);
        lo = std::max(lo, pv->second->base + pv->second->size);
      }
      o->base = lo;
      o->size = hi - lo;
      o->name = "mapped file";
      o->chunk = true;
      o->b.assign(o->size, 0);
      return &(S.mem[lo] = o);
    }
  return nullptr;
}
static Obj *writable(OP &p);
// makes the chunk at a long enough for an access that ends at e, if the mapping goes that far
static OP *growChunk(State &S, u64 a, u64 e) {
  OP *o = findObj(S, a);
  while (o && (*o)->chunk && (*o)->base + (*o)->size < e) {
    OP *n = findObj(S, (*o)->base + (*o)->size);
    if (!n || !(*n)->chunk || (*o)->arr || (*n)->arr)
      return o;
    Obj *w = writable(*o);
    Obj &x = **n;
    w->ensureKind();
    x.ensureKind();
    for (auto &kv : x.sym)
      w->sym[kv.first + w->size] = kv.second;
    w->b.insert(w->b.end(), x.b.begin(), x.b.end());
    w->kind.insert(w->kind.end(), x.kind.begin(), x.kind.end());
    w->size += x.size;
    S.mem.erase(x.base);
    o = findObj(S, a);
  }
  return o;
}
static Obj *writable(OP &p) {
  if (p.use_count() > 1)
    p = std::make_shared<Obj>(*p);
  return p.get();
}

static u64 allocObj(State &S, u64 size, const string &name, bool uninit, bool heap, int owner, u64 align = 16) {
  u64 &nx = heap ? S.nextHeap : S.nextStack;
  if (align < 16)
    align = 16;
  u64 base = (nx + align - 1) / align * align;
  nx = base + size + 64;
  nx = (nx + 15) / 16 * 16;
  auto o = std::make_shared<Obj>();
  o->base = base;
  o->size = size;
  o->name = name;
  o->heap = heap;
  o->owner = owner;
  o->b.assign(size, 0);
  if (uninit)
    o->kind.assign(size, 2);
  S.mem[base] = o;
  return base;
}

static z3::expr freshInput(State &S, const string &name, unsigned bits) {
  unsigned k = S.names[name]++;
  string full = name + "#" + std::to_string(k);
  if (!opt.inputs_file.empty()) {
    auto f = fixedInputs.find(full);
    return Z->bv_val(f == fixedInputs.end() ? "0" : f->second.c_str(), bits);
  }
  auto it = inputByName.find(full);
  if (it != inputByName.end())
    return it->second;
  z3::expr e = Z->bv_const(full.c_str(), bits);
  inputByName.emplace(full, e);
  inputs.emplace_back(full, e);
  return e;
}
static u64 undefCtr = 0;

// byte as expr
static z3::expr cellExpr(const Cell &c) {
  unsigned w = c.src->get_sort().bv_size();
  if (w == 8)
    return *c.src;
  return c.src->extract(c.idx * 8 + 7, c.idx * 8);
}

static z3::expr arrRead(Obj &o, const z3::expr &off, unsigned n) {
  unsigned ew = o.ew;
  z3::expr lsh = off;
  if (ew == 1) {
    z3::expr r = z3::select(*o.arr, off);
    for (unsigned i = 1; i < n; i++)
      r = z3::concat(z3::select(*o.arr, (off + Z->bv_val((uint64_t)i, 64)).simplify()), r);
    return r;
  }
  unsigned lg = ew == 2 ? 1 : ew == 4 ? 2 : 3;
  z3::expr low = off.extract(lg - 1, 0).simplify();
  z3::expr idx = z3::lshr(off, Z->bv_val((uint64_t)lg, 64)).simplify();
  APInt la(1, 0);
  if (numeral_of(low, la)) {
    unsigned l = la.getZExtValue();
    if (l + n <= ew) {
      z3::expr w = z3::select(*o.arr, idx);
      if (n == ew)
        return w;
      return w.extract((l + n) * 8 - 1, l * 8);
    }
    if (l == 0 && n % ew == 0) {
      z3::expr r = z3::select(*o.arr, idx);
      for (unsigned i = 1; i < n / ew; i++)
        r = z3::concat(z3::select(*o.arr, (idx + Z->bv_val((uint64_t)i, 64)).simplify()), r);
      return r;
    }
  }
  if (n == 1) {
    z3::expr w = z3::select(*o.arr, idx);
    z3::expr sh = z3::zext(off.extract(lg - 1, 0), ew * 8 - lg) * Z->bv_val(8, ew * 8);
    return z3::lshr(w, sh).extract(7, 0).simplify();
  }
  throw Unsupported{"unaligned access to array object " + o.name};
}
static void arrWrite(Obj &o, const z3::expr &off, unsigned n, const z3::expr &v) {
  unsigned ew = o.ew;
  if (ew == 1) {
    for (unsigned i = 0; i < n; i++)
      o.arr = z3::store(*o.arr, (off + Z->bv_val((uint64_t)i, 64)).simplify(), v.extract(i * 8 + 7, i * 8).simplify());
    return;
  }
  unsigned lg = ew == 2 ? 1 : ew == 4 ? 2 : 3;
  z3::expr low = off.extract(lg - 1, 0).simplify();
  z3::expr idx = z3::lshr(off, Z->bv_val((uint64_t)lg, 64)).simplify();
  APInt la(1, 0);
  if (numeral_of(low, la)) {
    unsigned l = la.getZExtValue();
    if (l == 0 && n % ew == 0) {
      for (unsigned i = 0; i < n / ew; i++)
        o.arr = z3::store(*o.arr, (idx + Z->bv_val((uint64_t)i, 64)).simplify(),
                          v.extract((i + 1) * ew * 8 - 1, i * ew * 8).simplify());
      return;
    }
    if (l + n <= ew) {
      z3::expr w = z3::select(*o.arr, idx);
      z3::expr nw = v;
      if (l)
        nw = z3::concat(nw, w.extract(l * 8 - 1, 0));
      if (l + n < ew)
        nw = z3::concat(w.extract(ew * 8 - 1, (l + n) * 8), nw);
      o.arr = z3::store(*o.arr, idx, nw.simplify());
      return;
    }
  }
  throw Unsupported{"unaligned write to array object " + o.name};
}

// read n bytes at concrete offset
static V rdConc(OP &op, u64 off, unsigned n) {
  Obj *o = op.get();
  if (o->arr)
    return mke(arrRead(*o, Z->bv_val(off, 64), n), true);
  bool allc = true;
  if (!o->kind.empty())
    for (unsigned i = 0; i < n; i++)
      if (o->kind[off + i]) {
        allc = false;
        break;
      }
  if (allc) {
    APInt a(n * 8, 0);
    for (unsigned i = 0; i < n; i++)
      a.insertBits(APInt(8, o->b[off + i]), i * 8);
    return mka(a);
  }
  // materialise uninitialised bytes as arbitrary
  bool un = false;
  for (unsigned i = 0; i < n; i++)
    if (o->kind[off + i] == 2)
      un = true;
  if (un) {
    o = writable(op);
    for (unsigned i = 0; i < n; i++)
      if (o->kind[off + i] == 2) {
        o->kind[off + i] = 1;
        Cell c;
        c.src = Z->bv_const(("undef!" + std::to_string(undefCtr++)).c_str(), 8);
        c.idx = 0;
        o->sym[off + i] = c;
      }
  }
  // whole-expression fast path
  if (o->kind[off] == 1) {
    Cell &c0 = o->sym[off];
    unsigned w = c0.src->get_sort().bv_size();
    bool ok = c0.idx + n <= w / 8;
    for (unsigned i = 1; ok && i < n; i++) {
      if (o->kind[off + i] != 1) {
        ok = false;
        break;
      }
      Cell &c = o->sym[off + i];
      if (!z3::eq(*c.src, *c0.src) || c.idx != c0.idx + i)
        ok = false;
    }
    if (ok) {
      if (c0.idx == 0 && n * 8 == w)
        return mke(*c0.src);
      return mke(c0.src->extract((c0.idx + n) * 8 - 1, c0.idx * 8), true);
    }
  }
  std::optional<z3::expr> r;
  for (unsigned i = 0; i < n; i++) {
    z3::expr b = o->kind[off + i] == 1 ? cellExpr(o->sym[off + i]) : Z->bv_val((unsigned)o->b[off + i], 8);
    r = r ? z3::concat(b, *r) : b;
  }
  return mke(*r, true);
}
static void wrConc(OP &op, u64 off, unsigned n, const V &v) {
  Obj *o = writable(op);
  if (o->arr) {
    arrWrite(*o, Z->bv_val(off, 64), n, ex(v));
    return;
  }
  if (v.conc()) {
    for (unsigned i = 0; i < n; i++) {
      o->b[off + i] = v.a.extractBitsAsZExtValue(8, i * 8);
      if (!o->kind.empty()) {
        if (o->kind[off + i] == 1)
          o->sym.erase(off + i);
        o->kind[off + i] = 0;
      }
    }
    return;
  }
  o->ensureKind();
  for (unsigned i = 0; i < n; i++) {
    o->kind[off + i] = 1;
    Cell c;
    c.src = *v.e;
    c.idx = i;
    o->sym[off + i] = c;
  }
}

static void toArray(State &S, OP &op, unsigned ew) {
  Obj *o = writable(op);
  if (o->arr)
    return;
  if (o->size % ew)
    ew = 1;
  z3::sort srt = Z->array_sort(Z->bv_sort(64), Z->bv_sort(ew * 8));
  z3::expr arr = z3::const_array(Z->bv_sort(64), Z->bv_val(0, ew * 8));
  for (u64 i = 0; i < o->size; i += ew) {
    V v = rdConc(op, i, ew);
    if (v.conc() && v.a == 0)
      continue;
    arr = z3::store(arr, Z->bv_val(i / ew, 64), ex(v));
  }
  o = writable(op);
  o->arr = arr;
  o->ew = ew;
  o->kind.clear();
  o->sym.clear();
}

// low bits of an address that are known
static unsigned knownAlign(const z3::expr &off) {
  for (unsigned k = 4; k >= 1; k--) {
    z3::expr l = off.extract(k - 1, 0).simplify();
    APInt a(1, 0);
    if (numeral_of(l, a) && a == 0)
      return 1u << k;
  }
  return 1;
}

static constexpr u64 ITE_LIMIT = 512;

static V rdSym(State &S, OP &op, const z3::expr &off, unsigned n) {
  if (op->arr)
    return mke(arrRead(*op, off, n), true);
  unsigned al = std::min<unsigned>(knownAlign(off), 16);
  u64 cnt = (op->size - n) / al + 1;
  if (cnt <= ITE_LIMIT) {
    std::optional<z3::expr> r;
    for (u64 c = 0; c + n <= op->size; c += al) {
      z3::expr v = ex(rdConc(op, c, n));
      r = r ? z3::ite(off == Z->bv_val(c, 64), v, *r) : v;
    }
    return mke(*r, true);
  }
  toArray(S, op, std::min<unsigned>(std::min(al, n), 8));
  return mke(arrRead(*op, off, n), true);
}
static void wrSym(State &S, OP &op, const z3::expr &off, unsigned n, const V &v) {
  if (!op->arr) {
    unsigned al = std::min<unsigned>(knownAlign(off), 16);
    u64 cnt = (op->size - n) / al + 1;
    if (cnt <= ITE_LIMIT && al >= n) {
      z3::expr nv = ex(v);
      for (u64 c = 0; c + n <= op->size; c += al) {
        z3::expr old = ex(rdConc(op, c, n));
        wrConc(op, c, n, mke(z3::ite(off == Z->bv_val(c, 64), nv, old), true));
      }
      return;
    }
    if (cnt <= ITE_LIMIT) { // bytewise
      for (u64 c = 0; c < op->size; c++) {
        z3::expr cur = ex(rdConc(op, c, 1));
        for (unsigned i = 0; i < n; i++)
          if (c >= i && c - i + n <= op->size)
            cur = z3::ite(off == Z->bv_val(c - i, 64), ex(v).extract(i * 8 + 7, i * 8), cur);
        wrConc(op, c, 1, mke(cur, true));
      }
      return;
    }
    toArray(S, op, std::min<unsigned>(std::min(al, n), 8));
  }
  arrWrite(*writable(op), off, n, ex(v));
}

static std::map<string, unsigned> forkSites;
static SP clone(State &S) {
  st.forks++;
  if (opt.verbose) {
    auto &T = S.th[S.cur];
    string r;
    if (!T.st.empty()) {
      Frame &f = T.st.back();
      r = info(f.F).dem;
      if (f.it != f.bb->end())
        if (auto dl = f.it->getDebugLoc())
          r += "@" + std::to_string(dl.getLine());
    }
    forkSites[r]++;
  }
  return std::make_unique<State>(S);
}

// The instruction being executed must be re-executable when this forks.
struct Resolved {
  u64 base;
  std::optional<z3::expr> off; // symbolic offset
  u64 coff = 0;
};

static Resolved resolve(State &S, const V &addr, u64 n, const char *what) {
  st.memchecks++;
  if (addr.conc()) {
    u64 a = addr.a.getZExtValue();
    OP *o = growChunk(S, a, a + n);
    if (!o || (*o)->freed || a + n > (*o)->base + (*o)->size || a + n < a) {
      char buf[200];
      snprintf(buf, sizeof buf, "%s of %llu bytes at %#llx is outside every live object%s", what, (unsigned long long)n,
               (unsigned long long)a, o ? ((*o)->freed ? " (freed)" : (" (near " + (*o)->name + ")").c_str()) : "");
      shared_ptr<z3::model> m = S.m;
      if (!m) check(S.pc, Z->bool_val(true), &m);
      report(S, "memory", buf, m);
      throw Abort{};
    }
    return {(*o)->base, std::nullopt, a - (*o)->base};
  }
  z3::expr e = addr.e->simplify();
  APInt ca(64, 0);
  if (numeral_of(e, ca))
    return resolve(S, mka(ca), n, what);
  if (!S.m) {
    shared_ptr<z3::model> m;
    if (check(S.pc, Z->bool_val(true), &m) != 1)
      throw Abort{};
    S.m = m;
  }
  z3::expr av = S.m->eval(e, true);
  if (!numeral_of(av, ca))
    throw Unsupported{"address without a value"};
  u64 a = ca.getZExtValue();
  OP *o = growChunk(S, a, a + n);
  bool bad = !o || (*o)->freed || a + n > (*o)->base + (*o)->size || a + n < a;
  if (!bad) {
    u64 b = (*o)->base, s = (*o)->size;
    z3::expr in = z3::uge(e, Z->bv_val(b, 64)) && z3::ule(e, Z->bv_val(b + s - n, 64));
    shared_ptr<z3::model> m2;
    int r = check(S.pc, !in, &m2);
    if (r == 0)
      return {b, (e - Z->bv_val(b, 64)).simplify(), 0};
    if (r == 1) {
      SP o2 = clone(S);
      addpc(*o2, !in);
      o2->m = m2;
      work.push_back(std::move(o2));
    }
    addpc(S, in);
    return {b, (e - Z->bv_val(b, 64)).simplify(), 0};
  }
  char buf[200];
  snprintf(buf, sizeof buf, "%s of %llu bytes can reach %#llx, outside every live object", what, (unsigned long long)n,
           (unsigned long long)a);
  report(S, "memory", buf, S.m);
  throw Abort{};
}

static V memRead(State &S, const V &addr, unsigned n, const char *what = "read") {
  Resolved r = resolve(S, addr, n, what);
  OP *o = findObj(S, r.base);
  if (r.off)
    return rdSym(S, *o, *r.off, n);
  return rdConc(*o, r.coff, n);
}
static void memWrite(State &S, const V &addr, unsigned n, const V &v, const char *what = "write") {
  Resolved r = resolve(S, addr, n, what);
  OP *o = findObj(S, r.base);
  if ((*o)->constant) {
    report(S, "memory", "write to constant memory " + (*o)->name, S.m);
    throw Abort{};
  }
  if (r.off)
    wrSym(S, *o, *r.off, n, v);
  else
    wrConc(*o, r.coff, n, v);
}

// ---------------------------------------------------------------- constants
static V evalConst(const Constant *c);

static u64 addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it == gaddr.end())
    return 0;
  return it->second;
}

static unsigned bitsOf(Type *t) {
  if (t->isPointerTy())
    return 64;
  return DL->getTypeSizeInBits(t).getFixedValue();
}

static V zeroOf(Type *t) {
  if (auto *s = dyn_cast<StructType>(t)) {
    V r;
    for (auto *x : s->elements())
      r.el.push_back(zeroOf(x));
    return r;
  }
  if (auto *s = dyn_cast<ArrayType>(t)) {
    V r;
    for (u64 i = 0; i < s->getNumElements(); i++)
      r.el.push_back(zeroOf(s->getElementType()));
    return r;
  }
  if (auto *s = dyn_cast<FixedVectorType>(t)) {
    V r;
    for (u64 i = 0; i < s->getNumElements(); i++)
      r.el.push_back(zeroOf(s->getElementType()));
    return r;
  }
  return mk(bitsOf(t), 0);
}

static V vBin(unsigned op, const V &a, const V &b);
static V vCast(unsigned op, const V &a, Type *from, Type *to);
static V vICmp(CmpInst::Predicate p, const V &a, const V &b);

static V gepOffset(const GEPOperator *G, const V &base, std::function<V(const Value *)> val) {
  V cur = base;
  APInt off(64, 0);
  std::optional<z3::expr> soff;
  for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
    V idx = val(gti.getOperand());
    if (StructType *stt = gti.getStructTypeOrNull()) {
      off += DL->getStructLayout(stt)->getElementOffset(idx.a.getZExtValue());
    } else {
      u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
      if (idx.conc())
        off += idx.a.sextOrTrunc(64) * sz;
      else {
        z3::expr i = *idx.e;
        if (idx.w < 64)
          i = z3::sext(i, 64 - idx.w);
        else if (idx.w > 64)
          i = i.extract(63, 0);
        if (sz != 1)
          i = i * Z->bv_val(sz, 64);
        soff = soff ? *soff + i : i;
      }
    }
  }
  if (cur.conc() && !soff)
    return mka(cur.a + off);
  z3::expr r = ex(cur);
  if (off != 0)
    r = r + num(off);
  if (soff)
    r = r + *soff;
  return mke(r, true);
}

static V evalConst(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c))
    return mka(i->getValue());
  if (auto *f = dyn_cast<ConstantFP>(c))
    return mka(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c))
    return mk(64, 0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
    return zeroOf(c->getType());
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    V r;
    for (unsigned i = 0; i < d->getNumElements(); i++)
      r.el.push_back(evalConst(d->getElementAsConstant(i)));
    return r;
  }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    V r;
    for (auto &op : a->operands())
      r.el.push_back(evalConst(cast<Constant>(op)));
    return r;
  }
  if (auto *g = dyn_cast<GlobalAlias>(c))
    return evalConst(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c))
    return mk(64, addrOf(g));
  if (auto *x = dyn_cast<ConstantExpr>(c)) {
    if (auto *G = dyn_cast<GEPOperator>(x))
      return gepOffset(G, evalConst(cast<Constant>(G->getPointerOperand())),
                       [](const Value *v) { return evalConst(cast<Constant>(v)); });
    if (x->isCast())
      return vCast(x->getOpcode(), evalConst(x->getOperand(0)), x->getOperand(0)->getType(), x->getType());
    if (x->getOpcode() == Instruction::ICmp)
      return vICmp((CmpInst::Predicate)x->getPredicate(), evalConst(x->getOperand(0)), evalConst(x->getOperand(1)));
    return vBin(x->getOpcode(), evalConst(x->getOperand(0)), evalConst(x->getOperand(1)));
  }
  if (isa<DSOLocalEquivalent>(c))
    return mk(64, 0);
  throw Unsupported{"constant"};
}

static void storeConst(Obj &o, u64 off, Type *t, const V &v) {
  if (v.w) {
    unsigned n = DL->getTypeStoreSize(t);
    APInt a = v.a.zextOrTrunc(n * 8);
    for (unsigned i = 0; i < n; i++)
      o.b[off + i] = a.extractBitsAsZExtValue(8, i * 8);
    return;
  }
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < v.el.size(); i++)
      storeConst(o, off + L->getElementOffset(i), s->getElementType(i), v.el[i]);
    return;
  }
  Type *et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
  u64 sz = DL->getTypeAllocSize(et);
  for (unsigned i = 0; i < v.el.size(); i++)
    storeConst(o, off + i * sz, et, v.el[i]);
}

// ---------------------------------------------------------------- operators
static V vBin(unsigned op, const V &a, const V &b) {
  if (!a.el.empty() || !b.el.empty()) {
    V r;
    for (size_t i = 0; i < a.el.size(); i++)
      r.el.push_back(vBin(op, a.el[i], b.el[i]));
    return r;
  }
  unsigned w = a.w;
  if (a.conc() && b.conc()) {
    const APInt &x = a.a, &y = b.a;
    switch (op) {
    case Instruction::Add: return mka(x + y);
    case Instruction::Sub: return mka(x - y);
    case Instruction::Mul: return mka(x * y);
    case Instruction::UDiv: if (y == 0) throw Unsupported{"div0"}; return mka(x.udiv(y));
    case Instruction::SDiv: if (y == 0) throw Unsupported{"div0"}; return mka(x.sdiv(y));
    case Instruction::URem: if (y == 0) throw Unsupported{"div0"}; return mka(x.urem(y));
    case Instruction::SRem: if (y == 0) throw Unsupported{"div0"}; return mka(x.srem(y));
    case Instruction::And: return mka(x & y);
    case Instruction::Or: return mka(x | y);
    case Instruction::Xor: return mka(x ^ y);
    case Instruction::Shl: return mka(y.uge(w) ? APInt(w, 0) : x.shl(y));
    case Instruction::LShr: return mka(y.uge(w) ? APInt(w, 0) : x.lshr(y));
    case Instruction::AShr: return mka(y.uge(w) ? x.ashr(w - 1) : x.ashr(y));
    }
    if (w == 64 || w == 32) {
      APFloat fx(w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), x);
      APFloat fy(w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), y);
      switch (op) {
      case Instruction::FAdd: fx.add(fy, APFloat::rmNearestTiesToEven); return mka(fx.bitcastToAPInt());
      case Instruction::FSub: fx.subtract(fy, APFloat::rmNearestTiesToEven); return mka(fx.bitcastToAPInt());
      case Instruction::FMul: fx.multiply(fy, APFloat::rmNearestTiesToEven); return mka(fx.bitcastToAPInt());
      case Instruction::FDiv: fx.divide(fy, APFloat::rmNearestTiesToEven); return mka(fx.bitcastToAPInt());
      }
    }
    throw Unsupported{"binary operator"};
  }
  // trivial identities
  if (op == Instruction::And && ((a.conc() && a.a == 0) || (b.conc() && b.a == 0)))
    return mk(w, 0);
  z3::expr x = ex(a), y = ex(b);
  switch (op) {
  case Instruction::Add: return mke(x + y, true);
  case Instruction::Sub: return mke(x - y, true);
  case Instruction::Mul: return mke(x * y, true);
  case Instruction::UDiv: return mke(z3::udiv(x, y), true);
  case Instruction::SDiv: return mke(x / y, true);
  case Instruction::URem: return mke(z3::urem(x, y), true);
  case Instruction::SRem: return mke(z3::srem(x, y), true);
  case Instruction::And: return mke(x & y, true);
  case Instruction::Or: return mke(x | y, true);
  case Instruction::Xor: return mke(x ^ y, true);
  case Instruction::Shl: return mke(z3::shl(x, y), true);
  case Instruction::LShr: return mke(z3::lshr(x, y), true);
  case Instruction::AShr: return mke(z3::ashr(x, y), true);
  }
  throw Unsupported{"symbolic floating-point operator"};
}

static V vICmp(CmpInst::Predicate p, const V &a, const V &b) {
  if (!a.el.empty()) {
    V r;
    for (size_t i = 0; i < a.el.size(); i++)
      r.el.push_back(vICmp(p, a.el[i], b.el[i]));
    return r;
  }
  if (a.conc() && b.conc())
    return mk(1, ICmpInst::compare(a.a, b.a, p));
  z3::expr x = ex(a), y = ex(b);
  switch (p) {
  case CmpInst::ICMP_EQ: return fromBool(x == y);
  case CmpInst::ICMP_NE: return fromBool(x != y);
  case CmpInst::ICMP_UGT: return fromBool(z3::ugt(x, y));
  case CmpInst::ICMP_UGE: return fromBool(z3::uge(x, y));
  case CmpInst::ICMP_ULT: return fromBool(z3::ult(x, y));
  case CmpInst::ICMP_ULE: return fromBool(z3::ule(x, y));
  case CmpInst::ICMP_SGT: return fromBool(x > y);
  case CmpInst::ICMP_SGE: return fromBool(x >= y);
  case CmpInst::ICMP_SLT: return fromBool(x < y);
  case CmpInst::ICMP_SLE: return fromBool(x <= y);
  default: throw Unsupported{"icmp"};
  }
}

static V toFlat(const V &a) { // vector -> integer
  if (a.w)
    return a;
  std::optional<V> r;
  for (auto &x : a.el) {
    V f = toFlat(x);
    if (!r)
      r = f;
    else if (r->conc() && f.conc())
      r = mka(f.a.concat(r->a));
    else
      r = mke(z3::concat(ex(f), ex(*r)), true);
  }
  return *r;
}
static V fromFlat(const V &f, Type *t) {
  if (auto *v = dyn_cast<FixedVectorType>(t)) {
    V r;
    unsigned w = bitsOf(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); i++)
      r.el.push_back(f.conc() ? mka(f.a.extractBits(w, i * w)) : mke(f.e->extract(i * w + w - 1, i * w), true));
    return r;
  }
  return f;
}

static V vCast(unsigned op, const V &a, Type *from, Type *to) {
  if (op == Instruction::BitCast)
    return fromFlat(toFlat(a), to);
  if (!a.el.empty()) {
    V r;
    for (auto &x : a.el)
      r.el.push_back(vCast(op, x, cast<VectorType>(from)->getElementType(), cast<VectorType>(to)->getElementType()));
    return r;
  }
  unsigned w = bitsOf(to);
  switch (op) {
  case Instruction::Trunc:
    return a.conc() ? mka(a.a.trunc(w)) : mke(a.e->extract(w - 1, 0), true);
  case Instruction::ZExt:
    return a.conc() ? mka(a.a.zext(w)) : mke(z3::zext(*a.e, w - a.w), true);
  case Instruction::SExt:
    return a.conc() ? mka(a.a.sext(w)) : mke(z3::sext(*a.e, w - a.w), true);
  case Instruction::PtrToInt:
  case Instruction::IntToPtr:
    if (w == a.w)
      return a;
    if (w < a.w)
      return a.conc() ? mka(a.a.trunc(w)) : mke(a.e->extract(w - 1, 0), true);
    return a.conc() ? mka(a.a.zext(w)) : mke(z3::zext(*a.e, w - a.w), true);
  case Instruction::UIToFP:
  case Instruction::SIToFP: {
    if (!a.conc())
      throw Unsupported{"symbolic int to float"};
    APFloat f(w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle());
    f.convertFromAPInt(a.a, op == Instruction::SIToFP, APFloat::rmNearestTiesToEven);
    return mka(f.bitcastToAPInt());
  }
  case Instruction::FPToUI:
  case Instruction::FPToSI: {
    if (!a.conc())
      throw Unsupported{"symbolic float to int"};
    APFloat f(a.w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), a.a);
    APSInt r(w, op == Instruction::FPToUI);
    bool ex_;
    f.convertToInteger(r, APFloat::rmTowardZero, &ex_);
    return mka(r);
  }
  case Instruction::FPExt:
  case Instruction::FPTrunc: {
    if (!a.conc())
      throw Unsupported{"symbolic float cast"};
    APFloat f(a.w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), a.a);
    bool li;
    f.convert(w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), APFloat::rmNearestTiesToEven, &li);
    return mka(f.bitcastToAPInt());
  }
  }
  throw Unsupported{"cast"};
}

static V vSelect(const V &c, const V &a, const V &b) {
  if (!c.el.empty()) {
    V r;
    for (size_t i = 0; i < c.el.size(); i++)
      r.el.push_back(vSelect(c.el[i], a.el[i], b.el[i]));
    return r;
  }
  if (c.conc())
    return c.a == 0 ? b : a;
  if (!a.el.empty()) {
    V r;
    for (size_t i = 0; i < a.el.size(); i++)
      r.el.push_back(vSelect(c, a.el[i], b.el[i]));
    return r;
  }
  return mke(z3::ite(boolOf(c), ex(a), ex(b)), true);
}

// ---------------------------------------------------------------- execution
struct Exec {
  Module &M;
  explicit Exec(Module &m) : M(m) {}
  State *S = nullptr;

  Thread &T() { return S->th[S->cur]; }
  Frame &F() { return T().st.back(); }

  V val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v))
      return evalConst(c);
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v))
      return mk(64, 0);
    return F().regs[info(F().F).idx[v]];
  }
  void set(const Value *v, V x) { F().regs[info(F().F).idx[v]] = std::move(x); }

  // Branch on a condition; returns the side taken in *S and queues the other.
  bool branch(const z3::expr &c0) {
    z3::expr c = c0.simplify();
    if (c.is_true())
      return true;
    if (c.is_false())
      return false;
    if (!S->m) {
      shared_ptr<z3::model> m;
      int r = check(S->pc, Z->bool_val(true), &m);
      if (r == 0)
        throw Abort{};
      S->m = m;
    }
    bool side = S->m ? evalTrue(*S, c) : true;
    z3::expr mine = side ? c : !c, other = side ? !c : c;
    shared_ptr<z3::model> m2;
    int r = check(S->pc, other, &m2);
    if (r == 1) {
      SP o = clone(*S);
      addpc(*o, other);
      o->m = m2;
      work.push_back(std::move(o)); // re-executes this instruction
      addpc(*S, mine);
    }
    return side;
  }

  // Forks over every value of v.
  APInt concretize(const V &v, const char *what) {
    if (v.conc())
      return v.a;
    z3::expr e = v.e->simplify();
    APInt a(v.w, 0);
    if (numeral_of(e, a))
      return a;
    if (!S->m) {
      shared_ptr<z3::model> m;
      if (check(S->pc, Z->bool_val(true), &m) != 1)
        throw Abort{};
      S->m = m;
    }
    if (!numeral_of(S->m->eval(e, true), a))
      throw Unsupported{"no value for a symbolic size"};
    shared_ptr<z3::model> m2;
    z3::expr eq = e == num(a);
    int r = check(S->pc, !eq, &m2);
    if (r == 1) {
      SP o = clone(*S);
      addpc(*o, !eq);
      o->m = m2;
      unsigned &k = o->names["!conc"];
      if (++k > opt.max_enum)
        st.incomplete.insert(string("more values than the enumeration bound for ") + what);
      else
        work.push_back(std::move(o));
    }
    addpc(*S, eq);
    return a;
  }

  string cstr(const V &p) {
    string r;
    u64 a = concretize(p, "string pointer").getZExtValue();
    for (;; a++) {
      V c = memRead(*S, mk(64, a), 1);
      if (!c.conc())
        throw Unsupported{"symbolic name"};
      if (c.a == 0)
        return r;
      r += (char)c.a.getZExtValue();
      if (r.size() > 4096)
        throw Unsupported{"name too long"};
    }
  }

  void next() { ++F().it; }

  void doAssert(const V &c, const string &msg, const char *kind = "assert") {
    st.asserts++;
    st.assertion_msgs[msg]++;
    if (c.conc()) {
      st.asserts_const++;
      if (c.a == 0) {
        shared_ptr<z3::model> m = S->m;
        if (!m) {
          if (check(S->pc, Z->bool_val(true), &m) == 0)
            throw Abort{};
        }
        report(*S, kind, msg, m);
        throw Abort{};
      }
      return;
    }
    z3::expr b = (ex(c) != Z->bv_val(0, c.w)).simplify();
    if (b.is_true())
      return;
    shared_ptr<z3::model> m;
    int r = check(S->pc, !b, &m);
    if (r == 1) {
      report(*S, kind, msg, m);
      // go on where it holds
      if (check(S->pc, b, &m) != 1)
        throw Abort{};
      addpc(*S, b);
      S->m = m;
    } else if (r == 0) {
      addpc(*S, b);
    }
  }

  void endPath(bool exited) {
    if (exited)
      st.paths_exit++;
    else
      st.paths_done++;
    for (auto &c : S->cov)
      st.covers[c]++;
    if (!exited && witness.size() < opt.samples) {
      shared_ptr<z3::model> m = S->m;
      if (!m)
        check(S->pc, Z->bool_val(true), &m);
      if (m)
        witness.push_back(inputsOf(*S, m));
    }
    if (!opt.paths_out.empty() && !exited)
      dumpPath();
    throw Abort{};
  }

  void dumpPath() {
    pathNo++;
    z3::solver s(*Z);
    for (auto &c : S->pc)
      s.add(c);
    // outputs as equalities with named constants
    std::ostringstream o;
    o << "{\"path\":" << pathNo << ",\"outs\":[";
    bool first = true;
    for (size_t i = 0; i < S->outs.size(); i++) {
      if (!first)
        o << ",";
      first = false;
      o << "[" << js(S->outs[i].name) << ",[";
      for (size_t k = 0; k < S->outs[i].bytes.size(); k++) {
        if (k)
          o << ",";
        z3::expr b = S->outs[i].bytes[k].simplify();
        APInt a(1, 0);
        if (numeral_of(b, a)) {
          o << apstr(a);
        } else {
          string nm = "out!" + std::to_string(i) + "!" + std::to_string(k);
          s.add(Z->bv_const(nm.c_str(), b.get_sort().bv_size()) == b);
          o << js(nm);
        }
      }
      o << "]]";
    }
    o << "],\"cov\":[";
    first = true;
    for (auto &c : S->cov) {
      o << (first ? "" : ",") << js(c);
      first = false;
    }
    o << "],\"smt\":" << js(s.to_smt2()) << "}";
    pathsFile << o.str() << "\n";
  }

  void programExit(const string &how) {
    V ok = S->exitOk ? *S->exitOk : mk(32, 0);
    doAssert(ok, "the process terminates here (" + how + ")", "exit");
    endPath(true);
  }

  u64 stackAlloc(u64 size, const string &name, u64 align) {
    return allocObj(*S, size, name, true, false, S->cur, align);
  }

  void pushFrame(Function *Fn, const vector<V> &args, CallBase *site) {
    Frame f;
    f.F = Fn;
    f.bb = &Fn->getEntryBlock();
    f.prev = nullptr;
    f.it = f.bb->begin();
    FnInfo &fi = info(Fn);
    f.regs.resize(fi.n);
    f.site = site;
    for (unsigned i = 0; i < args.size(); i++) {
      if (i < Fn->arg_size())
        f.regs[i] = args[i];
      else
        f.varargs.push_back(args[i]);
    }
    // called through a pointer of another type, with fewer arguments: whatever the registers held
    for (unsigned i = args.size(); i < Fn->arg_size(); i++) {
      Type *t = Fn->getArg(i)->getType();
      if (!t->isIntegerTy() && !t->isPointerTy())
        throw Unsupported{"missing argument"};
      f.regs[i] = mk(bitsOf(t), 0x5EEDF00D);
    }
    // byval arguments are copies
    for (auto &A : Fn->args())
      if (A.hasByValAttr()) {
        u64 sz = DL->getTypeAllocSize(A.getParamByValType());
        u64 p = stackAlloc(sz, "byval", 16);
        copyMem(mk(64, p), f.regs[A.getArgNo()], sz);
        f.regs[A.getArgNo()] = mk(64, p);
        f.allocas.push_back(p);
      }
    if (T().st.size() > 400)
      throw Unsupported{"recursion deeper than the bound"};
    st.funcs[fi.dem]++;
    T().st.push_back(std::move(f));
  }

  void copyMem(const V &d, const V &s, u64 n) {
    if (!n)
      return;
    Resolved rs = resolve(*S, s, n, "read");
    Resolved rd = resolve(*S, d, n, "write");
    OP so = *findObj(*S, rs.base);
    OP *dop = findObj(*S, rd.base);
    if ((*dop)->constant) {
      report(*S, "memory", "write to constant memory", S->m);
      throw Abort{};
    }
    if (rs.off || rd.off || so->arr || (*dop)->arr) {
      vector<V> tmp;
      for (u64 i = 0; i < n;) {
        unsigned k = (n - i >= 8) ? 8 : 1;
        OP *o = findObj(*S, rs.base);
        try {
          tmp.push_back(rs.off ? rdSym(*S, *o, (*rs.off + Z->bv_val(i, 64)).simplify(), k) : rdConc(*o, rs.coff + i, k));
        } catch (Unsupported &) {
          if (k == 1) throw;
          for (unsigned q = 0; q < k; q++) {
            V b = rs.off ? rdSym(*S, *o, (*rs.off + Z->bv_val(i + q, 64)).simplify(), 1) : rdConc(*o, rs.coff + i + q, 1);
            tmp.push_back(b);
          }
        }
        i += k;
      }
      u64 i = 0;
      for (auto &v : tmp) {
        OP *o = findObj(*S, rd.base);
        unsigned k = v.w / 8;
        if (rd.off)
          wrSym(*S, *o, (*rd.off + Z->bv_val(i, 64)).simplify(), k, v);
        else
          wrConc(*o, rd.coff + i, k, v);
        i += k;
      }
      return;
    }
    Obj src = *so; // copy also when overlapping
    Obj *dst = writable(*dop);
    if (!src.kind.empty())
      dst->ensureKind();
    for (u64 i = 0; i < n; i++) {
      u64 a = rs.coff + i, b = rd.coff + i;
      unsigned k = src.kind.empty() ? 0 : src.kind[a];
      if (!dst->kind.empty()) {
        if (dst->kind[b] == 1)
          dst->sym.erase(b);
        dst->kind[b] = k;
      }
      dst->b[b] = src.b[a];
      if (k == 1)
        dst->sym[b] = src.sym[a];
    }
  }

  void setMem(const V &d, const V &c, u64 n) {
    if (!n)
      return;
    if (n > CHUNK && d.conc() && c.conc() && c.a.isZero()) {
      // zeroing part of a large zeroed mapping: only the pieces in use change
      u64 lo = d.a.getZExtValue(), hi = lo + n;
      for (auto &z : S->lazy)
        if (lo >= z.first && hi >= lo && hi <= z.first + z.second) {
          auto it = S->mem.upper_bound(lo);
          if (it != S->mem.begin())
            --it;
          vector<u64> bases;
          for (; it != S->mem.end() && it->first < hi; ++it)
            if (it->first + it->second->size > lo)
              bases.push_back(it->first);
          for (u64 b : bases) {
            OP &o = S->mem[b];
            u64 f = std::max(b, lo), t = std::min(b + o->size, hi);
            for (u64 q = f; q < t; q++)
              wrConc(o, q - b, 1, c);
          }
          return;
        }
    }
    Resolved rd = resolve(*S, d, n, "write");
    OP *o = findObj(*S, rd.base);
    if (!rd.off && !(*o)->arr) {
      for (u64 i = 0; i < n; i++)
        wrConc(*o, rd.coff + i, 1, c);
      return;
    }
    if (!rd.off && (*o)->arr && rd.coff % (*o)->ew == 0 && n % (*o)->ew == 0) {
      unsigned ew = (*o)->ew;
      z3::expr b = ex(c), v = b;
      for (unsigned i = 1; i < ew; i++)
        v = z3::concat(v, b);
      V vv = mke(v, true);
      for (u64 i = 0; i < n; i += ew)
        wrConc(*o, rd.coff + i, ew, vv);
      return;
    }
    for (u64 i = 0; i < n; i++)
      if (rd.off)
        wrSym(*S, *o, (*rd.off + Z->bv_val(i, 64)).simplify(), 1, c);
      else
        wrConc(*o, rd.coff + i, 1, c);
  }

  V loadTy(const V &p, Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) {
      V r;
      auto *L = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++)
        r.el.push_back(loadTy(vBin(Instruction::Add, p, mk(64, L->getElementOffset(i))), s->getElementType(i)));
      return r;
    }
    if (auto *s = dyn_cast<ArrayType>(t)) {
      V r;
      u64 sz = DL->getTypeAllocSize(s->getElementType());
      for (unsigned i = 0; i < s->getNumElements(); i++)
        r.el.push_back(loadTy(vBin(Instruction::Add, p, mk(64, i * sz)), s->getElementType()));
      return r;
    }
    unsigned n = DL->getTypeStoreSize(t);
    V v = memRead(*S, p, n);
    unsigned w = bitsOf(t);
    if (w != n * 8)
      v = v.conc() ? mka(v.a.trunc(w)) : mke(v.e->extract(w - 1, 0), true);
    return fromFlat(v, t);
  }
  void storeTy(const V &p, const V &v0, Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) {
      auto *L = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++)
        storeTy(vBin(Instruction::Add, p, mk(64, L->getElementOffset(i))), v0.el[i], s->getElementType(i));
      return;
    }
    if (auto *s = dyn_cast<ArrayType>(t)) {
      u64 sz = DL->getTypeAllocSize(s->getElementType());
      for (unsigned i = 0; i < s->getNumElements(); i++)
        storeTy(vBin(Instruction::Add, p, mk(64, i * sz)), v0.el[i], s->getElementType());
      return;
    }
    V v = toFlat(v0);
    unsigned n = DL->getTypeStoreSize(t);
    if (v.w != n * 8)
      v = v.conc() ? mka(v.a.zext(n * 8)) : mke(z3::zext(*v.e, n * 8 - v.w), true);
    memWrite(*S, p, n, v);
  }

  // ------------------------------------------------------------ scheduling
  bool runnable(unsigned i) {
    Thread &t = S->th[i];
    if (t.done)
      return false;
    if (t.waiting) {
      auto it = S->locks.find(t.waiting);
      return it == S->locks.end() || it->second == 0;
    }
    if (t.joinall) {
      for (unsigned k = 0; k < S->th.size(); k++)
        if (k != i && !S->th[k].done)
          return false;
    }
    return true;
  }
  unsigned live() {
    unsigned n = 0;
    for (auto &t : S->th)
      if (!t.done && !t.joinall)
        n++;
    return n;
  }
  // the current thread cannot go on: another one runs (all choices explored)
  void switchAway() {
    vector<unsigned> c;
    for (unsigned i = 0; i < S->th.size(); i++)
      if (i != S->cur && runnable(i))
        c.push_back(i);
    if (runnable(S->cur) && c.empty())
      return;
    if (opt.fixed_sched && !c.empty()) {
      if (S->sched.size() >= opt.sched.size())
        throw Abort{};
      S->cur = opt.sched[S->sched.size()];
      S->sched.push_back(S->cur);
      S->at.push_back(0);
      return;
    }
    if (c.empty()) {
      report(*S, "deadlock", "no thread can run", S->m);
      throw Abort{};
    }
    for (size_t k = 1; k < c.size(); k++) {
      SP o = clone(*S);
      o->cur = c[k];
      o->sched.push_back(c[k]);
      o->at.push_back(0);
      work.push_back(std::move(o));
    }
    S->cur = c[0];
    S->sched.push_back(c[0]);
    S->at.push_back(0);
  }
  // before a visible operation of the current thread
  void schedPoint() {
    if (S->th.size() < 2 || live() < 2)
      return;
    if (T().scheduled)
      return;
    T().scheduled = true;
    S->points++;
    if (opt.fixed_sched) {
      if (S->sched.size() < opt.sched.size() && S->sched.size() < opt.schedAt.size() &&
          opt.schedAt[S->sched.size()] == S->points) {
        T().scheduled = false;
        S->at.push_back(S->points);
        S->cur = opt.sched[S->sched.size()];
        S->sched.push_back(S->cur);
        throw Switched{};
      }
      return;
    }
    if (S->preempts < opt.preempt) {
      for (unsigned i = 0; i < S->th.size(); i++)
        if (i != S->cur && runnable(i) && !S->th[i].joinall) {
          SP o = clone(*S);
          o->th[S->cur].scheduled = false;
          o->preempts++;
          o->cur = i;
          o->sched.push_back(i);
          o->at.push_back(S->points);
          st.schedules++;
          work.push_back(std::move(o));
        }
    }
  }
  bool visible(const V &addr) {
    if (S->th.size() < 2)
      return false;
    if (!addr.conc())
      return true;
    OP *o = findObj(*S, addr.a.getZExtValue());
    if (!o)
      return true;
    if ((*o)->constant)
      return false;
    return (*o)->owner != (int)S->cur;
  }

  // ------------------------------------------------------------ calls
  bool builtin(CallBase *C, Function *Fn, const vector<V> &a, V &ret);
  bool intrinsic(CallBase *C, Function *Fn, const vector<V> &a, V &ret);

  void finishCall(CallBase *C) {
    T().scheduled = false;
    if (auto *I = dyn_cast<InvokeInst>(C))
      jump(I->getNormalDest());
    else
      next();
  }

  void doReturn(std::optional<V> rv) {
    Frame fr = std::move(T().st.back());
    T().st.pop_back();
    for (u64 a : fr.allocas)
      S->mem.erase(a);
    if (T().st.empty()) {
      T().done = true;
      if (S->cur == 0)
        endPath(false);
      switchAway();
      return;
    }
    if (fr.site) {
      if (rv && !fr.site->getType()->isVoidTy())
        set(fr.site, *rv);
      finishCall(fr.site);
    }
  }

  void jump(BasicBlock *to) {
    Frame &f = F();
    f.prev = f.bb;
    f.bb = to;
    f.it = to->begin();
    // phis in parallel
    vector<std::pair<const Value *, V>> vals;
    for (auto it = to->begin(); it != to->end(); ++it) {
      auto *p = dyn_cast<PHINode>(&*it);
      if (!p)
        break;
      vals.emplace_back(p, val(p->getIncomingValueForBlock(f.prev)));
      f.it = std::next(it);
    }
    for (auto &x : vals)
      set(x.first, x.second);
  }

  void step();
  void call(CallBase *C);
  void run(SP s);
};

bool Exec::intrinsic(CallBase *C, Function *Fn, const vector<V> &a, V &ret) {
  auto id = Fn->getIntrinsicID();
  auto vec2 = [&](auto f) {
    if (a[0].el.empty())
      return f(a[0], a[1]);
    V r;
    for (size_t i = 0; i < a[0].el.size(); i++)
      r.el.push_back(f(a[0].el[i], a[1].el[i]));
    return r;
  };
  switch (id) {
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value:
  case Intrinsic::dbg_label:
  case Intrinsic::dbg_assign:
  case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::donothing:
  case Intrinsic::prefetch:
  case Intrinsic::invariant_start:
  case Intrinsic::invariant_end:
  case Intrinsic::stackrestore:
  case Intrinsic::vaend:
    ret = mk(64, 0);
    return true;
  case Intrinsic::stacksave:
  case Intrinsic::returnaddress:
  case Intrinsic::frameaddress:
    ret = mk(64, 0x1234);
    return true;
  case Intrinsic::expect:
  case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group:
    ret = a[0];
    return true;
  case Intrinsic::threadlocal_address: {
    ret = a[0];
    if (S->cur) // a thread's own copy
      if (auto *g = dyn_cast<GlobalVariable>(C->getArgOperand(0)->stripPointerCasts())) {
        auto it = tlsCopies.find(g);
        if (it != tlsCopies.end()) {
          if (S->cur > it->second.size())
            throw Unsupported{"thread-local variable in many threads"};
          ret = mk(64, it->second[S->cur - 1]);
        }
      }
    return true;
  }
  case Intrinsic::is_constant:
    ret = mk(1, 0);
    return true;
  case Intrinsic::objectsize:
    ret = mka(APInt::getAllOnes(bitsOf(C->getType())));
    return true;
  case Intrinsic::ptrmask:
    ret = vBin(Instruction::And, a[0], a[1]);
    return true;
  case Intrinsic::memcpy:
  case Intrinsic::memcpy_inline:
  case Intrinsic::memmove:
    copyMem(a[0], a[1], concretize(a[2], "length of a memory copy").getZExtValue());
    ret = mk(64, 0);
    return true;
  case Intrinsic::memset:
    setMem(a[0], a[1], concretize(a[2], "length of a memory fill").getZExtValue());
    ret = mk(64, 0);
    return true;
  case Intrinsic::umin: ret = vec2([](const V &x, const V &y) { return vSelect(vICmp(CmpInst::ICMP_ULT, x, y), x, y); }); return true;
  case Intrinsic::umax: ret = vec2([](const V &x, const V &y) { return vSelect(vICmp(CmpInst::ICMP_UGT, x, y), x, y); }); return true;
  case Intrinsic::smin: ret = vec2([](const V &x, const V &y) { return vSelect(vICmp(CmpInst::ICMP_SLT, x, y), x, y); }); return true;
  case Intrinsic::smax: ret = vec2([](const V &x, const V &y) { return vSelect(vICmp(CmpInst::ICMP_SGT, x, y), x, y); }); return true;
  case Intrinsic::abs: {
    V z = mk(a[0].w, 0);
    ret = vSelect(vICmp(CmpInst::ICMP_SLT, a[0], z), vBin(Instruction::Sub, z, a[0]), a[0]);
    return true;
  }
  case Intrinsic::usub_sat: {
    ret = vSelect(vICmp(CmpInst::ICMP_UGE, a[0], a[1]), vBin(Instruction::Sub, a[0], a[1]), mk(a[0].w, 0));
    return true;
  }
  case Intrinsic::uadd_sat: {
    V s = vBin(Instruction::Add, a[0], a[1]);
    ret = vSelect(vICmp(CmpInst::ICMP_ULT, s, a[0]), mka(APInt::getAllOnes(a[0].w)), s);
    return true;
  }
  case Intrinsic::ctpop: {
    V r = mk(a[0].w, 0);
    for (unsigned i = 0; i < a[0].w; i++)
      r = vBin(Instruction::Add, r, vBin(Instruction::And, vBin(Instruction::LShr, a[0], mk(a[0].w, i)), mk(a[0].w, 1)));
    ret = r;
    return true;
  }
  case Intrinsic::cttz: {
    unsigned w = a[0].w;
    V r = mk(w, w);
    for (int i = w - 1; i >= 0; i--)
      r = vSelect(vICmp(CmpInst::ICMP_NE, vBin(Instruction::And, a[0], mka(APInt::getOneBitSet(w, i))), mk(w, 0)), mk(w, i), r);
    ret = r;
    return true;
  }
  case Intrinsic::ctlz: {
    unsigned w = a[0].w;
    V r = mk(w, w);
    for (unsigned i = 0; i < w; i++)
      r = vSelect(vICmp(CmpInst::ICMP_NE, vBin(Instruction::And, a[0], mka(APInt::getOneBitSet(w, i))), mk(w, 0)), mk(w, w - 1 - i), r);
    ret = r;
    return true;
  }
  case Intrinsic::bswap: {
    unsigned w = a[0].w;
    if (a[0].conc()) {
      ret = mka(a[0].a.byteSwap());
      return true;
    }
    z3::expr r = a[0].e->extract(7, 0);
    for (unsigned i = 8; i < w; i += 8)
      r = z3::concat(r, a[0].e->extract(i + 7, i));
    ret = mke(r, true);
    return true;
  }
  case Intrinsic::fshl:
  case Intrinsic::fshr: {
    unsigned w = a[0].w;
    V sh = vBin(Instruction::URem, a[2], mk(w, w));
    V inv = vBin(Instruction::Sub, mk(w, w), sh);
    if (id == Intrinsic::fshl)
      ret = vSelect(vICmp(CmpInst::ICMP_EQ, sh, mk(w, 0)), a[0],
                    vBin(Instruction::Or, vBin(Instruction::Shl, a[0], sh), vBin(Instruction::LShr, a[1], inv)));
    else
      ret = vSelect(vICmp(CmpInst::ICMP_EQ, sh, mk(w, 0)), a[1],
                    vBin(Instruction::Or, vBin(Instruction::Shl, a[0], inv), vBin(Instruction::LShr, a[1], sh)));
    return true;
  }
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::usub_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::umul_with_overflow:
  case Intrinsic::smul_with_overflow: {
    unsigned w = a[0].w;
    bool sgn = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)   ? Instruction::Add
                  : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub
                                                                                                 : Instruction::Mul;
    unsigned W = op == Instruction::Mul ? 2 * w : w + 2;
    auto ext = [&](const V &v) {
      if (v.conc())
        return mka(sgn ? v.a.sext(W) : v.a.zext(W));
      return mke(sgn ? z3::sext(*v.e, W - w) : z3::zext(*v.e, W - w), true);
    };
    V full = vBin(op, ext(a[0]), ext(a[1]));
    V r = vBin(op, a[0], a[1]);
    V ov = vICmp(CmpInst::ICMP_NE, full, ext(r));
    ret = V{};
    ret.el = {r, ov};
    return true;
  }
  case Intrinsic::trap:
  case Intrinsic::ubsantrap:
  case Intrinsic::debugtrap:
    programExit("trap");
    return true;
  case Intrinsic::vastart: {
    // System V va_list: every named register is used up, arguments are in the overflow area
    auto &va = F().varargs;
    u64 area = stackAlloc(std::max<u64>(8, va.size() * 8), "varargs", 16);
    F().allocas.push_back(area);
    for (size_t i = 0; i < va.size(); i++) {
      V v = va[i];
      if (v.w < 64)
        v = v.conc() ? mka(v.a.zext(64)) : mke(z3::zext(*v.e, 64 - v.w), true);
      memWrite(*S, mk(64, area + i * 8), 8, v);
    }
    memWrite(*S, a[0], 4, mk(32, 48));
    memWrite(*S, vBin(Instruction::Add, a[0], mk(64, 4)), 4, mk(32, 176));
    memWrite(*S, vBin(Instruction::Add, a[0], mk(64, 8)), 8, mk(64, area));
    memWrite(*S, vBin(Instruction::Add, a[0], mk(64, 16)), 8, mk(64, 0));
    ret = mk(64, 0);
    return true;
  }
  case Intrinsic::vacopy:
    copyMem(a[0], a[1], 24);
    ret = mk(64, 0);
    return true;
  case Intrinsic::eh_typeid_for:
    ret = mk(32, 1);
    return true;
  case Intrinsic::vector_reduce_or:
  case Intrinsic::vector_reduce_and:
  case Intrinsic::vector_reduce_add:
  case Intrinsic::vector_reduce_xor: {
    unsigned op = id == Intrinsic::vector_reduce_or    ? Instruction::Or
                  : id == Intrinsic::vector_reduce_and ? Instruction::And
                  : id == Intrinsic::vector_reduce_add ? Instruction::Add
                                                       : Instruction::Xor;
    V r = a[0].el[0];
    for (size_t i = 1; i < a[0].el.size(); i++)
      r = vBin(op, r, a[0].el[i]);
    ret = r;
    return true;
  }
  case Intrinsic::ceil:
  case Intrinsic::floor: {
    if (!a[0].conc())
      throw Unsupported{"symbolic float"};
    APFloat f(a[0].w == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), a[0].a);
    f.roundToIntegral(id == Intrinsic::ceil ? APFloat::rmTowardPositive : APFloat::rmTowardNegative);
    ret = mka(f.bitcastToAPInt());
    return true;
  }
  default:
    throw Unsupported{"intrinsic " + Fn->getName().str()};
  }
}

bool Exec::builtin(CallBase *C, Function *Fn, const vector<V> &a, V &ret) {
  StringRef n = Fn->getName();
  ret = C->getType()->isVoidTy() ? mk(1, 0) : zeroOf(C->getType());
  if (n.starts_with("vf_")) {
    if (n == "vf_sym") {
      string nm = cstr(a[0]);
      unsigned bits = concretize(a[1], "width").getZExtValue();
      z3::expr e = freshInput(*S, nm, bits);
      ret = bits == 64 ? mke(e) : mke(z3::zext(e, 64 - bits));
      return true;
    }
    if (n == "vf_sym_bytes") {
      string nm = cstr(a[2]);
      u64 p = concretize(a[0], "pointer").getZExtValue(), k = concretize(a[1], "length").getZExtValue();
      for (u64 i = 0; i < k; i++)
        memWrite(*S, mk(64, p + i), 1, mke(freshInput(*S, nm, 8)));
      return true;
    }
    if (n == "vf_sym_array") { // (ptr, elem bytes, name): the whole object becomes arbitrary
      string nm = cstr(a[2]);
      u64 p = concretize(a[0], "pointer").getZExtValue();
      unsigned ew = concretize(a[1], "width").getZExtValue();
      OP *o = findObj(*S, p);
      if (!o)
        throw Unsupported{"vf_sym_array"};
      unsigned k = S->names[nm]++;
      Obj *w = writable(*o);
      w->arr = Z->constant((nm + "#" + std::to_string(k)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(ew * 8)));
      w->ew = ew;
      w->kind.clear();
      w->sym.clear();
      return true;
    }
    if (n == "vf_assume") {
      V c = a[0];
      if (c.conc()) {
        if (c.a == 0) {
          st.paths_assumed++;
          throw Abort{};
        }
        return true;
      }
      z3::expr b = (ex(c) != Z->bv_val(0, c.w)).simplify();
      if (S->m && evalTrue(*S, b)) {
        addpc(*S, b);
        return true;
      }
      shared_ptr<z3::model> m;
      int r = check(S->pc, b, &m);
      if (r == 0) {
        st.paths_assumed++;
        throw Abort{};
      }
      addpc(*S, b);
      S->m = m;
      return true;
    }
    if (n == "vf_assert") {
      doAssert(a[0], cstr(a[1]));
      return true;
    }
    if (n == "vf_cover") {
      S->cov.insert(cstr(a[0]));
      return true;
    }
    if (n == "vf_log") {
      S->log.push_back(cstr(a[0]));
      return true;
    }
    if (n == "vf_exit_ok") {
      S->exitOk = a[0];
      return true;
    }
    if (n == "vf_is_symbolic") {
      ret = mk(32, 1);
      return true;
    }
    if (n == "vf_concretize") {
      ret = mka(concretize(a[0], "value"));
      return true;
    }
    if (n == "vf_map") {
      u64 p = concretize(a[0], "address").getZExtValue(), k = concretize(a[1], "length").getZExtValue();
      if (k > (1u << 20)) {
        S->lazy.push_back({p, k});
        return true;
      }
      auto o = std::make_shared<Obj>();
      o->base = p;
      o->size = k;
      o->name = "mapped";
      o->b.assign(k, 0);
      S->mem[p] = o;
      return true;
    }
    if (n == "vf_unmap") {
      u64 p = concretize(a[0], "address").getZExtValue();
      for (size_t i = 0; i < S->lazy.size(); i++)
        if (S->lazy[i].first == p) {
          S->mem.erase(S->mem.lower_bound(p), S->mem.lower_bound(p + S->lazy[i].second));
          S->lazy.erase(S->lazy.begin() + i);
          return true;
        }
      S->mem.erase(p);
      return true;
    }
    if (n == "vf_output") {
      string nm = cstr(a[0]);
      u64 p = concretize(a[1], "pointer").getZExtValue(), k = concretize(a[2], "length").getZExtValue();
      Out o;
      o.name = nm;
      for (u64 i = 0; i < k; i++)
        o.bytes.push_back(ex(memRead(*S, mk(64, p + i), 1)));
      S->outs.push_back(o);
      return true;
    }
    if (n == "vf_output_u64") {
      Out o;
      o.name = cstr(a[0]);
      for (unsigned i = 0; i < 8; i++)
        o.bytes.push_back(ex(a[1]).extract(8 * i + 7, 8 * i));
      S->outs.push_back(o);
      return true;
    }
    if (n == "vf_spawn") {
      u64 f = concretize(a[0], "function").getZExtValue();
      auto it = faddr.find(f);
      if (it == faddr.end())
        throw Unsupported{"vf_spawn target"};
      unsigned cur = S->cur;
      S->th.emplace_back();
      S->cur = S->th.size() - 1;
      vector<V> args;
      if (it->second->arg_size())
        args.push_back(a[1]);
      pushFrame(it->second, args, nullptr);
      S->cur = cur;
      return true;
    }
    if (n == "vf_join_all") {
      T().joinall = true;
      bool all = true;
      for (unsigned k = 0; k < S->th.size(); k++)
        if (k != S->cur && !S->th[k].done)
          all = false;
      if (all) {
        T().joinall = false;
        return true;
      }
      return false; // blocked; re-executed
    }
    if (n == "vf_tid") {
      ret = mk(32, S->cur);
      return true;
    }
    if (n == "vf_exit") {
      programExit("harness");
    }
    if (n == "vf_end") {
      endPath(false);
    }
    return false;
  }
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" ||
      n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "aligned_alloc") {
    unsigned ai = n == "aligned_alloc" ? 1 : 0;
    u64 k = concretize(a[ai], "allocation size").getZExtValue();
    if (k > (1ull << 28))
      throw Unsupported{"allocation larger than the bound"};
    ret = mk(64, allocObj(*S, k, "heap", true, true, -1));
    return true;
  }
  if (n == "calloc") {
    u64 k = concretize(vBin(Instruction::Mul, a[0], a[1]), "allocation size").getZExtValue();
    if (k > (1ull << 28))
      throw Unsupported{"allocation larger than the bound"};
    ret = mk(64, allocObj(*S, k, "heap", false, true, -1));
    return true;
  }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" ||
      n == "_ZdlPvmSt11align_val_t") {
    u64 p = concretize(a[0], "pointer").getZExtValue();
    if (!p)
      return true;
    auto it = S->mem.find(p);
    if (it == S->mem.end() || it->second->freed || !it->second->heap) {
      report(*S, "memory", "release of memory that is not a live heap object", S->m);
      throw Abort{};
    }
    writable(it->second)->freed = true;
    return true;
  }
  if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "pthread_mutex_trylock") {
    u64 p = concretize(a[0], "mutex").getZExtValue();
    int &o = S->locks[p];
    if (n == "pthread_mutex_unlock") {
      if (o != (int)S->cur + 1) {
        report(*S, "lock", "unlock of a mutex this thread does not hold", S->m);
        throw Abort{};
      }
      o = 0;
      ret = mk(32, 0);
      return true;
    }
    schedPoint();
    if (o) {
      if (n == "pthread_mutex_trylock") {
        ret = mk(32, 16);
        return true;
      }
      if (o == (int)S->cur + 1) {
        report(*S, "deadlock", "mutex locked twice by one thread", S->m);
        throw Abort{};
      }
      T().waiting = p;
      return false;
    }
    T().waiting = 0;
    o = S->cur + 1;
    ret = mk(32, 0);
    return true;
  }
  if (n == "exit" || n == "_exit" || n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "quick_exit" ||
      n == "__cxa_throw" || n == "__cxa_pure_virtual" || n.starts_with("_ZSt20__throw_") || n.starts_with("_ZSt19__throw_") ||
      n.starts_with("_ZSt17__throw_") || n.starts_with("_ZSt16__throw_") || n.starts_with("_ZSt24__throw_") || n.starts_with("_ZSt21__throw_") ||
      n.starts_with("_ZSt25__throw_") || n.starts_with("_ZSt28__throw_") || n.starts_with("_ZSt18__throw_") || n.starts_with("_ZSt26__throw_") || n.starts_with("_ZSt22__throw_") || n.starts_with("_ZSt23__throw_") || n == "__cxa_rethrow" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "_ZSt27__throw_bad_optional_accessv") {
    string how = demangle(n.str());
    if (n == "exit" || n == "_exit")
      how = "exit";
    programExit(how);
  }
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit" || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev" ||
      n == "__cxa_finalize" || n == "fflush" || n == "usleep" || n == "sched_yield" || n.starts_with("_ZNSt10filesystem7__cxx114path5_List") ||
      n.starts_with("_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE") ||
      n.starts_with("_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv")) {
    return true;
  }
  if (n == "__cxa_guard_acquire") {
    V g = memRead(*S, a[0], 1);
    ret = mk(32, g.conc() && g.a == 0);
    return true;
  }
  if (n == "__cxa_guard_release") {
    memWrite(*S, a[0], 1, mk(8, 1));
    return true;
  }
  if (n == "__errno_location") {
    static const char *nm = "errno";
    for (auto &kv : S->mem)
      if (kv.second->name == nm) {
        ret = mk(64, kv.first);
        return true;
      }
    ret = mk(64, allocObj(*S, 4, nm, false, true, -1));
    return true;
  }
  return false;
}

void Exec::call(CallBase *C) {
  if (isa<InlineAsm>(C->getCalledOperand())) {
    if (!C->getType()->isVoidTy())
      throw Unsupported{"inline assembly with a result"};
    finishCall(C);
    return;
  }
  Function *Fn = C->getCalledFunction();
  if (!Fn) {
    V p = val(C->getCalledOperand());
    u64 a = concretize(p, "function pointer").getZExtValue();
    auto it = faddr.find(a);
    if (it == faddr.end()) {
      report(*S, "memory", "call through an invalid function pointer", S->m);
      throw Abort{};
    }
    Fn = it->second;
  }
  vector<V> args;
  for (auto &A : C->args())
    args.push_back(val(A));
  if (Fn->isIntrinsic()) {
    V ret;
    intrinsic(C, Fn, args, ret);
    if (!C->getType()->isVoidTy())
      set(C, ret);
    finishCall(C);
    return;
  }
  // a harness replacement?
  if (Function *R = M.getFunction(("vfx_" + Fn->getName()).str()))
    if (!R->isDeclaration() && !F().F->getName().starts_with("vfx_"))
      Fn = R;
  if (!Fn->isDeclaration()) {
    pushFrame(Fn, args, C);
    return;
  }
  V ret;
  if (builtin(C, Fn, args, ret)) {
    if (!C->getType()->isVoidTy())
      set(C, ret);
    finishCall(C);
    return;
  }
  if (T().waiting || T().joinall) {
    // blocked: this instruction is executed again when the thread can go on
    T().scheduled = false;
    switchAway();
    return;
  }
  throw Unsupported{"call of external function " + demangle(Fn->getName().str())};
}

void Exec::step() {
  Frame &f = F();
  Instruction *I = &*f.it;
  S->insts++;
  st.insts++;
  switch (I->getOpcode()) {
  case Instruction::Ret: {
    std::optional<V> rv;
    if (I->getNumOperands())
      rv = val(I->getOperand(0));
    doReturn(rv);
    return;
  }
  case Instruction::Br: {
    auto *B = cast<BranchInst>(I);
    if (B->isUnconditional()) {
      jump(B->getSuccessor(0));
      return;
    }
    V c = val(B->getCondition());
    bool t = c.conc() ? c.a != 0 : branch(boolOf(c));
    jump(B->getSuccessor(t ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *W = cast<SwitchInst>(I);
    V c = val(W->getCondition());
    if (c.conc()) {
      BasicBlock *to = W->getDefaultDest();
      for (auto &cs : W->cases())
        if (cs.getCaseValue()->getValue() == c.a)
          to = cs.getCaseSuccessor();
      jump(to);
      return;
    }
    // group the cases by destination
    vector<BasicBlock *> order;
    std::map<BasicBlock *, vector<APInt>> g;
    for (auto &cs : W->cases()) {
      if (!g.count(cs.getCaseSuccessor()))
        order.push_back(cs.getCaseSuccessor());
      g[cs.getCaseSuccessor()].push_back(cs.getCaseValue()->getValue());
    }
    for (auto *to : order) {
      z3::expr any = Z->bool_val(false);
      for (auto &v : g[to])
        any = any || (*c.e == num(v));
      if (branch(any)) {
        jump(to);
        return;
      }
    }
    jump(W->getDefaultDest());
    return;
  }
  case Instruction::Unreachable:
    report(*S, "unreachable", "execution reaches a point the compiler takes to be impossible", S->m);
    throw Abort{};
  case Instruction::Invoke:
  case Instruction::Call:
    call(cast<CallBase>(I));
    return;
  case Instruction::Resume:
    programExit("exception");
    return;
  case Instruction::Alloca: {
    auto *A = cast<AllocaInst>(I);
    u64 sz = DL->getTypeAllocSize(A->getAllocatedType());
    if (A->isArrayAllocation())
      sz *= concretize(val(A->getArraySize()), "array size").getZExtValue();
    if (sz > (1u << 24))
      throw Unsupported{"stack array larger than the bound"};
    u64 p = stackAlloc(sz, ("alloca " + A->getName()).str(), A->getAlign().value());
    F().allocas.push_back(p);
    set(I, mk(64, p));
    next();
    return;
  }
  case Instruction::Load: {
    auto *L = cast<LoadInst>(I);
    V p = val(L->getPointerOperand());
    if (visible(p))
      schedPoint();
    set(I, loadTy(p, L->getType()));
    T().scheduled = false;
    next();
    return;
  }
  case Instruction::Store: {
    auto *L = cast<StoreInst>(I);
    V p = val(L->getPointerOperand());
    if (visible(p))
      schedPoint();
    storeTy(p, val(L->getValueOperand()), L->getValueOperand()->getType());
    T().scheduled = false;
    next();
    return;
  }
  case Instruction::AtomicRMW: {
    auto *A = cast<AtomicRMWInst>(I);
    V p = val(A->getPointerOperand());
    if (visible(p))
      schedPoint();
    Type *t = A->getType();
    V old = loadTy(p, t), v = val(A->getValOperand()), nv;
    switch (A->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break;
    case AtomicRMWInst::Add: nv = vBin(Instruction::Add, old, v); break;
    case AtomicRMWInst::Sub: nv = vBin(Instruction::Sub, old, v); break;
    case AtomicRMWInst::And: nv = vBin(Instruction::And, old, v); break;
    case AtomicRMWInst::Or: nv = vBin(Instruction::Or, old, v); break;
    case AtomicRMWInst::Xor: nv = vBin(Instruction::Xor, old, v); break;
    case AtomicRMWInst::UMax: nv = vSelect(vICmp(CmpInst::ICMP_UGT, old, v), old, v); break;
    case AtomicRMWInst::UMin: nv = vSelect(vICmp(CmpInst::ICMP_ULT, old, v), old, v); break;
    case AtomicRMWInst::Max: nv = vSelect(vICmp(CmpInst::ICMP_SGT, old, v), old, v); break;
    case AtomicRMWInst::Min: nv = vSelect(vICmp(CmpInst::ICMP_SLT, old, v), old, v); break;
    default: throw Unsupported{"atomicrmw"};
    }
    storeTy(p, nv, t);
    set(I, old);
    T().scheduled = false;
    next();
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *A = cast<AtomicCmpXchgInst>(I);
    V p = val(A->getPointerOperand());
    if (visible(p))
      schedPoint();
    Type *t = A->getCompareOperand()->getType();
    V old = loadTy(p, t), cmp = val(A->getCompareOperand()), nv = val(A->getNewValOperand());
    V eq = vICmp(CmpInst::ICMP_EQ, old, cmp);
    storeTy(p, vSelect(eq, nv, old), t);
    V r;
    r.el = {old, eq};
    set(I, r);
    T().scheduled = false;
    next();
    return;
  }
  case Instruction::Fence:
    next();
    return;
  case Instruction::GetElementPtr: {
    auto *G = cast<GEPOperator>(I);
    set(I, gepOffset(G, val(G->getPointerOperand()), [&](const Value *v) { return val(v); }));
    next();
    return;
  }
  case Instruction::ICmp: {
    auto *X = cast<ICmpInst>(I);
    set(I, vICmp(X->getPredicate(), val(X->getOperand(0)), val(X->getOperand(1))));
    next();
    return;
  }
  case Instruction::FCmp: {
    auto *X = cast<FCmpInst>(I);
    V a = val(X->getOperand(0)), b = val(X->getOperand(1));
    if (!a.conc() || !b.conc())
      throw Unsupported{"symbolic floating-point comparison"};
    auto &sem = X->getOperand(0)->getType()->getFltSemantics();
    set(I, mk(1, FCmpInst::compare(APFloat(sem, a.a), APFloat(sem, b.a), X->getPredicate())));
    next();
    return;
  }
  case Instruction::FNeg: {
    V a = val(I->getOperand(0));
    set(I, vBin(Instruction::Xor, a, mka(APInt::getSignMask(a.w))));
    next();
    return;
  }
  case Instruction::Select:
    set(I, vSelect(val(I->getOperand(0)), val(I->getOperand(1)), val(I->getOperand(2))));
    next();
    return;
  case Instruction::Freeze:
    set(I, val(I->getOperand(0)));
    next();
    return;
  case Instruction::ExtractValue: {
    auto *X = cast<ExtractValueInst>(I);
    V v = val(X->getAggregateOperand());
    for (unsigned i : X->indices()) {
      V t = v.el[i];
      v = t;
    }
    set(I, v);
    next();
    return;
  }
  case Instruction::InsertValue: {
    auto *X = cast<InsertValueInst>(I);
    V v = val(X->getAggregateOperand());
    V *p = &v;
    for (unsigned i : X->indices())
      p = &p->el[i];
    *p = val(X->getInsertedValueOperand());
    set(I, v);
    next();
    return;
  }
  case Instruction::ExtractElement: {
    V v = val(I->getOperand(0));
    u64 k = concretize(val(I->getOperand(1)), "vector index").getZExtValue();
    set(I, v.el[k]);
    next();
    return;
  }
  case Instruction::InsertElement: {
    V v = val(I->getOperand(0));
    u64 k = concretize(val(I->getOperand(2)), "vector index").getZExtValue();
    v.el[k] = val(I->getOperand(1));
    set(I, v);
    next();
    return;
  }
  case Instruction::ShuffleVector: {
    auto *X = cast<ShuffleVectorInst>(I);
    V a = val(I->getOperand(0)), b = val(I->getOperand(1)), r;
    for (int m : X->getShuffleMask())
      r.el.push_back(m < 0 ? zeroOf(cast<VectorType>(X->getType())->getElementType())
                     : (size_t)m < a.el.size() ? a.el[m] : b.el[m - a.el.size()]);
    set(I, r);
    next();
    return;
  }
  case Instruction::LandingPad: {
    programExit("exception");
    return;
  }
  case Instruction::VAArg:
    throw Unsupported{"va_arg"};
  default:
    if (I->isCast()) {
      set(I, vCast(I->getOpcode(), val(I->getOperand(0)), I->getOperand(0)->getType(), I->getType()));
      next();
      return;
    }
    if (I->isBinaryOp()) {
      V a = val(I->getOperand(0)), b = val(I->getOperand(1));
      unsigned op = I->getOpcode();
      if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if (b.w) {
          V nz = vICmp(CmpInst::ICMP_NE, b, mk(b.w, 0));
          doAssert(nz, "division by zero", "memory");
        }
      }
      set(I, vBin(op, a, b));
      next();
      return;
    }
    throw Unsupported{string("instruction ") + I->getOpcodeName()};
  }
}

static double t0;

void Exec::run(SP s) {
  work.push_back(std::move(s));
  while (!work.empty()) {
    if (violations.size() >= opt.max_viol)
      return;
    SP cur = std::move(work.back());
    work.pop_back();
    S = cur.get();
    try {
      for (;;) {
        if (S->insts > opt.max_inst) {
          st.incomplete.insert("path longer than the instruction bound");
          break;
        }
        if ((st.insts & 0xff) == 0 && now() - t0 > opt.max_time) {
          st.incomplete.insert("time limit of the exploration reached");
          return;
        }
        try {
          step();
        } catch (Switched &) {
        }
        if (violations.size() >= opt.max_viol)
          return;
      }
    } catch (Abort &) {
    } catch (Unsupported &u) {
      st.incomplete.insert("unsupported: " + u.what + " in " + where(*S));
      if (opt.verbose)
        std::cerr << "UNSUPPORTED " << u.what << " in " << where(*S) << "\n";
    } catch (z3::exception &e) {
      st.incomplete.insert(string("z3: ") + e.msg() + " in " + where(*S));
    }
  }
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&] { return string(argv[++i]); };
    if (a == "--entry") opt.entry = nx();
    else if (a == "--out") opt.out = nx();
    else if (a == "--paths") opt.paths_out = nx();
    else if (a == "--preempt") opt.preempt = stoul(nx());
    else if (a == "--max-inst") opt.max_inst = stoull(nx());
    else if (a == "--time") opt.max_time = stod(nx());
    else if (a == "--solver-ms") opt.solver_ms = stoul(nx());
    else if (a == "--max-enum") opt.max_enum = stoul(nx());
    else if (a == "--max-viol") opt.max_viol = stoul(nx());
    else if (a == "-v") opt.verbose = true;
    else if (a == "--samples") opt.samples = stoul(nx());
    else if (a == "--native") opt.native_out = nx();
    else if (a == "--inputs") {
      opt.inputs_file = nx();
      std::ifstream f(opt.inputs_file);
      string k, v;
      while (getline(f, k)) { // the name may contain spaces
        auto q = k.rfind(' ');
        if (q != string::npos)
          fixedInputs[k.substr(0, q)] = k.substr(q + 1);
      }
    } else if (a == "--sched") { // "thread@point,..."
      opt.fixed_sched = true;
      std::stringstream f(nx());
      string t;
      while (getline(f, t, ',')) {
        auto q = t.find('@');
        opt.sched.push_back(stoul(t.substr(0, q)));
        opt.schedAt.push_back(stoull(t.substr(q + 1)));
      }
    }
    else opt.input = a;
  }
  t0 = now();
  z3::context z;
  Z = &z;
  Solver solver;
  sv = &solver;
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(opt.input, err, ctx);
  if (!M) {
    err.print("symir", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  if (!opt.native_out.empty()) {
    // the module with the harness's stand-ins for library calls in place, for native replay
    vector<std::pair<Function *, Function *>> rep;
    for (auto &F : *M)
      if (F.getName().starts_with("vfx_") && !F.isDeclaration())
        if (Function *O = M->getFunction(F.getName().drop_front(4)))
          rep.emplace_back(O, &F);
    for (auto &r : rep)
      r.first->replaceUsesWithIf(r.second, [](Use &u) {
        auto *I = dyn_cast<Instruction>(u.getUser());
        return !I || !I->getFunction()->getName().starts_with("vfx_");
      });
    // what the optimiser knows about the C library's functions is not true of the stand-ins
    for (auto &F : *M) {
      F.removeRetAttr(Attribute::NoAlias);
      F.removeFnAttr(Attribute::Memory);
      for (auto &BB : F)
        for (auto &I : BB)
          if (auto *C = dyn_cast<CallBase>(&I)) {
            C->removeRetAttr(Attribute::NoAlias);
            C->removeFnAttr(Attribute::Memory);
          }
    }
    for (auto &F : *M)
      if (!F.isDeclaration())
        F.addFnAttr(Attribute::SanitizeAddress);
    for (auto &F : *M)
      if (F.isDeclaration() && !F.isIntrinsic() && !F.hasExternalWeakLinkage() &&
          (F.getName().contains("sanitizer") || F.getName().contains("dfsan")))
        new UnreachableInst(ctx, BasicBlock::Create(ctx, "", &F));
    for (auto &G : M->globals()) {
      if (G.getSection() == ".preinit_array") // no start-up code before the harness
        G.setSection("vf_unused");
      if (G.isDeclaration() && !G.hasExternalWeakLinkage() && G.getName().contains("sanitizer"))
        G.setInitializer(Constant::getNullValue(G.getValueType()));
      if (G.isDeclaration() && !G.isThreadLocal()) // defined by a source that is not linked
        G.setLinkage(GlobalValue::ExternalWeakLinkage);
    }
    std::error_code ec;
    raw_fd_ostream os(opt.native_out, ec);
    WriteBitcodeToFile(*M, os);
    os.flush();
    _Exit(0);
  }
  if (!opt.paths_out.empty())
    pathsFile.open(opt.paths_out);

  auto S = std::make_unique<State>();
  S->nextStack = 0x30000000;
  S->nextHeap = 0x50000000;
  u64 fa = 0x1000000;
  for (auto &F : *M) {
    if (F.isDeclaration() && F.hasExternalWeakLinkage()) {
      gaddr[&F] = 0;
      continue;
    }
    gaddr[&F] = fa;
    faddr[fa] = &F;
    fa += 16;
  }
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 16;
    if (G.isDeclaration() && G.hasExternalWeakLinkage()) {
      gaddr[&G] = 0;
      continue;
    }
    u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
    nextGlobal = (nextGlobal + al - 1) / al * al;
    gaddr[&G] = nextGlobal;
    nextGlobal += sz + 64;
    if (G.isThreadLocal())
      for (unsigned k = 0; k < 8; k++) {
        nextGlobal = (nextGlobal + al - 1) / al * al;
        tlsCopies[&G].push_back(nextGlobal);
        nextGlobal += sz + 64;
      }
  }
  try {
    for (auto &G : M->globals()) {
      u64 a = gaddr[&G];
      if (!a)
        continue;
      auto o = std::make_shared<Obj>();
      o->base = a;
      o->size = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 16;
      o->name = G.getName().str();
      o->b.assign(o->size, 0);
      if (G.isDeclaration() || !G.hasInitializer()) {
        // contents of an external object: arbitrary (zero for library data such as vtables)
      } else {
        storeConst(*o, 0, G.getValueType(), evalConst(G.getInitializer()));
      }
      if (G.isConstant() && !G.isDeclaration()) {
        o->constant = true;
        constMem[a] = o;
      } else
        S->mem[a] = o;
      if (auto it = tlsCopies.find(&G); it != tlsCopies.end())
        for (u64 at : it->second) {
          auto c = std::make_shared<Obj>(*o);
          c->base = at;
          S->mem[at] = c;
        }
    }
  } catch (Unsupported &u) {
    std::cerr << "symir: unsupported global: " << u.what << "\n";
    return 2;
  }
  Function *E = M->getFunction(opt.entry);
  if (!E || E->isDeclaration()) {
    std::cerr << "symir: no entry " << opt.entry << "\n";
    return 2;
  }
  Exec X(*M);
  S->th.emplace_back();
  X.S = S.get();
  // frames: entry below, static constructors above (run first, in order)
  X.pushFrame(E, {}, nullptr);
  vector<std::pair<unsigned, Function *>> ctors;
  if (auto *g = M->getGlobalVariable("llvm.global_ctors"))
    if (auto *init = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto &op : init->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        if (auto *f = dyn_cast<Function>(cs->getOperand(1)))
          ctors.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f);
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto it = ctors.rbegin(); it != ctors.rend(); ++it)
    X.pushFrame(it->second, {}, nullptr);
  X.run(std::move(S));

  std::ostringstream o;
  o << "{\"entry\":" << js(opt.entry) << ",\"paths\":" << st.paths_done << ",\"paths_terminating_process\":" << st.paths_exit
    << ",\"paths_cut_by_assumption\":" << st.paths_assumed << ",\"forks\":" << st.forks << ",\"schedule_choices\":" << st.schedules
    << ",\"instructions\":" << st.insts << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat
    << ",\"unknown\":" << st.unknown << ",\"solver_s\":" << st.solver_s << ",\"wall_s\":" << now() - t0
    << ",\"assertions\":" << st.asserts << ",\"memory_checks\":" << st.memchecks << ",\"covers\":{";
  bool first = true;
  for (auto &c : st.covers) {
    o << (first ? "" : ",") << js(c.first) << ":" << c.second;
    first = false;
  }
  o << "},\"functions\":{";
  first = true;
  for (auto &c : st.funcs) {
    o << (first ? "" : ",") << js(c.first) << ":" << c.second;
    first = false;
  }
  o << "},\"asserted\":{";
  first = true;
  for (auto &c : st.assertion_msgs) {
    o << (first ? "" : ",") << js(c.first) << ":" << c.second;
    first = false;
  }
  o << "},\"incomplete\":[";
  first = true;
  for (auto &c : st.incomplete) {
    o << (first ? "" : ",") << js(c);
    first = false;
  }
  o << "],\"witnesses\":[";
  first = true;
  for (auto &w : witness) {
    o << (first ? "[" : ",[") << w << "]";
    first = false;
  }
  o << "],\"violations\":[";
  first = true;
  for (auto &v : violations) {
    o << (first ? "" : ",") << v;
    first = false;
  }
  o << "]}\n";
  if (opt.out.empty())
    std::cout << o.str();
  else
    std::ofstream(opt.out) << o.str();
  for (auto &f : forkSites)
    std::cerr << "fork " << f.second << " " << f.first << "\n";
  fflush(nullptr);
  _Exit(violations.empty() ? 0 : 1);
}
