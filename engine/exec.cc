// Symbolic executor: explores every path of one harness within its stated bounds.
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <numeric>
#include <set>
#include <sstream>
#include <sys/resource.h>

#include "llvm/IR/Constants.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "lower.h"
#include "solver.h"

using namespace sx;

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

constexpr uint64_t SHARED_BASE = 0x800000;

struct Frame {
  Func* f = nullptr;
  uint32_t pc = 0;
  const CallInfo* ci = nullptr;
  std::vector<Val> r;
  std::vector<uint32_t> allocas;
};
struct Proc {
  std::vector<std::shared_ptr<Frame>> stack;
  Memory mem;
};
struct Input { const std::string* name; E var; };
struct Note { const std::string* name; Val v; unsigned w; };
struct State {
  std::vector<std::shared_ptr<Proc>> procs;
  int cur = 0;
  std::shared_ptr<Memory> shared;
  std::vector<E> cons;
  Model model;
  uint64_t mver = 0;
  std::vector<Input> inputs;
  std::vector<Note> notes;
  uint32_t ghosts = 0;
  uint64_t steps = 0;
  uint32_t depth = 0;
  int abortOk = 0;
  std::vector<int> pending;  // functions still to run in process 0
};

struct Violation {
  std::string kind, msg, where;
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<std::string> trace;
};

enum Ctl { NEXT, KILL, AGAIN };

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Exec {
  Program& P;
  std::vector<std::unique_ptr<State>> work;
  std::unique_ptr<State> S;
  Proc* pr = nullptr;
  Frame* fr = nullptr;

  // options
  double maxTime = 600, start = now();
  bool askedLong = false;  // a query took its time: look at the clock
  uint64_t maxSteps = 100000000;
  unsigned iteMax = 64;
  unsigned nWitness = 8;
  uint64_t maxPaths = ~0ull;
  unsigned maxViol = 4;
  uint64_t seed = 1;
  std::vector<int64_t> args;
  std::string entry;

  // results
  uint64_t paths = 0, aborted = 0, assumed = 0, totalSteps = 0, forks = 0, symBranches = 0, asserts = 0, symAsserts = 0, maxDepth = 0, memChecks = 0;
  std::set<std::string> covers, goals, errors;
  std::map<std::string, uint64_t> coverCount;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  struct Witness { std::vector<std::pair<std::string, uint64_t>> in, notes; bool aborted = false; };
  std::vector<Witness> wit;
  uint64_t witSeen = 0, rng = 88172645463325252ull;
  bool incomplete = false, stop = false;
  uint64_t mverCtr = 0, evVer = 0;
  std::map<std::string, std::string*> interned;
  std::map<std::string, E> varKeys;
  std::unordered_map<std::string, int> builtinIdx;
  using B = std::function<Ctl(const CallInfo&, std::vector<Val>&, Val&)>;
  std::vector<B> builtins;

  explicit Exec(Program& p) : P(p) { registerBuiltins(); }

  const std::string* intern(const std::string& s) {
    auto it = interned.find(s);
    if (it != interned.end()) return it->second;
    return interned[s] = new std::string(s);
  }

  // ---- state handling
  Memory& memFor(uint64_t& id) {
    if (id >= SHARED_BASE && id < FUNC_ID) {
      id -= SHARED_BASE;
      if (S->shared.use_count() > 1) S->shared = std::make_shared<Memory>(*S->shared);
      return *S->shared;
    }
    return pr->mem;
  }
  const Obj* objOf(uint64_t id) {
    if (id >= FUNC_ID) return nullptr;
    if (id >= SHARED_BASE) return S->shared->get(id - SHARED_BASE);
    return pr->mem.get(id);
  }
  void reload() {
    auto& sp = S->procs[S->cur];
    if (sp.use_count() > 1) sp = std::make_shared<Proc>(*sp);
    pr = sp.get();
    reloadFrame();
  }
  void reloadFrame() {
    if (pr->stack.empty()) { fr = nullptr; return; }
    auto& fp = pr->stack.back();
    if (fp.use_count() > 1) fp = std::make_shared<Frame>(*fp);
    fr = fp.get();
  }
  State* fork() {
    forks++;
    auto n = std::make_unique<State>(*S);
    n->depth++;
    n->mver = ++mverCtr;
    State* r = n.get();
    work.push_back(std::move(n));
    reload();
    return r;
  }
  uint64_t ev(E e) {
    if (evVer != S->mver) { bumpEvalEpoch(); evVer = S->mver; }
    return evalExpr(e, S->model);
  }
  void setModel(Model&& m) { S->model = std::move(m); S->mver = ++mverCtr; }

  bool known(E c, bool& v) {
    if (isConst(c)) { v = c->val; return true; }
    E n = mkNot(c);
    for (auto it = S->cons.rbegin(); it != S->cons.rend(); ++it) {
      if (*it == c) { v = true; return true; }
      if (*it == n) { v = false; return true; }
    }
    return false;
  }
  void addCons(E c) {
    if (isTrue(c)) return;
    if (c->op == Op::And && c->width == 1) { addCons(c->k[0]); addCons(c->k[1]); return; }
    for (E x : S->cons) if (x == c) return;
    S->cons.push_back(c);
  }
  // Is (path && c) satisfiable? On Sat, m receives a model of it.
  Res check(E c, Model& m) {
    if (isFalse(c)) return Res::Unsat;
    if (ev(c) & 1) { m = S->model; return Res::Sat; }
    m = S->model;
    double t0 = now();
    Res r = solve(S->cons, c, &m);
    if (now() - t0 > 0.05) askedLong = true;
    if (r == Res::Unknown) {
      if (now() - start > maxTime) incomplete = true;
      else errors.insert("solver gave no answer at " + where());
      askedLong = true;
      if (getenv("SX_DEBUG")) { fprintf(stderr, "UNKNOWN: %s\n", toStr(c, 12).c_str()); for (E x : S->cons) fprintf(stderr, "   with %s\n", toStr(x, 8).c_str()); }
    }
    return r;
  }
  // ---- remainders by a constant: e mod c for linear e, nested remainders removed.
  // Every step is justified by intervals or by a solver query under the path condition.
  typedef __int128 i128;
  struct Lin { std::map<E, i128> t; i128 c = 0; };
  std::map<E, E> remVar;
  E abstractRem(E e, std::map<E, E>& memo) {
    if (isConst(e) || e->op == Op::Var) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E r = e;
    if (e->op == Op::URem && e->width <= 64) {
      E& v = remVar[e];
      if (!v) v = mkVar("rem" + std::to_string(remVar.size()), e->width, e->lo, e->hi);
      r = v;
    } else {
      E k[3] = {nullptr, nullptr, nullptr};
      bool ch = false;
      for (int i = 0; i < e->nk; i++) { k[i] = abstractRem(e->k[i], memo); ch |= k[i] != e->k[i]; }
      if (ch) {
        if (e->op == Op::Ite) r = mkIte(k[0], k[1], k[2]);
        else if (e->op == Op::ZExt) r = mkZExt(k[0], e->width);
        else if (e->op == Op::SExt) r = mkSExt(k[0], e->width);
        else if (e->op == Op::Extract) r = mkExtract(k[0], e->val, e->width);
        else if (e->op == Op::Concat) r = mkConcat(k[0], k[1]);
        else if (e->op >= Op::Add && e->op <= Op::Sle) r = mkBin(e->op, k[0], k[1]);
      }
    }
    memo[e] = r;
    return r;
  }
  std::vector<E> supposed;  // extra conditions under which proved() is asked
  bool proved(E c) {  // valid under the path condition?
    if (isTrue(c)) return true;
    if (supposed.empty() && !(ev(c) & 1)) return false;
    double save = gHardTimeout;
    gHardTimeout = 3;
    // first with remainders replaced by arbitrary values of their range
    std::map<E, E> memo;
    E ab = abstractRem(c, memo);
    if (ab != c || !supposed.empty()) {
      Model m0;
      std::vector<E> as;
      for (E x : supposed) as.push_back(abstractRem(x, memo));
      if (isTrue(ab) || solve(as, mkNot(ab), &m0) == Res::Unsat) { gHardTimeout = save; return true; }
    }
    Model m = S->model;
    std::vector<E> cons = S->cons;
    for (E x : supposed) cons.push_back(x);
    Res r = solve(cons, mkNot(c), &m);
    gHardTimeout = save;
    return r == Res::Unsat;
  }
  static bool linBounds(const Lin& l, i128& lo, i128& hi) {
    lo = hi = l.c;
    const i128 L = (i128)1 << 120;
    for (auto& [a, k] : l.t) {
      i128 x = k * (i128)a->lo, y = k * (i128)a->hi;
      lo += k >= 0 ? x : y;
      hi += k >= 0 ? y : x;
      if (lo < -L || hi > L) return false;
    }
    return true;
  }
  static void linAdd(Lin& d, const Lin& s, i128 k) {
    for (auto& [a, q] : s.t) { d.t[a] += q * k; if (!d.t[a]) d.t.erase(a); }
    d.c += s.c * k;
  }
  static Lin linAtom(E e) { Lin l; if (isConst(e)) l.c = e->val; else l.t[e] = 1; return l; }
  // flatten additions at one width: e == sum k_i * x_i + c (mod 2^w)
  void linFlat(E e, i128 k, std::vector<std::pair<i128, E>>& out, i128& c, int depth) {
    i128 big = (i128)1 << 62;
    if (isConst(e)) { c += k * (i128)sext64(e->val, e->width); return; }
    if (depth > 40 || k > big || k < -big) { out.push_back({k, e}); return; }
    if (e->op == Op::Add) { linFlat(e->k[0], k, out, c, depth + 1); linFlat(e->k[1], k, out, c, depth + 1); return; }
    if (e->op == Op::Sub) { linFlat(e->k[0], k, out, c, depth + 1); linFlat(e->k[1], -k, out, c, depth + 1); return; }
    if (e->op == Op::Mul && isConst(e->k[1])) {
      i128 q = k * (i128)sext64(e->k[1]->val, e->width);
      if (q <= big && q >= -big) { linFlat(e->k[0], q, out, c, depth + 1); return; }
    }
    // constant high part: a (possibly negative) constant plus the low part
    if (e->op == Op::Concat && isConst(e->k[0]) && e->width <= 64 && e->k[1]->width < 64) {
      c += k * (i128)sext64(e->k[0]->val << e->k[1]->width, e->width);
      out.push_back({k, mkZExt(e->k[1], e->width)});
      return;
    }
    out.push_back({k, e});
  }
  // exact integer form of an unsigned value
  Lin linOf(E e, int depth) {
    if (depth > 12 || e->width > 64) return linAtom(e);
    if (e->op == Op::ZExt) return linOf(e->k[0], depth + 1);
    if (e->op == Op::Extract && e->val == 0 && e->k[0]->width <= 64) {
      E x = e->k[0];
      if (x->hi <= maskOf(e->width) || proved(mkBin(Op::Ule, x, mkConst(maskOf(e->width), x->width)))) return linOf(x, depth + 1);
      return linAtom(e);
    }
    if (e->op == Op::Concat) {
      Lin l;
      linAdd(l, linOf(e->k[0], depth + 1), (i128)1 << e->k[1]->width);
      linAdd(l, linOf(e->k[1], depth + 1), 1);
      i128 lo, hi;
      return linBounds(l, lo, hi) ? l : linAtom(e);
    }
    if ((e->op == Op::Mul && isConst(e->k[1])) || (e->op == Op::Shl && isConst(e->k[1]) && e->k[1]->val < e->width)) {
      uint64_t k = e->op == Op::Mul ? e->k[1]->val : 1ull << e->k[1]->val, mx = maskOf(e->width) / k;
      E x = e->k[0];
      if (x->hi > mx && !proved(mkBin(Op::Ule, x, mkConst(mx, x->width)))) return linAtom(e);
      Lin l;
      linAdd(l, linOf(x, depth + 1), (i128)k);
      i128 lo, hi;
      return linBounds(l, lo, hi) ? l : linAtom(e);
    }
    if (e->op == Op::Add || e->op == Op::Sub) {
      std::vector<std::pair<i128, E>> parts;
      i128 c = 0;
      linFlat(e, 1, parts, c, 0);
      Lin l;
      l.c = c;
      for (auto& [k, x] : parts) linAdd(l, linOf(x, depth + 1), k);
      i128 lo, hi;
      if (!linBounds(l, lo, hi)) return linAtom(e);
      i128 top = (i128)maskOf(e->width);
      if (lo >= 0 && hi <= top) return l;
      // 0 <= sum <= 2^w-1, as a query over 128 bits
      E s = mkBig(APInt(128, 0));
      auto big = [&](i128 v) { uint64_t p[2] = {(uint64_t)v, (uint64_t)((unsigned __int128)v >> 64)}; return mkBig(APInt(128, llvm::ArrayRef<uint64_t>(p, 2))); };
      auto ab = [](i128 v) { return v < 0 ? -v : v; };
      i128 g = ab(l.c);
      for (auto& [a, k] : l.t) { i128 x = ab(k); while (x) { i128 t = g % x; g = x; x = t; } }
      if (!g) return linAtom(e);
      s = big(l.c / g);
      for (auto& [a, k] : l.t) s = mkBin(Op::Add, s, mkBin(Op::Mul, mkZExt(a, 128), big(k / g)));
      if (proved(mkBin(Op::Ule, s, big(top / g)))) return l;
      return linAtom(e);
    }
    return linAtom(e);
  }
  // both arms of an ite agree modulo c
  bool sameArms(E a, uint64_t c, int depth, Lin& out) {
    if (supposed.size() > 2) return false;
    Lin l[2];
    for (int i = 0; i < 2; i++) {
      supposed.push_back(i ? mkNot(a->k[0]) : a->k[0]);
      l[i] = linOf(a->k[1 + i], 0);
      linMod(l[i], c, depth);
      supposed.pop_back();
    }
    if (l[0].t != l[1].t || l[0].c != l[1].c) return false;
    out = l[0];
    return true;
  }
  // e == l (mod c), coefficients in [0, c)
  void linMod(Lin& l, uint64_t c, int depth) {
    bool again = true;
    while (again && depth++ < 30) {
      again = false;
      Lin o;
      o.c = l.c;
      for (auto& [a, k] : l.t) {
        if (a->op == Op::URem && isConst(a->k[1]) && a->k[1]->val == c) { linAdd(o, linOf(a->k[0], 0), k); again = true; }
        else if (a->op == Op::Ite && isConst(a->k[1]) && isConst(a->k[2]) && a->k[1]->val % c == a->k[2]->val % c) o.c += k * (i128)(a->k[1]->val % c);
        else if (Lin both; a->op == Op::Ite && a->width > 1 && sameArms(a, c, depth, both)) linAdd(o, both, k);
        else { Lin t = linAtom(a); linAdd(o, t, k); }
      }
      for (auto it = o.t.begin(); it != o.t.end();) {
        it->second = ((it->second % (i128)c) + c) % c;
        if (!it->second) it = o.t.erase(it); else ++it;
      }
      o.c = ((o.c % (i128)c) + c) % c;
      l = o;
    }
  }
  E modNorm(E x, E y) {
    uint64_t c = y->val;
    unsigned w = x->width;
    Lin l = linOf(x, 0);
    linMod(l, c, 0);
    i128 lo, hi;
    if (!linBounds(l, lo, hi) || hi > (i128)maskOf(w)) return mkBin(Op::URem, x, y);
    std::vector<std::pair<E, i128>> ts(l.t.begin(), l.t.end());
    std::sort(ts.begin(), ts.end(), [](auto& p, auto& q) { return p.first->id < q.first->id; });
    E s = mkConst(0, w);
    for (auto& [a, k] : ts) s = mkBin(Op::Add, s, mkBin(Op::Mul, a->width < w ? mkZExt(a, w) : a->width > w ? mkExtract(a, 0, w) : a, mkConst((uint64_t)k, w)));
    s = mkBin(Op::Add, s, mkConst((uint64_t)l.c, w));
    return mkBin(Op::URem, s, y);
  }
  // Decide a condition: the current state continues with the returned value; if the other
  // value is possible too, *other is a forked state constrained to it.
  bool decide(E c, State** other) {
    *other = nullptr;
    bool kv;
    if (known(c, kv)) return kv;
    symBranches++;
    bool v = ev(c) & 1;
    E mine = v ? c : mkNot(c), theirs = v ? mkNot(c) : c;
    Model m;
    Res r = check(theirs, m);
    if (r == Res::Sat) {
      State* o = fork();
      o->model = std::move(m);
      o->mver = ++mverCtr;
      addTo(*o, theirs);
      addCons(mine);
      *other = o;
    } else if (r == Res::Unknown) {
      addCons(mine);
    }
    return v;
  }
  void addTo(State& st, E c) {
    if (isTrue(c)) return;
    if (c->op == Op::And && c->width == 1) { addTo(st, c->k[0]); addTo(st, c->k[1]); return; }
    st.cons.push_back(c);
  }
  // Enumerate the values of a symbolic operand: forked states re-execute the instruction.
  uint64_t concretize(E e) {
    if (isConst(e)) return e->val;
    uint64_t v = ev(e);
    E eq = mkBin(Op::Eq, e, mkConst(v, e->width));
    bool kv;
    if (known(eq, kv) && kv) return v;
    Model m;
    E ne = mkNot(eq);
    Res r = check(ne, m);
    if (r == Res::Sat) {
      State* o = fork();
      o->model = std::move(m);
      o->mver = ++mverCtr;
      addTo(*o, ne);
    }
    if (r != Res::Unsat) addCons(eq);
    return v;
  }
  uint64_t concOp(int32_t op, unsigned w) {
    const Val& v = R(op);
    if (v.conc()) return v.c;
    uint64_t c = concretize(v.e);
    if (op >= 0) fr->r[op] = Val(c);
    return c;
  }
  const Val& R(int32_t o) const { return o >= 0 ? fr->r[o] : P.pool[-o - 1]; }

  // ---- reporting
  std::string where() {
    if (!fr) return "?";
    uint32_t line = fr->pc < fr->f->code.size() ? fr->f->code[fr->pc].line : 0;
    return fr->f->pretty + ":" + std::to_string(line);
  }
  std::vector<std::pair<std::string, uint64_t>> inputVals(const Model& m) {
    std::vector<std::pair<std::string, uint64_t>> o;
    bumpEvalEpoch(); evVer = 0;
    for (auto& i : S->inputs) o.push_back({*i.name, evalExpr(i.var, m)});
    bumpEvalEpoch(); evVer = 0;
    return o;
  }
  void violation(const std::string& kind, const std::string& msg, const Model& m) {
    std::string key = kind + "|" + msg + "|" + where();
    if (!violKeys.insert(key).second) return;
    Violation v;
    v.kind = kind; v.msg = msg; v.where = where();
    v.inputs = inputVals(m);
    for (auto it = pr->stack.rbegin(); it != pr->stack.rend(); ++it) {
      Frame& f = **it;
      v.trace.push_back(f.f->pretty.substr(0, 160) + ":" + std::to_string(f.pc < f.f->code.size() ? f.f->code[f.pc].line : 0));
    }
    viols.push_back(v);
    if (viols.size() >= maxViol) stop = true;
  }
  void violation(const std::string& kind, const std::string& msg) { violation(kind, msg, Model(S->model)); }
  Ctl error(const std::string& s) {
    std::string tr;
    for (auto it = pr->stack.rbegin(); it != pr->stack.rend() && tr.size() < 600; ++it) tr += " < " + (*it)->f->pretty.substr(0, 80) + ":" + std::to_string((*it)->pc < (*it)->f->code.size() ? (*it)->f->code[(*it)->pc].line : 0);
    errors.insert(s + " at" + tr);
    return KILL;
  }
  Ctl abortPath(const std::string& kind, const std::string& msg) {
    if (S->abortOk) { aborted++; covers.insert("aborted"); coverCount["aborted"]++; finishPath(false, true); return KILL; }
    violation(kind, msg);
    return KILL;
  }
  void finishPath(bool normal, bool abortedPath = false) {
    if (normal) paths++;
    if (S->depth > maxDepth) maxDepth = S->depth;
    witSeen++;
    size_t slot = wit.size();
    if (wit.size() >= nWitness) {
      rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      slot = rng % witSeen;
      if (slot >= nWitness) return;
    } else wit.emplace_back();
    Witness w;
    w.in = inputVals(S->model);
    for (auto& n : S->notes) w.notes.push_back({*n.name, n.v.conc() ? n.v.c : evalExpr(n.v.e, S->model)});
    w.aborted = abortedPath;
    bumpEvalEpoch(); evVer = 0;
    wit[slot] = w;
  }

  // ---- memory access
  bool checkConc(uint64_t addr, uint64_t n, bool write) {
    uint64_t id = addr >> ADDR_SHIFT, off = addr & OFF_MASK;
    const Obj* o = objOf(id);
    if (!o) {
      violation("memory", addr < 4096 ? "null pointer access" : "access to freed or invalid memory");
      return false;
    }
    if (off + n > o->size) {
      violation("memory", "out of bounds access: offset " + std::to_string((int64_t)(off << 24) >> 24) + " size " + std::to_string(n) + " in " + (o->desc ? *o->desc : "") + " of " + std::to_string(o->size) + " bytes");
      return false;
    }
    if (write && o->kind == Kind::ConstGlobal) { violation("memory", "write to constant"); return false; }
    return true;
  }
  // Pins the object a symbolic address refers to and checks bounds for all its values.
  // Returns false if the path ends.
  bool pinObject(E e, uint64_t n, bool write, uint64_t& base, uint64_t& size) {
    memChecks++;
    uint64_t v = ev(e);
    uint64_t id = v >> ADDR_SHIFT;
    E sameObj = mkBin(Op::Eq, mkExtract(e, ADDR_SHIFT, 64 - ADDR_SHIFT), mkConst(id, 64 - ADDR_SHIFT));
    bool kv;
    if (!(known(sameObj, kv) && kv)) {
      Model m;
      Res r = check(mkNot(sameObj), m);
      if (r == Res::Sat) {
        State* o = fork();
        o->model = std::move(m);
        o->mver = ++mverCtr;
        addTo(*o, mkNot(sameObj));
      }
      if (r != Res::Unsat) addCons(sameObj);
    }
    const Obj* o = objOf(id);
    if (!o) { violation("memory", "access to freed or invalid memory"); return false; }
    base = id << ADDR_SHIFT;
    size = o->size;
    if (size < n) return checkConc(v, n, write);
    E inb = mkBin(Op::Ule, mkSub(e, mkConst(base, 64)), mkConst(size - n, 64));
    if (!(known(inb, kv) && kv)) {
      Model m;
      Res r = check(mkNot(inb), m);
      if (r == Res::Sat) {
        violation("memory", "out of bounds access in " + (o->desc ? *o->desc : std::string()) + " of " + std::to_string(size) + " bytes", m);
        Model m2;
        if (check(inb, m2) != Res::Sat) return false;
        setModel(std::move(m2));
      }
      if (r != Res::Unsat) addCons(inb);
    }
    if (write && o->kind == Kind::ConstGlobal) { violation("memory", "write to constant"); return false; }
    return true;
  }
  bool addrOf(int32_t op, uint64_t off, uint64_t n, bool write, uint64_t& addr) {
    const Val& p = R(op);
    if (p.conc()) { addr = p.c + off; return checkConc(addr, n, write); }
    E e = mkBin(Op::Add, p.e, mkConst(off, 64));
    uint64_t b, s;
    if (!pinObject(e, n, write, b, s)) return false;
    E pe = R(op).e;
    uint64_t c = concretize(pe);
    if (op >= 0) fr->r[op] = Val(c);
    addr = c + off;
    return checkConc(addr, n, write);
  }
  static uint64_t stride(E e, int d = 0) {
    if (isConst(e)) return 0;
    if (d > 8) return 1;
    switch (e->op) {
      case Op::Add: case Op::Sub: return std::gcd(stride(e->k[0], d + 1), stride(e->k[1], d + 1));
      case Op::Mul:
        if (isConst(e->k[1])) return e->k[1]->val * std::max<uint64_t>(1, stride(e->k[0], d + 1));
        if (isConst(e->k[0])) return e->k[0]->val * std::max<uint64_t>(1, stride(e->k[1], d + 1));
        return 1;
      case Op::Shl: if (isConst(e->k[1]) && e->k[1]->val < 40) return stride(e->k[0], d + 1) << e->k[1]->val; return 1;
      case Op::Concat: {
        E lo = e->k[1];
        if (isConst(lo)) return (lo->val ? 1 : 1) * (lo->width < 40 ? (1ull << lo->width) : 1);
        return 1;
      }
      case Op::ZExt: case Op::SExt: { uint64_t s = stride(e->k[0], d + 1); return s ? (s & -s) : 1; }
      default: return 1;
    }
  }
  Val loadAt(uint64_t addr, unsigned w) {
    uint64_t id = addr >> ADDR_SHIFT, off = addr & OFF_MASK;
    Memory& m = memFor(id);
    unsigned nb = (w + 7) / 8;
    Val v = memLoad(m, id, off, nb);
    if (w % 8) {
      if (v.conc()) v.c &= maskOf(w);
      else v = Val::sym(mkExtract(v.e, 0, w));
    }
    return v;
  }
  void storeAt(uint64_t addr, unsigned w, const Val& v) {
    uint64_t id = addr >> ADDR_SHIFT, off = addr & OFF_MASK;
    Memory& m = memFor(id);
    unsigned nb = (w + 7) / 8;
    if (w % 8 && !v.conc()) memStore(m, id, off, nb, Val::sym(mkZExt(v.e, nb * 8)));
    else memStore(m, id, off, nb, v);
  }
  bool doLoad(const Inst& in) {
    unsigned nb = (in.w + 7) / 8;
    const Val& p = R(in.a);
    if (p.conc()) {
      uint64_t a = p.c + in.aux;
      if (!checkConc(a, nb, false)) return false;
      fr->r[in.dst] = loadAt(a, in.w);
      return true;
    }
    E e = mkBin(Op::Add, p.e, mkConst(in.aux, 64));
    uint64_t base, size;
    if (!pinObject(e, nb, false, base, size)) return false;
    uint64_t st = std::max<uint64_t>(1, stride(e));
    uint64_t v0 = ev(e);
    uint64_t lo = std::max(e->lo, base), hi = std::min(e->hi, base + size - nb);
    uint64_t first = v0 - (v0 - lo) / st * st;
    uint64_t cnt = (hi - first) / st + 1;
    if (cnt <= iteMax) {
      E acc = nullptr;
      for (uint64_t k = cnt; k-- > 0;) {
        uint64_t a = first + k * st;
        E le = toE(loadAt(a, in.w), in.w);
        acc = acc ? mkIte(mkBin(Op::Eq, e, mkConst(a, 64)), le, acc) : le;
      }
      fr->r[in.dst] = Val::sym(acc);
      return true;
    }
    E pe = p.e;
    uint64_t c = concretize(pe);
    if (in.a >= 0) fr->r[in.a] = Val(c);
    if (!checkConc(c + in.aux, nb, false)) return false;
    Val lv = loadAt(c + in.aux, in.w);
    fr->r[in.dst] = lv;
    return true;
  }
  bool readStr(uint64_t addr, std::string& out) {
    out.clear();
    for (;;) {
      const Obj* o = objOf(addr >> ADDR_SHIFT);
      if (!o || (addr & OFF_MASK) >= o->size) return false;
      Val v = loadAt(addr, 8);
      if (!v.conc()) v = Val(ev(v.e));
      if (v.c == 0 || out.size() > 400) return true;
      out += (char)v.c;
      addr++;
    }
  }

  // ---- variables
  E inputVar(const std::string& name, unsigned w, uint64_t lo, uint64_t hi, bool ghost) {
    std::string key = (ghost ? "g" + std::to_string(S->ghosts++) : std::to_string(S->inputs.size())) + "|" + name + "|" + std::to_string(w) + "|" + std::to_string(lo) + "|" + std::to_string(hi);
    auto it = varKeys.find(key);
    E v;
    if (it != varKeys.end()) v = it->second;
    else {
      v = mkVar(name, w, lo, hi);
      varKeys[key] = v;
    }
    if (!ghost) S->inputs.push_back({intern(name), v});
    return v;
  }

  // ---- calls
  bool pushFrame(Func& f, std::vector<Val>&& a, const CallInfo* ci) {
    P.ensureLowered(f);
    f.executed = true;
    auto n = std::make_shared<Frame>();
    n->f = &f;
    n->ci = ci;
    a.resize(f.nregs);
    n->r = std::move(a);
    if (pr->stack.size() > 2000) { violation("memory", "stack overflow"); return false; }
    pr->stack.push_back(n);
    fr = n.get();
    return true;
  }
  void popFrame() {
    for (uint32_t id : fr->allocas) pr->mem.release(id);
    pr->stack.pop_back();
    reloadFrame();
  }
  void registerBuiltins();
  int builtinFor(Func& f);
  Ctl doCall(const CallInfo& ci);
  Ctl step();
  Ctl intr(const Inst& in);
  void run();
  void takeEdge(Frame& f, const Edge& e) {
    if (e.copies.size() == 1) { auto& c = e.copies[0]; f.r[c.first] = c.second >= 0 ? f.r[c.second] : P.pool[-c.second - 1]; }
    else if (!e.copies.empty()) {
      std::vector<Val> t;
      t.reserve(e.copies.size());
      for (auto& c : e.copies) t.push_back(c.second >= 0 ? f.r[c.second] : P.pool[-c.second - 1]);
      for (size_t i = 0; i < t.size(); i++) f.r[e.copies[i].first] = t[i];
    }
    f.pc = e.pc;
  }
  Frame& frameOf(State& st) {
    auto& sp = st.procs[st.cur];
    if (sp.use_count() > 1) sp = std::make_shared<Proc>(*sp);
    auto& fp = sp->stack.back();
    if (fp.use_count() > 1) fp = std::make_shared<Frame>(*fp);
    return *fp;
  }
  bool moveBytes(int32_t dop, int32_t sop, int32_t nop, unsigned nw, bool isSet) {
    uint64_t n = concOp(nop, nw);
    if (n == 0) return true;
    uint64_t d, s;
    if (!addrOf(dop, 0, n, true, d)) return false;
    if (isSet) {
      Val b = R(sop);
      uint64_t id = d >> ADDR_SHIFT;
      Memory& m = memFor(id);
      memSet(m, id, d & OFF_MASK, b.conc() ? Val(b.c & 0xff) : Val::sym(mkExtract(b.e, 0, 8)), n);
      return true;
    }
    if (!addrOf(sop, 0, n, false, s)) return false;
    uint64_t di = d >> ADDR_SHIFT, si = s >> ADDR_SHIFT;
    bool ds = di >= SHARED_BASE, ss = si >= SHARED_BASE;
    Memory& dm = memFor(di);
    Memory& sm = memFor(si);
    if (ds == ss) memCopy(dm, di, d & OFF_MASK, si, s & OFF_MASK, n);
    else
      for (uint64_t i = 0; i < n;) {
        unsigned k = n - i >= 8 ? 8 : 1;
        memStore(dm, di, (d & OFF_MASK) + i, k, memLoad(sm, si, (s & OFF_MASK) + i, k));
        i += k;
      }
    return true;
  }
};

static bool cmpC(uint8_t p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) {
    case EQ: return a == b;
    case NE: return a != b;
    case UGT: return a > b;
    case UGE: return a >= b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SGT: return sext64(a, w) > sext64(b, w);
    case SGE: return sext64(a, w) >= sext64(b, w);
    case SLT: return sext64(a, w) < sext64(b, w);
    default: return sext64(a, w) <= sext64(b, w);
  }
}
static E cmpE(uint8_t p, E a, E b) {
  switch (p) {
    case EQ: return mkBin(Op::Eq, a, b);
    case NE: return mkNot(mkBin(Op::Eq, a, b));
    case UGT: return mkBin(Op::Ult, b, a);
    case UGE: return mkBin(Op::Ule, b, a);
    case ULT: return mkBin(Op::Ult, a, b);
    case ULE: return mkBin(Op::Ule, a, b);
    case SGT: return mkBin(Op::Slt, b, a);
    case SGE: return mkBin(Op::Sle, b, a);
    case SLT: return mkBin(Op::Slt, a, b);
    default: return mkBin(Op::Sle, a, b);
  }
}

Ctl Exec::intr(const Inst& in) {
  auto& r = fr->r;
  Intr k = (Intr)in.sub;
  unsigned w = in.w;
  switch (k) {
    case Intr::MemCpy: case Intr::MemMove: return moveBytes(in.a, in.b, in.c, w, false) ? NEXT : KILL;
    case Intr::MemSet: return moveBytes(in.a, in.b, in.c, w, true) ? NEXT : KILL;
    case Intr::UMin: case Intr::UMax: case Intr::SMin: case Intr::SMax: {
      Val a = R(in.a), b = R(in.b);
      uint8_t p = k == Intr::UMin ? ULT : k == Intr::UMax ? UGT : k == Intr::SMin ? SLT : SGT;
      if (a.conc() && b.conc()) r[in.dst] = cmpC(p, a.c, b.c, w) ? a : b;
      else { E x = toE(a, w), y = toE(b, w); r[in.dst] = Val::sym(mkIte(cmpE(p, x, y), x, y)); }
      return NEXT;
    }
    case Intr::Abs: {
      E x = toE(R(in.a), w);
      r[in.dst] = Val::sym(mkIte(mkBin(Op::Slt, x, mkConst(0, w)), mkSub(mkConst(0, w), x), x));
      return NEXT;
    }
    case Intr::Ctpop: case Intr::Ctlz: case Intr::Cttz: {
      E x = toE(R(in.a), w);
      if (w > 64) return error("wide bit count");
      if (isConst(x)) {
        uint64_t v = x->val;
        r[in.dst] = Val(k == Intr::Ctpop ? __builtin_popcountll(v) : v == 0 ? w : k == Intr::Ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v));
        return NEXT;
      }
      E acc = mkConst(k == Intr::Ctpop ? 0 : w, w);
      for (unsigned i = 0; i < w; i++) {
        if (k == Intr::Ctpop) acc = mkBin(Op::Add, acc, mkZExt(mkExtract(x, i, 1), w));
        else if (k == Intr::Ctlz) acc = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), acc);
        else acc = mkIte(mkExtract(x, w - 1 - i, 1), mkConst(w - 1 - i, w), acc);
      }
      r[in.dst] = Val::sym(acc);
      return NEXT;
    }
    case Intr::BSwap: {
      E x = toE(R(in.a), w), acc = nullptr;
      for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); acc = acc ? mkConcat(acc, b) : b; }
      r[in.dst] = Val::sym(acc);
      return NEXT;
    }
    case Intr::FShl: case Intr::FShr: {
      E a = toE(R(in.a), w), b = toE(R(in.b), w), s = toE(R(in.c), w);
      E sh = mkBin(Op::URem, s, mkConst(w, w));
      E inv = mkSub(mkConst(w, w), sh);
      E v = k == Intr::FShl ? mkBin(Op::Or, mkBin(Op::Shl, a, sh), mkBin(Op::LShr, b, inv)) : mkBin(Op::Or, mkBin(Op::Shl, a, inv), mkBin(Op::LShr, b, sh));
      v = mkIte(mkBin(Op::Eq, sh, mkConst(0, w)), k == Intr::FShl ? a : b, v);
      r[in.dst] = Val::sym(v);
      return NEXT;
    }
    case Intr::UAddO: case Intr::USubO: case Intr::UMulO: case Intr::SAddO: case Intr::SSubO: case Intr::SMulO: {
      E a = toE(R(in.a), w), b = toE(R(in.b), w);
      Op o = (k == Intr::UAddO || k == Intr::SAddO) ? Op::Add : (k == Intr::USubO || k == Intr::SSubO) ? Op::Sub : Op::Mul;
      bool sg = k == Intr::SAddO || k == Intr::SSubO || k == Intr::SMulO;
      E v = o == Op::Sub ? mkSub(a, b) : mkBin(o, a, b);
      E ovf;
      if (k == Intr::UAddO) ovf = mkBin(Op::Ult, v, a);
      else if (k == Intr::USubO) ovf = mkBin(Op::Ult, a, b);
      else {
        unsigned ww = w * 2;
        E ax = sg ? mkSExt(a, ww) : mkZExt(a, ww), bx = sg ? mkSExt(b, ww) : mkZExt(b, ww);
        E wv = o == Op::Sub ? mkSub(ax, bx) : mkBin(o, ax, bx);
        ovf = mkNot(mkBin(Op::Eq, wv, sg ? mkSExt(v, ww) : mkZExt(v, ww)));
      }
      r[in.dst] = Val::sym(v);
      r[in.dst + 1] = Val::sym(ovf);
      return NEXT;
    }
    case Intr::USubSat: {
      E a = toE(R(in.a), w), b = toE(R(in.b), w);
      r[in.dst] = Val::sym(mkIte(mkBin(Op::Ult, a, b), mkConst(0, w), mkSub(a, b)));
      return NEXT;
    }
    case Intr::UAddSat: {
      E a = toE(R(in.a), w), b = toE(R(in.b), w), s = mkBin(Op::Add, a, b);
      r[in.dst] = Val::sym(mkIte(mkBin(Op::Ult, s, a), mkConst(maskOf(w), w), s));
      return NEXT;
    }
    case Intr::FMulAdd: {
      E a = toE(R(in.a), w), b = toE(R(in.b), w), c = toE(R(in.c), w);
      r[in.dst] = Val::sym(mkFp2(Op::FAdd, mkFp2(Op::FMul, a, b), c));
      return NEXT;
    }
    case Intr::Math1: case Intr::Math2: {
      Val a = R(in.a), b = k == Intr::Math2 ? R(in.b) : Val(0);
      if (!a.conc() || !b.conc() || w != 64) return error("symbolic " + fr->f->traps[in.aux]);
      double x, y, z = 0;
      memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
      const std::string& n = fr->f->traps[in.aux];
      if (n == "log") z = std::log(x); else if (n == "log2") z = std::log2(x); else if (n == "log10") z = std::log10(x);
      else if (n == "exp") z = std::exp(x); else if (n == "exp2") z = std::exp2(x); else if (n == "round") z = std::round(x);
      else if (n == "pow") z = std::pow(x, y); else if (n == "copysign") z = std::copysign(x, y);
      uint64_t o; memcpy(&o, &z, 8);
      r[in.dst] = Val(o);
      return NEXT;
    }
    default: return error("unsupported intrinsic");
  }
}

Ctl Exec::doCall(const CallInfo& ci) {
  int callee = ci.callee;
  if (callee < 0) {
    uint64_t a = concOp(ci.fp, 64);
    if ((a >> ADDR_SHIFT) != FUNC_ID || (a & 15) || (a & OFF_MASK) / 16 >= P.funcs.size()) { violation("memory", "call through an invalid function pointer"); return KILL; }
    callee = (a & OFF_MASK) / 16;
  }
  Func& f = *P.funcs[callee];
  Func* target = &f;
  if (f.builtin == -1) f.builtin = builtinFor(f);
  if (f.builtin >= 0) {
    std::vector<Val> a;
    a.reserve(ci.args.size());
    for (int32_t x : ci.args) a.push_back(R(x));
    Val ret;
    f.executed = true;
    Ctl c = builtins[f.builtin](ci, a, ret);
    if (c != NEXT) return c;
    if (ci.dst >= 0) fr->r[ci.dst] = ret;
    if (ci.edge >= 0) takeEdge(*fr, fr->f->edges[ci.edge]);
    else fr->pc++;
    return AGAIN;
  }
  if (!f.defined) {
    if (f.builtin == -2) {
      auto it = P.byName.find("sx_" + f.name);
      target = P.funcs[it->second].get();
    } else return error("call of unmodelled external function " + f.pretty);
  }
  std::vector<Val> a;
  a.reserve(ci.args.size());
  for (size_t i = 0; i < ci.args.size(); i++) {
    if (ci.byval[i]) {
      uint64_t s;
      if (!addrOf(ci.args[i], 0, ci.byval[i], false, s)) return KILL;
      static const std::string d = "byval";
      uint64_t id = pr->mem.alloc(ci.byval[i], Kind::Stack, false, &d);
      fr->allocas.push_back(id);
      memCopy(pr->mem, id, 0, s >> ADDR_SHIFT, s & OFF_MASK, ci.byval[i]);
      a.push_back(Val(id << ADDR_SHIFT));
    } else a.push_back(R(ci.args[i]));
  }
  if (a.size() > target->lf->arg_size() && target->lf->isVarArg() == false) { /* prototype mismatch is tolerated */ }
  return pushFrame(*target, std::move(a), &ci) ? AGAIN : KILL;
}

Ctl Exec::step() {
  Frame& F = *fr;
  const Inst& in = F.f->code[F.pc];
  auto& r = F.r;
  switch (in.op) {
    case I::Bin: {
      const Val& a = R(in.a);
      const Val& b = R(in.b);
      unsigned w = in.w;
      if (a.conc() && b.conc() && w <= 64) {
        uint64_t x = a.c, y = b.c, z = 0;
        switch ((Op)in.sub) {
          case Op::Add: z = x + y; break;
          case Op::Sub: z = x - y; break;
          case Op::Mul: z = x * y; break;
          case Op::UDiv: if (!y) { violation("arith", "division by zero"); return KILL; } z = x / y; break;
          case Op::URem: if (!y) { violation("arith", "division by zero"); return KILL; } z = x % y; break;
          case Op::SDiv: if (!y) { violation("arith", "division by zero"); return KILL; } z = sext64(y, w) == -1 ? 0 - x : (uint64_t)(sext64(x, w) / sext64(y, w)); break;
          case Op::SRem: if (!y) { violation("arith", "division by zero"); return KILL; } z = sext64(y, w) == -1 ? 0 : (uint64_t)(sext64(x, w) % sext64(y, w)); break;
          case Op::And: z = x & y; break;
          case Op::Or: z = x | y; break;
          case Op::Xor: z = x ^ y; break;
          case Op::Shl: z = y >= w ? 0 : x << y; break;
          case Op::LShr: z = y >= w ? 0 : x >> y; break;
          case Op::AShr: z = (uint64_t)(sext64(x, w) >> (y >= w ? w - 1 : y)); break;
          default: break;
        }
        r[in.dst] = Val(z & maskOf(w));
        break;
      }
      E x = toE(a, w), y = toE(b, w);
      Op o = (Op)in.sub;
      if (o == Op::UDiv || o == Op::URem || o == Op::SDiv || o == Op::SRem) {
        E nz = mkNot(mkBin(Op::Eq, y, mkConst(0, w)));
        bool kv;
        if (!(known(nz, kv) && kv)) {
          Model m;
          Res rr = check(mkNot(nz), m);
          if (rr == Res::Sat) {
            violation("arith", "division by zero", m);
            Model m2;
            if (check(nz, m2) != Res::Sat) return KILL;
            setModel(std::move(m2));
          }
          addCons(nz);
        }
      }
      if (o == Op::URem && w <= 64 && isConst(y) && y->val > 2 && (y->val & (y->val - 1)) && x->hi >= y->val) {
        r[in.dst] = Val::sym(modNorm(x, y));
        break;
      }
      r[in.dst] = Val::sym(o == Op::Sub ? mkSub(x, y) : mkBin(o, x, y));
      break;
    }
    case I::FBin: r[in.dst] = Val::sym(mkFp2((Op)in.sub, toE(R(in.a), in.w), toE(R(in.b), in.w))); break;
    case I::ICmp: {
      const Val& a = R(in.a);
      const Val& b = R(in.b);
      if (a.conc() && b.conc()) r[in.dst] = Val(cmpC(in.sub, a.c, b.c, in.w));
      else r[in.dst] = Val::sym(cmpE(in.sub, toE(a, in.w), toE(b, in.w)));
      break;
    }
    case I::FCmp: {
      using C = llvm::CmpInst;
      E a = toE(R(in.a), in.w), b = toE(R(in.b), in.w);
      E un = mkBin(Op::Or, mkFp1(Op::FIsNaN, a, 1), mkFp1(Op::FIsNaN, b, 1));
      E eq = mkFp2(Op::FEq, a, b), lt = mkFp2(Op::FLt, a, b), gt = mkFp2(Op::FLt, b, a), le = mkFp2(Op::FLe, a, b), ge = mkFp2(Op::FLe, b, a);
      E v = nullptr;
      auto orU = [&](E x) { return mkBin(Op::Or, un, x); };
      switch (in.sub) {
        case C::FCMP_OEQ: v = eq; break;
        case C::FCMP_OGT: v = gt; break;
        case C::FCMP_OGE: v = ge; break;
        case C::FCMP_OLT: v = lt; break;
        case C::FCMP_OLE: v = le; break;
        case C::FCMP_ONE: v = mkBin(Op::And, mkNot(un), mkNot(eq)); break;
        case C::FCMP_ORD: v = mkNot(un); break;
        case C::FCMP_UNO: v = un; break;
        case C::FCMP_UEQ: v = orU(eq); break;
        case C::FCMP_UGT: v = orU(gt); break;
        case C::FCMP_UGE: v = orU(ge); break;
        case C::FCMP_ULT: v = orU(lt); break;
        case C::FCMP_ULE: v = orU(le); break;
        case C::FCMP_UNE: v = orU(mkNot(eq)); break;
        default: v = mkConst(in.sub == C::FCMP_TRUE, 1);
      }
      r[in.dst] = Val::sym(v);
      break;
    }
    case I::Fp1: {
      E a = toE(R(in.a), in.w2);
      Op o = (Op)in.sub;
      if ((o == Op::FPToUI || o == Op::FPToSI)) {
        // out of range conversions are undefined behaviour
        unsigned w = in.w;
        double hi = o == Op::FPToUI ? std::ldexp(1.0, w) : std::ldexp(1.0, w - 1);
        double lo = o == Op::FPToUI ? -1.0 : -std::ldexp(1.0, w - 1) - (w < 53 ? 1.0 : 0.0);
        bool strictLo = o == Op::FPToUI || w < 53;
        uint64_t hb, lb;
        E x = in.w2 == 32 ? mkFp1(Op::FPExt, a, 64) : a;
        memcpy(&hb, &hi, 8); memcpy(&lb, &lo, 8);
        E ok = mkBin(Op::And, mkFp2(Op::FLt, x, mkConst(hb, 64)), strictLo ? mkFp2(Op::FLt, mkConst(lb, 64), x) : mkFp2(Op::FLe, mkConst(lb, 64), x));
        bool kv;
        if (!(known(ok, kv) && kv)) {
          Model m;
          Res rr = check(mkNot(ok), m);
          if (rr == Res::Sat) {
            violation("arith", "floating point value out of range of the integer type", m);
            Model m2;
            if (check(ok, m2) != Res::Sat) return KILL;
            setModel(std::move(m2));
          }
          if (rr != Res::Unsat) addCons(ok);
        }
      }
      r[in.dst] = Val::sym(mkFp1(o, a, in.w));
      break;
    }
    case I::Trunc: {
      const Val& a = R(in.a);
      r[in.dst] = a.conc() ? Val(a.c & maskOf(in.w)) : Val::sym(mkExtract(a.e, 0, in.w));
      break;
    }
    case I::ZExt: {
      const Val& a = R(in.a);
      r[in.dst] = a.conc() && in.w <= 64 ? a : Val::sym(mkZExt(toE(a, in.w2), in.w));
      break;
    }
    case I::SExt: {
      const Val& a = R(in.a);
      r[in.dst] = a.conc() && in.w <= 64 ? Val((uint64_t)sext64(a.c, in.w2) & maskOf(in.w)) : Val::sym(mkSExt(toE(a, in.w2), in.w));
      break;
    }
    case I::Select: {
      const Val& c = R(in.a);
      if (c.conc()) r[in.dst] = R((c.c & 1) ? in.b : in.c);
      else r[in.dst] = Val::sym(mkIte(c.e, toE(R(in.b), in.w), toE(R(in.c), in.w)));
      break;
    }
    case I::Mov: r[in.dst] = R(in.a); break;
    case I::Gep: {
      const GepInfo& g = F.f->geps[in.aux];
      const Val& p = R(in.a);
      bool conc = p.conc();
      for (auto& x : g.idx) conc &= R(x.first).conc();
      if (conc) {
        uint64_t v = p.c + g.off;
        for (size_t i = 0; i < g.idx.size(); i++) v += sext64(R(g.idx[i].first).c, g.w[i]) * g.idx[i].second;
        r[in.dst] = Val(v);
      } else {
        E e = mkBin(Op::Add, toE(p, 64), mkConst(g.off, 64));
        for (size_t i = 0; i < g.idx.size(); i++) {
          E x = toE(R(g.idx[i].first), g.w[i]);
          if (g.w[i] < 64) x = mkSExt(x, 64); else if (g.w[i] > 64) x = mkExtract(x, 0, 64);
          e = mkBin(Op::Add, e, mkBin(Op::Mul, x, mkConst(g.idx[i].second, 64)));
        }
        r[in.dst] = Val::sym(e);
      }
      break;
    }
    case I::Load: if (!doLoad(in)) return KILL; break;
    case I::Store: {
      uint64_t a;
      if (!addrOf(in.a, in.aux, (in.w + 7) / 8, true, a)) return KILL;
      storeAt(a, in.w, R(in.b));
      break;
    }
    case I::Alloca: {
      uint64_t n = concOp(in.a, in.w) * in.aux;
      static const std::string d = "stack variable";
      uint64_t id = pr->mem.alloc(n, Kind::Stack, false, &d);
      fr->allocas.push_back(id);
      fr->r[in.dst] = Val(id << ADDR_SHIFT);
      break;
    }
    case I::Call: return doCall(F.f->calls[in.aux]);
    case I::Br: takeEdge(F, F.f->edges[in.aux]); return AGAIN;
    case I::CondBr: {
      const Val& c = R(in.a);
      if (c.conc()) { takeEdge(F, F.f->edges[(c.c & 1) ? in.b : in.c]); return AGAIN; }
      State* o;
      bool v = decide(c.e, &o);
      if (o) { Frame& of = frameOf(*o); if (in.a >= 0) of.r[in.a] = Val(!v); takeEdge(of, of.f->edges[!v ? in.b : in.c]); }
      if (in.a >= 0) fr->r[in.a] = Val(v);
      takeEdge(*fr, fr->f->edges[v ? in.b : in.c]);
      return AGAIN;
    }
    case I::Switch: {
      const SwitchInfo& si = F.f->switches[in.aux];
      Val c = R(in.a);
      if (!c.conc()) {
        // split off one target at a time
        std::map<uint32_t, E> byBlock;
        std::map<uint32_t, uint32_t> edgeOf;
        E none = mkConst(1, 1);
        for (auto& cs : si.cases) {
          E eq = mkBin(Op::Eq, c.e, mkConst(cs.first, in.w));
          uint32_t b = F.f->edges[cs.second].block;
          // edges to the same block may carry different phi values: key by edge in that case
          uint32_t key = F.f->edges[cs.second].copies.empty() ? b : 1000000 + cs.second;
          auto it = byBlock.find(key);
          byBlock[key] = it == byBlock.end() ? eq : mkBin(Op::Or, it->second, eq);
          edgeOf[key] = cs.second;
          none = mkBin(Op::And, none, mkNot(eq));
        }
        byBlock[2000000] = none;
        edgeOf[2000000] = si.def;
        // find the one the model takes; fork the rest
        uint32_t mine = 0; E mineC = nullptr;
        std::vector<std::pair<uint32_t, E>> rest;
        for (auto& kv : byBlock) { if (!mineC && (ev(kv.second) & 1)) { mine = edgeOf[kv.first]; mineC = kv.second; } else rest.push_back({edgeOf[kv.first], kv.second}); }
        bool any = false;
        for (auto& x : rest) {
          if (isFalse(x.second)) continue;
          Model m;
          Res rr = check(x.second, m);
          if (rr == Res::Unsat) continue;
          any = true;
          if (rr == Res::Unknown) continue;
          State* o = fork();
          o->model = std::move(m);
          o->mver = ++mverCtr;
          addTo(*o, x.second);
          Frame& of = frameOf(*o);
          takeEdge(of, of.f->edges[x.first]);
        }
        if (any) addCons(mineC);
        takeEdge(*fr, fr->f->edges[mine]);
        return AGAIN;
      }
      uint32_t e = si.def;
      for (auto& cs : si.cases) if (cs.first == c.c) { e = cs.second; break; }
      takeEdge(F, F.f->edges[e]);
      return AGAIN;
    }
    case I::Ret: {
      std::vector<Val> v;
      for (int32_t o : F.f->rets[in.aux]) v.push_back(R(o));
      const CallInfo* ci = F.ci;
      popFrame();
      if (!fr) {
        if (S->cur != 0) { errors.insert("spawned process returned"); return KILL; }
        if (!S->pending.empty()) {
          int f = S->pending.back();
          S->pending.pop_back();
          return pushFrame(*P.funcs[f], {}, nullptr) ? AGAIN : KILL;
        }
        finishPath(true);
        return KILL;
      }
      if (ci && ci->dst >= 0) for (size_t i = 0; i < v.size() && i < ci->nret; i++) fr->r[ci->dst + i] = v[i];
      if (ci && ci->edge >= 0) takeEdge(*fr, fr->f->edges[ci->edge]);
      else fr->pc++;
      return AGAIN;
    }
    case I::Unreachable: violation("ub", "unreachable code reached (function without return value)"); return KILL;
    case I::Trap: {
      const std::string& t = F.f->traps[in.aux];
      return error(t);
    }
    case I::AtomicRMW: {
      uint64_t a;
      if (!addrOf(in.a, 0, (in.w + 7) / 8, true, a)) return KILL;
      Val old = loadAt(a, in.w);
      E x = toE(old, in.w), y = toE(R(in.b), in.w), n = nullptr;
      using A = llvm::AtomicRMWInst;
      switch (in.sub) {
        case A::Xchg: n = y; break;
        case A::Add: n = mkBin(Op::Add, x, y); break;
        case A::Sub: n = mkSub(x, y); break;
        case A::And: n = mkBin(Op::And, x, y); break;
        case A::Or: n = mkBin(Op::Or, x, y); break;
        case A::Xor: n = mkBin(Op::Xor, x, y); break;
        default: return error("atomic operation");
      }
      storeAt(a, in.w, Val::sym(n));
      fr->r[in.dst] = old;
      break;
    }
    case I::CmpXchg: {
      uint64_t a;
      if (!addrOf(in.a, 0, (in.w + 7) / 8, true, a)) return KILL;
      Val old = loadAt(a, in.w);
      E x = toE(old, in.w), y = toE(R(in.b), in.w), z = toE(R(in.c), in.w);
      E eq = mkBin(Op::Eq, x, y);
      storeAt(a, in.w, Val::sym(mkIte(eq, z, x)));
      fr->r[in.dst] = old;
      fr->r[in.dst + 1] = Val::sym(eq);
      break;
    }
    case I::Intr: { Ctl c = intr(in); if (c != NEXT) return c; break; }
    default: return error("bad instruction");
  }
  fr->pc++;
  return AGAIN;
}

int Exec::builtinFor(Func& f) {
  auto it = builtinIdx.find(f.name);
  if (it != builtinIdx.end()) return it->second;
  if (f.defined) return -3;
  if (P.byName.count("sx_" + f.name) && P.funcs[P.byName["sx_" + f.name]]->defined) return -2;
  const std::string& n = f.name;
  auto starts = [&](const char* p) { return n.rfind(p, 0) == 0; };
  // iostreams: output is not observed by any property here; operators return their stream.
  if (starts("_ZNSo") || starts("_ZStls") || starts("_ZSt16__ostream_insert") || starts("_ZNSt13basic_ostream") || starts("_ZSt4endl") || starts("_ZSt5flush") || starts("_ZNKSt9basic_ios") || starts("_ZNSt9basic_ios") || starts("_ZNSt8ios_base") || starts("_ZNSt6locale") || starts("_ZSt4ends") || starts("_ZNSt15basic_streambuf"))
    return builtinIdx["#stream"];
  if (starts("_ZSt20__throw_") || starts("_ZSt17__throw_") || starts("_ZSt16__throw_") || starts("_ZSt19__throw_") || starts("_ZSt18__throw_") || starts("_ZSt21__throw_") || starts("_ZSt22__throw_") || starts("_ZSt23__throw_") || starts("_ZSt24__throw_") || starts("_ZSt25__throw_") || starts("_ZSt28__throw_") || starts("_ZSt15__throw_") || starts("__cxa_throw") || starts("__cxa_rethrow"))
    return builtinIdx["#throw"];
  return -3;
}

void Exec::registerBuiltins() {
  auto reg = [&](std::initializer_list<const char*> names, B b) {
    for (auto n : names) builtinIdx[n] = builtins.size();
    builtins.push_back(b);
  };
  static const std::string heapD = "heap block", sharedD = "shared block";
  auto allocN = [this](uint64_t n, bool zero) { return pr->mem.alloc(n, Kind::Heap, zero, &heapD) << ADDR_SHIFT; };
  auto tooBig = [this](uint64_t n) { return n > (1ull << 30); };
  reg({"#stream"}, [](const CallInfo&, std::vector<Val>& a, Val& r) { r = a.empty() ? Val(0) : a[0]; return NEXT; });
  reg({"#throw"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string nm = ci.callee >= 0 ? P.funcs[ci.callee]->pretty : "throw";
    return abortPath("throw", "exception: " + nm);
  });
  reg({"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}, [=](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t n = concOp(ci.args[0], 64);
    if (tooBig(n)) return abortPath("throw", "allocation of " + std::to_string(n) + " bytes");
    r = Val(allocN(n, false));
    return NEXT;
  });
  reg({"calloc"}, [=](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t n = concOp(ci.args[0], 64), m = concOp(ci.args[1], 64);
    if (tooBig(n) || tooBig(m) || tooBig(n * m)) return abortPath("throw", "allocation too large");
    r = Val(allocN(n * m, true));
    return NEXT;
  });
  auto doFree = [this](uint64_t p) -> bool {
    if (!p) return true;
    const Obj* o = objOf(p >> ADDR_SHIFT);
    if (!o || (p & OFF_MASK) || o->kind != Kind::Heap) { violation("memory", "invalid or double free"); return false; }
    pr->mem.release(p >> ADDR_SHIFT);
    return true;
  };
  reg({"realloc"}, [=](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t p = concOp(ci.args[0], 64), n = concOp(ci.args[1], 64);
    if (tooBig(n)) return abortPath("throw", "allocation too large");
    uint64_t q = allocN(n, false);
    if (p) {
      const Obj* o = objOf(p >> ADDR_SHIFT);
      if (!o || (p & OFF_MASK)) { violation("memory", "invalid realloc"); return KILL; }
      memCopy(pr->mem, q >> ADDR_SHIFT, 0, p >> ADDR_SHIFT, 0, std::min<uint64_t>(n, o->size));
      if (!doFree(p)) return KILL;
    }
    r = Val(q);
    return NEXT;
  });
  reg({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, [=](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t p = concOp(ci.args[0], 64);
    return doFree(p) ? NEXT : KILL;
  });
  reg({"memcpy", "memmove"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    r = a[0];
    return moveBytes(ci.args[0], ci.args[1], ci.args[2], 64, false) ? NEXT : KILL;
  });
  reg({"memset"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    r = a[0];
    return moveBytes(ci.args[0], ci.args[1], ci.args[2], 64, true) ? NEXT : KILL;
  });
  reg({"__cxa_atexit", "__cxa_thread_atexit", "__cxa_thread_atexit_impl", "__cxa_guard_acquire", "__cxa_guard_release", "perror", "printf", "puts", "putchar", "fprintf", "fputs", "fflush", "fwrite", "__cxa_pure_virtual_", "__gxx_personality_v0", "setbuf", "setvbuf", "fputc"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    const std::string& n = P.funcs[ci.callee]->name;
    if (n == "__cxa_guard_acquire") {
      uint64_t p = concOp(ci.args[0], 64);
      Val g = loadAt(p, 8);
      r = Val(g.conc() && g.c == 0 ? 1 : 0);
      return NEXT;
    }
    if (n == "__cxa_guard_release") { storeAt(concOp(ci.args[0], 64), 8, Val(1)); return NEXT; }
    r = Val(0);
    return NEXT;
  });
  reg({"__assert_fail", "__assert_fail_base"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string e, f;
    if (a[0].conc()) readStr(a[0].c, e);
    if (a[1].conc()) readStr(a[1].c, f);
    size_t p = f.rfind("DPPIR/");
    if (p != std::string::npos) f = f.substr(p);
    return abortPath("assert", "assertion failed: " + e + " (" + f + ":" + std::to_string(a[2].c) + ")");
  });
  reg({"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) { return abortPath("abort", "abort called"); });
  reg({"exit", "_exit", "_Exit", "quick_exit"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t c = concOp(ci.args[0], 32);
    return abortPath("exit", "exit(" + std::to_string((int)c) + ") called");
  });
  // ---- harness interface
  reg({"sx_sym", "sx_ghost"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    unsigned w = a[1].c;
    bool ghost = P.funcs[ci.callee]->name == "sx_ghost";
    uint64_t lo = concOp(ci.args[2], 64), hi = concOp(ci.args[3], 64);
    if (w == 64 && lo == hi) { if (!ghost) S->inputs.push_back({intern(n), mkConst(lo, 64)}); r = Val(lo); return NEXT; }
    if (lo == hi) { if (!ghost) S->inputs.push_back({intern(n), mkConst(lo, w)}); r = Val(lo); return NEXT; }
    E v = inputVar(n, w, lo & maskOf(w), hi & maskOf(w), ghost);
    r = Val::sym(mkZExt(v, 64));
    return NEXT;
  });
  reg({"sx_fork"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) { r = Val(concOp(ci.args[0], 64)); return NEXT; });
  reg({"sx_is_symbolic"}, [](const CallInfo&, std::vector<Val>& a, Val& r) { r = Val(a[0].conc() ? 0 : 1); return NEXT; });
  reg({"sx_assume"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) {
    E c = mkNot(mkBin(Op::Eq, toE(a[0], 32), mkConst(0, 32)));
    if (isTrue(c)) return NEXT;
    Model m;
    Res rr = check(c, m);
    if (rr != Res::Sat) { assumed++; return KILL; }
    setModel(std::move(m));
    addCons(c);
    return NEXT;
  });
  reg({"sx_assert_"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) {
    asserts++;
    E c = mkNot(mkBin(Op::Eq, toE(a[0], 32), mkConst(0, 32)));
    if (isTrue(c)) return NEXT;
    symAsserts++;
    std::string msg;
    readStr(a[1].c, msg);
    Model m;
    Res rr = check(mkNot(c), m);
    if (rr == Res::Sat) {
      violation("property", msg, m);
      Model m2;
      if (check(c, m2) != Res::Sat) return KILL;
      setModel(std::move(m2));
    }
    if (rr != Res::Unsat) addCons(c);
    return NEXT;
  });
  reg({"sx_fail"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) {
    std::string msg;
    readStr(a[0].c, msg);
    violation("property", msg);
    return KILL;
  });
  reg({"sx_cover"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    covers.insert(n); coverCount[n]++;
    return NEXT;
  });
  reg({"sx_cover_if"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[1].c, n);
    if (covers.count(n)) return NEXT;
    E c = mkNot(mkBin(Op::Eq, toE(a[0], 32), mkConst(0, 32)));
    Model m;
    if (check(c, m) == Res::Sat) { covers.insert(n); coverCount[n]++; }
    return NEXT;
  });
  reg({"sx_cover_id"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    uint64_t v = concOp(ci.args[1], 64);
    n += "#" + std::to_string(v);
    covers.insert(n); coverCount[n]++;
    return NEXT;
  });
  reg({"sx_goal"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) { std::string n; readStr(a[0].c, n); goals.insert(n); return NEXT; });
  reg({"sx_goal_ids"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    uint64_t k = concOp(ci.args[1], 64);
    for (uint64_t i = 0; i < k; i++) goals.insert(n + "#" + std::to_string(i));
    return NEXT;
  });
  reg({"sx_note"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    S->notes.push_back({intern(n), a[1], 64});
    return NEXT;
  });
  reg({"sx_abort_ok"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) { S->abortOk = a[0].c; return NEXT; });
  reg({"sx_exit_path"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) { finishPath(true); return KILL; });
  reg({"sx_arg"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t i = concOp(ci.args[0], 32);
    r = Val(i < args.size() ? (uint64_t)args[i] : 0);
    return NEXT;
  });
  reg({"sx_native"}, [](const CallInfo&, std::vector<Val>& a, Val& r) { r = Val(0); return NEXT; });
  reg({"sx_self"}, [this](const CallInfo&, std::vector<Val>& a, Val& r) { r = Val(S->cur); return NEXT; });
  reg({"sx_shared_alloc"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t n = concOp(ci.args[0], 64);
    if (S->shared.use_count() > 1) S->shared = std::make_shared<Memory>(*S->shared);
    r = Val((S->shared->alloc(n, Kind::Global, true, &sharedD) + SHARED_BASE) << ADDR_SHIFT);
    return NEXT;
  });
  reg({"sx_spawn"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t fp = a[0].c;
    Func& f = *P.funcs[(fp & OFF_MASK) / 16];
    auto np = std::make_shared<Proc>();
    new (&np->mem) Memory(pr->mem);
    P.ensureLowered(f);
    f.executed = true;
    auto n = std::make_shared<Frame>();
    n->f = &f;
    n->r.resize(f.nregs);
    n->r[0] = a[1];
    np->stack.push_back(n);
    S->procs.push_back(np);
    r = Val(S->procs.size() - 1);
    return NEXT;
  });
  reg({"sx_switch"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    uint64_t p = concOp(ci.args[0], 32);
    if (p >= S->procs.size()) return error("switch to unknown process");
    if (ci.edge >= 0) takeEdge(*fr, fr->f->edges[ci.edge]); else fr->pc++;
    S->cur = p;
    reload();
    return AGAIN;
  });
  reg({"sx_mathd"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    if (!a[1].conc() || !a[2].conc()) return error("symbolic " + n);
    double x, y, z = 0;
    memcpy(&x, &a[1].c, 8); memcpy(&y, &a[2].c, 8);
    if (n == "log") z = std::log(x); else if (n == "exp") z = std::exp(x); else if (n == "pow") z = std::pow(x, y); else if (n == "log2") z = std::log2(x); else if (n == "log10") z = std::log10(x); else if (n == "log1p") z = std::log1p(x);
    else return error("math " + n);
    uint64_t o; memcpy(&o, &z, 8);
    r = Val(o);
    return NEXT;
  });
  reg({"sx_debug"}, [this](const CallInfo& ci, std::vector<Val>& a, Val& r) {
    std::string n;
    readStr(a[0].c, n);
    fprintf(stderr, "[p%d] %s %s\n", S->cur, n.c_str(), a[1].conc() ? std::to_string((int64_t)a[1].c).c_str() : toStr(a[1].e, 10).c_str());
    return NEXT;
  });
}

void Exec::run() {
  auto it = P.byName.find(entry);
  if (it == P.byName.end()) { errors.insert("no entry function " + entry); return; }
  auto st = std::make_unique<State>();
  auto p0 = std::make_shared<Proc>();
  new (&p0->mem) Memory(P.init);
  st->procs.push_back(p0);
  st->shared = std::make_shared<Memory>();
  st->mver = ++mverCtr;
  st->pending.push_back(it->second);
  std::vector<std::pair<uint64_t, int>> ctors;
  if (auto* g = P.mod.getGlobalVariable("llvm.global_ctors"))
    if (auto* arr = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer()))
      for (auto& o : arr->operands()) {
        auto* cs = llvm::cast<llvm::ConstantStruct>(o);
        if (auto* f = llvm::dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), P.funcOf(f)});
      }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (size_t i = ctors.size(); i-- > 0;) st->pending.push_back(ctors[i].second);
  work.push_back(std::move(st));
  while (!work.empty() && !stop) {
    S = std::move(work.back());
    work.pop_back();
    reload();
    if (!fr) {
      int f = S->pending.back();
      S->pending.pop_back();
      if (!pushFrame(*P.funcs[f], {}, nullptr)) continue;
    }
    uint64_t n = 0;
    for (;;) {
      Ctl c = step();
      S->steps++;
      totalSteps++;
      if (c == KILL) break;
      if (S->steps > maxSteps) { violation("steps", "no termination within the step bound"); break; }
      if (((++n & 0xfff) == 0 || askedLong) && (askedLong = false, now() - start > maxTime)) { incomplete = true; stop = true; break; }
    }
    if (paths >= maxPaths) { incomplete = true; break; }
    if (now() - start > maxTime) { if (!work.empty()) incomplete = true; break; }
    S.reset();
  }
}

int main(int argc, char** argv) {
  std::string bc, out;
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  if (argc < 2) return 3;
  bc = argv[1];
  auto m = llvm::parseIRFile(bc, err, ctx);
  if (!m) { err.print("sx", llvm::errs()); return 3; }
  Program P(*m);
  Exec X(P);
  X.start = now();
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") X.entry = val();
    else if (a == "--out") out = val();
    else if (a == "--max-time") X.maxTime = std::stod(val());
    else if (a == "--max-steps") X.maxSteps = std::stoull(val());
    else if (a == "--max-paths") X.maxPaths = std::stoull(val());
    else if (a == "--max-viol") X.maxViol = std::stoul(val());
    else if (a == "--ite") X.iteMax = std::stoul(val());
    else if (a == "--witnesses") X.nWitness = std::stoul(val());
    else if (a == "--seed") X.rng ^= std::stoull(val()) * 0x9E3779B97F4A7C15ull;
    else if (a == "--hard-timeout") gHardTimeout = std::stod(val());
    else if (a == "--arg") X.args.push_back(std::stoll(val()));
    else { fprintf(stderr, "sx: unknown option %s\n", a.c_str()); return 3; }
  }
  gDeadline = X.start + X.maxTime;
  X.run();
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  double wall = now() - X.start;
  auto& st = gSolverStats;
  fprintf(o, "{\"entry\":\"%s\",\"args\":[", X.entry.c_str());
  for (size_t i = 0; i < X.args.size(); i++) fprintf(o, "%s%lld", i ? "," : "", (long long)X.args[i]);
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(o, "],\n\"wall\":%.3f,\"maxrss_mb\":%ld,\"paths\":%llu,\"aborted\":%llu,\"assumed_away\":%llu,\"instructions\":%llu,\"forks\":%llu,\"symbolic_branches\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"symbolic_memory_checks\":%llu,\"max_depth\":%llu,\n", wall, ru.ru_maxrss / 1024, (unsigned long long)X.paths, (unsigned long long)X.aborted, (unsigned long long)X.assumed, (unsigned long long)X.totalSteps, (unsigned long long)X.forks, (unsigned long long)X.symBranches, (unsigned long long)X.asserts, (unsigned long long)X.symAsserts, (unsigned long long)X.memChecks, (unsigned long long)X.maxDepth);
  fprintf(o, "\"solver\":{\"queries\":%llu,\"cache_hits\":%llu,\"z3\":%llu,\"z3_integer\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"time\":%.3f,\"max_query\":%.3f},\n", (unsigned long long)st.queries, (unsigned long long)st.cacheHits, (unsigned long long)st.z3, (unsigned long long)st.z3int, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, st.time, st.maxTime);
  fprintf(o, "\"complete\":%s,\"stopped\":%s,\n\"errors\":[", X.incomplete ? "false" : "true", X.stop ? "true" : "false");
  bool first = true;
  for (auto& e : X.errors) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
  fprintf(o, "],\n\"covers\":{");
  first = true;
  for (auto& c : X.coverCount) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(o, "},\n\"goals\":[");
  first = true;
  for (auto& g : X.goals) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(g).c_str()); first = false; }
  fprintf(o, "],\n\"missing_goals\":[");
  first = true;
  for (auto& g : X.goals) if (!X.covers.count(g)) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(g).c_str()); first = false; }
  fprintf(o, "],\n\"functions\":[");
  first = true;
  std::set<std::string> fns;
  for (auto& f : P.funcs) {
    if (!f->executed || !f->defined) continue;
    if (f->file.find("DPPIR/") != std::string::npos || f->pretty.rfind("DPPIR", 0) == 0) fns.insert(f->pretty);
    for (auto& i : f->inlined) if (i.find("DPPIR::") != std::string::npos) fns.insert(i);
  }
  for (auto& f : fns) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(f).c_str()); first = false; }
  fprintf(o, "],\n\"violations\":[");
  first = true;
  auto pairs = [&](const std::vector<std::pair<std::string, uint64_t>>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::string("[\"") + jesc(v[i].first) + "\"," + std::to_string(v[i].second) + "]";
    return s + "]";
  };
  for (auto& v : X.viols) {
    fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":%s,\"trace\":[", first ? "" : ",\n", v.kind.c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), pairs(v.inputs).c_str());
    for (size_t i = 0; i < v.trace.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(v.trace[i]).c_str());
    fprintf(o, "]}");
    first = false;
  }
  fprintf(o, "],\n\"witnesses\":[");
  first = true;
  for (auto& w : X.wit) { fprintf(o, "%s{\"aborted\":%s,\"inputs\":%s,\"notes\":%s}", first ? "" : ",\n", w.aborted ? "true" : "false", pairs(w.in).c_str(), pairs(w.notes).c_str()); first = false; }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  fflush(stdout);
  _exit(0);
}
