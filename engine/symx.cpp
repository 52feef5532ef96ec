#include <thread>
#include <chrono>
// symx: bounded symbolic executor for LLVM IR with z3 as the deciding solver.
#include "num.h"
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
using namespace llvm;
typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

// ------------------------------------------------------------------ options
static std::map<std::string, long> g_params;
static std::string g_entry = "vf_main", g_out, g_root = "/repo", g_logic;
static double g_totalTimeout = 600; static unsigned g_queryTimeout = 60000; static int g_jobs = 1;
static unsigned long g_maxSteps = 400000000ul; static unsigned g_maxEnum = 4096; static unsigned g_maxViol = 6;
static bool g_verbose = false, g_trace = false; static long g_preempt = 0;
static Clk::time_point g_start;

// ------------------------------------------------------------------ memory
struct Cell { uint32_t off; uint32_t size; Val v; };
struct MemObj {
    uint64_t size = 0; std::vector<uint8_t> b; std::vector<Cell> cells; // cells sorted by off
    bool freed = false, ro = false; uint8_t kind = 0; // 0 global 1 stack 2 heap
};
typedef std::shared_ptr<MemObj> ObjP;
struct Chunk { ObjP o[64]; };
struct MemErr { std::string msg; };
static const unsigned OSH = 32;
struct Memory {
    std::vector<std::shared_ptr<Chunk>> ch; uint64_t next = 16; std::vector<uint32_t> freeStack;
    ObjP* slotR(uint64_t idx) { uint64_t c = idx >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return &ch[c]->o[idx & 63]; }
    ObjP& slotW(uint64_t idx) {
        uint64_t c = idx >> 6; if (c >= ch.size()) ch.resize(c + 1);
        if (!ch[c]) ch[c] = std::make_shared<Chunk>();
        else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
        return ch[c]->o[idx & 63];
    }
    uint64_t alloc(uint64_t size, uint8_t kind, int fill = 0xBE) {
        uint64_t idx;
        if (kind == 1 && !freeStack.empty()) { idx = freeStack.back(); freeStack.pop_back(); }
        else idx = next++;
        auto o = std::make_shared<MemObj>(); o->size = size; o->b.assign(size, (uint8_t)fill); o->kind = kind;
        slotW(idx) = o; return idx << OSH;
    }
    void freeStackObj(uint64_t addr) { uint64_t i = addr >> OSH; slotW(i).reset(); freeStack.push_back((uint32_t)i); }
    MemObj* R(uint64_t addr, uint64_t n, const char* what) {
        ObjP* p = slotR(addr >> OSH); uint64_t off = addr & 0xffffffffu;
        if (addr < (16ull << OSH)) throw MemErr{std::string("null/wild pointer ") + what};
        if (!p || !*p) throw MemErr{std::string("invalid pointer ") + what};
        MemObj* o = p->get();
        if (o->freed) throw MemErr{std::string("use after free ") + what};
        if (off + n > o->size) throw MemErr{std::string("out-of-bounds ") + what + " (object size " + std::to_string(o->size) + ", offset " + std::to_string((int64_t)(int32_t)off) + ", access " + std::to_string(n) + ")"};
        return o;
    }
    MemObj* W(uint64_t addr, uint64_t n, const char* what = "write") {
        MemObj* o = R(addr, n, what); if (o->ro) throw MemErr{"write to constant"};
        ObjP& p = slotW(addr >> OSH);
        if (p.use_count() > 1) p = std::make_shared<MemObj>(*p);
        return p.get();
    }
};
static std::vector<Cell>::iterator firstCell(MemObj* o, uint32_t off) { // first cell with off+size > off
    auto it = std::lower_bound(o->cells.begin(), o->cells.end(), off, [](const Cell& c, uint32_t f) { return c.off + c.size <= f; });
    return it;
}
static Val loadBytes(MemObj* o, uint32_t off, uint32_t n, bool isInt);
static void storeVal(MemObj* o, uint32_t off, uint32_t n, Val v);
static void splitCell(MemObj* o, size_t i) { // break a symbolic INT cell into bytes
    Cell c = o->cells[i];
    if (c.v.s->kind == K_FP) { c.v = Val(mkInt(intAst(c.v, 64), 64)); }
    if (c.v.s->kind != K_INT) throw Unsupported{"partial access to a symbolic double"};
    Z3_ast a = c.v.s->a;
    if (c.v.s->w == 1) a = keep(Z3_mk_ite(Z, a, bvconst(1, 8), bvconst(0, 8)));
    unsigned w = c.v.s->w == 1 ? 8 : c.v.s->w;
    if (w < c.size * 8) { a = keep(Z3_mk_zero_ext(Z, c.size * 8 - w, a)); }
    std::vector<Cell> nb;
    for (uint32_t k = 0; k < c.size; k++) nb.push_back(Cell{c.off + k, 1, Val(mkInt(c.size == 1 ? a : keep(Z3_mk_extract(Z, 8 * k + 7, 8 * k, a)), 8))});
    o->cells.erase(o->cells.begin() + i);
    o->cells.insert(o->cells.begin() + i, nb.begin(), nb.end());
}
static void clearCells(MemObj* o, uint32_t off, uint32_t n) {
    if (o->cells.empty()) return;
    for (;;) {
        auto it = firstCell(o, off);
        if (it == o->cells.end() || it->off >= off + n) return;
        if (it->off >= off && it->off + it->size <= off + n) { o->cells.erase(it); continue; }
        splitCell(o, it - o->cells.begin());
    }
}
static void storeVal(MemObj* o, uint32_t off, uint32_t n, Val v) {
    clearCells(o, off, n);
    if (!v.s) { uint64_t c = v.c; for (uint32_t i = 0; i < n; i++) o->b[off + i] = i < 8 ? (uint8_t)(c >> (8 * i)) : 0; return; }
    auto it = firstCell(o, off); o->cells.insert(it, Cell{off, n, v});
}
static Val loadBytes(MemObj* o, uint32_t off, uint32_t n, bool) {
    if (!o->cells.empty()) {
        auto it = firstCell(o, off);
        if (it != o->cells.end() && it->off < off + n) {
            if (it->off == off && it->size == n) return it->v;
            // compose
            Z3_ast r = nullptr; // little endian
            for (uint32_t k = 0; k < n; k++) {
                auto c = firstCell(o, off + k); Z3_ast byte;
                if (c != o->cells.end() && c->off <= off + k) {
                    const Sym* s = c->v.s; Z3_ast a;
                    if (s->kind == K_FP) a = intAst(c->v, 64);
                    else if (s->kind != K_INT) throw Unsupported{"partial access to a symbolic double"};
                    else a = s->w == 1 ? keep(Z3_mk_ite(Z, s->a, bvconst(1, 8), bvconst(0, 8))) : s->a;
                    unsigned w = s->kind == K_FP ? 64 : s->w == 1 ? 8 : s->w; uint32_t kk = off + k - c->off;
                    if (8 * kk >= w) byte = bvconst(0, 8); else byte = w == 8 ? a : keep(Z3_mk_extract(Z, 8 * kk + 7, 8 * kk, a));
                } else byte = bvconst(o->b[off + k], 8);
                r = r ? keep(Z3_mk_concat(Z, byte, r)) : byte;
            }
            return Val(mkInt(r, n * 8));
        }
    }
    uint64_t c = 0; for (uint32_t i = 0; i < n && i < 8; i++) c |= (uint64_t)o->b[off + i] << (8 * i);
    return Val(c);
}
static void copyMem(Memory& m, uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    if (d == s) { m.R(s, n, "read (memcpy)"); return; }
    MemObj* so = m.R(s, n, "read (memcpy)"); uint32_t sof = (uint32_t)s, dof = (uint32_t)d;
    std::vector<uint8_t> tmp(so->b.begin() + sof, so->b.begin() + sof + n);
    std::vector<Cell> cs;
    if (!so->cells.empty()) {
        bool split = false;
        for (auto it = firstCell(so, sof); it != so->cells.end() && it->off < sof + n; ++it) if (it->off < sof || it->off + it->size > sof + n) split = true;
        if (split) {
            so = m.W(s, n);
            for (size_t i = 0; i < so->cells.size(); i++) { auto& c = so->cells[i]; if (c.off < sof + n && c.off + c.size > sof && (c.off < sof || c.off + c.size > sof + n)) splitCell(so, i); }
        }
        for (auto it = firstCell(so, sof); it != so->cells.end() && it->off < sof + n; ++it) cs.push_back(Cell{it->off - sof + dof, it->size, it->v});
    }
    MemObj* dob = m.W(d, n, "write (memcpy)");
    clearCells(dob, dof, n);
    std::copy(tmp.begin(), tmp.end(), dob->b.begin() + dof);
    if (!cs.empty()) { auto it = firstCell(dob, dof); dob->cells.insert(it, cs.begin(), cs.end()); }
}

// ------------------------------------------------------------------ decoded code
struct DFunc;
struct Opr { int slot; Val k; };
enum Opc : uint8_t {
    O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_ICMP, O_FCMP, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_TRUNC, O_ZEXT, O_SEXT, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_CASTNOP,
    O_FPEXT, O_FPTRUNC, O_SELECT, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_UNREACHABLE, O_LANDINGPAD, O_RESUME, O_EXTRACTV, O_INSERTV,
    O_EXTRACTE, O_INSERTE, O_SHUFFLE, O_RMW, O_CMPXCHG, O_FENCE, O_VEC, O_UNSUP
};
struct TyI { uint8_t cls; uint32_t bits; uint32_t bytes; Type* t; }; // cls 0 int/ptr 1 double 2 float 3 agg/vector 4 void
struct Inst {
    Opc op; uint8_t sub = 0; bool exec = false; int dst = -1; TyI ty; TyI ty2; std::vector<Opr> ops; std::vector<std::pair<int, int64_t>> gep; int64_t cOff = 0;
    std::vector<int> bbs; std::vector<std::pair<uint64_t, int>> cases; std::vector<unsigned> idx; const Instruction* I = nullptr;
    DFunc* callee = nullptr; Opr calleeOp; int normal = -1, unwind = -1; bool tail = false;
};
struct PhiN { int dst; std::vector<std::pair<int, Opr>> in; };
struct DBB { uint32_t start; std::vector<PhiN> phis; };
struct State;
typedef std::function<void(State&, const Inst&, std::vector<Val>&)> Builtin;
struct DFunc {
    Function* F = nullptr; std::string name; bool decoded = false; std::vector<Inst> code; std::vector<DBB> bbs; int nslots = 0; Builtin* bi = nullptr; uint64_t addr = 0; bool isDecl = false;
};
static std::unordered_map<const Function*, DFunc*> g_funcs;
static std::unordered_map<uint64_t, DFunc*> g_funcByAddr;
static Module* M; static const DataLayout* DL;
static std::unordered_map<const GlobalVariable*, uint64_t> g_gaddr;
static std::map<std::string, Builtin> g_builtins;
static Memory g_initMem;

// ------------------------------------------------------------------ state
struct Frame { DFunc* f; std::vector<Val> r; uint32_t pc = 0; int prevBB = -1; std::vector<uint64_t> allocas; int flag = 0; std::vector<Val> varargs; };
enum TStat : uint8_t { T_RUN, T_MUTEX, T_COND, T_JOIN, T_TEAM, T_BARRIER, T_DONE, T_RWL };
struct Thread {
    std::vector<Frame> st; TStat stat = T_RUN; uint64_t waitA = 0, waitM = 0; int team = -1, ttid = 0; int joinTeam = -1; uint64_t ret = 0; uint64_t exc = 0; const GlobalVariable* excTy = nullptr; std::vector<uint64_t> caught; int rank = -1; long no = 0; bool detached = false, skipPt = false; std::vector<uint32_t> vc;
    std::vector<std::pair<uint64_t,const GlobalVariable*>> caughtTy;
};
struct Team { int n; int arrived = 0; int gen = 0; std::map<int, std::array<int64_t, 5>> disp; bool dispInit = false; std::array<int64_t, 5> d; int dispSeq = 0; std::vector<int> dcount; std::vector<uint64_t> copyp; };
struct MutexS { int owner = -1; int type = 0; int count = 0; bool dead = false; };
// happens-before race detection (vector clocks): last write and the reads since, per byte
struct RaceC { int wt = -1; uint32_t wc = 0; const Instruction* wi = nullptr; std::vector<std::pair<int, uint32_t>> rd; const Instruction* ri = nullptr; };
struct VFile { std::string name; uint64_t obj = 0; uint64_t size = 0; };
struct VHandle { int file; uint64_t pos; bool eof; bool w; };
struct Input { std::string name; const Sym* s; char kind; double dconst; }; // kind i,f(fix),r,p
struct State {
    Memory mem; std::vector<Thread> th; int cur = 0;
    std::vector<Z3_ast> pc; Z3_model model = nullptr;
    std::unordered_map<Z3_ast, bool> known; std::unordered_map<const Sym*, uint64_t> conc; std::unordered_map<const Sym*, Big> concB;
    std::vector<Input> inputs; std::map<std::string, int> inCount;
    std::map<uint64_t, MutexS> mtx; std::map<uint64_t, int> mattr; std::map<uint64_t, int> rwl;
    std::vector<Team> teams; int ompThreads = 2; int ompPush = 0; long made = 0; uint64_t steps = 0; uint64_t lcg = 12345;
    std::vector<VFile> files; std::map<uint64_t, VHandle> handles; std::map<std::string, uint64_t> excNames;
    int schedMode = 0; int preemptLeft = 0; const Sym* pendSched = nullptr; std::vector<int> schedTrace; bool skipSched = false; bool yieldNow = false;
    int raceMode = 0; std::unordered_map<uint64_t, RaceC> shadow; std::map<uint64_t, std::vector<uint32_t>> syncvc; std::vector<uint64_t> raceIgn;
    int allowExit = 0; std::vector<std::string> notes; int forks = 0; bool exited = false; int exitCode = 0;
    Thread& T() { return th[cur]; }
    Frame& F() { return th[cur].st.back(); }
};
static State* S; // current

// ------------------------------------------------------------------ statistics
struct Viol { std::string kind, label, loc, detail; std::vector<std::string> inputs; std::vector<int> sched; };
static std::vector<Viol> g_viol; static std::map<std::string, int> g_violCount;
static unsigned long st_paths, st_killed, st_queries, st_qsat, st_qunsat, st_qunk, st_insts, st_asserts, st_forks, st_modelhits, st_deadlocks, st_enums;
static double st_solver, st_maxq;
static std::map<std::string, std::array<unsigned long, 2>> g_assertStat; // label -> {checked, solver-decided}
static std::map<std::string, unsigned long> g_covers; static std::map<std::string, unsigned long> g_unsup;
static std::vector<std::string> g_samples; static std::vector<std::vector<std::string>> g_sampleIn;
static bool g_timedOut = false;

// ------------------------------------------------------------------ solver
static Z3_solver g_sol; static std::vector<Z3_ast> g_sstack;
static void mkSolver() {
    if (g_logic == "QF_BV") {
        g_sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    } else if (g_logic == "simple") g_sol = Z3_mk_simple_solver(Z);
    else g_sol = Z3_mk_solver(Z);
    Z3_solver_inc_ref(Z, g_sol);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_queryTimeout);
    Z3_solver_set_params(Z, g_sol, p); Z3_params_dec_ref(Z, p);
    g_sstack.clear();
}
static void syncSolver(const std::vector<Z3_ast>& pc) {
    size_t i = 0; while (i < pc.size() && i < g_sstack.size() && pc[i] == g_sstack[i]) i++;
    if (g_sstack.size() > i) { Z3_solver_pop(Z, g_sol, g_sstack.size() - i); g_sstack.resize(i); }
    for (; i < pc.size(); i++) { Z3_solver_push(Z, g_sol); Z3_solver_assert(Z, g_sol, pc[i]); g_sstack.push_back(pc[i]); }
}
static Z3_model g_lastModel;
struct TimeUp {};
static Z3_lbool query(State& st, Z3_ast extra) {
    if (since(g_start) > g_totalTimeout) throw TimeUp{};
    auto t = Clk::now();
    syncSolver(st.pc);
    Z3_lbool r; bool pushed = false;
    if (extra) { Z3_solver_push(Z, g_sol); Z3_solver_assert(Z, g_sol, extra); pushed = true; }
    r = Z3_solver_check(Z, g_sol);
    if (r == Z3_L_TRUE) { g_lastModel = Z3_solver_get_model(Z, g_sol); Z3_model_inc_ref(Z, g_lastModel); }
    if (r == Z3_L_UNDEF) { // retry non-incrementally with the tactic solver
        Z3_solver s2 = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s2);
        Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
        Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_queryTimeout); Z3_solver_set_params(Z, s2, p); Z3_params_dec_ref(Z, p);
        for (auto a : st.pc) Z3_solver_assert(Z, s2, a);
        if (extra) Z3_solver_assert(Z, s2, extra);
        r = Z3_solver_check(Z, s2);
        if (r == Z3_L_TRUE) { g_lastModel = Z3_solver_get_model(Z, s2); Z3_model_inc_ref(Z, g_lastModel); }
        Z3_solver_dec_ref(Z, s2);
    }
    if (pushed) Z3_solver_pop(Z, g_sol, 1);
    double e = since(t); st_solver += e; if (e > st_maxq) st_maxq = e; st_queries++;
    if (g_verbose && e > 5) fprintf(stderr, "[slow query %.1fs]\n", e);
    if (r == Z3_L_TRUE) st_qsat++; else if (r == Z3_L_FALSE) st_qunsat++; else { st_qunk++; if (since(g_start) > g_totalTimeout) throw TimeUp{}; throw Unsupported{"solver returned unknown (timeout)"}; }
    return r;
}
static bool modelEval(Z3_model m, Z3_ast a, Z3_ast& out) { bool ok = Z3_model_eval(Z, m, a, true, &out); if (ok) Z3_inc_ref(Z, out); return ok; }
static int modelBool(State& st, Z3_ast a) {
    if (!st.model) return -1;
    Z3_ast v; if (!modelEval(st.model, a, v)) return -1;
    Z3_lbool b = Z3_get_bool_value(Z, v); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static Z3_model g_forkModelT, g_forkModelF;
static void ensureModel(State& st) { if (!st.model) { if (query(st, nullptr) != Z3_L_TRUE) throw Unsupported{"path condition unsat"}; st.model = g_lastModel; } }
bool decide(Z3_ast c) {
    if (c == zbool(true)) return true; if (c == zbool(false)) return false;
    auto it = S->known.find(c); if (it != S->known.end()) return it->second;
    Z3_ast n = znot(c); it = S->known.find(n); if (it != S->known.end()) return !it->second;
    ensureModel(*S);
    int b = modelBool(*S, c);
    if (b < 0) {
        Z3_lbool t = query(*S, c); Z3_model mt = g_lastModel; Z3_lbool f = query(*S, n); Z3_model mf = g_lastModel;
        if (t != Z3_L_TRUE) { S->known[c] = false; return false; }
        if (f != Z3_L_TRUE) { S->known[c] = true; return true; }
        g_forkModelT = mt; g_forkModelF = mf; throw NeedFork{c};
    }
    st_modelhits++;
    Z3_lbool o = query(*S, b ? n : c);
    if (o == Z3_L_FALSE) { S->known[c] = b; return b; }
    g_forkModelT = b ? S->model : g_lastModel; g_forkModelF = b ? g_lastModel : S->model;
    throw NeedFork{c};
}
static uint64_t modelInt(Z3_model m, const Sym* s) {
    Z3_ast v; if (!modelEval(m, s->a, v)) throw Unsupported{"model evaluation"};
    if (s->kind == K_INT && s->w == 1) return Z3_get_bool_value(Z, v) == Z3_L_TRUE;
    if (s->kind == K_FP) { Z3_ast b; modelEval(m, keep(Z3_mk_fpa_to_ieee_bv(Z, s->a)), b); v = b; }
    uint64_t u; if (!Z3_get_numeral_uint64(Z, v, &u)) throw Unsupported{"numeral too wide"}; return u;
}
static Z3_ast eqConst(const Sym* s, uint64_t v) {
    if (s->kind == K_INT && s->w == 1) return v ? s->a : znot(s->a);
    return keep(Z3_mk_eq(Z, s->a, keep(Z3_mk_unsigned_int64(Z, v, Z3_get_sort(Z, s->a)))));
}
uint64_t concretizeInt(const Sym* s) {
    auto it = S->conc.find(s); if (it != S->conc.end()) return it->second;
    ensureModel(*S);
    uint64_t v = modelInt(S->model, s);
    if (query(*S, znot(eqConst(s, v))) == Z3_L_FALSE) { S->conc[s] = v; return v; }
    throw NeedEnum{s};
}
double ratToD(const Big& n, const Big& d);
static Big modelBig(Z3_model m, const Sym* s) {
    Z3_ast v; if (!modelEval(m, s->a, v)) throw Unsupported{"model evaluation"};
    Big b(Z3_get_numeral_string(Z, v)); if (s->w && b >= (Big(1) << (s->w - 1))) b -= (Big(1) << s->w); return b;
}
static Z3_ast eqBig(const Sym* s, const Big& b) { return keep(Z3_mk_eq(Z, s->a, bvconst(b, s->w))); }
double concretizeNum(const Sym* s) {
    if (s->kind == K_FIX) {
        if (s->lo == s->hi) return ratToD(s->lo, s->den);
        if (s->w > 64) {
            auto it = S->concB.find(s); if (it != S->concB.end()) return ratToD(it->second, s->den);
            ensureModel(*S); Big b = modelBig(S->model, s);
            if (query(*S, znot(eqBig(s, b))) == Z3_L_FALSE) { S->concB[s] = b; return ratToD(b, s->den); }
            throw NeedEnum{s};
        }
        uint64_t u = concretizeInt(s); int64_t i = s->w == 64 ? (int64_t)u : ((int64_t)(u << (64 - s->w)) >> (64 - s->w));
        return ratToD(Big(i), s->den);
    }
    if (s->kind == K_SQRT) { double d = std::sqrt(concretizeNum(s->arg)); return s->neg ? -d : d; }
    if (s->kind == K_SUM) { double d = s->arg ? concretizeNum(s->arg) : 0; for (auto& t : s->terms) d += t.sign * std::sqrt(concretizeNum(t.f)); return d; }
    throw Unsupported{"concretisation of a REAL/FP value"};
}
void addSideConstraint(Z3_ast a) {
    for (auto p : S->pc) if (p == a) return;
    S->pc.push_back(a); S->model = nullptr;
}

// ------------------------------------------------------------------ constants / decode
static TyI tyi(Type* t) {
    TyI r; r.t = t; r.cls = 4; r.bits = 0; r.bytes = 0;
    if (t->isVoidTy()) return r;
    if (t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return r;
    if (t->isSized()) r.bytes = DL->getTypeStoreSize(t);
    if (t->isIntegerTy()) { r.cls = 0; r.bits = t->getIntegerBitWidth(); }
    else if (t->isPointerTy()) { r.cls = 0; r.bits = 64; }
    else if (t->isDoubleTy()) { r.cls = 1; r.bits = 64; }
    else if (t->isFloatTy()) { r.cls = 2; r.bits = 32; }
    else r.cls = 3;
    return r;
}
static uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static DFunc* getF(Function* F);
static Val mkAgg(std::vector<Val> v) { Sym* s = new Sym; s->kind = K_AGG; s->agg = std::move(v); return Val(s); }
static unsigned aggN(Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) return st->getNumElements();
    if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements();
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    throw Unsupported{"aggregate type"};
}
static Type* aggT(Type* t, unsigned i) {
    if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(i);
    if (auto* at = dyn_cast<ArrayType>(t)) return at->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static uint64_t aggOff(Type* t, unsigned i) {
    if (auto* st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i);
    return i * DL->getTypeAllocSize(aggT(t, i));
}
static Val zeroOf(Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) v.push_back(zeroOf(aggT(t, i))); return mkAgg(v); }
    return Val((uint64_t)0);
}
static Val cval(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) return Val(ci->getValue().getZExtValue()); throw Unsupported{"wide integer constant"}; } return Val(ci->getZExtValue()); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isDoubleTy()) return D(cf->getValueAPF().convertToDouble());
        if (c->getType()->isFloatTy()) return Val(fromF(cf->getValueAPF().convertToFloat()));
        throw Unsupported{"fp constant type"};
    }
    if (isa<ConstantPointerNull>(c)) return Val((uint64_t)0);
    if (isa<UndefValue>(c)) return zeroOf(c->getType());
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* f = dyn_cast<Function>(c)) return Val(getF(const_cast<Function*>(f))->addr);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val(g_gaddr.at(g));
    if (auto* a = dyn_cast<GlobalAlias>(c)) return cval(a->getAliasee());
    if (isa<ConstantTokenNone>(c)) return Val((uint64_t)0);
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { std::vector<Val> v; for (auto& o : c->operands()) v.push_back(cval(cast<Constant>(o))); return mkAgg(v); }
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ds->getNumElements(); i++) v.push_back(cval(ds->getElementAsConstant(i))); return mkAgg(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
                if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
                return Val(cval(cast<Constant>(gep->getPointerOperand())).c + off.getZExtValue());
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return cval(ce->getOperand(0));
            case Instruction::Trunc: return Val(cval(ce->getOperand(0)).c & maskW(ce->getType()->getIntegerBitWidth()));
            case Instruction::Sub: return Val((cval(ce->getOperand(0)).c - cval(ce->getOperand(1)).c) & maskW(ce->getType()->getIntegerBitWidth()));
            case Instruction::Add: return Val((cval(ce->getOperand(0)).c + cval(ce->getOperand(1)).c) & maskW(ce->getType()->getIntegerBitWidth()));
            default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw Unsupported{"constant: " + os.str().substr(0, 200)};
}
static void writeConst(MemObj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); std::copy(r.begin(), r.end(), o->b.begin() + off); return; }
        for (unsigned i = 0; i < aggN(t); i++) writeConst(o, off + aggOff(t, i), cast<Constant>(c->getOperand(i)));
        return;
    }
    Val v = cval(c); uint32_t n = DL->getTypeStoreSize(t);
    for (uint32_t i = 0; i < n; i++) o->b[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
}
static DFunc* getF(Function* F) {
    auto it = g_funcs.find(F); if (it != g_funcs.end()) return it->second;
    DFunc* d = new DFunc; d->F = F; d->name = F->getName().str(); d->isDecl = F->isDeclaration();
    d->addr = g_initMem.alloc(1, 0); g_funcs[F] = d; g_funcByAddr[d->addr] = d; return d;
}
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool g_decodeLate = false;
static void decode(DFunc* d) {
    if (d->decoded) return; d->decoded = true;
    Function* F = d->F; std::unordered_map<const Value*, int> slot; int n = 0;
    for (auto& a : F->args()) slot[&a] = n++;
    std::unordered_map<const BasicBlock*, int> bbi; int bn = 0;
    for (auto& bb : *F) { bbi[&bb] = bn++; for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    d->nslots = n; d->bbs.resize(bn);
    auto opr = [&](const Value* v) -> Opr {
        Opr o; o.slot = -1;
        if (auto* c = dyn_cast<Constant>(v)) { o.k = cval(c); return o; }
        auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { return o; } throw Unsupported{"operand"}; }
        o.slot = it->second; return o;
    };
    for (auto& bb : *F) {
        DBB& B = d->bbs[bbi[&bb]]; B.start = d->code.size();
        for (auto& I : bb) {
            if (auto* p = dyn_cast<PHINode>(&I)) {
                PhiN ph; ph.dst = slot[p]; if (p->getType()->isX86_FP80Ty()) { B.phis.push_back(ph); continue; } for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({bbi[p->getIncomingBlock(i)], opr(p->getIncomingValue(i))});
                B.phis.push_back(ph); continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            Inst x; x.I = &I; x.ty = tyi(I.getType()); x.op = O_UNSUP; x.ty2 = x.ty;
            if (!I.getType()->isVoidTy()) x.dst = slot[&I];
            try {
            auto bin = [&](Opc o) { x.op = o; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1))}; if (x.ty.cls == 3) { x.sub = o; x.op = O_VEC; } };
            auto un = [&](Opc o) { x.op = o; x.ops = {opr(I.getOperand(0))}; x.ty2 = tyi(I.getOperand(0)->getType()); if (x.ty.cls == 3) { x.sub = o; x.op = O_VEC; } };
            switch (I.getOpcode()) {
                case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); x.op = O_ALLOCA; x.ops = {opr(a->getArraySize())}; x.cOff = DL->getTypeAllocSize(a->getAllocatedType()); break; }
                case Instruction::Load: x.op = O_LOAD; x.sub = cast<LoadInst>(&I)->isAtomic(); x.ops = {opr(I.getOperand(0))}; break;
                case Instruction::Store: x.op = O_STORE; x.sub = cast<StoreInst>(&I)->isAtomic(); x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1))}; x.ty = tyi(I.getOperand(0)->getType()); break;
                case Instruction::GetElementPtr: {
                    auto* g = cast<GetElementPtrInst>(&I); x.op = O_GEP; x.ops = {opr(g->getPointerOperand())};
                    if (I.getType()->isVectorTy()) { x.op = O_UNSUP; break; }
                    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        Value* v = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull()) x.cOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
                        else {
                            int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(v)) x.cOff += ci->getSExtValue() * sz;
                            else { Opr o = opr(v); x.ops.push_back(o); x.gep.push_back({(int)v->getType()->getIntegerBitWidth(), sz}); }
                        }
                    }
                    break; }
                case Instruction::Add: bin(O_ADD); break; case Instruction::Sub: bin(O_SUB); break; case Instruction::Mul: bin(O_MUL); break;
                case Instruction::UDiv: bin(O_UDIV); break; case Instruction::SDiv: bin(O_SDIV); break; case Instruction::URem: bin(O_UREM); break; case Instruction::SRem: bin(O_SREM); break;
                case Instruction::And: bin(O_AND); break; case Instruction::Or: bin(O_OR); break; case Instruction::Xor: bin(O_XOR); break;
                case Instruction::Shl: bin(O_SHL); break; case Instruction::LShr: bin(O_LSHR); break; case Instruction::AShr: bin(O_ASHR); break;
                case Instruction::ICmp: bin(O_ICMP); x.sub = cast<ICmpInst>(&I)->getPredicate(); x.ty2 = tyi(I.getOperand(0)->getType()); if (x.op == O_VEC) { x.cOff = x.sub; x.sub = O_ICMP; } break;
                case Instruction::FCmp: bin(O_FCMP); x.sub = cast<FCmpInst>(&I)->getPredicate(); x.ty2 = tyi(I.getOperand(0)->getType()); if (x.op == O_VEC) { x.cOff = x.sub; x.sub = O_FCMP; } break;
                case Instruction::FAdd: bin(O_FADD); break; case Instruction::FSub: bin(O_FSUB); break; case Instruction::FMul: bin(O_FMUL); break; case Instruction::FDiv: bin(O_FDIV); break; case Instruction::FRem: bin(O_FREM); break;
                case Instruction::FNeg: un(O_FNEG); break;
                case Instruction::Trunc: un(O_TRUNC); break; case Instruction::ZExt: un(O_ZEXT); break; case Instruction::SExt: un(O_SEXT); break;
                case Instruction::FPToSI: un(O_FPTOSI); break; case Instruction::FPToUI: un(O_FPTOUI); break; case Instruction::SIToFP: un(O_SITOFP); break; case Instruction::UIToFP: un(O_UITOFP); break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze:
                    un(O_CASTNOP); if (x.op == O_VEC) { if (I.getOpcode() == Instruction::Freeze) x.op = O_CASTNOP; else x.op = O_UNSUP; }
                    else if (x.ty2.cls == 3) x.op = O_UNSUP;
                    else if (I.getOpcode() == Instruction::PtrToInt && x.ty.bits < 64) { x.op = O_TRUNC; } break;
                case Instruction::FPExt: un(O_FPEXT); break; case Instruction::FPTrunc: un(O_FPTRUNC); break;
                case Instruction::Select: x.op = O_SELECT; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1)), opr(I.getOperand(2))}; if (I.getOperand(0)->getType()->isVectorTy()) { x.sub = O_SELECT; x.op = O_VEC; } break;
                case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isConditional()) { x.op = O_CBR; x.ops = {opr(b->getCondition())}; x.bbs = {bbi[b->getSuccessor(0)], bbi[b->getSuccessor(1)]}; } else { x.op = O_BR; x.bbs = {bbi[b->getSuccessor(0)]}; } break; }
                case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); x.op = O_SWITCH; x.ops = {opr(s->getCondition())}; x.ty2 = tyi(s->getCondition()->getType()); x.bbs = {bbi[s->getDefaultDest()]}; for (auto& c : s->cases()) x.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
                case Instruction::Ret: x.op = O_RET; if (I.getNumOperands()) x.ops = {opr(I.getOperand(0))}; break;
                case Instruction::Unreachable: x.op = O_UNREACHABLE; break;
                case Instruction::LandingPad: x.op = O_LANDINGPAD; break;
                case Instruction::Resume: x.op = O_RESUME; x.ops = {opr(I.getOperand(0))}; break;
                case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&I); x.op = O_EXTRACTV; x.ops = {opr(I.getOperand(0))}; x.idx.assign(e->idx_begin(), e->idx_end()); break; }
                case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&I); x.op = O_INSERTV; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1))}; x.idx.assign(e->idx_begin(), e->idx_end()); break; }
                case Instruction::ExtractElement: x.op = O_EXTRACTE; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1))}; break;
                case Instruction::InsertElement: x.op = O_INSERTE; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1)), opr(I.getOperand(2))}; break;
                case Instruction::ShuffleVector: { auto* s = cast<ShuffleVectorInst>(&I); x.op = O_SHUFFLE; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1))}; for (int m : s->getShuffleMask()) x.idx.push_back((unsigned)m); break; }
                case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(&I); x.op = O_RMW; x.sub = a->getOperation(); x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1))}; break; }
                case Instruction::AtomicCmpXchg: x.op = O_CMPXCHG; x.ops = {opr(I.getOperand(0)), opr(I.getOperand(1)), opr(I.getOperand(2))}; x.ty2 = tyi(I.getOperand(1)->getType()); break;
                case Instruction::Fence: x.op = O_FENCE; break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto* c = cast<CallBase>(&I);
                    if (isa<InlineAsm>(c->getCalledOperand())) { x.op = O_FENCE; break; }
                    x.op = O_CALL;
                    for (auto& a : c->args()) x.ops.push_back(opr(a.get()));
                    Value* cv = c->getCalledOperand()->stripPointerCasts();
                    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                    if (auto* f = dyn_cast<Function>(cv)) x.callee = getF(f); else x.calleeOp = opr(cv);
                    if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.normal = bbi[iv->getNormalDest()]; x.unwind = bbi[iv->getUnwindDest()]; }
                    break; }
                default: break;
            }
            } catch (Unsupported&) { x.op = O_UNSUP; }
            d->code.push_back(std::move(x));
        }
    }
}

// ------------------------------------------------------------------ reports
static std::string locOf(const Instruction* I) {
    if (!I) return "?";
    std::string s; const DebugLoc& dl = I->getDebugLoc();
    if (dl) { s = cast<DIScope>(dl.getScope())->getFilename().str() + ":" + std::to_string(dl.getLine()); }
    else s = I->getFunction()->getName().str();
    return s;
}
static std::string backtrace(State& st) {
    std::string r; auto& v = st.T().st;
    for (size_t i = v.size(); i-- > 0 && v.size() - i < 12;) {
        Frame& f = v[i]; if (f.pc < f.f->code.size()) r += locOf(f.f->code[f.pc].I) + " <- ";
    }
    return r;
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::vector<std::string> inputValues(State& st, Z3_model m) {
    std::vector<std::string> out;
    for (auto& in : st.inputs) {
        std::ostringstream os; os << in.name << " " << in.kind << " ";
        if (!in.s) os << "0";
        else if (in.kind == 'f') { Big b = modelBig(m, in.s); char buf[64]; snprintf(buf, sizeof buf, "%.17g", ratToD(b, in.s->den)); os << buf; }
        else if (in.kind == 'i') { os << (int64_t)modelInt(m, in.s); }
        else if (in.kind == 'p') { char buf[64]; uint64_t u = modelInt(m, in.s); snprintf(buf, sizeof buf, "%.17g", asD(u)); os << buf; }
        else { Z3_ast v; modelEval(m, in.s->a, v); std::string t = Z3_get_numeral_decimal_string(Z, v, 30); if (!t.empty() && t.back() == '?') t.pop_back(); os << t; }
        out.push_back(os.str());
    }
    return out;
}
static void report(State& st, const std::string& kind, const std::string& label, const std::string& detail, Z3_model m) {
    std::string key = kind + "|" + label;
    g_violCount[key]++;
    if (g_violCount[key] > 3) return; // keep up to 3 examples per label
    Viol v; v.kind = kind; v.label = label; v.detail = detail; v.loc = backtrace(st);
    if (!m) { ensureModel(st); m = st.model; }
    v.inputs = inputValues(st, m); v.sched = st.schedTrace; g_viol.push_back(v);
    if (g_verbose) { fprintf(stderr, "VIOL %s %s %s @ %s\n", kind.c_str(), label.c_str(), detail.c_str(), v.loc.c_str()); for (auto& s : v.inputs) fprintf(stderr, "   %s\n", s.c_str()); }
}
struct PathEnd { };   // path terminated (killed / reported)

// ------------------------------------------------------------------ execution helpers
static inline Val getv(Frame& f, const Opr& o) { return o.slot >= 0 ? f.r[o.slot] : o.k; }
static void endPath(State& st) { st.th.resize(1); st.cur = 0; st.T().st.clear(); st.T().stat = T_DONE; st.exited = true; }   // the process ends here, as the harness allows
static uint64_t cint(Val v) { if (!v.s) return v.c; if (v.s->kind != K_INT) throw Unsupported{"symbolic double used as integer/pointer"}; return concretizeInt(v.s); }
static uint64_t sextc(uint64_t c, unsigned w) { return w >= 64 ? c : (uint64_t)((int64_t)(c << (64 - w)) >> (64 - w)); }
static void rangeOf(Val v, unsigned w, uint64_t& lo, uint64_t& hi) {
    if (!v.s) { lo = hi = v.c; return; }
    if (v.s->hasRange) { lo = v.s->ulo; hi = v.s->uhi; } else { lo = 0; hi = maskW(w); }
}
static Val withRange(Z3_ast a, unsigned w, uint64_t lo, uint64_t hi) { Sym* s = (Sym*)mkInt(a, w); s->hasRange = true; s->ulo = lo; s->uhi = hi; return Val(s); }
static Val binop(Opc op, unsigned w, Val a, Val b) {
    if (!a.s && !b.s && w <= 64) {
        uint64_t m = maskW(w), x = a.c & m, y = b.c & m, r = 0;
        switch (op) {
            case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break;
            case O_UDIV: if (!y) throw MemErr{"integer division by zero"}; r = x / y; break;
            case O_UREM: if (!y) throw MemErr{"integer division by zero"}; r = x % y; break;
            case O_SDIV: { if (!y) throw MemErr{"integer division by zero"}; int64_t p = sextc(x, w), q = sextc(y, w); r = (q == -1) ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q); break; }
            case O_SREM: { if (!y) throw MemErr{"integer division by zero"}; int64_t p = sextc(x, w), q = sextc(y, w); r = q == -1 ? 0 : (uint64_t)(p % q); break; }
            case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
            case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break;
            case O_ASHR: { int64_t p = sextc(x, w); r = (uint64_t)(p >> (y >= w ? w - 1 : y)); break; }
            default: break;
        }
        return Val(r & m);
    }
    if (w > 64) throw Unsupported{"integer wider than 64 bits"};
    if (w == 1) {
        Z3_ast x = intAst(a, 1), y = intAst(b, 1);
        switch (op) {
            case O_AND: return boolVal(zand(x, y)); case O_OR: return boolVal(zor(x, y));
            case O_XOR: case O_ADD: case O_SUB: if (y == zbool(true)) return boolVal(znot(x)); if (x == zbool(true)) return boolVal(znot(y)); if (y == zbool(false)) return a; if (x == zbool(false)) return b; return boolVal(keep(Z3_mk_xor(Z, x, y)));
            case O_MUL: return boolVal(zand(x, y));
            default: throw Unsupported{"i1 op"};
        }
    }
    if (!b.s) {
        uint64_t y = b.c & maskW(w);
        if (y == 0 && (op == O_ADD || op == O_SUB || op == O_OR || op == O_XOR || op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
        if (y == 0 && (op == O_MUL || op == O_AND)) return Val((uint64_t)0);
        if (y == 1 && (op == O_MUL || op == O_UDIV || op == O_SDIV)) return a;
        if (op == O_AND && y == maskW(w)) return a;
    }
    if (!a.s) { uint64_t x = a.c & maskW(w); if (x == 0 && (op == O_ADD || op == O_OR || op == O_XOR)) return b; if (x == 0 && (op == O_MUL || op == O_AND)) return Val((uint64_t)0); if (x == 1 && op == O_MUL) return b; }
    Z3_ast x = intAst(a, w), y = intAst(b, w), r;
    uint64_t al, ah, bl, bh; rangeOf(a, w, al, ah); rangeOf(b, w, bl, bh); uint64_t m = maskW(w);
    switch (op) {
        case O_ADD: r = Z3_mk_bvadd(Z, x, y); if (ah <= m - bh && ah + bh >= ah) return withRange(keep(r), w, al + bl, ah + bh); break;
        case O_SUB: r = Z3_mk_bvsub(Z, x, y); if (al >= bh) return withRange(keep(r), w, al - bh, ah - bl); break;
        case O_MUL: r = Z3_mk_bvmul(Z, x, y); if (ah == 0 || bh <= m / (ah ? ah : 1)) return withRange(keep(r), w, al * bl, ah * bh); break;
        case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
            Z3_ast z = keep(Z3_mk_eq(Z, y, bvconst(0, w)));
            if (b.s ? (bl == 0 && decide(z)) : b.c == 0) throw MemErr{"integer division by zero"};
            if (op == O_UDIV) { r = Z3_mk_bvudiv(Z, x, y); if (bl > 0) return withRange(keep(r), w, al / bh, ah / bl); }
            else if (op == O_UREM) { r = Z3_mk_bvurem(Z, x, y); if (bh > 0) return withRange(keep(r), w, 0, std::min(ah, bh - 1)); }
            else if (op == O_SDIV) r = Z3_mk_bvsdiv(Z, x, y); else r = Z3_mk_bvsrem(Z, x, y);
            break; }
        case O_AND: r = Z3_mk_bvand(Z, x, y); return withRange(keep(r), w, 0, std::min(ah, bh));
        case O_OR: r = Z3_mk_bvor(Z, x, y); break; case O_XOR: r = Z3_mk_bvxor(Z, x, y); break;
        case O_SHL: r = Z3_mk_bvshl(Z, x, y); if (!b.s && b.c < w && ah <= (m >> b.c)) return withRange(keep(r), w, al << b.c, ah << b.c); break;
        case O_LSHR: r = Z3_mk_bvlshr(Z, x, y); if (!b.s && b.c < w) return withRange(keep(r), w, al >> b.c, ah >> b.c); break;
        case O_ASHR: r = Z3_mk_bvashr(Z, x, y); break;
        default: throw Unsupported{"binop"};
    }
    return Val(mkInt(keep(r), w));
}
static Val icmp(unsigned pred, unsigned w, Val a, Val b) {
    if (!a.s && !b.s) {
        uint64_t m = maskW(w), x = a.c & m, y = b.c & m; int64_t p = sextc(x, w), q = sextc(y, w); bool r = false;
        switch (pred) {
            case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break;
            case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break;
        }
        return Val((uint64_t)r);
    }
    if (w == 1) {
        Z3_ast x = intAst(a, 1), y = intAst(b, 1);
        if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
            Z3_ast e = y == zbool(true) ? x : y == zbool(false) ? znot(x) : x == zbool(true) ? y : x == zbool(false) ? znot(y) : keep(Z3_mk_eq(Z, x, y));
            return boolVal(pred == CmpInst::ICMP_EQ ? e : znot(e));
        }
        throw Unsupported{"i1 icmp"};
    }
    uint64_t al, ah, bl, bh; rangeOf(a, w, al, ah); rangeOf(b, w, bl, bh);
    bool pos = ah <= maskW(w) >> 1 && bh <= maskW(w) >> 1; unsigned pr = pred;
    if (pos) { if (pr == CmpInst::ICMP_SGT) pr = CmpInst::ICMP_UGT; if (pr == CmpInst::ICMP_SGE) pr = CmpInst::ICMP_UGE; if (pr == CmpInst::ICMP_SLT) pr = CmpInst::ICMP_ULT; if (pr == CmpInst::ICMP_SLE) pr = CmpInst::ICMP_ULE; }
    switch (pr) {
        case CmpInst::ICMP_EQ: if (ah < bl || bh < al) return Val((uint64_t)0); break;
        case CmpInst::ICMP_NE: if (ah < bl || bh < al) return Val((uint64_t)1); break;
        case CmpInst::ICMP_UGT: if (al > bh) return Val((uint64_t)1); if (ah <= bl) return Val((uint64_t)0); break;
        case CmpInst::ICMP_UGE: if (al >= bh) return Val((uint64_t)1); if (ah < bl) return Val((uint64_t)0); break;
        case CmpInst::ICMP_ULT: if (ah < bl) return Val((uint64_t)1); if (al >= bh) return Val((uint64_t)0); break;
        case CmpInst::ICMP_ULE: if (ah <= bl) return Val((uint64_t)1); if (al > bh) return Val((uint64_t)0); break;
        default: break;
    }
    if (a.s && a.s == b.s) { bool r = pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SGE || pred == CmpInst::ICMP_SLE; return Val((uint64_t)r); }
    Z3_ast x = intAst(a, w), y = intAst(b, w), r = nullptr;
    switch (pred) {
        case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: return boolVal(znot(keep(Z3_mk_eq(Z, x, y))));
        case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
        case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    }
    return boolVal(keep(r));
}
static Val castInt(Opc op, unsigned fw, unsigned tw, Val v) {
    if (fw == tw) return v;
    if (tw > 64 || fw > 64) { if (!v.s && tw > 64 && op == O_ZEXT) return v; if (!v.s && tw <= 64) return Val(v.c & maskW(tw)); throw Unsupported{"cast wider than 64 bits"}; }
    if (!v.s) { if (op == O_SEXT) return Val(sextc(v.c & maskW(fw), fw) & maskW(tw)); return Val(v.c & maskW(std::min(fw, tw))); }
    if (v.s->kind != K_INT) throw Unsupported{"cast on symbolic double bits"};
    if (op == O_TRUNC) {
        if (tw == 1) return boolVal(keep(Z3_mk_eq(Z, keep(Z3_mk_extract(Z, 0, 0, v.s->a)), bvconst(1, 1))));
        Val r = Val(mkInt(keep(Z3_mk_extract(Z, tw - 1, 0, v.s->a)), tw));
        if (v.s->hasRange && v.s->uhi <= maskW(tw)) { ((Sym*)r.s)->hasRange = true; ((Sym*)r.s)->ulo = v.s->ulo; ((Sym*)r.s)->uhi = v.s->uhi; }
        return r;
    }
    if (fw == 1) {
        Z3_ast one = op == O_SEXT ? bvconst(Big(-1), tw) : bvconst(1, tw);
        Z3_ast r = keep(Z3_mk_ite(Z, v.s->a, one, bvconst(0, tw)));
        if (op == O_ZEXT) return withRange(r, tw, 0, 1); return Val(mkInt(r, tw));
    }
    uint64_t lo, hi; rangeOf(v, fw, lo, hi);
    if (op == O_ZEXT) return withRange(keep(Z3_mk_zero_ext(Z, tw - fw, v.s->a)), tw, lo, hi);
    Z3_ast r = keep(Z3_mk_sign_ext(Z, tw - fw, v.s->a));
    if (hi <= maskW(fw) >> 1) return withRange(r, tw, lo, hi);
    return Val(mkInt(r, tw));
}
static Val selectV(Z3_ast c, const TyI& ty, Val a, Val b) {
    if (a.s == b.s && a.c == b.c) return a;
    if (ty.cls == 3) { if (a.s && b.s && a.s->kind == K_AGG) { std::vector<Val> v; for (size_t i = 0; i < a.s->agg.size(); i++) v.push_back(selectV(c, tyi(aggT(ty.t, i)), a.s->agg[i], b.s->agg[i])); return mkAgg(v); } return decide(c) ? a : b; }
    if (ty.cls == 1) return fSelect(c, a, b);
    if (ty.cls == 2) return decide(c) ? a : b;
    if ((a.s && a.s->kind != K_INT) || (b.s && b.s->kind != K_INT)) return fSelect(c, a, b);
    unsigned w = ty.bits;
    if (w > 64) return decide(c) ? a : b;
    if (w == 1) { Z3_ast x = intAst(a, 1), y = intAst(b, 1); return boolVal(zor(zand(c, x), zand(znot(c), y))); }
    if (ty.t->isPointerTy() && !a.s && !b.s) return decide(c) ? a : b;
    uint64_t al, ah, bl, bh; rangeOf(a, w, al, ah); rangeOf(b, w, bl, bh);
    return withRange(keep(Z3_mk_ite(Z, c, intAst(a, w), intAst(b, w))), w, std::min(al, bl), std::max(ah, bh));
}
static Val loadTyped(Memory& m, uint64_t addr, Type* t, const TyI& ty) {
    if (ty.cls == 3) {
        std::vector<Val> v; for (unsigned i = 0; i < aggN(t); i++) { Type* e = aggT(t, i); v.push_back(loadTyped(m, addr + aggOff(t, i), e, tyi(e))); } return mkAgg(v);
    }
    MemObj* o = m.R(addr, ty.bytes, "read");
    Val v = loadBytes(o, (uint32_t)addr, ty.bytes, ty.cls == 0);
    if (ty.cls == 0 && ty.bits <= 64) {
        if (!v.s) { v.c &= maskW(ty.bits); }
        else if (v.s->kind == K_INT && v.s->w != ty.bits) {
            if (ty.bits == 1) v = boolVal(keep(Z3_mk_eq(Z, keep(Z3_mk_extract(Z, 0, 0, v.s->a)), bvconst(1, 1))));
            else if (v.s->w == 1) v = castInt(O_ZEXT, 1, ty.bits, v);
            else if (v.s->w > ty.bits) v = castInt(O_TRUNC, v.s->w, ty.bits, v);
            else v = castInt(O_ZEXT, v.s->w, ty.bits, v);
        }
    } else if (ty.cls == 1 && v.s && v.s->kind == K_INT) { if (v.s->w == 64) return v; throw Unsupported{"double from odd-width bits"}; }
    return v;
}
static void storeTyped(Memory& m, uint64_t addr, Type* t, const TyI& ty, Val v) {
    if (ty.cls == 3) { for (unsigned i = 0; i < aggN(t); i++) { Type* e = aggT(t, i); storeTyped(m, addr + aggOff(t, i), e, tyi(e), v.s ? v.s->agg[i] : Val((uint64_t)0)); } return; }
    MemObj* o = m.W(addr, ty.bytes);
    storeVal(o, (uint32_t)addr, ty.bytes, v);
}

static void pushCall(State& st, DFunc* f, const std::vector<Val>& args) {
    decode(f);
    Thread& t = st.T();
    if (t.st.size() > 2000) throw MemErr{"stack overflow (unbounded recursion)"};
    t.st.emplace_back(); Frame& nf = t.st.back(); nf.f = f; nf.r.resize(f->nslots);
    size_t na = f->F->arg_size();
    for (size_t i = 0; i < args.size(); i++) { if (i < na) nf.r[i] = args[i]; else nf.varargs.push_back(args[i]); }
    nf.pc = f->bbs[0].start; nf.prevBB = 0;
    // byval args
    for (size_t i = 0; i < na && i < args.size(); i++) if (f->F->hasParamAttribute(i, Attribute::ByVal)) {
        uint64_t sz = DL->getTypeAllocSize(f->F->getParamByValType(i)); uint64_t a = st.mem.alloc(sz, 1); copyMem(st.mem, a, cint(args[i]), sz); nf.allocas.push_back(a); nf.r[i] = Val(a);
    }
}
static void gotoBB(Frame& f, int from, int to) {
    DBB& B = f.f->bbs[to];
    if (!B.phis.empty()) {
        static thread_local std::vector<Val> tmp; tmp.clear();
        for (auto& p : B.phis) { bool ok = false; for (auto& in : p.in) if (in.first == from) { tmp.push_back(getv(f, in.second)); ok = true; break; } if (!ok) throw Unsupported{"phi"}; }
        for (size_t i = 0; i < B.phis.size(); i++) f.r[B.phis[i].dst] = tmp[i];
    }
    f.prevBB = to; f.pc = B.start;
}
// Current BB index is tracked in prevBB (the block we are in)
static void popFrame(State& st) { Frame& f = st.F(); for (auto a : f.allocas) st.mem.freeStackObj(a); st.T().st.pop_back(); }

static void returnFromCall(State& st, Val rv, bool hasVal) {
    Frame& f = st.F(); Inst& c = f.f->code[f.pc];
    if (c.dst >= 0) f.r[c.dst] = rv;
    if (c.normal >= 0) gotoBB(f, f.prevBB, c.normal); else f.pc++;
}
// exception support
static int typeId(const Value* v) { static std::map<const Value*, int> m; auto it = m.find(v); if (it != m.end()) return it->second; int n = m.size() + 1; m[v] = n; return n; }
static std::string tiName(const GlobalVariable* g) { return g ? g->getName().str() : ""; }
static bool excMatches(const GlobalVariable* thrown, const GlobalVariable* want) {
    static const std::map<std::string, std::string> stdBase = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    const GlobalVariable* t = thrown; std::string n = tiName(thrown), w = tiName(want);
    for (int i = 0; i < 20; i++) {
        if (n == w) return true;
        if (t && t->hasInitializer() && isa<ConstantStruct>(t->getInitializer()) && t->getInitializer()->getNumOperands() >= 3) {
            t = dyn_cast<GlobalVariable>(t->getInitializer()->getOperand(2)->stripPointerCasts()); if (!t) return false; n = tiName(t); continue;
        }
        auto it = stdBase.find(n); if (it == stdBase.end()) return false; n = it->second; t = nullptr;
    }
    return false;
}
static void unwindTo(State& st, uint64_t exc, const GlobalVariable* ty) {
    Thread& t = st.T(); t.exc = exc; t.excTy = ty;
    // find a handler first, so an uncaught exception is reported at its throw site
    for (size_t i = t.st.size(); i-- > 0;) {
        Frame& f = t.st[i];
        if (f.flag) break;
        Inst& c = f.f->code[f.pc];
        if (c.op == O_CALL && c.unwind >= 0) {
            const LandingPadInst* lp = cast<InvokeInst>(c.I)->getUnwindDest()->getLandingPadInst(); int sel = 0; bool enter = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) {
                Constant* cl = cast<Constant>(lp->getClause(k)->stripPointerCasts());
                if (isa<ConstantPointerNull>(cl)) { sel = typeId(nullptr); enter = true; break; }
                if (excMatches(ty, cast<GlobalVariable>(cl))) { sel = typeId(cl); enter = true; break; }
            } else enter = true;
            if (!enter) continue;
            while (t.st.size() - 1 > i) popFrame(st);
            Frame& g = t.st.back(); Inst& cc = g.f->code[g.pc];
            gotoBB(g, g.prevBB, cc.unwind);
            // landing pad instruction reads {exc, sel}
            t.ret = (uint64_t)sel; return;
        }
    }
    if (st.allowExit == 2) { endPath(st); return; }
    report(st, "exception", "uncaught exception " + tiName(ty), "", nullptr); throw PathEnd{};
}
// scheduling
static void raceSync(State& st, uint64_t a, bool acq, bool rel);
static bool runnable(State& st, int i) {
    Thread& t = st.th[i];
    switch (t.stat) {
        case T_RUN: return true;
        case T_MUTEX: return st.mtx[t.waitA].owner < 0;
        case T_JOIN: return st.th[(int)t.waitA].stat == T_DONE;
        case T_TEAM: { for (auto& o : st.th) if (o.team == t.joinTeam && o.ttid > 0 && o.stat != T_DONE) return false; return true; }
        case T_RWL: return st.rwl[t.waitA] == 0 || ((int)t.waitM == 0 && st.rwl[t.waitA] > 0);
        default: return false;
    }
}
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (b.size() > a.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcInit(Thread& t, int id) { if (t.vc.size() <= (size_t)id) { t.vc.resize(id + 1, 0); t.vc[id] = 1; } }
static void wake(State& st, int i) {
    Thread& t = st.th[i];
    if (t.stat == T_MUTEX) { MutexS& m = st.mtx[t.waitA]; m.owner = i; m.count = 1; int c = st.cur; st.cur = i; raceSync(st, t.waitA, true, false); st.cur = c; }
    if (t.stat == T_RWL) { if (t.waitM) st.rwl[t.waitA] = -1; else st.rwl[t.waitA]++; }
    if (t.stat == T_TEAM) { if (st.raceMode) for (auto& o : st.th) if (o.team == t.joinTeam && o.ttid > 0) vcJoin(t.vc, o.vc); t.joinTeam = -1; }
    t.stat = T_RUN;
}
static int pickNext(State& st, bool rotate) {
    int n = st.th.size();
    for (int k = rotate ? 1 : 0; k <= n; k++) { int i = (st.cur + k) % n; if (runnable(st, i)) return i; }
    return -1;
}
static void raceSync(State& st, uint64_t a, bool acq, bool rel);
static void raceAcc(State& st, uint64_t a, uint64_t n, bool wr, const Instruction* I);
#include "builtins.inc"

static void raceAcc(State& st, uint64_t a, uint64_t n, bool wr, const Instruction* I);
static void raceSync(State& st, uint64_t a, bool acq, bool rel) {
    if (!st.raceMode) return;
    Thread& t = st.T(); if (t.vc.size() <= (size_t)st.cur) { t.vc.resize(st.cur + 1, 0); t.vc[st.cur] = 1; } auto& v = st.syncvc[a];
    if (acq) { if (v.size() > t.vc.size()) t.vc.resize(v.size(), 0); for (size_t i = 0; i < v.size(); i++) t.vc[i] = std::max(t.vc[i], v[i]); }
    if (rel) { if (t.vc.size() > v.size()) v.resize(t.vc.size(), 0); for (size_t i = 0; i < t.vc.size(); i++) v[i] = std::max(v[i], t.vc[i]); t.vc[st.cur]++; }
}
static void step(State& st) {
    Frame& f = st.F(); Inst& x = f.f->code[f.pc]; x.exec = true;
#define OP(i) getv(f, x.ops[i])
#define SET(v) do { f.r[x.dst] = (v); f.pc++; } while (0)
    switch (x.op) {
        case O_ALLOCA: { uint64_t n = cint(OP(0)); uint64_t a = st.mem.alloc(x.cOff * n, 1); f.allocas.push_back(a); SET(Val(a)); break; }
        case O_LOAD: { uint64_t a = cint(OP(0)); if (st.raceMode) { if (x.sub) raceSync(st, a, true, false); else raceAcc(st, a, DL->getTypeStoreSize(x.ty.t), false, x.I); } SET(loadTyped(st.mem, a, x.ty.t, x.ty)); break; }
        case O_STORE: { uint64_t a = cint(OP(1)); if (st.raceMode) { if (x.sub) raceSync(st, a, true, true); else raceAcc(st, a, DL->getTypeStoreSize(x.ty.t), true, x.I); } storeTyped(st.mem, a, x.ty.t, x.ty, OP(0)); f.pc++; break; }
        case O_GEP: {
            Val b = OP(0); uint64_t off = x.cOff; bool sym = b.sym(); Z3_ast acc = nullptr; uint64_t rlo = 0, rhi = 0; bool rok = true;
            for (size_t i = 0; i < x.gep.size(); i++) {
                Val v = OP(i + 1); int w = x.gep[i].first; int64_t sc = x.gep[i].second;
                if (!v.s) off += sextc(v.c, w) * sc;
                else {
                    Val e = w < 64 ? castInt(O_SEXT, w, 64, v) : v; uint64_t l, h; rangeOf(e, 64, l, h); if (h > (1ull << 40)) rok = false; rlo += l * sc; rhi += h * sc; if (sc < 0) rok = false;
                    Z3_ast q = sc == 1 ? intAst(e, 64) : keep(Z3_mk_bvmul(Z, intAst(e, 64), bvconst(Big(sc), 64))); acc = acc ? keep(Z3_mk_bvadd(Z, acc, q)) : q; sym = true; }
            }
            if (!sym) SET(Val(b.c + off));
            else {
                Z3_ast a = b.s ? intAst(b, 64) : nullptr; uint64_t base = b.s ? 0 : b.c;
                uint64_t k = base + off; Z3_ast r = acc; if (a) r = r ? keep(Z3_mk_bvadd(Z, a, r)) : a;
                if (k) r = keep(Z3_mk_bvadd(Z, r, keep(Z3_mk_unsigned_int64(Z, k, Z3_mk_bv_sort(Z, 64)))));
                if (!b.s && rok) SET(withRange(r, 64, k + rlo, k + rhi)); else SET(Val(mkInt(r, 64)));
            }
            break; }
        case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
            { Val v = binop(x.op, x.ty.bits, OP(0), OP(1)); SET(v); break; }
        case O_ICMP: { if (x.ty2.cls == 3) throw Unsupported{"vector icmp"}; Val v = icmp(x.sub, x.ty2.bits, OP(0), OP(1)); SET(v); break; }
        case O_FCMP: {
            Val a = OP(0), b = OP(1);
            if (x.ty2.cls == 2) { a = D(asF(a.c)); b = D(asF(b.c)); }
            Val v = fCmp(x.sub, a, b); SET(v); break; }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
            Val a = OP(0), b = OP(1), v;
            if (x.ty.cls == 2) { float p = asF(a.c), q = asF(b.c); if (a.s || b.s) throw Unsupported{"symbolic float"}; v = Val(fromF(x.op == O_FADD ? p + q : x.op == O_FSUB ? p - q : x.op == O_FMUL ? p * q : x.op == O_FDIV ? p / q : std::fmod(p, q))); }
            else if (x.ty.cls != 1) throw Unsupported{"fp type"};
            else v = x.op == O_FADD ? fAdd(a, b) : x.op == O_FSUB ? fSub(a, b) : x.op == O_FMUL ? fMul(a, b) : x.op == O_FDIV ? fDiv(a, b) : fUF2("fmod", a, b);
            SET(v); break; }
        case O_FNEG: { Val a = OP(0); Val v = x.ty.cls == 2 ? Val(fromF(-asF(a.c))) : fNeg(a); SET(v); break; }
        case O_TRUNC: case O_ZEXT: case O_SEXT: { Val v = castInt(x.op, x.ty2.bits, x.ty.bits, OP(0)); SET(v); break; }
        case O_FPTOSI: case O_FPTOUI: { Val a = OP(0); if (x.ty2.cls == 2) a = D(asF(a.c)); Val v = fToInt(a, x.ty.bits, x.op == O_FPTOSI); SET(v); break; }
        case O_SITOFP: case O_UITOFP: { Val v = intToF(OP(0), x.ty2.bits, x.op == O_SITOFP); if (x.ty.cls == 2) { if (v.s) throw Unsupported{"symbolic float"}; v = Val(fromF((float)asD(v.c))); } SET(v); break; }
        case O_CASTNOP: SET(OP(0)); break;
        case O_FPEXT: { Val a = OP(0); if (x.ty.cls != 1) throw Unsupported{"long double"}; if (a.s) SET(a); else SET(D((double)asF(a.c))); break; }
        case O_FPTRUNC: { Val a = OP(0); if (a.s || x.ty.cls != 2) throw Unsupported{"symbolic float"}; SET(Val(fromF((float)asD(a.c)))); break; }
        case O_SELECT: { Val c = OP(0); Val v; if (!c.s) v = (c.c & 1) ? OP(1) : OP(2); else v = selectV(intAst(c, 1), x.ty, OP(1), OP(2)); SET(v); break; }
        case O_BR: gotoBB(f, f.prevBB < 0 ? 0 : f.prevBB, x.bbs[0]); break;
        case O_CBR: { Val c = OP(0); bool b = c.s ? decide(c.s->a) : (c.c & 1); gotoBB(f, f.prevBB < 0 ? 0 : f.prevBB, x.bbs[b ? 0 : 1]); break; }
        case O_SWITCH: {
            Val c = OP(0); int t = x.bbs[0];
            uint64_t k;
            if (c.s) {
                bool done = false;
                for (auto& p : x.cases) { Z3_ast e = eqConst(c.s, p.first); if (decide(e)) { t = p.second; done = true; break; } }
                (void)done; gotoBB(f, f.prevBB < 0 ? 0 : f.prevBB, t); break;
            }
            k = c.c & maskW(x.ty2.bits);
            for (auto& p : x.cases) if (p.first == k) { t = p.second; break; }
            gotoBB(f, f.prevBB < 0 ? 0 : f.prevBB, t); break; }
        case O_RET: {
            Val rv; bool hv = !x.ops.empty(); if (hv) rv = OP(0);
            int flag = f.flag;
            popFrame(st); Thread& t = st.T();
            if (t.st.empty()) { t.stat = T_DONE; t.ret = rv.s ? 0 : rv.c; break; }
            if (flag == 1) { t.team = -1; t.ttid = 0; t.stat = T_TEAM; break; } // OMP master: wait for the team (the fork call has already advanced)
            if (flag == 2) break; // constructor/callback frame: nothing to resume
            returnFromCall(st, rv, hv); break; }
        case O_UNREACHABLE: throw MemErr{"reached unreachable code (undefined behaviour)"};
        case O_LANDINGPAD: { Thread& t = st.T(); Val v = mkAgg({Val(t.exc), Val(t.ret)}); SET(v); break; }
        case O_RESUME: { Thread& t = st.T(); uint64_t e = t.exc; const GlobalVariable* ty = t.excTy; popFrame(st); if (t.st.empty()) { if (st.allowExit == 2) { endPath(st); break; } report(st, "exception", "uncaught exception " + tiName(ty), "", nullptr); throw PathEnd{}; } unwindTo(st, e, ty); break; }
        case O_EXTRACTV: { Val a = OP(0); for (auto i : x.idx) a = a.s ? a.s->agg[i] : Val((uint64_t)0); SET(a); break; }
        case O_INSERTV: {
            std::function<Val(Val, Type*, size_t)> ins = [&](Val a, Type* t, size_t k) -> Val {
                if (k == x.idx.size()) return OP(1);
                std::vector<Val> v; if (a.s) v = a.s->agg; else v = zeroOf(t).s->agg;
                v[x.idx[k]] = ins(v[x.idx[k]], aggT(t, x.idx[k]), k + 1); return mkAgg(v); };
            Val v = ins(OP(0), x.ty.t, 0); SET(v); break; }
        case O_EXTRACTE: { Val a = OP(0); uint64_t i = cint(OP(1)); SET(a.s->agg.at(i)); break; }
        case O_INSERTE: { std::vector<Val> v = OP(0).s->agg; v.at(cint(OP(2))) = OP(1); SET(mkAgg(v)); break; }
        case O_SHUFFLE: { Val a = OP(0), b = OP(1); size_t n = a.s->agg.size(); std::vector<Val> v; for (unsigned i : x.idx) v.push_back(i == (unsigned)-1 ? Val((uint64_t)0) : i < n ? a.s->agg[i] : b.s->agg[i - n]); SET(mkAgg(v)); break; }
        case O_VEC: {
            unsigned n = aggN(x.ty.t); TyI et = tyi(aggT(x.ty.t, 0)); std::vector<Val> v;
            for (unsigned i = 0; i < n; i++) {
                auto el = [&](int k) { Val a = OP(k); return a.s->agg[i]; };
                switch (x.sub) {
                    case O_FADD: v.push_back(fAdd(el(0), el(1))); break; case O_FSUB: v.push_back(fSub(el(0), el(1))); break; case O_FMUL: v.push_back(fMul(el(0), el(1))); break; case O_FDIV: v.push_back(fDiv(el(0), el(1))); break; case O_FNEG: v.push_back(fNeg(el(0))); break;
                    case O_ICMP: { TyI t2 = tyi(aggT(x.ty2.t, 0)); v.push_back(icmp(x.cOff, t2.bits, el(0), el(1))); break; }
                    case O_FCMP: v.push_back(fCmp(x.cOff, el(0), el(1))); break;
                    case O_SELECT: { Val c = el(0); v.push_back(!c.s ? (c.c & 1 ? el(1) : el(2)) : selectV(intAst(c, 1), et, el(1), el(2))); break; }
                    case O_TRUNC: case O_ZEXT: case O_SEXT: { TyI t2 = tyi(aggT(x.ty2.t, 0)); v.push_back(castInt((Opc)x.sub, t2.bits, et.bits, el(0))); break; }
                    case O_SITOFP: case O_UITOFP: { TyI t2 = tyi(aggT(x.ty2.t, 0)); v.push_back(intToF(el(0), t2.bits, x.sub == O_SITOFP)); break; }
                    case O_FPTOSI: case O_FPTOUI: v.push_back(fToInt(el(0), et.bits, x.sub == O_FPTOSI)); break;
                    default: if (x.sub >= O_ADD && x.sub <= O_ASHR) v.push_back(binop((Opc)x.sub, et.bits, el(0), el(1))); else throw Unsupported{"vector op"};
                }
            }
            SET(mkAgg(v)); break; }
        case O_RMW: {
            uint64_t a = cint(OP(0)); raceSync(st, a, true, true); Val old = loadTyped(st.mem, a, x.ty.t, x.ty), b = OP(1), nv;
            switch (x.sub) {
                case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = binop(O_ADD, x.ty.bits, old, b); break; case AtomicRMWInst::Sub: nv = binop(O_SUB, x.ty.bits, old, b); break;
                case AtomicRMWInst::And: nv = binop(O_AND, x.ty.bits, old, b); break; case AtomicRMWInst::Or: nv = binop(O_OR, x.ty.bits, old, b); break; case AtomicRMWInst::Xor: nv = binop(O_XOR, x.ty.bits, old, b); break;
                case AtomicRMWInst::FAdd: nv = fAdd(old, b); break; case AtomicRMWInst::FSub: nv = fSub(old, b); break;
                default: throw Unsupported{"atomicrmw"};
            }
            storeTyped(st.mem, a, x.ty.t, x.ty, nv); SET(old); break; }
        case O_CMPXCHG: {
            uint64_t a = cint(OP(0)); raceSync(st, a, true, true); Val old = loadTyped(st.mem, a, x.ty2.t, x.ty2);
            Val eq = icmp(CmpInst::ICMP_EQ, x.ty2.bits, old, OP(1)); bool e = eq.s ? decide(eq.s->a) : eq.c;
            if (e) storeTyped(st.mem, a, x.ty2.t, x.ty2, OP(2));
            SET(mkAgg({old, Val((uint64_t)e)})); break; }
        case O_FENCE: if (x.dst >= 0) SET(zeroOf(x.ty.t)); else f.pc++; break;
        case O_CALL: {
            DFunc* cf = x.callee;
            if (!cf) { uint64_t a = cint(getv(f, x.calleeOp)); auto it = g_funcByAddr.find(a); if (it == g_funcByAddr.end()) throw MemErr{"call through an invalid function pointer"}; cf = it->second; }
            static std::vector<Val> args; args.clear();
            for (auto& o : x.ops) args.push_back(getv(f, o));
            if (cf->bi) { (*cf->bi)(st, x, args); break; }
            if (cf->isDecl) throw Unsupported{"call to external function " + cf->name};
            pushCall(st, cf, args); break; }
        case O_UNSUP: { std::string s; raw_string_ostream os(s); x.I->print(os); throw Unsupported{"instruction " + os.str().substr(0, 160)}; }
    }
}

static std::set<std::string> g_raceSeen;
static void raceAcc(State& st, uint64_t a, uint64_t n, bool wr, const Instruction* I) {
    ObjP* p = st.mem.slotR(a >> OSH); if (!p || !*p || (*p)->kind == 1 || (*p)->ro) return;
    Thread& t = st.T(); int c = st.cur; if (t.vc.size() <= (size_t)c) { t.vc.resize(c + 1, 0); t.vc[c] = 1; }
    auto ok = [&](int th, uint32_t clk) { return th == c || (th < (int)t.vc.size() && t.vc[th] >= clk); };
    for (uint64_t k = 0; k < n; k++) {
        RaceC& r = st.shadow[a + k]; const Instruction* o = nullptr; const char* how = nullptr;
        if (r.wt >= 0 && !ok(r.wt, r.wc)) { o = r.wi; how = wr ? "write/write" : "write/read"; }
        if (wr && !o) for (auto& q : r.rd) if (!ok(q.first, q.second)) { o = r.ri; how = "read/write"; }
        if (o) {
            std::string l1 = locOf(o), l2 = locOf(I); bool ours = true;
            if (ours && g_raceSeen.insert(l1 + "|" + l2).second) report(st, "race", std::string("data race: ") + how + " " + l1 + " / " + l2, "", nullptr);
        }
        if (wr) { r.wt = c; r.wc = t.vc[c]; r.wi = I; r.rd.clear(); }
        else { bool f = false; for (auto& q : r.rd) if (q.first == c) { q.second = t.vc[c]; f = true; } if (!f) r.rd.push_back({c, t.vc[c]}); r.ri = I; }
    }
}
static std::deque<State*> g_work;
static std::string outJson();
static std::string g_outFile;
// a query stuck inside the solver must not keep the case from answering: interrupt, then give up with what is there
static void startWatchdog() {
    std::thread([] {
        for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(500));
            double e = since(g_start);
            if (e > g_totalTimeout + 15) Z3_interrupt(Z);
            if (e > g_totalTimeout + 45) { g_timedOut = true; std::string j = outJson(); if (!g_outFile.empty()) { std::ofstream f(g_outFile); f << j; f.close(); } _exit(0); }
        }
    }).detach();
}
static void finishPath(State* st) {
    st_paths++;
    if (g_samples.size() < 3) { try { ensureModel(*st); std::string s; auto iv = inputValues(*st, st->model); g_sampleIn.push_back(iv); for (auto& q : iv) { if (s.size() > 400) { s += "..."; break; } s += (s.empty() ? "" : "; ") + q; } g_samples.push_back(s); } catch (Unsupported&) {} catch (TimeUp&) {} }
    delete st;
}
static void constrain(State* s, Z3_ast c, bool val, Z3_model m) { s->pc.push_back(val ? c : znot(c)); s->known[c] = val; s->model = m; s->forks++; }
static void runState(State* st) {
    S = st; unsigned cnt = 0;
    try {
        for (;;) {
            try {
                for (;;) {
                    Thread& t = st->T();
                    if (t.stat != T_RUN || t.st.empty()) {
                        if (st->cur == 0 && t.stat == T_DONE) { finishPath(st); return; }
                        int nx = schedNext(*st, true);
                        if (nx < 0) {
                            st_deadlocks++; std::string d; for (size_t i = 0; i < st->th.size(); i++) { auto& q = st->th[i]; if (q.stat == T_DONE) continue; const char* nm[] = {"run", "mutex", "cond", "join", "team", "barrier", "done", "rwlock"}; d += "T" + std::to_string(i) + ":" + nm[q.stat]; if (!q.st.empty() && q.st.back().pc < q.st.back().f->code.size()) { for (size_t k = q.st.size(); k-- > 0 && q.st.size() - k < 4;) d += "@" + locOf(q.st[k].f->code[q.st[k].pc].I); } d += " "; }
                            report(*st, "deadlock", "deadlock: no thread can make progress", d, nullptr); throw PathEnd{};
                        }
                        wake(*st, nx); st->cur = nx; continue;
                    }
                    if (st->yieldNow) { if (st->preemptLeft > 0) { int nx = schedNext(*st, false); st->yieldNow = false; if (nx >= 0 && nx != st->cur) { st->preemptLeft--; wake(*st, nx); st->cur = nx; continue; } } else st->yieldNow = false; }
                    step(*st);
                    st->steps++; st_insts++;
                    if ((++cnt & 0xfff) == 0) {
                        if (since(g_start) > g_totalTimeout) { g_timedOut = true; delete st; return; }
                        if (st->steps > g_maxSteps) throw Unsupported{"step limit on one path (possible non-termination) at " + backtrace(*st)};
                    }
                }
            } catch (NeedFork& nf) {
                st_forks++;
                State* o = new State(*st);
                constrain(st, nf.cond, true, g_forkModelT); constrain(o, nf.cond, false, g_forkModelF);
                g_work.push_back(o);
                if (g_jobs > 1) { g_work.push_back(st); return; }
            } catch (NeedEnum& ne) {
                st_enums++;
                if (ne.s->kind == K_FIX && ne.s->w > 64) {
                    std::vector<std::pair<Big, Z3_model>> vals; Z3_ast block = zbool(true); Z3_model m = st->model;
                    for (;;) {
                        Big v = modelBig(m, ne.s); vals.push_back({v, m}); block = zand(block, znot(eqBig(ne.s, v)));
                        if (vals.size() > g_maxEnum) throw Unsupported{"too many values when concretising a symbolic value at " + backtrace(*st)};
                        if (query(*st, block) != Z3_L_TRUE) break; m = g_lastModel;
                    }
                    for (size_t i = 1; i < vals.size(); i++) { State* o = new State(*st); constrain(o, eqBig(ne.s, vals[i].first), true, vals[i].second); o->concB[ne.s] = vals[i].first; g_work.push_back(o); st_forks++; }
                    constrain(st, eqBig(ne.s, vals[0].first), true, vals[0].second); st->concB[ne.s] = vals[0].first;
                    if (g_jobs > 1) { g_work.push_back(st); return; }
                    continue;
                }
                // enumerate every feasible value with the solver
                std::vector<std::pair<uint64_t, Z3_model>> vals; Z3_ast block = zbool(true); Z3_model m = st->model;
                for (;;) {
                    uint64_t v = modelInt(m, ne.s); vals.push_back({v, m}); block = zand(block, znot(eqConst(ne.s, v)));
                    if (vals.size() > g_maxEnum) throw Unsupported{"too many values when concretising a symbolic value at " + backtrace(*st)};
                    if (query(*st, block) != Z3_L_TRUE) break; m = g_lastModel;
                }
                for (size_t i = 1; i < vals.size(); i++) { State* o = new State(*st); constrain(o, eqConst(ne.s, vals[i].first), true, vals[i].second); o->conc[ne.s] = vals[i].first; g_work.push_back(o); st_forks++; }
                constrain(st, eqConst(ne.s, vals[0].first), true, vals[0].second); st->conc[ne.s] = vals[0].first;
                if (g_jobs > 1) { g_work.push_back(st); return; }
            }
        }
    } catch (TimeUp&) { g_timedOut = true; delete st; }
    catch (PathEnd&) { st_killed++; delete st; }
    catch (MemErr& e) { try { report(*st, "memory", e.msg, "", nullptr); } catch (Unsupported& u) { g_unsup[u.msg]++; } catch (TimeUp&) { g_timedOut = true; } st_killed++; delete st; }
    catch (Unsupported& u) { std::string m = u.msg + " @ " + backtrace(*st); if (g_unsup.size() < 20 || g_unsup.count(m)) g_unsup[m]++; st_killed++; delete st; }
}

static std::string outJson() {
    std::ostringstream o; o << "{\n";
    auto num = [&](const char* k, double v) { o << "\"" << k << "\": " << v << ",\n"; };
    num("paths", st_paths); num("killed", st_killed); num("queries", st_queries); num("sat", st_qsat); num("unsat", st_qunsat); num("unknown", st_qunk); num("instructions", st_insts); num("forks", st_forks); num("enumerations", st_enums); num("asserts", st_asserts); num("solver_s", st_solver); num("max_query_s", st_maxq); num("inexact_ops", g_inexact); num("wall_s", since(g_start)); num("pending", g_work.size());
    o << "\"timed_out\": " << (g_timedOut ? "true" : "false") << ",\n";
    o << "\"assert_labels\": {"; bool c = false; for (auto& p : g_assertStat) { o << (c ? "," : "") << "\"" << jesc(p.first) << "\": [" << p.second[0] << "," << p.second[1] << "]"; c = true; } o << "},\n";
    o << "\"covers\": {"; c = false; for (auto& p : g_covers) { o << (c ? "," : "") << "\"" << jesc(p.first) << "\": " << p.second; c = true; } o << "},\n";
    o << "\"unsupported\": {"; c = false; for (auto& p : g_unsup) { o << (c ? "," : "") << "\"" << jesc(p.first) << "\": " << p.second; c = true; } o << "},\n";
    o << "\"samples\": ["; c = false; for (auto& s : g_samples) { o << (c ? "," : "") << "\"" << jesc(s) << "\""; c = true; } o << "],\n";
    o << "\"sample_inputs\": ["; c = false; for (auto& v : g_sampleIn) { o << (c ? "," : "") << "["; bool q = false; for (auto& s : v) { o << (q ? "," : "") << "\"" << jesc(s) << "\""; q = true; } o << "]"; c = true; } o << "],\n";
    // executed functions and lines
    std::map<std::string, std::set<unsigned>> lines; std::set<std::string> fns;
    for (auto& kv : g_funcs) { DFunc* d = kv.second; if (!d->decoded) continue;
        for (auto& x : d->code) if (x.exec && x.I) { const DILocation* l = x.I->getDebugLoc().get(); while (l) { DIScope* sc = l->getScope(); DISubprogram* sp = l->getScope()->getSubprogram(); std::string fn = sc->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sc->getDirectory().str() + "/" + fn; if (starts(fn, g_root.c_str())) { if (l->getLine()) lines[fn].insert(l->getLine()); if (sp) fns.insert((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()); } l = l->getInlinedAt(); } } }
    o << "\"functions\": ["; c = false; for (auto& s : fns) { o << (c ? "," : "") << "\"" << jesc(s) << "\""; c = true; } o << "],\n";
    o << "\"lines\": {"; c = false; for (auto& p : lines) { o << (c ? "," : "") << "\"" << jesc(p.first) << "\": ["; bool q = false; for (auto l : p.second) { o << (q ? "," : "") << l; q = true; } o << "]"; c = true; } o << "},\n";
    o << "\"violations\": ["; c = false;
    for (auto& v : g_viol) { o << (c ? "," : "") << "{\"kind\": \"" << v.kind << "\", \"label\": \"" << jesc(v.label) << "\", \"loc\": \"" << jesc(v.loc) << "\", \"detail\": \"" << jesc(v.detail) << "\", \"inputs\": ["; bool q = false; for (auto& s : v.inputs) { o << (q ? "," : "") << "\"" << jesc(s) << "\""; q = true; } o << "], \"sched\": ["; q = false; for (int s : v.sched) { o << (q ? "," : "") << s; q = true; } o << "]}"; c = true; }
    o << "]\n}\n"; return o.str();
}

int main(int argc, char** argv) {
    g_start = Clk::now();
    std::vector<std::string> files; std::string dumpIR;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") g_entry = nx(); else if (a == "--out") g_out = nx(); else if (a == "--root") g_root = nx();
        else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); g_params[p.substr(0, e)] = std::stol(p.substr(e + 1)); }
        else if (a == "--timeout") g_totalTimeout = std::stod(nx()); else if (a == "--qtimeout") g_queryTimeout = std::stoul(nx());
        else if (a == "--logic") g_logic = nx(); else if (a == "--jobs") g_jobs = std::stoi(nx()); else if (a == "-v") g_verbose = true; else if (a == "--trace") g_trace = true;
        else if (a == "--max-steps") g_maxSteps = std::stoul(nx()); else if (a == "--max-enum") g_maxEnum = std::stoul(nx()); else if (a == "--dump-ir") dumpIR = nx();
        else files.push_back(a);
    }
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { throw Unsupported{std::string("z3 error: ") + Z3_get_error_msg(c, e)}; });
    LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod;
    for (auto& fn : files) {
        auto m = parseIRFile(fn, err, ctx);
        if (!m) { err.print("symx", errs()); return 3; }
        if (!mod) mod = std::move(m);
        else if (Linker::linkModules(*mod, std::move(m))) { fprintf(stderr, "link error %s\n", fn.c_str()); return 3; }
    }
    M = mod.get();
    registerBuiltins();
    // strip bodies of stubbed functions
    for (auto& F : *M) { std::string n = F.getName().str(); if (!F.isDeclaration() && forceStub(n)) { F.deleteBody(); F.setComdat(nullptr); } }
    // internalize and optimise
    {
        std::set<std::string> keepN = {g_entry, "llvm.global_ctors"};
        internalizeModule(*M, [&](const GlobalValue& g) { return keepN.count(g.getName().str()) > 0; });
        for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr("target-features"); }
        PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.MergeFunctions = false;
        PassBuilder PB(nullptr, pto); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM; MPM.addPass(GlobalDCEPass()); MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1)); MPM.addPass(GlobalDCEPass());
        MPM.run(*M, MAM);
    }
    if (!dumpIR.empty()) { std::error_code ec; raw_fd_ostream os(dumpIR, ec); M->print(os, nullptr); }
    DL = &M->getDataLayout();
    auto emit = [&](int code) { std::string j = outJson(); if (g_out.empty()) fputs(j.c_str(), stdout); else { std::ofstream f(g_out); f << j; } return code; };
    try {
        for (auto& F : *M) if (F.getName() == g_entry || F.hasAddressTaken()) getF(&F);
        for (auto& g : M->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 4096); g_gaddr[&g] = g_initMem.alloc(sz, 0, 0); }
        for (auto& g : M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") {
            ObjP& o = g_initMem.slotW(g_gaddr[&g] >> OSH); writeConst(o.get(), 0, g.getInitializer()); if (g.isConstant()) o->ro = true; }
        // decode everything up front so function addresses are stable across states
        size_t before;
        do { before = g_funcs.size(); std::vector<DFunc*> v; for (auto& kv : g_funcs) v.push_back(kv.second); for (auto* d : v) if (!d->F->isDeclaration() && !d->decoded) decode(d); } while (g_funcs.size() != before);
        for (auto& kv : g_funcs) bindBuiltin(kv.second);
    } catch (Unsupported& u) { g_unsup["setup: " + u.msg]++; return emit(2); }
    mkSolver();
    State* s0 = new State; s0->mem = g_initMem; s0->th.resize(1); S = s0;
    Function* E = M->getFunction(g_entry);
    if (!E) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
    if (g_params.count("omp_threads")) s0->ompThreads = g_params["omp_threads"];
    pushCall(*s0, getF(E), {});
    // global constructors: run before main on the same stack (pushed on top, last first)
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function*>> fs;
        for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
        for (size_t i = fs.size(); i-- > 0;) { pushCall(*s0, getF(fs[i].second), {}); s0->F().flag = 2; }
        // constructors return into the previous frame without consuming an instruction
    }
    g_work.push_back(s0);
    g_ctorFlag = true;
    std::string jsonParts; 
    if (g_jobs <= 1) { g_outFile = g_out; startWatchdog(); }
    if (g_jobs > 1) { /* breadth-first until enough states, then fork workers */
        int target = g_jobs * 4; int save = g_jobs;
        while (!g_work.empty() && (int)g_work.size() < target && !g_timedOut) { State* s = g_work.front(); g_work.pop_front(); runState(s); }
        if (!g_work.empty() && !g_timedOut) {
            std::vector<std::string> outs; std::vector<pid_t> pids; std::deque<State*> all = g_work;
            std::string base = g_out.empty() ? "/tmp/symx." + std::to_string(getpid()) : g_out;
            for (int j = 0; j < save; j++) {
                std::string fn = base + ".part" + std::to_string(j); outs.push_back(fn);
                fflush(stdout); pid_t p = fork();
                if (p == 0) {
                    // child: take every save-th state
                    g_outFile = fn; startWatchdog();
                    g_work.clear(); for (size_t i = j; i < all.size(); i += save) g_work.push_back(all[i]);
                    g_jobs = 1; st_paths = st_killed = st_queries = st_qsat = st_qunsat = st_qunk = st_insts = st_asserts = st_forks = st_modelhits = st_deadlocks = st_enums = 0; st_solver = st_maxq = 0; g_assertStat.clear(); g_covers.clear(); g_unsup.clear(); g_viol.clear(); g_inexact = 0; g_samples.clear(); g_sampleIn.clear();
                    while (!g_work.empty() && !g_timedOut && g_viol.size() < g_maxViol) { State* s = g_work.back(); g_work.pop_back(); runState(s); }
                    std::ofstream f(fn); f << outJson(); f.close(); _exit(0);
                }
                pids.push_back(p);
            }
            for (auto p : pids) { int w; waitpid(p, &w, 0); }
            g_work.clear();
            // parent part is merged by the driver
        }
        return emit(0);
    }
    while (!g_work.empty() && !g_timedOut && g_viol.size() < g_maxViol) { State* s = g_work.back(); g_work.pop_back(); runState(s); }
    return emit(0);
}
