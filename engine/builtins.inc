// Models of external functions.
static bool g_ctorFlag = false;
static std::string cstr(State& st, uint64_t a) { std::string s; for (int i = 0; i < 4096; i++) { MemObj* o = st.mem.R(a + i, 1, "read (string)"); Val v = loadBytes(o, (uint32_t)(a + i), 1, true); uint64_t c = cint(v) & 0xff; if (!c) break; s += (char)c; } return s; }
static void retv(State& st, const Inst& x, Val v) { Frame& f = st.F(); if (x.dst >= 0) f.r[x.dst] = v; if (x.normal >= 0) gotoBB(f, f.prevBB, x.normal); else f.pc++; }
static uint64_t heapAlloc(State& st, uint64_t n, int fill = 0xBE) { if (n > (1ull << 31)) throw MemErr{"allocation of " + std::to_string(n) + " bytes"}; return st.mem.alloc(n, 2, fill); }
static void heapFree(State& st, uint64_t a) {
    if (!a) return;
    if (a & 0xffffffffu) throw MemErr{"free of an interior pointer"};
    MemObj* o = st.mem.R(a, 0, "free"); if (o->kind != 2) throw MemErr{"free of a non-heap pointer"};
    o = st.mem.W(a, 0); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->cells.clear(); o->size = 0;
}
static int freshId = 0;
static Z3_ast freshBV(const std::string& n, unsigned w) { return keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_bv_sort(Z, w))); }
static std::string inName(State& st, const std::string& base) { int k = st.inCount[base]++; return base + "#" + std::to_string(k); }
static void killPath(State&) { throw PathEnd{}; }
static void doAssume(State& st, Val c) {
    if (!c.s) { if (!(c.c & 1)) killPath(st); return; }
    Z3_ast a = intAst(c, c.s->w); if (c.s->w != 1) a = znot(eqConst(c.s, 0));
    auto it = st.known.find(a); if (it != st.known.end()) { if (!it->second) killPath(st); return; }
    int b = modelBool(st, a);
    if (b == 1) { st.pc.push_back(a); st.known[a] = true; return; }
    if (query(st, a) != Z3_L_TRUE) killPath(st);
    st.pc.push_back(a); st.known[a] = true; st.model = g_lastModel;
}
static void doAssert(State& st, Val c, const std::string& label) {
    st_asserts++; auto& as = g_assertStat[label]; as[0]++;
    if (!c.s) { if (c.c & 1) return; report(st, "assert", label, "", nullptr); throw PathEnd{}; }
    Z3_ast a = c.s->w == 1 ? c.s->a : znot(eqConst(c.s, 0));
    as[1]++;
    auto it = st.known.find(a); if (it != st.known.end() && it->second) return;
    if (query(st, znot(a)) == Z3_L_TRUE) {
        Z3_model m = g_lastModel; report(st, "assert", label, "", m);
        // ask for further, different examples of the same failure
        if (query(st, a) != Z3_L_TRUE) throw PathEnd{};
        st.pc.push_back(a); st.known[a] = true; st.model = g_lastModel; return;
    }
    st.known[a] = true;
}
// ---- scheduling
static int schedNext(State& st, bool rotate) {
    if (!st.schedMode) return pickNext(st, rotate);
    std::vector<int> run; for (size_t i = 0; i < st.th.size(); i++) if (runnable(st, i)) run.push_back(i);
    if (run.empty()) return -1; if (run.size() == 1) { return run[0]; }
    if (!st.pendSched) { std::string n = inName(st, "sched"); unsigned w = 8; Z3_ast a = freshBV(n, w); const Sym* s = mkInt(a, w); st.pendSched = s; st.inputs.push_back(Input{n, s, 'i', 0}); st.pc.push_back(keep(Z3_mk_bvult(Z, a, bvconst(run.size(), w)))); st.model = nullptr; }
    uint64_t k = concretizeInt(st.pendSched); st.pendSched = nullptr; st.schedTrace.push_back(run[k]); return run[k];
}
// returns true if the current thread was switched out (instruction must be retried later)
static bool schedPoint(State& st) {
    if (!st.schedMode) return false;
    if (st.T().skipPt) { st.T().skipPt = false; return false; }
    if (st.preemptLeft <= 0) return false;
    int n = schedNext(st, false);
    if (n < 0 || n == st.cur) { return false; }
    st.preemptLeft--; st.T().skipPt = true; wake(st, n); st.cur = n; return true;
}
// ---- exceptions
static void throwExc(State& st, uint64_t obj, const GlobalVariable* ty) { unwindTo(st, obj, ty); }
static void throwStd(State& st, const char* ti) { uint64_t o = heapAlloc(st, 64, 0); GlobalVariable* g = M->getNamedGlobal(ti); if (!g) { g = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, ti); g_gaddr[g] = st.mem.alloc(64, 0, 0); } throwExc(st, o, g); }
static const GlobalVariable* gvAt(uint64_t a) { for (auto& kv : g_gaddr) if (kv.second == a) return kv.first; return nullptr; }
// ---- OpenMP
static void wU32(State& st, uint64_t a, uint64_t v) { storeVal(st.mem.W(a, 4), (uint32_t)a, 4, Val(v & 0xffffffffu)); }
static void wU64(State& st, uint64_t a, uint64_t v) { storeVal(st.mem.W(a, 8), (uint32_t)a, 8, Val(v)); }
static uint64_t rU(State& st, uint64_t a, unsigned n) { return cint(loadBytes(st.mem.R(a, n, "read"), (uint32_t)a, n, true)); }
static void pushOn(State& st, int th, DFunc* f, const std::vector<Val>& args) { int c = st.cur; st.cur = th; pushCall(st, f, args); st.cur = c; }

static bool forceStub(const std::string& n) {
    static const char* pre[] = {"_ZStlsI", "_ZStlsR", "_ZNSolsE", "_ZSt4endl", "_ZSt5flush", "_ZNSo", "_ZSt16__ostream_insert", "_ZStlsSt", "_ZSt4setwi", "_ZNSt9basic_iosIcSt11char_traitsIcEE", "_ZNSt8ios_base", "_ZSt13__check_facet"};
    for (auto p : pre) if (starts(n, p)) return true;
    return false;
}
static void bindBuiltin(DFunc* d) {
    if (!d->isDecl && !forceStub(d->name)) return;
    auto it = g_builtins.find(d->name);
    if (it != g_builtins.end()) { d->bi = &it->second; return; }
    if (forceStub(d->name)) { d->bi = &g_builtins["@arg0"]; return; }
    const std::string& n = d->name;
    if (starts(n, "llvm.")) {
        std::string b = n.substr(5); // strip type suffixes progressively
        while (!b.empty()) { auto j = g_builtins.find("llvm." + b); if (j != g_builtins.end()) { d->bi = &j->second; return; } size_t p = b.rfind('.'); if (p == std::string::npos) break; b = b.substr(0, p); }
    }
    if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos) { d->bi = &g_builtins["@throwstd"]; return; }
}
static Builtin ovf(Opc op, bool sgn) {
    return [op, sgn](State& st, const Inst& x, std::vector<Val>& a) {
        unsigned w = x.I->getOperand(0)->getType()->getIntegerBitWidth();
        Val r = binop(op, w, a[0], a[1]); Val o;
        if (!a[0].s && !a[1].s) {
            if (sgn) { __int128 p = (int64_t)sextc(a[0].c, w), q = (int64_t)sextc(a[1].c, w), t = op == O_ADD ? p + q : op == O_SUB ? p - q : p * q; o = Val((uint64_t)(t != (__int128)(int64_t)sextc(r.c, w))); }
            else { unsigned __int128 p = a[0].c, q = a[1].c, t = op == O_ADD ? p + q : op == O_MUL ? p * q : 0; o = Val((uint64_t)(op == O_SUB ? q > p : t != r.c)); }
        } else {
            Z3_ast p = intAst(a[0], w), q = intAst(a[1], w), ok;
            if (op == O_ADD) ok = sgn ? zand(keep(Z3_mk_bvadd_no_overflow(Z, p, q, true)), keep(Z3_mk_bvadd_no_underflow(Z, p, q))) : keep(Z3_mk_bvadd_no_overflow(Z, p, q, false));
            else if (op == O_SUB) ok = sgn ? zand(keep(Z3_mk_bvsub_no_overflow(Z, p, q)), keep(Z3_mk_bvsub_no_underflow(Z, p, q, true))) : keep(Z3_mk_bvsub_no_underflow(Z, p, q, false));
            else ok = sgn ? zand(keep(Z3_mk_bvmul_no_overflow(Z, p, q, true)), keep(Z3_mk_bvmul_no_underflow(Z, p, q))) : keep(Z3_mk_bvmul_no_overflow(Z, p, q, false));
            o = boolVal(znot(ok));
        }
        retv(st, x, mkAgg({r, o})); };
}
static void memsetB(State& st, uint64_t d, Val v, uint64_t n) {
    if (!n) return; MemObj* o = st.mem.W(d, n, "write (memset)"); uint32_t of = (uint32_t)d; clearCells(o, of, n);
    if (!v.s) { std::fill(o->b.begin() + of, o->b.begin() + of + n, (uint8_t)v.c); return; }
    Val b = v.s->w == 8 ? v : castInt(O_TRUNC, v.s->w, 8, v); for (uint64_t i = 0; i < n; i++) storeVal(o, of + i, 1, b);
}
static int cmpBytes(State& st, uint64_t a, uint64_t b, uint64_t n, bool str) {
    for (uint64_t i = 0; i < n; i++) {
        Val p = loadBytes(st.mem.R(a + i, 1, "read (memcmp)"), (uint32_t)(a + i), 1, true), q = loadBytes(st.mem.R(b + i, 1, "read (memcmp)"), (uint32_t)(b + i), 1, true);
        uint64_t x, y; if (p.s || q.s) { Val e = icmp(CmpInst::ICMP_EQ, 8, p, q); if (e.s ? decide(e.s->a) : e.c) continue; Val l = icmp(CmpInst::ICMP_ULT, 8, p, q); return (l.s ? decide(l.s->a) : l.c) ? -1 : 1; }
        x = p.c & 255; y = q.c & 255; if (x != y) return x < y ? -1 : 1; if (str && !x) return 0;
    }
    return 0;
}
static VHandle* handleOf(State& st, uint64_t a) { auto it = st.handles.find(a); return it == st.handles.end() ? nullptr : &it->second; }
static int findFile(State& st, const std::string& n) { for (size_t i = 0; i < st.files.size(); i++) if (st.files[i].name == n) return i; return -1; }
static void ensureSize(State& st, VFile& f, uint64_t n) {
    if (n <= f.size) return;
    MemObj* o = f.obj ? st.mem.R(f.obj, 0, "file") : nullptr; uint64_t cap = o ? o->size : 0;
    if (n > cap) { uint64_t nc = std::max<uint64_t>(n * 2, 64); uint64_t a = st.mem.alloc(nc, 0, 0); if (f.size) copyMem(st.mem, a, f.obj, f.size); f.obj = a; }
    f.size = n;
}

static void registerBuiltins() {
    auto& B = g_builtins;
#define BI(name) B[name] = [](State& st, const Inst& x, std::vector<Val>& a)
#define RET(v) retv(st, x, v)
#define R0 RET(Val((uint64_t)0))
    BI("@arg0") { RET(a.empty() ? Val((uint64_t)0) : a[0]); };
    BI("@zero") { R0; };
    BI("@throwstd") {
        std::string n = x.callee ? x.callee->name : ""; const char* ti = "_ZTISt9exception";
        if (n.find("length_error") != std::string::npos) ti = "_ZTISt12length_error"; else if (n.find("out_of_range") != std::string::npos) ti = "_ZTISt12out_of_range"; else if (n.find("bad_alloc") != std::string::npos) ti = "_ZTISt9bad_alloc";
        else if (n.find("bad_array") != std::string::npos) ti = "_ZTISt20bad_array_new_length"; else if (n.find("logic_error") != std::string::npos) ti = "_ZTISt11logic_error"; else if (n.find("invalid_argument") != std::string::npos) ti = "_ZTISt16invalid_argument"; else if (n.find("runtime_error") != std::string::npos) ti = "_ZTISt13runtime_error";
        throwStd(st, ti); };
    for (auto n : {"printf", "fprintf", "puts", "fputs", "putchar", "fputc", "putc", "fflush", "vprintf", "vfprintf", "setvbuf", "perror", "srand", "srand48", "setbuf", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setdetachstate", "pthread_attr_setaffinity_np", "pthread_setaffinity_np", "sched_setaffinity", "__cxa_atexit", "atexit", "__cxa_guard_abort", "pthread_mutexattr_destroy", "system", "getenv", "setlocale", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt9terminatev0", "__kmpc_push_num_threads0", "omp_set_dynamic", "omp_set_nested", "omp_in_parallel", "ProfilerStart", "ProfilerStop", "_ZNSt9exceptionD2Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt9exceptionD1Ev", "__cxa_free_exception", "__kmpc_flush", "unlink", "remove", "clock"}) BI(n) { R0; };
    for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.prefetch", "llvm.donothing", "llvm.invariant.start", "llvm.invariant.end", "llvm.stackrestore", "llvm.va_end", "llvm.pseudoprobe"}) BI(n) { R0; };
    BI("llvm.stacksave") { R0; };
    for (auto n : {"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.threadlocal.address", "llvm.ssa.copy", "llvm.ptr.annotation", "llvm.annotation"}) BI(n) { RET(a[0]); };
    BI("llvm.is.constant") { R0; };
    BI("llvm.objectsize") { RET(Val(~0ull)); };
    BI("llvm.trap") { report(st, "abort", "trap", "", nullptr); throw PathEnd{}; };
    BI("llvm.eh.typeid.for") { const GlobalVariable* g = gvAt(a[0].c); RET(Val((uint64_t)typeId(g))); };
    // --- memory
    for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) BI(n) { uint64_t s = cint(a[0]); if (s > (1ull << 31) && starts(x.callee ? x.callee->name : "", "_Zn")) { throwStd(st, "_ZTISt9bad_alloc"); return; } RET(Val(heapAlloc(st, s))); };
    BI("aligned_alloc") { RET(Val(heapAlloc(st, cint(a[1])))); };
    BI("posix_memalign") { uint64_t p = heapAlloc(st, cint(a[2])); wU64(st, cint(a[0]), p); R0; };
    BI("calloc") { uint64_t n = cint(a[0]) * cint(a[1]); RET(Val(heapAlloc(st, n, 0))); };
    BI("realloc") { uint64_t o = cint(a[0]), n = cint(a[1]); uint64_t p = heapAlloc(st, n); if (o) { uint64_t os = st.mem.R(o, 0, "realloc")->size; copyMem(st.mem, p, o, std::min(os, n)); heapFree(st, o); } RET(Val(p)); };
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"}) BI(n) { heapFree(st, cint(a[0])); R0; };
    for (auto n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) BI(n) { uint64_t d = cint(a[0]), s = cint(a[1]), k = cint(a[2]); if (st.raceMode && k) { raceAcc(st, s, k, false, x.I); raceAcc(st, d, k, true, x.I); } copyMem(st.mem, d, s, k); RET(a[0]); };
    BI("mempcpy") { uint64_t d = cint(a[0]), s = cint(a[1]), k = cint(a[2]); copyMem(st.mem, d, s, k); RET(Val(d + k)); };
    for (auto n : {"llvm.memset", "memset"}) BI(n) { if (st.raceMode && cint(a[2])) raceAcc(st, cint(a[0]), cint(a[2]), true, x.I); memsetB(st, cint(a[0]), a[1], cint(a[2])); RET(a[0]); };
    for (auto n : {"memcmp", "bcmp"}) BI(n) { int r = cmpBytes(st, cint(a[0]), cint(a[1]), cint(a[2]), false); RET(Val((uint64_t)(uint32_t)r)); };
    BI("strcmp") { int r = cmpBytes(st, cint(a[0]), cint(a[1]), 1 << 20, true); RET(Val((uint64_t)(uint32_t)r)); };
    BI("strncmp") { int r = cmpBytes(st, cint(a[0]), cint(a[1]), cint(a[2]), true); RET(Val((uint64_t)(uint32_t)r)); };
    BI("strlen") { RET(Val((uint64_t)cstr(st, cint(a[0])).size())); };
    BI("memchr") { uint64_t p = cint(a[0]), c = cint(a[1]) & 255, n = cint(a[2]); for (uint64_t i = 0; i < n; i++) if (rU(st, p + i, 1) == c) { RET(Val(p + i)); return; } R0; };
    BI("strcpy") { uint64_t d = cint(a[0]), s = cint(a[1]); copyMem(st.mem, d, s, cstr(st, s).size() + 1); RET(a[0]); };
    for (auto n : {"atoi", "atol", "atoll"}) BI(n) { RET(Val((uint64_t)(int64_t)atoll(cstr(st, cint(a[0])).c_str()))); };
    for (auto n : {"strtol", "strtoul", "strtoll", "strtoull", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoull"}) BI(n) { uint64_t p = cint(a[0]); std::string s = cstr(st, p); char* e; int64_t v = strtoll(s.c_str(), &e, (int)a[2].c); if (cint(a[1])) wU64(st, cint(a[1]), p + (e - s.c_str())); RET(Val((uint64_t)v)); };
    BI("strtod") { uint64_t p = cint(a[0]); std::string s = cstr(st, p); char* e; double v = strtod(s.c_str(), &e); if (cint(a[1])) wU64(st, cint(a[1]), p + (e - s.c_str())); RET(D(v)); };
    BI("atof") { RET(D(atof(cstr(st, cint(a[0])).c_str()))); };
    for (auto n : {"snprintf", "vsnprintf"}) BI(n) { uint64_t d = cint(a[0]); if (cint(a[1])) { st.mem.W(d, 1); storeVal(st.mem.W(d, 1), (uint32_t)d, 1, Val((uint64_t)0)); } R0; };
    BI("sprintf") { uint64_t d = cint(a[0]); storeVal(st.mem.W(d, 1), (uint32_t)d, 1, Val((uint64_t)0)); R0; };
    BI("__errno_location") { static const char k = 0; (void)k; uint64_t e = st.excNames["errno"]; if (!e) { e = st.mem.alloc(8, 0, 0); st.excNames["errno"] = e; } RET(Val(e)); };
    // --- process
    BI("exit") { uint64_t c = cint(a[0]); if (!st.allowExit) { report(st, "exit", "process exit(" + std::to_string((int)c) + ")", "", nullptr); throw PathEnd{}; } endPath(st); };
    B["_exit"] = B["exit"]; B["quick_exit"] = B["exit"];
    BI("abort") { if (st.allowExit == 2) { endPath(st); return; } report(st, "abort", "abort()", "", nullptr); throw PathEnd{}; };
    BI("_ZSt9terminatev") { if (st.allowExit == 2) { endPath(st); return; } report(st, "abort", "std::terminate()", "", nullptr); throw PathEnd{}; };
    BI("__cxa_pure_virtual") { report(st, "abort", "pure virtual call", "", nullptr); throw PathEnd{}; };
    BI("__clang_call_terminate") { report(st, "abort", "terminate (exception in noexcept)", "", nullptr); throw PathEnd{}; };
    BI("__assert_fail") { if (st.allowExit == 2) { endPath(st); return; } std::string e = cstr(st, cint(a[0])); report(st, "code-assert", "assert(" + e + ")", cstr(st, cint(a[1])), nullptr); throw PathEnd{}; };
    BI("__cxa_guard_acquire") { uint64_t g = cint(a[0]); uint64_t v = rU(st, g, 1); RET(Val((uint64_t)(v ? 0 : 1))); };
    BI("__cxa_guard_release") { uint64_t g = cint(a[0]); storeVal(st.mem.W(g, 1), (uint32_t)g, 1, Val((uint64_t)1)); R0; };
    BI("__cxa_allocate_exception") { RET(Val(heapAlloc(st, std::max<uint64_t>(cint(a[0]), 64), 0))); };
    BI("__cxa_throw") { const GlobalVariable* g = gvAt(a[1].c); throwExc(st, a[0].c, g); };
    BI("__cxa_begin_catch") { Thread& t = st.T(); t.caughtTy.push_back({cint(a[0]), t.excTy}); RET(a[0]); };
    BI("__cxa_get_exception_ptr") { RET(a[0]); };
    BI("__cxa_end_catch") { Thread& t = st.T(); if (!t.caughtTy.empty()) t.caughtTy.pop_back(); R0; };
    BI("__cxa_rethrow") { Thread& t = st.T(); if (t.caughtTy.empty()) throw MemErr{"rethrow without exception"}; auto p = t.caughtTy.back(); throwExc(st, p.first, p.second); };
    BI("_ZSt18uncaught_exceptionv") { R0; };
    for (auto n : {"_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}) BI(n) { R0; };
    BI("__dynamic_cast") {
        uint64_t p = cint(a[0]); if (!p) { R0; return; }
        uint64_t vt = rU(st, p, 8); uint64_t ti = rU(st, vt - 8, 8); const GlobalVariable* g = gvAt(ti); const GlobalVariable* want = gvAt(a[2].c);
        RET(Val(excMatches(g, want) ? p : (uint64_t)0)); };
    // --- time / random / misc
    for (auto n : {"gettimeofday", "clock_gettime"}) BI(n) { std::string nm = x.callee->name; uint64_t p = cint(a[nm == "gettimeofday" ? 0 : 1]); if (p) { wU64(st, p, 1000); wU64(st, p + 8, 0); } R0; };
    BI("time") { R0; };
    for (auto n : {"_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"}) BI(n) { RET(Val((uint64_t)1000)); };
    for (auto n : {"rand", "random", "lrand48"}) BI(n) { st.lcg = st.lcg * 6364136223846793005ull + 1442695040888963407ull; RET(Val((st.lcg >> 33) & 0x7fffffff)); };
    BI("drand48") { st.lcg = st.lcg * 6364136223846793005ull + 1442695040888963407ull; RET(D(((st.lcg >> 33) & 0x7fffffff) / 2147483648.0)); };
    BI("sysconf") { RET(Val((uint64_t)(g_params.count("ncpu") ? g_params["ncpu"] : 4))); };
    for (auto n : {"_ZNSt6thread20hardware_concurrencyEv", "omp_get_num_procs", "get_nprocs"}) BI(n) { RET(Val((uint64_t)(g_params.count("ncpu") ? g_params["ncpu"] : 4))); };
    for (auto n : {"sched_yield", "usleep", "sleep", "nanosleep", "pthread_yield"}) BI(n) { R0; int nx = schedNext(st, true); if (nx >= 0 && nx != st.cur) { wake(st, nx); st.cur = nx; } };
    // --- math
#define UF1(n) for (auto nm : {n, "llvm." n}) BI(nm) { RET(fUF(n, a[0])); };
    UF1("log") UF1("log2") UF1("log10") UF1("exp") UF1("exp2") UF1("erfc") UF1("erf") UF1("sin") UF1("cos") UF1("tan") UF1("acos") UF1("asin") UF1("atan") UF1("cbrt") UF1("lgamma") UF1("tgamma")
    for (auto n : {"sqrt", "llvm.sqrt"}) BI(n) { if (x.ty.cls != 1) throw Unsupported{"sqrt type"}; RET(fSqrt(a[0])); };
    for (auto n : {"fabs", "llvm.fabs"}) BI(n) { if (x.ty.cls != 1) throw Unsupported{"fabs type"}; RET(fAbs(a[0])); };
    for (auto n : {"pow", "llvm.pow"}) BI(n) { RET(fUF2("pow", a[0], a[1])); };
    BI("llvm.powi") { RET(fUF2("pow", a[0], D((double)(int32_t)cint(a[1])))); };
    for (auto n : {"fmod", "atan2", "hypot"}) { std::string q = n; B[n] = [q](State& st, const Inst& x, std::vector<Val>& a) { RET(fUF2(q.c_str(), a[0], a[1])); }; }
    for (auto n : {"floor", "llvm.floor"}) BI(n) { RET(fFloor(a[0], 0)); };
    for (auto n : {"ceil", "llvm.ceil"}) BI(n) { RET(fFloor(a[0], 1)); };
    for (auto n : {"trunc", "llvm.trunc"}) BI(n) { RET(fFloor(a[0], 2)); };
    for (auto n : {"round", "llvm.round"}) BI(n) { RET(fFloor(a[0], 3)); };
    for (auto n : {"fmax", "llvm.maxnum"}) BI(n) { RET(fMinMax(a[0], a[1], true)); };
    for (auto n : {"fmin", "llvm.minnum"}) BI(n) { RET(fMinMax(a[0], a[1], false)); };
    for (auto n : {"llvm.fmuladd", "llvm.fma", "fma"}) BI(n) { RET(fAdd(fMul(a[0], a[1]), a[2])); };
    BI("llvm.copysign") { Val n = fCmp(FC_OLT, a[1], D(0)); bool neg = a[1].s ? (n.s ? decide(n.s->a) : n.c) : std::signbit(asD(a[1].c)); Val m = fAbs(a[0]); RET(neg ? fNeg(m) : m); };
    for (auto n : {"__isnan", "isnan"}) BI(n) { Val v = fCmp(FC_UNO, a[0], a[0]); RET(x.ty.bits > 1 ? castInt(O_ZEXT, 1, x.ty.bits, v) : v); };
    BI("llvm.is.fpclass") {
        uint64_t m = a[1].c; if (!a[0].s) { double d = asD(a[0].c); uint64_t c = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 0x200) : d == 0 ? (std::signbit(d) ? 0x20 : 0x40) : (d < 0 ? 8 : 0x100); RET(Val((uint64_t)((c & m) != 0))); return; }
        if (a[0].s->kind == K_FP) throw Unsupported{"is.fpclass on FP"};
        if ((m & ~0x207ull) == 0) { RET(Val((uint64_t)0)); return; }
        if ((m & 0x1f8ull) == 0x1f8ull) { RET(Val((uint64_t)1)); return; }
        throw Unsupported{"is.fpclass mask"}; };
    BI("llvm.round.even") { if (a[0].s) throw Unsupported{"roundeven"}; RET(D(std::nearbyint(asD(a[0].c)))); };
    for (auto n : {"rint", "nearbyint", "llvm.rint", "llvm.nearbyint"}) BI(n) { if (a[0].s) throw Unsupported{"rint"}; RET(D(std::nearbyint(asD(a[0].c)))); };
    B["llvm.uadd.with.overflow"] = ovf(O_ADD, false); B["llvm.usub.with.overflow"] = ovf(O_SUB, false); B["llvm.umul.with.overflow"] = ovf(O_MUL, false);
    B["llvm.sadd.with.overflow"] = ovf(O_ADD, true); B["llvm.ssub.with.overflow"] = ovf(O_SUB, true); B["llvm.smul.with.overflow"] = ovf(O_MUL, true);
#define MM(n, pr) BI(n) { Val c = icmp(pr, x.ty.bits, a[0], a[1]); RET(!c.s ? (c.c ? a[0] : a[1]) : selectV(c.s->a, x.ty, a[0], a[1])); };
    MM("llvm.umax", CmpInst::ICMP_UGT) MM("llvm.umin", CmpInst::ICMP_ULT) MM("llvm.smax", CmpInst::ICMP_SGT) MM("llvm.smin", CmpInst::ICMP_SLT)
    BI("llvm.abs") { Val c = icmp(CmpInst::ICMP_SLT, x.ty.bits, a[0], Val((uint64_t)0)); Val n = binop(O_SUB, x.ty.bits, Val((uint64_t)0), a[0]); RET(!c.s ? (c.c ? n : a[0]) : selectV(c.s->a, x.ty, n, a[0])); };
    BI("llvm.usub.sat") { Val c = icmp(CmpInst::ICMP_UGT, x.ty.bits, a[0], a[1]); Val d = binop(O_SUB, x.ty.bits, a[0], a[1]); RET(!c.s ? (c.c ? d : Val((uint64_t)0)) : selectV(c.s->a, x.ty, d, Val((uint64_t)0))); };
    BI("llvm.uadd.sat") { uint64_t p = cint(a[0]), q = cint(a[1]), m = maskW(x.ty.bits); RET(Val(p > m - q ? m : p + q)); };
    BI("llvm.ctpop") { RET(Val((uint64_t)__builtin_popcountll(cint(a[0])))); };
    BI("llvm.ctlz") { uint64_t v = cint(a[0]); RET(Val((uint64_t)(v ? __builtin_clzll(v) - (64 - x.ty.bits) : x.ty.bits))); };
    BI("llvm.cttz") { uint64_t v = cint(a[0]); RET(Val((uint64_t)(v ? __builtin_ctzll(v) : x.ty.bits))); };
    BI("llvm.bswap") { uint64_t v = cint(a[0]); RET(Val(x.ty.bits == 64 ? __builtin_bswap64(v) : x.ty.bits == 32 ? __builtin_bswap32(v) : __builtin_bswap16(v))); };
    BI("llvm.fshl") { unsigned w = x.ty.bits; uint64_t p = cint(a[0]), q = cint(a[1]), k = cint(a[2]) % w; RET(Val((k ? (p << k) | (q >> (w - k)) : p) & maskW(w))); };
    BI("llvm.fshr") { unsigned w = x.ty.bits; uint64_t p = cint(a[0]), q = cint(a[1]), k = cint(a[2]) % w; RET(Val((k ? (p << (w - k)) | (q >> k) : q) & maskW(w))); };
    // --- harness API
    BI("vf_fix") {
        std::string n = inName(st, cstr(st, cint(a[0]))); int64_t lo = cint(a[1]), hi = cint(a[2]), den = cint(a[3]);
        if (lo == hi) { st.inputs.push_back(Input{n, nullptr, 'f', 0}); }
        Big L = lo, H = hi; unsigned w = 2; while ((Big(1) << (w - 1)) <= H || -(Big(1) << (w - 1)) > L) w++;
        Z3_ast v = freshBV(n, w); const Sym* s = mkFix(v, w, L, H, den);
        Z3_ast c = zand(keep(Z3_mk_bvsle(Z, bvconst(L, w), v)), keep(Z3_mk_bvsle(Z, v, bvconst(H, w))));
        st.pc.push_back(c); st.model = nullptr; st.inputs.push_back(Input{n, s, 'f', 0}); RET(Val(s)); };
    BI("vf_real") { std::string n = inName(st, cstr(st, cint(a[0]))); Z3_ast v = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_real_sort(Z))); Sym* s = new Sym; s->kind = K_REAL; s->a = v; st.inputs.push_back(Input{n, s, 'r', 0}); st.model = nullptr; RET(Val(s)); };
    BI("vf_fp") { std::string n = inName(st, cstr(st, cint(a[0]))); Z3_ast v = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_fpa_sort_double(Z))); Sym* s = new Sym; s->kind = K_FP; s->a = v; st.inputs.push_back(Input{n, s, 'p', 0}); st.model = nullptr; RET(Val(s)); };
    BI("vf_int") {
        std::string n = inName(st, cstr(st, cint(a[0]))); int64_t lo = cint(a[1]), hi = cint(a[2]);
        Z3_ast v = freshBV(n, 64); Sym* s = (Sym*)mkInt(v, 64);
        if (lo >= 0) { s->hasRange = true; s->ulo = lo; s->uhi = hi; }
        st.pc.push_back(zand(keep(Z3_mk_bvsle(Z, bvconst(Big(lo), 64), v)), keep(Z3_mk_bvsle(Z, v, bvconst(Big(hi), 64))))); st.model = nullptr;
        st.inputs.push_back(Input{n, s, 'i', 0}); RET(Val(s)); };
    BI("vf_assume") { doAssume(st, a[0]); R0; };
    BI("vf_assert") { std::string l = cstr(st, cint(a[1])); doAssert(st, a[0], l); R0; };
    BI("vf_fail") { std::string l = cstr(st, cint(a[0])); doAssert(st, Val((uint64_t)0), l); R0; };
    BI("vf_cover") { g_covers[cstr(st, cint(a[0]))]++; R0; };
    BI("vf_kill") { throw PathEnd{}; };
    BI("vf_param") { std::string n = cstr(st, cint(a[0])); auto it = g_params.find(n); RET(it == g_params.end() ? a[1] : Val((uint64_t)it->second)); };
    BI("vf_concrete") { RET(Val(cint(a[0]))); };
    BI("vf_concrete_d") { RET(a[0].s ? D(concretizeNum(a[0].s)) : a[0]); };
    BI("vf_is_native") { R0; };
    BI("vf_allow_exit") { st.allowExit = cint(a[0]); R0; };
    BI("vf_sched") { st.schedMode = cint(a[0]) & 1; st.preemptLeft = cint(a[1]); st.raceMode = (cint(a[0]) >> 1) & 1; R0; };
    BI("vf_omp_threads") { st.ompThreads = cint(a[0]); R0; };
    BI("vf_set_rank") { st.T().rank = (int)cint(a[0]); R0; };
    BI("vf_get_rank") { RET(Val((uint64_t)(uint32_t)st.T().rank)); };
    BI("vf_thread_id") { RET(Val((uint64_t)st.th[st.cur].no)); };
    BI("vf_debug") { std::string s = cstr(st, cint(a[0])); Val v = a[1]; if (!v.s) fprintf(stderr, "[dbg] %s %.17g (%ld)\n", s.c_str(), asD(v.c), (long)v.c); else if (v.s->a) fprintf(stderr, "[dbg] %s %s\n", s.c_str(), Z3_ast_to_string(Z, v.s->a)); else fprintf(stderr, "[dbg] %s kind %d\n", s.c_str(), v.s->kind); R0; };
    BI("vf_debugi") { std::string s = cstr(st, cint(a[0])); Val v = a[1]; if (!v.s) fprintf(stderr, "[dbg] %s %ld\n", s.c_str(), (long)v.c); else fprintf(stderr, "[dbg] %s %s\n", s.c_str(), Z3_ast_to_string(Z, v.s->a)); R0; };
    BI("vf_sel") { // ite without forking: vf_sel(bool, double, double)
        Val c = a[0]; if (!c.s) { RET(c.c & 1 ? a[1] : a[2]); return; } RET(fSelect(c.s->a, a[1], a[2])); };
    BI("vf_and") { Z3_ast r = zand(intAst(a[0], 1), intAst(a[1], 1)); RET(boolVal(r)); };
    BI("vf_or") { Z3_ast r = zor(intAst(a[0], 1), intAst(a[1], 1)); RET(boolVal(r)); };
    BI("vf_file_create") { std::string n = cstr(st, cint(a[0])); uint64_t p = cint(a[1]), sz = cint(a[2]); int i = findFile(st, n); if (i < 0) { st.files.push_back(VFile()); i = st.files.size() - 1; st.files[i].name = n; } VFile& f = st.files[i]; f.size = 0; f.obj = 0; ensureSize(st, f, sz); if (sz) copyMem(st.mem, f.obj, p, sz); R0; };
    BI("vf_file_size") { int i = findFile(st, cstr(st, cint(a[0]))); RET(Val(i < 0 ? ~0ull : st.files[i].size)); };
    BI("vf_file_read") { int i = findFile(st, cstr(st, cint(a[0]))); if (i < 0) throw MemErr{"vf_file_read: no file"}; uint64_t off = cint(a[1]), n = cint(a[3]); if (off + n > st.files[i].size) throw MemErr{"vf_file_read beyond end"}; copyMem(st.mem, cint(a[2]), st.files[i].obj + off, n); R0; };
    // --- stdio on virtual files
    for (auto n : {"fopen", "fopen64"}) BI(n) {
        std::string fn = cstr(st, cint(a[0])), md = cstr(st, cint(a[1])); int i = findFile(st, fn); bool w = md.find('w') != std::string::npos || md.find('a') != std::string::npos;
        if (i < 0) { if (!w) { R0; return; } st.files.push_back(VFile()); i = st.files.size() - 1; st.files[i].name = fn; }
        if (md.find('w') != std::string::npos) { st.files[i].size = 0; st.files[i].obj = 0; }
        uint64_t h = st.mem.alloc(16, 0, 0); VHandle v{i, md.find('a') != std::string::npos ? st.files[i].size : 0, false, w}; st.handles[h] = v; RET(Val(h)); };
    BI("fclose") { uint64_t h = cint(a[0]); if (!st.handles.erase(h)) throw MemErr{"fclose of an invalid handle"}; R0; };
    BI("fread") {
        uint64_t p = cint(a[0]), sz = cint(a[1]), n = cint(a[2]); VHandle* h = handleOf(st, cint(a[3])); if (!h) throw MemErr{"fread on an invalid handle"};
        VFile& f = st.files[h->file]; uint64_t av = f.size > h->pos ? f.size - h->pos : 0; uint64_t k = sz ? std::min(n, av / sz) : 0;
        if (k) copyMem(st.mem, p, f.obj + h->pos, k * sz); if (k < n) { h->eof = true; h->pos = f.size; } else h->pos += k * sz; RET(Val(k)); };
    BI("fwrite") {
        uint64_t p = cint(a[0]), sz = cint(a[1]), n = cint(a[2]); VHandle* h = handleOf(st, cint(a[3])); if (!h) { RET(Val(n)); return; }
        VFile& f = st.files[h->file]; ensureSize(st, f, h->pos + sz * n); if (sz * n) copyMem(st.mem, f.obj + h->pos, p, sz * n); h->pos += sz * n; RET(Val(n)); };
    for (auto n : {"fseek", "fseeko", "fseeko64"}) BI(n) { VHandle* h = handleOf(st, cint(a[0])); if (!h) throw MemErr{"fseek on an invalid handle"}; int64_t o = cint(a[1]); int wh = cint(a[2]); int64_t b = wh == 0 ? 0 : wh == 1 ? (int64_t)h->pos : (int64_t)st.files[h->file].size; if (b + o < 0) { RET(Val((uint64_t)0xffffffffu)); return; } h->pos = b + o; h->eof = false; R0; };
    for (auto n : {"ftell", "ftello", "ftello64"}) BI(n) { VHandle* h = handleOf(st, cint(a[0])); if (!h) throw MemErr{"ftell on an invalid handle"}; RET(Val(h->pos)); };
    BI("rewind") { VHandle* h = handleOf(st, cint(a[0])); if (!h) throw MemErr{"rewind"}; h->pos = 0; h->eof = false; R0; };
    BI("feof") { VHandle* h = handleOf(st, cint(a[0])); RET(Val((uint64_t)(h && h->eof))); };
    BI("ferror") { R0; };
    for (auto n : {"fgetc", "getc"}) BI(n) { VHandle* h = handleOf(st, cint(a[0])); if (!h) throw MemErr{"fgetc"}; VFile& f = st.files[h->file]; if (h->pos >= f.size) { h->eof = true; RET(Val((uint64_t)0xffffffffu)); return; } uint64_t c = rU(st, f.obj + h->pos, 1); h->pos++; RET(Val(c)); };
    // --- pthreads
    BI("pthread_create") {
        if (st.th.size() > 64) throw Unsupported{"too many threads"};
        int id = st.th.size(); st.th.emplace_back(); st.th[id].no = ++st.made; st.th[id].rank = st.th[st.cur].rank; uint64_t fa = cint(a[2]); auto it = g_funcByAddr.find(fa); if (it == g_funcByAddr.end()) throw MemErr{"pthread_create: bad function"};
        DFunc* fn = it->second; Val arg = a[3]; if (st.raceMode) { Thread& pt = st.th[st.cur]; if (pt.vc.size() <= (size_t)st.cur) { pt.vc.resize(st.cur + 1, 0); pt.vc[st.cur] = 1; } auto v = pt.vc; if (v.size() <= (size_t)id) v.resize(id + 1, 0); v[id] = 1; st.th[id].vc = v; pt.vc[st.cur]++; }
        wU64(st, cint(a[0]), id + 1); R0; pushOn(st, id, fn, {arg}); st.th[id].st.back().flag = 3; };
    BI("pthread_join") { uint64_t id = cint(a[0]) - 1; if (id >= st.th.size()) { RET(Val((uint64_t)3)); return; } if (st.th[id].stat == T_DONE) { if (st.raceMode) { auto& tv = st.T().vc; auto& ov = st.th[id].vc; if (ov.size() > tv.size()) tv.resize(ov.size(), 0); for (size_t i = 0; i < ov.size(); i++) tv[i] = std::max(tv[i], ov[i]); } uint64_t rp = cint(a[1]); if (rp) wU64(st, rp, st.th[id].ret); R0; return; } st.T().stat = T_JOIN; st.T().waitA = id; };
    BI("pthread_detach") { R0; };
    BI("pthread_self") { RET(Val((uint64_t)st.cur + 1)); };
    BI("pthread_equal") { RET(Val((uint64_t)(cint(a[0]) == cint(a[1])))); };
    BI("pthread_exit") { Thread& t = st.T(); while (!t.st.empty()) popFrame(st); t.stat = T_DONE; t.ret = cint(a[0]); };
    BI("pthread_cancel") { R0; };
    BI("pthread_mutexattr_init") { st.mattr[cint(a[0])] = 0; R0; };
    BI("pthread_mutexattr_settype") { st.mattr[cint(a[0])] = cint(a[1]); R0; };
    BI("pthread_mutex_init") { uint64_t m = cint(a[0]); st.mem.W(m, 1); MutexS s; uint64_t at = cint(a[1]); if (at) s.type = st.mattr[at]; st.mtx[m] = s; R0; };
    BI("pthread_mutex_destroy") { uint64_t m = cint(a[0]); auto it = st.mtx.find(m); if (it != st.mtx.end()) { if (it->second.owner >= 0) { RET(Val((uint64_t)16)); return; } if (st.schedMode) { for (auto& t : st.th) if ((t.stat == T_MUTEX && t.waitA == m) || (t.stat == T_COND && t.waitM == m)) throw MemErr{"pthread_mutex_destroy of a mutex that a thread waits for"}; it->second.dead = true; } else st.mtx.erase(it); } R0; };
    BI("pthread_mutex_lock") {
        if (schedPoint(st)) { return; }
        uint64_t m = cint(a[0]); st.mem.R(m, 1, "pthread_mutex_lock"); MutexS& s = st.mtx[m]; Thread& t = st.T(); if (s.dead) throw MemErr{"pthread_mutex_lock of a destroyed mutex"};
        if (s.owner < 0) { s.owner = st.cur; s.count = 1; raceSync(st, m, true, false); R0; return; }
        if (s.owner == st.cur) { if (s.type == 2) { RET(Val((uint64_t)35)); return; } if (s.type == 1) { s.count++; R0; return; } }
        R0; t.stat = T_MUTEX; t.waitA = m; };
    BI("pthread_mutex_trylock") { if (schedPoint(st)) return; uint64_t m = cint(a[0]); MutexS& s = st.mtx[m]; if (s.owner < 0) { s.owner = st.cur; s.count = 1; raceSync(st, m, true, false); R0; } else RET(Val((uint64_t)16)); };
    BI("pthread_mutex_unlock") {
        uint64_t m = cint(a[0]); st.mem.R(m, 1, "pthread_mutex_unlock"); MutexS& s = st.mtx[m]; if (s.dead) throw MemErr{"pthread_mutex_unlock of a destroyed mutex"};
        if (s.owner != st.cur) { if (st.schedMode) throw MemErr{"pthread_mutex_unlock of a mutex the thread does not hold"}; if (s.type == 2) { RET(Val((uint64_t)1)); return; } }
        raceSync(st, m, false, true); if (--s.count <= 0) s.owner = -1; if (st.schedMode) st.yieldNow = true; R0; };
    BI("pthread_cond_init") { uint64_t c = cint(a[0]); st.mem.W(c, 1); R0; };
    BI("pthread_cond_destroy") { uint64_t c = cint(a[0]); for (auto& t : st.th) if (t.stat == T_COND && t.waitA == c) throw MemErr{"pthread_cond_destroy with a waiting thread"}; R0; };
    BI("pthread_cond_wait") {
        if (schedPoint(st)) return;
        uint64_t c = cint(a[0]), m = cint(a[1]); st.mem.R(c, 1, "pthread_cond_wait"); MutexS& s = st.mtx[m]; raceSync(st, m, false, true);
        if (s.owner != st.cur) { if (st.schedMode) throw MemErr{"pthread_cond_wait with a mutex the thread does not hold"}; if (s.type == 2) { RET(Val((uint64_t)1)); return; } }
        else s.owner = -1;
        R0; Thread& t = st.T(); t.stat = T_COND; t.waitA = c; t.waitM = m; };
    BI("pthread_cond_signal") {
        if (schedPoint(st)) return; uint64_t c = cint(a[0]); st.mem.R(c, 1, "pthread_cond_signal"); R0;
        for (auto& t : st.th) if (t.stat == T_COND && t.waitA == c) { t.stat = T_MUTEX; t.waitA = t.waitM; break; } };
    BI("pthread_cond_broadcast") { if (schedPoint(st)) return; uint64_t c = cint(a[0]); st.mem.R(c, 1, "pthread_cond_broadcast"); R0; for (auto& t : st.th) if (t.stat == T_COND && t.waitA == c) { t.stat = T_MUTEX; t.waitA = t.waitM; } };
    BI("pthread_once") { uint64_t o = cint(a[0]); if (rU(st, o, 4) == 0) { wU32(st, o, 2); auto it = g_funcByAddr.find(cint(a[1])); R0; pushCall(st, it->second, {}); st.F().flag = 2; } else R0; };
    BI("pthread_rwlock_init") { R0; }; BI("pthread_rwlock_destroy") { R0; };
    BI("pthread_rwlock_rdlock") { uint64_t m = cint(a[0]); if (st.rwl[m] >= 0) { st.rwl[m]++; R0; return; } R0; st.T().stat = T_RWL; st.T().waitA = m; st.T().waitM = 0; };
    BI("pthread_rwlock_wrlock") { uint64_t m = cint(a[0]); if (st.rwl[m] == 0) { st.rwl[m] = -1; R0; return; } R0; st.T().stat = T_RWL; st.T().waitA = m; st.T().waitM = 1; };
    BI("pthread_rwlock_unlock") { uint64_t m = cint(a[0]); if (st.rwl[m] < 0) st.rwl[m] = 0; else if (st.rwl[m] > 0) st.rwl[m]--; R0; };
    BI("pthread_spin_init") { R0; }; BI("pthread_spin_destroy") { R0; };
    B["pthread_spin_lock"] = B["pthread_mutex_lock"]; B["pthread_spin_unlock"] = B["pthread_mutex_unlock"];
    // --- OpenMP
    BI("omp_set_num_threads") { st.ompThreads = std::max<int>(1, (int)cint(a[0])); R0; };
    BI("omp_get_max_threads") { RET(Val((uint64_t)st.ompThreads)); };
    BI("omp_get_num_threads") { Thread& t = st.T(); RET(Val((uint64_t)(t.team >= 0 ? st.teams[t.team].n : 1))); };
    for (auto n : {"omp_get_thread_num", "__kmpc_global_thread_num"}) BI(n) { Thread& t = st.T(); RET(Val((uint64_t)(t.team >= 0 ? t.ttid : 0))); };
    BI("omp_get_wtime") { RET(D(0.0)); };
    for (auto n : {"omp_init_lock", "omp_destroy_lock", "omp_init_nest_lock"}) BI(n) { st.mtx[cint(a[0])] = MutexS(); R0; };
    B["omp_set_lock"] = B["pthread_mutex_lock"]; B["omp_unset_lock"] = B["pthread_mutex_unlock"];
    BI("__kmpc_push_num_threads") { st.ompPush = (int)cint(a[2]); R0; };
    BI("__kmpc_fork_call") {
        Thread& t0 = st.T(); int n = st.ompPush > 0 ? st.ompPush : st.ompThreads; st.ompPush = 0; if (t0.team >= 0) n = 1;
        if (n > 16) n = 16;
        auto it = g_funcByAddr.find(cint(a[2])); if (it == g_funcByAddr.end()) throw MemErr{"kmpc_fork_call"}; DFunc* fn = it->second;
        int prevTeam = t0.team, prevTid = t0.ttid; int team = st.teams.size(); Team tm; tm.n = n; tm.dcount.assign(n, 0); st.teams.push_back(tm);
        std::vector<Val> extra(a.begin() + 3, a.end());
        retv(st, x, Val((uint64_t)0)); // the fork call itself is done; master resumes after the join
        // the microtask frame is pushed on top; flag 1 = join team on return
        int me = st.cur;
        for (int k = 0; k < n; k++) {
            uint64_t g = st.mem.alloc(8, 0, 0); wU32(st, g, k); wU32(st, g + 4, k);
            std::vector<Val> args = {Val(g), Val(g + 4)}; args.insert(args.end(), extra.begin(), extra.end());
            if (k == 0) { pushCall(st, fn, args); Thread& t = st.th[me]; t.st.back().flag = 1; t.st.back().varargs.clear(); if (prevTeam < 0) { t.team = team; t.ttid = 0; t.joinTeam = team; } else { t.st.back().flag = 2; (void)prevTid; } }
            else { int id = st.th.size(); st.th.emplace_back(); st.th[id].rank = st.th[me].rank; st.th[id].team = team; st.th[id].ttid = k; pushOn(st, id, fn, args); st.th[id].st.back().flag = 3; if (st.raceMode) { vcInit(st.th[me], me); st.th[id].vc = st.th[me].vc; if (st.th[id].vc.size() <= (size_t)id) st.th[id].vc.resize(id + 1, 0); st.th[id].vc[id] = 1; } }
        }
        if (st.raceMode && n > 1) st.th[me].vc[me]++; };
    BI("__kmpc_barrier") {
        Thread& t = st.T(); if (t.team < 0 || st.teams[t.team].n == 1) { R0; return; } Team& tm = st.teams[t.team]; R0; tm.arrived++;
        if (tm.arrived == tm.n) { if (st.raceMode) { std::vector<uint32_t> j; for (auto& o : st.th) if (o.team == t.team && o.stat != T_DONE) vcJoin(j, o.vc); for (size_t i = 0; i < st.th.size(); i++) { auto& o = st.th[i]; if (o.team == t.team && o.stat != T_DONE) { vcInit(o, i); vcJoin(o.vc, j); o.vc[i]++; } } } tm.arrived = 0; tm.gen++; for (auto& o : st.th) if (o.team == t.team && o.stat == T_BARRIER) o.stat = T_RUN; } else t.stat = T_BARRIER; };
    for (auto n : {"__kmpc_for_static_init_4", "__kmpc_for_static_init_4u", "__kmpc_for_static_init_8", "__kmpc_for_static_init_8u"}) BI(n) {
        std::string nm = x.callee->name; unsigned w = nm.find("init_8") != std::string::npos ? 8 : 4; bool uns = nm.back() == 'u';
        int sched = cint(a[2]); uint64_t pl = cint(a[4]), pu = cint(a[5]), ps = cint(a[6]), plast = cint(a[3]); int64_t incr = sextc(cint(a[7]), w * 8); int64_t chunk = sextc(cint(a[8]), w * 8);
        auto rd = [&](uint64_t p) -> int64_t { uint64_t v = rU(st, p, w); return uns ? (int64_t)v : (int64_t)sextc(v, w * 8); };
        int64_t lo = rd(pl), hi = rd(pu); Thread& t = st.T(); int64_t nth = t.team >= 0 ? st.teams[t.team].n : 1, tid = t.team >= 0 ? t.ttid : 0;
        int64_t trip = incr > 0 ? (hi < lo ? 0 : (hi - lo) / incr + 1) : (lo < hi ? 0 : (lo - hi) / (-incr) + 1);
        int64_t nlo = lo, nhi = hi, stride = 0; int last = 0;
        if (sched == 33 || sched == 35 + 1000) { if (chunk < 1) chunk = 1; nlo = lo + incr * chunk * tid; nhi = nlo + incr * (chunk - 1); stride = incr * chunk * nth; last = trip > 0 && ((trip - 1) / chunk) % nth == tid; }
        else {
            int64_t sm = trip / nth, ex = trip % nth; int64_t mine = sm + (tid < ex ? 1 : 0); int64_t start = tid * sm + std::min(tid, ex);
            nlo = lo + incr * start; nhi = mine ? nlo + incr * (mine - 1) : nlo - incr; stride = incr * trip; last = mine && start + mine == trip;
            if (!mine) { if (uns && incr > 0) { nlo = hi + 1; nhi = hi; } }
        }
        auto wr = [&](uint64_t p, int64_t v) { if (w == 8) wU64(st, p, v); else wU32(st, p, v); };
        wr(pl, nlo); wr(pu, nhi); wr(ps, stride); if (plast) wU32(st, plast, last); R0; };
    BI("__kmpc_for_static_fini") { R0; };
    for (auto n : {"__kmpc_dispatch_init_4", "__kmpc_dispatch_init_4u", "__kmpc_dispatch_init_8", "__kmpc_dispatch_init_8u"}) BI(n) {
        std::string nm = x.callee->name; unsigned w = nm.find("init_8") != std::string::npos ? 8 : 4; bool uns = nm.back() == 'u'; Thread& t = st.T();
        int team = t.team; if (team < 0) { Team tm; tm.n = 1; tm.dcount.assign(1, 0); st.teams.push_back(tm); team = st.teams.size() - 1; t.team = team; t.ttid = 0; }
        Team& tm = st.teams[team]; int seq = ++tm.dcount[t.ttid];
        auto cv = [&](Val v) -> int64_t { uint64_t c = cint(v); return uns ? (int64_t)(c & maskW(w * 8)) : (int64_t)sextc(c, w * 8); };
        if (!tm.disp.count(seq)) tm.disp[seq] = {cv(a[3]), cv(a[4]), cv(a[5]), std::max<int64_t>(1, cv(a[6])), 0};
        R0; };
    for (auto n : {"__kmpc_dispatch_next_4", "__kmpc_dispatch_next_4u", "__kmpc_dispatch_next_8", "__kmpc_dispatch_next_8u"}) BI(n) {
        std::string nm = x.callee->name; unsigned w = nm.find("next_8") != std::string::npos ? 8 : 4; Thread& t = st.T(); Team& tm = st.teams[t.team]; auto& d = tm.disp[tm.dcount[t.ttid]];
        int64_t lb = d[0], ub = d[1], inc = d[2], ch = d[3]; if (inc > 0 ? lb > ub : lb < ub) { R0; return; }
        int64_t e = lb + inc * (ch - 1); if (inc > 0 ? e > ub : e < ub) e = ub; d[0] = e + inc;
        auto wr = [&](uint64_t p, int64_t v) { if (!p) return; if (w == 8) wU64(st, p, v); else wU32(st, p, v); };
        wr(cint(a[3]), lb); wr(cint(a[4]), e); wr(cint(a[5]), inc); if (cint(a[2])) wU32(st, cint(a[2]), e == ub); RET(Val((uint64_t)1)); };
    BI("__kmpc_dispatch_fini_4") { R0; };
    for (auto n : {"__kmpc_reduce", "__kmpc_reduce_nowait"}) BI(n) { raceSync(st, 1, true, false); RET(Val((uint64_t)1)); };
    for (auto n : {"__kmpc_end_reduce", "__kmpc_end_reduce_nowait"}) BI(n) { raceSync(st, 1, false, true); R0; };
    BI("__kmpc_critical") { raceSync(st, cint(a[2]), true, false); R0; }; BI("__kmpc_end_critical") { raceSync(st, cint(a[2]), false, true); R0; };
    for (auto n : {"__kmpc_end_single", "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_serialized_parallel", "__kmpc_serialized_parallel"}) BI(n) { R0; };
    for (auto n : {"__kmpc_master", "__kmpc_masked"}) BI(n) { Thread& t = st.T(); RET(Val((uint64_t)(t.team < 0 || t.ttid == 0))); };
    BI("__kmpc_single") { Thread& t = st.T(); RET(Val((uint64_t)(t.team < 0 || t.ttid == 0))); };
}
