// cv: deductive verifier for LLVM IR compiled from the real sources.
// A proof unit is a function vf_unit_* whose body states a contract (vf_assume = requires / case split,
// vf_assert = ensures).  The engine executes the unit symbolically over *all* paths; each vf_assert and each
// implicit safety condition (memory, lifetime, initialisation, no unreachable/terminate, frame) is an
// obligation discharged by Z3 (or by the rewriting layer when it is closed by simplification).
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <pthread.h>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;

static Exprs X;
struct Val { u64 c = 0; Node* n = nullptr; };
static inline Val CV(u64 c) { Val v; v.c = c; return v; }
static inline Val NV(Node* n) { Val v; if (n->op == K::Const) v.c = n->k; else v.n = n; return v; }
static inline Node* ND(const Val& v, unsigned w) { return v.n ? v.n : X.cst(v.c, w); }

struct ToolError { std::string msg; };
[[noreturn]] static void tool(const std::string& m) { throw ToolError{m}; }

// ---------------------------------------------------------------- compiled functions
struct Opd { int slot = -1; u64 c = 0; uint16_t n = 1; uint16_t w = 64; bool undef = false; std::vector<std::pair<u64,int>>* agg = nullptr; };
enum IOp : uint8_t { I_Bin, I_Icmp, I_Cast, I_Sel, I_Load, I_Store, I_Gep, I_Alloca, I_Call, I_Br, I_CBr, I_Switch, I_Ret, I_Unreach,
    I_ExtractV, I_InsertV, I_Rmw, I_CmpXchg, I_Fence, I_LandingPad, I_Resume, I_Freeze, I_FP };
struct CFunc; struct CBlock;
struct CInst {
    IOp op; uint8_t sub = 0; uint8_t w = 64, w2 = 64; uint16_t n = 1; int dst = -1; u64 imm = 0;
    std::vector<Opd> ops; std::vector<u64> aux; std::vector<std::pair<u64,int>> cases;
    std::vector<int> offs; std::vector<int> wid; // leaf offsets / widths for aggregates
    const Instruction* I = nullptr; Function* callee = nullptr; int t1 = -1, t2 = -1; bool invoke = false, nsw = false, nuw = false, atomic = false; int order = 0;
};
struct CPhi { int dst; uint16_t n; std::vector<std::pair<int, Opd>> in; };
struct CBlock { std::vector<CPhi> phis; std::vector<CInst> insts; };
struct CFunc { Function* F; std::vector<CBlock> blocks; int nslots = 0; std::vector<std::pair<int,int>> args; std::string name; bool repo = false; std::string file; u64 execs = 0; };

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { Stack, Heap, Global, Const_, Exn };
struct SB { Node* n; uint8_t idx; };                 // symbolic byte: byte idx of n
struct Obj {
    int rc = 0; u32 size; Kind kind; bool dead = false, frozen = false; const char* what = ""; u32 align = 0;
    std::vector<uint8_t> data; std::vector<uint8_t> st;  // 0 uninit, 1 concrete, 2 symbolic
    std::vector<SB> sym; u64 decOrder = 0; std::vector<std::string> site;
};
struct ORef {
    Obj* p = nullptr; ORef() {} ORef(Obj* o) : p(o) { if (p) ++p->rc; } ORef(const ORef& o) : p(o.p) { if (p) ++p->rc; } ORef(ORef&& o) : p(o.p) { o.p = nullptr; }
    ORef& operator=(ORef o) { std::swap(p, o.p); return *this; } ~ORef() { if (p && --p->rc == 0) delete p; }
};
struct Slot { ORef o; u32 gen = 0; };
struct Frame { CFunc* f; int blk = 0, ip = 0; int prev = -1; std::vector<Val> regs; std::vector<u64> allocas; int retDst = -1; int normal = -1, unwind = -1; const Instruction* site = nullptr; };
struct ExnRec { u64 addr, ti, dtor; int handlers; };
struct Input { char kind; uint8_t w; u64 c; Node* n; u64 bound; };
struct Note { const char* s; Val v; };
struct State {
    std::vector<Slot> mem; std::vector<u32> freeSlots; std::vector<Frame> fr; std::vector<Node*> pc; std::shared_ptr<Model> model; u32 nvar = 0;
    std::vector<Input> in; std::vector<ExnRec> caught, flying; u64 steps = 0; u64 caseid = 0, allocs = 0, liveHeap = 0; int pendChoice = -1; bool excuse = false;
    u64 hp = 0; bool freezeOn = false; bool acq = false; std::vector<Note> notes; u64 exnLive = 0; int forks = 0; u64 failAt = 0;
};

// ---------------------------------------------------------------- solver
static Z3_context ctx; static Z3_solver slv; static std::vector<Node*> sstack; static double solverTime = 0; static u64 queries = 0, unknowns = 0; static unsigned qTimeoutMs = 20000;
static std::string smtDump; static u64 dumped = 0; static u64 dumpMax = 0;
static Z3_ast tz(Node* n) {
    if (n->z) return n->z;
    Z3_ast a = n->a ? tz(n->a) : nullptr, b = n->b ? tz(n->b) : nullptr, c = n->c ? tz(n->c) : nullptr, r;
    bool bo = n->w == 1, abool = n->a && n->a->w == 1;
    auto tobv = [&](Z3_ast x) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, x, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); };
    switch (n->op) {
    case K::Const: r = bo ? (n->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, n->k, Z3_mk_bv_sort(ctx, n->w)); break;
    case K::Var: { std::string s = "v" + std::to_string(n->k) + "_" + std::to_string(n->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, s.c_str()), bo ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, n->w)); break; }
    case K::Undef: { std::string s = "u" + std::to_string(n->k) + "_" + std::to_string(n->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, s.c_str()), bo ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, n->w)); break; }
    case K::Add: r = bo ? Z3_mk_xor(ctx, a, b) : Z3_mk_bvadd(ctx, a, b); break;
    case K::Sub: r = bo ? Z3_mk_xor(ctx, a, b) : Z3_mk_bvsub(ctx, a, b); break;
    case K::Mul: { if (bo) { Z3_ast v[2] = {a, b}; r = Z3_mk_and(ctx, 2, v); } else r = Z3_mk_bvmul(ctx, a, b); break; }
    case K::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break; case K::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case K::URem: r = Z3_mk_bvurem(ctx, a, b); break; case K::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, a, b); break; case K::LShr: r = Z3_mk_bvlshr(ctx, a, b); break; case K::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
    case K::And: { Z3_ast v[2] = {a, b}; r = bo ? Z3_mk_and(ctx, 2, v) : Z3_mk_bvand(ctx, a, b); break; }
    case K::Or: { Z3_ast v[2] = {a, b}; r = bo ? Z3_mk_or(ctx, 2, v) : Z3_mk_bvor(ctx, a, b); break; }
    case K::Xor: r = bo ? (n->b->op == K::Const ? (n->b->k ? Z3_mk_not(ctx, a) : a) : Z3_mk_xor(ctx, a, b)) : Z3_mk_bvxor(ctx, a, b); break;
    case K::Eq: r = Z3_mk_eq(ctx, a, b); break;
    case K::Ult: if (abool) { Z3_ast v[2] = {Z3_mk_not(ctx, a), b}; r = Z3_mk_and(ctx, 2, v); } else r = Z3_mk_bvult(ctx, a, b); break;
    case K::Ule: r = Z3_mk_bvule(ctx, a, b); break; case K::Slt: r = Z3_mk_bvslt(ctx, a, b); break; case K::Sle: r = Z3_mk_bvsle(ctx, a, b); break;
    case K::Ite: r = Z3_mk_ite(ctx, a, b, c); break;
    case K::Zext: { Z3_ast x = abool ? tobv(a) : a; r = Z3_mk_zero_ext(ctx, n->w - n->a->w, x); break; }
    case K::Sext: { Z3_ast x = abool ? tobv(a) : a; r = Z3_mk_sign_ext(ctx, n->w - n->a->w, x); break; }
    case K::Extract: { r = Z3_mk_extract(ctx, n->k + n->w - 1, n->k, a); if (bo) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break; }
    case K::Concat: { Z3_ast x = abool ? tobv(a) : a, y = n->b->w == 1 ? tobv(b) : b; r = Z3_mk_concat(ctx, x, y); break; }
    default: abort();
    }
    Z3_inc_ref(ctx, r); n->z = r; return r;
}
// 1 sat (model filled), 0 unsat, -1 unknown
// Answers are cached: nodes are hash-consed and variables are numbered per path, so different cases pose identical queries.
struct QKey { std::vector<Node*> v; bool operator==(const QKey& o) const { return v == o.v; } };
struct QHash { size_t operator()(const QKey& k) const { u64 h = 0; for (Node* n : k.v) { h ^= n->id + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<QKey, std::pair<int, std::shared_ptr<Model>>, QHash> qcache; static u64 cacheHits = 0;
static int check2(const std::vector<Node*>& pc, Node* extra, std::shared_ptr<Model>* out, u32 nvar);
static int check(const std::vector<Node*>& pc, Node* extra, std::shared_ptr<Model>* out, u32 nvar) {
    QKey k; k.v = pc; std::sort(k.v.begin(), k.v.end(), [](Node* a, Node* b) { return a->id < b->id; }); k.v.erase(std::unique(k.v.begin(), k.v.end()), k.v.end()); k.v.push_back(extra ? extra : X.T());
    auto it = qcache.find(k);
    if (it != qcache.end()) { ++cacheHits; if (out) *out = it->second.second; return it->second.first; }
    std::shared_ptr<Model> m; int r = check2(pc, extra, &m, nvar);
    if (r >= 0) { if (qcache.size() > 2000000) qcache.clear(); qcache.emplace(std::move(k), std::make_pair(r, m)); }
    if (out) *out = m; return r;
}
static int check2(const std::vector<Node*>& pc, Node* extra, std::shared_ptr<Model>* out, u32 nvar) {
    auto t0 = std::chrono::steady_clock::now();
    ++queries;
    size_t k = 0; while (k < sstack.size() && k < pc.size() && sstack[k] == pc[k]) ++k;
    if (sstack.size() > k) { Z3_solver_pop(ctx, slv, sstack.size() - k); sstack.resize(k); }
    for (; k < pc.size(); ++k) { Z3_solver_push(ctx, slv); Z3_solver_assert(ctx, slv, tz(pc[k])); sstack.push_back(pc[k]); }
    Z3_solver_push(ctx, slv);
    if (extra) Z3_solver_assert(ctx, slv, tz(extra));
    if (dumped < dumpMax && !smtDump.empty()) {
        std::string fn = smtDump + "." + std::to_string(dumped++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w");
        if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, slv)); fclose(f); }
    }
    Z3_lbool r = Z3_solver_check(ctx, slv);
    if (dumped && dumped <= dumpMax && !smtDump.empty()) {
        std::string fn = smtDump + "." + std::to_string(dumped - 1) + ".res"; FILE* f = fopen(fn.c_str(), "w");
        if (f) { fprintf(f, "%s\n", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown"); fclose(f); }
    }
    if (r == Z3_L_TRUE && out) {
        Z3_model m = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, m);
        auto mo = std::make_shared<Model>(); mo->epoch = X.nextEpoch++; mo->v.assign(nvar, 0);
        unsigned n = Z3_model_get_num_consts(ctx, m);
        for (unsigned i = 0; i < n; ++i) {
            Z3_func_decl d = Z3_model_get_const_decl(ctx, m, i); Z3_string s = Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, d));
            if (s[0] != 'v') continue; u64 id = strtoull(s + 1, nullptr, 10);
            Z3_ast v = Z3_model_get_const_interp(ctx, m, d); if (!v) continue; u64 x = 0;
            if (Z3_get_bool_value(ctx, v) == Z3_L_TRUE) x = 1; else if (Z3_get_bool_value(ctx, v) == Z3_L_FALSE) x = 0; else { uint64_t t = 0; Z3_get_numeral_uint64(ctx, v, &t); x = t; }
            if (id < nvar) mo->v[id] = x;
        }
        Z3_model_dec_ref(ctx, m); *out = mo;
    }
    Z3_solver_pop(ctx, slv, 1);
    solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (r == Z3_L_UNDEF) ++unknowns;
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}

// ---------------------------------------------------------------- engine
struct Failure { std::string kind, msg, loc, stack, inputs, notes; };
struct PathEnd { }; // thrown to end a path silently
struct Obl { u64 trivial = 0, solver = 0, failed = 0, undecided = 0; };

struct Engine {
    Module& M; const DataLayout& DL; std::map<Function*, CFunc*> cf; std::map<const GlobalValue*, u64> gaddr; std::map<u64, Function*> faddr;
    std::vector<std::unique_ptr<State>> work; State* S = nullptr;
    std::vector<Failure> fails; std::map<std::string, int> failDedup; std::map<std::string, Obl> obls; std::map<std::string, u64> covers;
    u64 paths = 0, pathsKilled = 0, implicitChecks = 0, totalSteps = 0, stepLimit = 30000000; unsigned partI = 0, partK = 1; double deadline = 0; bool incomplete = false; std::string why;
    u64 partPoints = 0; unsigned maxFails = 60; std::string repoPrefix; bool cxxCompare = false; Function* curStart = nullptr; u64 errs = 0;
    double startT;
    static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
    Engine(Module& m) : M(m), DL(m.getDataLayout()) { startT = now(); }

    // ---- types
    void leaves(Type* t, u64 off, std::vector<std::pair<u64,int>>& out) {
        if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) tool("wide integer"); out.push_back({off, (int)t->getIntegerBitWidth()}); }
        else if (t->isPointerTy()) out.push_back({off, 64});
        else if (t->isDoubleTy()) out.push_back({off, 64});
        else if (t->isFloatTy()) out.push_back({off, 32});
        else if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
        else if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), off + i * sz, out); }
        else if (t->isVoidTy()) {}
        else { std::string s; raw_string_ostream o(s); t->print(o); tool("unsupported type " + o.str()); }
    }
    std::vector<std::pair<u64,int>> leaves(Type* t) { std::vector<std::pair<u64,int>> r; leaves(t, 0, r); return r; }
    int nleaves(Type* t) { if (t->isIntegerTy() || t->isPointerTy()) return 1; if (t->isVoidTy()) return 0; return leaves(t).size(); }
    int width(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; return 64; }

    // ---- constants
    bool constFlat(const Constant* c, std::vector<std::pair<u64,int>>& out) { // value, flag undef
        Type* t = c->getType();
        if (isa<UndefValue>(c)) { for (auto& l : leaves(t)) { (void)l; out.push_back({0, 1}); } return true; }
        if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back({ci->getValue().getZExtValue(), 0}); return true; }
        if (auto* cfp = dyn_cast<ConstantFP>(c)) { out.push_back({cfp->getValueAPF().bitcastToAPInt().getZExtValue(), 0}); return true; }
        if (isa<ConstantPointerNull>(c)) { out.push_back({0, 0}); return true; }
        if (isa<ConstantAggregateZero>(c)) { for (auto& l : leaves(t)) { (void)l; out.push_back({0, 0}); } return true; }
        if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back({addrOf(gv), 0}); return true; }
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& o : ca->operands()) constFlat(cast<Constant>(o.get()), out); return true; }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constFlat(cd->getElementAsConstant(i), out); return true; }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) tool("const gep"); std::vector<std::pair<u64,int>> b; constFlat(ce->getOperand(0), b); out.push_back({b[0].first + off.getSExtValue(), 0}); return true; }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constFlat(ce->getOperand(0), out);
            case Instruction::Sub: { std::vector<std::pair<u64,int>> a, b; constFlat(ce->getOperand(0), a); constFlat(ce->getOperand(1), b); out.push_back({a[0].first - b[0].first, 0}); return true; }
            case Instruction::Trunc: { std::vector<std::pair<u64,int>> a; constFlat(ce->getOperand(0), a); out.push_back({a[0].first & maskw(width(t)), 0}); return true; }
            default: break;
            }
        }
        std::string s; raw_string_ostream o(s); c->print(o); tool("unsupported constant " + o.str());
    }
    u64 addrOf(const GlobalValue* g) {
        auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
        if (auto* f = dyn_cast<Function>(g)) { u64 a = (0xFull << 60) | (faddr.size() << 4); gaddr[g] = a; faddr[a] = const_cast<Function*>(f); return a; }
        if (auto* al = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(al->getAliaseeObject()));
        tool("unknown global " + g->getName().str());
    }
    void setupGlobals(State& st) {
        st.mem.resize(1);
        for (auto& g : M.globals()) { gaddr[&g] = (1ull << 40) | ((u64)st.mem.size() << 20); Slot s; s.gen = 1; st.mem.push_back(s); }
        for (auto& g : M.globals()) {
            Obj* o = new Obj; o->size = g.isDeclaration() ? 64 : DL.getTypeAllocSize(g.getValueType()); o->kind = g.isConstant() ? Const_ : Global; o->what = "global";
            o->data.assign(o->size, 0); o->st.assign(o->size, 1);
            u64 a = gaddr[&g]; st.mem[(a >> 20) & 0xFFFFF].o = ORef(o);
            if (g.hasInitializer()) {
                std::vector<std::pair<u64,int>> vals; auto ls = leaves(g.getValueType()); constFlat(g.getInitializer(), vals);
                if (vals.size() != ls.size()) tool("init mismatch");
                for (size_t i = 0; i < ls.size(); ++i) for (int b = 0; b < (ls[i].second + 7) / 8; ++b) { o->data[ls[i].first + b] = vals[i].first >> (8 * b); if (vals[i].second) o->st[ls[i].first + b] = 0; }
            }
        }
    }
    // ---- compile
    CFunc* compile(Function* F) {
        auto it = cf.find(F); if (it != cf.end()) return it->second;
        CFunc* c = new CFunc; c->F = F; c->name = demangle(F->getName().str());
        if (auto* sp = F->getSubprogram()) { c->file = sp->getFilename().str(); if (c->file[0] != '/') c->file = (sp->getDirectory() + "/" + sp->getFilename()).str(); c->repo = c->file.rfind(repoPrefix, 0) == 0; c->file += ":" + std::to_string(sp->getLine()); }
        std::map<const Value*, int> slot; int ns = 0; std::map<const BasicBlock*, int> bid; int nb = 0;
        for (auto& a : F->args()) { int n = nleaves(a.getType()); slot[&a] = ns; c->args.push_back({ns, n}); ns += n; }
        for (auto& bb : *F) { bid[&bb] = nb++; for (auto& I : bb) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += nleaves(I.getType()); } }
        c->nslots = ns; c->blocks.resize(nb);
        auto opd = [&](const Value* v) -> Opd {
            Opd o; if (v->getType()->isLabelTy() || v->getType()->isMetadataTy()) return o;
            o.n = nleaves(v->getType()); o.w = width(v->getType());
            if (auto* k = dyn_cast<Constant>(v)) {
                std::vector<std::pair<u64,int>> f; constFlat(k, f);
                if (o.n == 1) { o.c = f[0].first; o.undef = f[0].second; } else { o.agg = new std::vector<std::pair<u64,int>>(f); auto ls = leaves(v->getType()); (void)ls; }
            } else { auto s = slot.find(v); if (s == slot.end()) tool("operand"); o.slot = s->second; }
            return o;
        };
        for (auto& bb : *F) {
            CBlock& B = c->blocks[bid[&bb]];
            for (auto& I : bb) {
                if (auto* ph = dyn_cast<PHINode>(&I)) { CPhi p; p.dst = slot[ph]; p.n = nleaves(ph->getType()); for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) p.in.push_back({bid[ph->getIncomingBlock(i)], opd(ph->getIncomingValue(i))}); B.phis.push_back(p); continue; }
                if (isa<DbgInfoIntrinsic>(I)) continue;
                CInst q; q.I = &I; if (!I.getType()->isVoidTy()) { q.dst = slot[&I]; q.n = nleaves(I.getType()); if (q.n == 1) q.w = width(I.getType()); }
                if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
                    q.op = I_Bin; q.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))};
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(bo)) { q.nsw = ob->hasNoSignedWrap(); q.nuw = ob->hasNoUnsignedWrap(); }
                    switch (bo->getOpcode()) {
                    case Instruction::Add: q.sub = (int)K::Add; break; case Instruction::Sub: q.sub = (int)K::Sub; break; case Instruction::Mul: q.sub = (int)K::Mul; break;
                    case Instruction::UDiv: q.sub = (int)K::UDiv; break; case Instruction::SDiv: q.sub = (int)K::SDiv; break; case Instruction::URem: q.sub = (int)K::URem; break; case Instruction::SRem: q.sub = (int)K::SRem; break;
                    case Instruction::Shl: q.sub = (int)K::Shl; break; case Instruction::LShr: q.sub = (int)K::LShr; break; case Instruction::AShr: q.sub = (int)K::AShr; break;
                    case Instruction::And: q.sub = (int)K::And; break; case Instruction::Or: q.sub = (int)K::Or; break; case Instruction::Xor: q.sub = (int)K::Xor; break;
                    default: q.op = I_FP; q.sub = bo->getOpcode(); }
                } else if (auto* ic = dyn_cast<ICmpInst>(&I)) { q.op = I_Icmp; q.sub = ic->getPredicate(); q.w2 = width(ic->getOperand(0)->getType()); q.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))};
                } else if (auto* fc = dyn_cast<FCmpInst>(&I)) { q.op = I_FP; q.sub = 200; q.imm = fc->getPredicate(); q.w2 = width(fc->getOperand(0)->getType()); q.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))};
                } else if (auto* ca = dyn_cast<CastInst>(&I)) { q.op = I_Cast; q.sub = ca->getOpcode(); q.w2 = width(ca->getSrcTy()); q.ops = {opd(I.getOperand(0))};
                    switch (ca->getOpcode()) { case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: break; default: q.op = I_FP; q.sub = ca->getOpcode(); }
                } else if (isa<SelectInst>(I)) { q.op = I_Sel; q.ops = {opd(I.getOperand(0)), opd(I.getOperand(1)), opd(I.getOperand(2))}; q.sub = I.getType()->isPointerTy(); q.w = width(I.getType()); for (auto& l : leaves(I.getType())) q.wid.push_back(l.second);
                } else if (isa<FreezeInst>(I)) { q.op = I_Freeze; q.ops = {opd(I.getOperand(0))};
                } else if (auto* ld = dyn_cast<LoadInst>(&I)) { q.op = I_Load; q.ops = {opd(ld->getPointerOperand())}; for (auto& l : leaves(ld->getType())) { q.offs.push_back(l.first); q.wid.push_back(l.second); } q.atomic = ld->isAtomic(); q.order = (int)ld->getOrdering(); q.imm = ld->getAlign().value();
                } else if (auto* sto = dyn_cast<StoreInst>(&I)) { q.op = I_Store; q.ops = {opd(sto->getPointerOperand()), opd(sto->getValueOperand())}; for (auto& l : leaves(sto->getValueOperand()->getType())) { q.offs.push_back(l.first); q.wid.push_back(l.second); } q.atomic = sto->isAtomic(); q.order = (int)sto->getOrdering(); q.imm = sto->getAlign().value();
                } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                    q.op = I_Gep; q.ops = {opd(gep->getPointerOperand())}; u64 off = 0;
                    for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
                        Value* ix = gi.getOperand();
                        if (StructType* st = gi.getStructTypeOrNull()) off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        else { u64 sz = DL.getTypeAllocSize(gi.getIndexedType()); if (auto* k = dyn_cast<ConstantInt>(ix)) off += k->getSExtValue() * sz; else { q.ops.push_back(opd(ix)); q.aux.push_back(sz); } }
                    }
                    q.imm = off;
                } else if (auto* al = dyn_cast<AllocaInst>(&I)) { q.op = I_Alloca; if (!isa<ConstantInt>(al->getArraySize())) tool("dynamic alloca"); q.imm = DL.getTypeAllocSize(al->getAllocatedType()) * cast<ConstantInt>(al->getArraySize())->getZExtValue();
                } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                    if (isa<LifetimeIntrinsic>(I)) { q.op = I_Call; q.callee = cb->getCalledFunction(); q.ops = {Opd(), opd(cb->getArgOperand(1))}; q.ops[0].c = cast<ConstantInt>(cb->getArgOperand(0))->getSExtValue(); B.insts.push_back(q); continue; }
                    q.op = I_Call; q.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (cb->isInlineAsm()) tool("inline asm");
                    for (auto& a : cb->args()) { Opd o; if (!a->getType()->isMetadataTy()) o = opd(a.get()); q.ops.push_back(o); }
                    for (unsigned i = 0; i < cb->arg_size(); ++i) q.aux.push_back(cb->isByValArgument(i) ? (u64)DL.getTypeAllocSize(cb->getParamByValType(i)) : 0);
                    if (!q.callee) q.ops.push_back(opd(cb->getCalledOperand()));
                    if (auto* iv = dyn_cast<InvokeInst>(&I)) { q.invoke = true; q.t1 = bid[iv->getNormalDest()]; q.t2 = bid[iv->getUnwindDest()]; }
                } else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isUnconditional()) { q.op = I_Br; q.t1 = bid[br->getSuccessor(0)]; } else { q.op = I_CBr; q.ops = {opd(br->getCondition())}; q.t1 = bid[br->getSuccessor(0)]; q.t2 = bid[br->getSuccessor(1)]; }
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) { q.op = I_Switch; q.ops = {opd(sw->getCondition())}; q.w2 = width(sw->getCondition()->getType()); for (auto& cs : sw->cases()) q.cases.push_back({cs.getCaseValue()->getZExtValue(), bid[cs.getCaseSuccessor()]}); q.t1 = bid[sw->getDefaultDest()];
                } else if (auto* re = dyn_cast<ReturnInst>(&I)) { q.op = I_Ret; if (re->getReturnValue()) q.ops = {opd(re->getReturnValue())};
                } else if (isa<UnreachableInst>(I)) q.op = I_Unreach;
                else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { q.op = I_ExtractV; q.ops = {opd(ev->getAggregateOperand())}; q.imm = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); }
                else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { q.op = I_InsertV; q.ops = {opd(iv->getAggregateOperand()), opd(iv->getInsertedValueOperand())}; q.imm = aggOff(iv->getType(), iv->getIndices()); }
                else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { q.op = I_Rmw; q.sub = rm->getOperation(); q.ops = {opd(rm->getPointerOperand()), opd(rm->getValOperand())}; q.order = (int)rm->getOrdering(); }
                else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { q.op = I_CmpXchg; q.ops = {opd(cx->getPointerOperand()), opd(cx->getCompareOperand()), opd(cx->getNewValOperand())}; q.w2 = width(cx->getCompareOperand()->getType()); q.order = (int)cx->getSuccessOrdering(); }
                else if (auto* fe = dyn_cast<FenceInst>(&I)) { q.op = I_Fence; q.order = (int)fe->getOrdering(); }
                else if (auto* lp = dyn_cast<LandingPadInst>(&I)) { q.op = I_LandingPad; q.imm = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i)) q.ops.push_back(opd(lp->getClause(i))); else tool("filter clause"); }
                else if (isa<ResumeInst>(I)) { q.op = I_Resume; q.ops = {opd(I.getOperand(0))}; }
                else { std::string s; raw_string_ostream o(s); I.print(o); tool("unsupported instruction " + o.str()); }
                B.insts.push_back(q);
            }
        }
        cf[F] = c; return c;
    }
    int aggOff(Type* t, ArrayRef<unsigned> idx) { int off = 0; for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) off += nleaves(st->getElementType(j)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); off += i * nleaves(at->getElementType()); t = at->getElementType(); } } return off; }

    // ---- failures
    std::string locOf(const Instruction* I) { if (!I) return "?"; if (auto& d = I->getDebugLoc()) { auto* sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str(); return f + ":" + std::to_string(d.getLine()); } return "?"; }
    std::string stackStr() {
        std::string s; for (int i = (int)S->fr.size() - 1; i >= 0; --i) { auto& f = S->fr[i]; auto& bl = f.f->blocks[f.blk].insts; int ip = f.ip; const Instruction* I = ip < (int)bl.size() ? bl[ip].I : nullptr; std::string nm = f.f->name; if (nm.size() > 160) nm = nm.substr(0, 157) + "..."; s += "  at " + locOf(I) + "  in " + nm + "\n"; }
        return s;
    }
    std::string site() { for (int i = (int)S->fr.size() - 1; i >= 0; --i) { auto& f = S->fr[i]; auto& bl = f.f->blocks[f.blk].insts; int ip = f.ip; if (ip >= 0 && ip < (int)bl.size()) { std::string l = locOf(bl[ip].I); if (l != "?") return l; } } return "?"; }
    std::string inputsStr(const Model& m) { std::string s; for (auto& i : S->in) { if (!s.empty()) s += " "; s += i.kind; s += std::to_string(i.n ? X.eval(i.n, m) : i.c); } return s; }
    void record(const std::string& kind, const std::string& msg, const Model& m) {
        std::string loc = site(); int& d = failDedup[kind + msg + loc]; ++errs;
        if (++d > 3) return;
        Failure f{kind, msg, loc, stackStr(), inputsStr(m), ""};
        for (auto& n : S->notes) f.notes += std::string(n.s) + "=" + std::to_string((int64_t)(n.v.n ? X.eval(n.v.n, m) : n.v.c)) + " ";
        fails.push_back(f);
        if (fails.size() >= maxFails) { incomplete = true; why = "too many failures"; work.clear(); }
    }
    [[noreturn]] void die(const std::string& kind, const std::string& msg) { record(kind, msg, *S->model); throw PathEnd{}; }

    // ---- decisions
    // values a term may take according to the comparisons with constants on the path
    struct Range { u64 lo, hi; int64_t slo, shi; u64 ne[12]; int nne = 0; };
    static bool atom(Node* c, Node*& x, Node*& k, K& op, bool& xLeft, bool& neg) {
        neg = false; if (c->op == K::Xor && c->w == 1 && X.isC(c->b, 1)) { neg = true; c = c->a; }
        op = c->op; if (op != K::Eq && op != K::Ult && op != K::Slt) return false;
        if (X.isC(c->b)) { x = c->a; k = c->b; xLeft = true; return x->w > 1; }
        if (X.isC(c->a)) { x = c->b; k = c->a; xLeft = false; return x->w > 1; }
        return false;
    }
    static void narrow(Range& r, unsigned w, K op, u64 kv, bool xLeft, bool neg) {
        int64_t sk = sx(kv, w); u64 m = maskw(w); (void)m;
        if (op == K::Eq) { if (!neg) { r.lo = std::max(r.lo, kv); r.hi = std::min(r.hi, kv); r.slo = std::max(r.slo, sk); r.shi = std::min(r.shi, sk); } else if (r.nne < 12) r.ne[r.nne++] = kv; return; }
        if (op == K::Ult) {
            if (xLeft != neg) { // x < k, or not (k < x), that is x <= k
                if (neg) r.hi = std::min(r.hi, kv); else { if (kv == 0) { r.lo = 1; r.hi = 0; } else r.hi = std::min(r.hi, kv - 1); }
            } else { // k < x, or not (x < k), that is k <= x
                if (neg) r.lo = std::max(r.lo, kv); else { if (kv == m) { r.lo = 1; r.hi = 0; } else r.lo = std::max(r.lo, kv + 1); }
            }
        } else {
            int64_t smax = (int64_t)(m >> 1), smin = -smax - 1;
            if (xLeft != neg) { if (neg) r.shi = std::min(r.shi, sk); else { if (sk == smin) { r.slo = 1; r.shi = 0; } else r.shi = std::min(r.shi, sk - 1); } }
            else { if (neg) r.slo = std::max(r.slo, sk); else { if (sk == smax) { r.slo = 1; r.shi = 0; } else r.slo = std::max(r.slo, sk + 1); } }
        }
    }
    static void unify(Range& r, unsigned w) { // carry bounds between the unsigned and the signed view when the sign is settled
        u64 half = 1ull << (w - 1);
        if (r.lo > r.hi || r.slo > r.shi) return;
        if (r.hi < half) { r.slo = std::max(r.slo, (int64_t)r.lo); r.shi = std::min(r.shi, (int64_t)r.hi); } else if (r.lo >= half) { r.slo = std::max(r.slo, sx(r.lo, w)); r.shi = std::min(r.shi, sx(r.hi, w)); }
        if (r.slo > r.shi) return;
        if (r.slo >= 0) { r.lo = std::max(r.lo, (u64)r.slo); r.hi = std::min(r.hi, (u64)r.shi); } else if (r.shi < 0) { r.lo = std::max(r.lo, (u64)r.slo & maskw(w)); r.hi = std::min(r.hi, (u64)r.shi & maskw(w)); }
    }
    Range rangeOf(Node* x, bool* only) {
        unsigned w = x->w; u64 m = maskw(w); Range r; r.lo = 0; r.hi = m; r.shi = (int64_t)(m >> 1); r.slo = -r.shi - 1; if (only) *only = x->op == K::Var && !(x->vars >> 63);
        for (Node* c : S->pc) {
            if (!(c->vars & x->vars)) continue;
            Node *y, *k; K op; bool l, n;
            if (atom(c, y, k, op, l, n) && y == x) { narrow(r, w, op, k->k, l, n); if (op == K::Eq && n && r.nne >= 12 && only) *only = false; } else if (only) *only = false;
        }
        unify(r, w); return r;
    }
    static bool holdsAll(const Range& r, unsigned w, K op, u64 kv, bool xLeft, bool neg) { // does the atom hold for every value of the range?
        Range q = r; q.nne = 0; narrow(q, w, op, kv, xLeft, !neg); unify(q, w); if (q.lo > q.hi || q.slo > q.shi) return true;
        if (op == K::Eq && neg) for (int i = 0; i < r.nne; ++i) if (r.ne[i] == kv) return true;
        return op == K::Eq && neg ? (kv < r.lo || kv > r.hi || sx(kv, w) < r.slo || sx(kv, w) > r.shi) : op == K::Eq ? (r.lo == r.hi && r.lo == kv) : false;
    }
    bool known(Node* c, bool& v) {
        Node* nc = X.lnot(c); for (int i = (int)S->pc.size() - 1; i >= 0; --i) { if (S->pc[i] == c) { v = true; return true; } if (S->pc[i] == nc) { v = false; return true; } }
        Node *x, *k; K op; bool l, n;
        if (!c->taint && atom(c, x, k, op, l, n)) {
            Range r = rangeOf(x, nullptr); if (r.lo > r.hi || r.slo > r.shi) return false;
            if (holdsAll(r, x->w, op, k->k, l, n)) { v = true; return true; }
            if (holdsAll(r, x->w, op, k->k, l, !n)) { v = false; return true; }
        }
        return false;
    }
    // satisfiability of path and c when c compares with a constant a variable the path constrains in no other way
    int quick(Node* c, std::shared_ptr<Model>& m) {
        Node *x, *k; K op; bool l, n; if (c->taint || !atom(c, x, k, op, l, n) || x->op != K::Var) return -1;
        bool only; Range r = rangeOf(x, &only); if (!only) return -1;
        narrow(r, x->w, op, k->k, l, n); unify(r, x->w); if (r.lo > r.hi || r.slo > r.shi) return -1;
        for (int t = 0; t <= r.nne; ++t) {
            u64 v = r.lo + (u64)t; if (v > r.hi || v < r.lo) return -1; int64_t sv = sx(v, x->w); if (sv < r.slo || sv > r.shi) return -1;
            bool bad = false; for (int i = 0; i < r.nne; ++i) bad |= r.ne[i] == v;
            if (!bad) { m = std::make_shared<Model>(*S->model); m->epoch = X.nextEpoch++; if (m->v.size() <= x->k) m->v.resize(x->k + 1, 0); m->v[x->k] = v; ++quickSat; return 1; }
        }
        return -1;
    }
    u64 quickSat = 0;
    void taintCheck(Node* c, const char* what) {
        if (!c->taint) return;
        std::unordered_map<Node*, Node*> memo; std::function<Node*(Node*)> ren = [&](Node* n) -> Node* {
            if (!n->taint) return n; auto it = memo.find(n); if (it != memo.end()) return it->second; Node* r;
            if (n->op == K::Undef) r = X.undef(n->w);
            else { Node *a = n->a ? ren(n->a) : nullptr, *b = n->b ? ren(n->b) : nullptr, *cc = n->c ? ren(n->c) : nullptr;
                switch (n->op) { case K::Ite: r = X.ite(a, b, cc); break; case K::Zext: r = X.zext(a, n->w); break; case K::Sext: r = X.sext(a, n->w); break; case K::Extract: r = X.extract(a, n->k + n->w - 1, n->k); break; case K::Concat: r = X.concat(a, b); break; default: r = X.bin(n->op, a, b); } }
            memo[n] = r; return r; };
        Node* c2 = ren(c); std::shared_ptr<Model> m; Node* diff = X.lnot(X.bin(K::Eq, c, c2));
        int r = X.isC(diff) ? (int)diff->k : check(S->pc, diff, &m, S->nvar);
        if (r == 1) { record("uninitialized", std::string(what) + " depends on uninitialised or indeterminate data", m ? *m : *S->model); throw PathEnd{}; }
    }
    bool decide(Node* c, const char* what = "branch") {
        if (c->op == K::Const) return c->k;
        bool v; if (known(c, v)) return v;
        taintCheck(c, what);
        v = X.eval(c, *S->model);
        Node* mine = v ? c : X.lnot(c); Node* other = v ? X.lnot(c) : c;
        std::shared_ptr<Model> m; int r = quick(other, m); if (r < 0) r = check(S->pc, other, &m, S->nvar);
        if (r == 1) {
            auto cl = std::make_unique<State>(*S); cl->pc.push_back(other); cl->model = m; ++cl->forks; work.push_back(std::move(cl));
            S->pc.push_back(mine); ++S->forks;
        } else if (r < 0) { incomplete = true; why = "solver unknown on a branch"; S->pc.push_back(mine); }
        return v;
    }
    u64 concretize(const Val& v, unsigned w, const char* what = "value") { if (!v.n) return v.c; u64 k = X.eval(v.n, *S->model); decide(X.bin(K::Eq, v.n, X.cst(k, w)), what); return k; }
    void vassert(const Val& cv, const std::string& id, const char* msg) {
        Obl& o = obls[id];
        if (!cv.n) { if (cv.c & 1) { ++o.trivial; return; } ++o.failed; die("assert", msg); }
        Node* c = cv.n; bool kv; if (known(c, kv) && kv) { ++o.trivial; return; }
        taintCheck(c, "assertion");
        std::shared_ptr<Model> m; Node* nc = X.lnot(c);
        if (!X.eval(c, *S->model)) { ++o.failed; record("assert", msg, *S->model); m = nullptr; int r = check(S->pc, c, &m, S->nvar); if (r == 1) { S->pc.push_back(c); S->model = m; return; } throw PathEnd{}; }
        int r = check(S->pc, nc, &m, S->nvar);
        if (r == 0) { ++o.solver; return; }
        if (r < 0) { ++o.undecided; incomplete = true; why = "solver unknown on an assertion"; S->pc.push_back(c); return; }
        ++o.failed; record("assert", msg, *m); S->pc.push_back(c);
    }
    void vassume(const Val& cv) {
        if (!cv.n) { if (!(cv.c & 1)) { ++pathsKilled; throw PathEnd{}; } return; }
        Node* c = cv.n; taintCheck(c, "assumption");
        if (X.eval(c, *S->model)) { S->pc.push_back(c); return; }
        std::shared_ptr<Model> m; int r = check(S->pc, c, &m, S->nvar); if (r == 1) { S->pc.push_back(c); S->model = m; return; }
        if (r < 0) { incomplete = true; why = "solver unknown on an assumption"; }
        ++pathsKilled; throw PathEnd{};
    }
    // ---- memory
    u64 newObj(u32 size, Kind k, const char* what) {
        if (size >= (1u << 20)) tool("object too large");
        u32 s; if (!S->freeSlots.empty()) { s = S->freeSlots.back(); S->freeSlots.pop_back(); } else { s = S->mem.size(); S->mem.emplace_back(); if (s >= (1u << 20)) tool("too many objects"); }
        Obj* o = new Obj; o->size = size; o->kind = k; o->what = what; o->data.assign(size, 0xCC); o->st.assign(size, 0); S->mem[s].o = ORef(o); ++S->mem[s].gen; if (S->mem[s].gen < 2) S->mem[s].gen = 2; if (S->mem[s].gen >= (1u << 20)) tool("generation overflow");
        return ((u64)S->mem[s].gen << 40) | ((u64)s << 20);
    }
    void freeObj(u64 a) { u32 s = (a >> 20) & 0xFFFFF; S->mem[s].o = ORef(); S->freeSlots.push_back(s); }
    Obj* find(u64 a, u64 n, const char* what, u32& off) {
        ++implicitChecks;
        if (a < (1ull << 20)) die("memory", std::string("null pointer ") + what);
        if ((a >> 60) == 0xF) die("memory", std::string(what) + " of a function address");
        u32 s = (a >> 20) & 0xFFFFF; u32 g = a >> 40; off = a & 0xFFFFF;
        if (s == 0 || s >= S->mem.size()) die("memory", std::string("wild pointer ") + what);
        auto& sl = S->mem[s];
        if (sl.gen != g || !sl.o.p) die("memory", std::string(what) + (g < sl.gen || (g == sl.gen && !sl.o.p) ? " of freed memory (use after free or scope)" : " through an invalid pointer"));
        if (sl.o.p->dead) die("memory", std::string(what) + " of an object out of scope");
        if ((u64)off + n > sl.o.p->size) die("memory", std::string(what) + " out of bounds (offset " + std::to_string(off) + " size " + std::to_string(n) + " of object of " + std::to_string(sl.o.p->size) + " bytes)");
        return sl.o.p;
    }
    Obj* own(u64 a) { u32 s = (a >> 20) & 0xFFFFF; Obj*& p = S->mem[s].o.p; if (p->rc > 1) { Obj* o = new Obj(*p); o->rc = 1; --p->rc; p = o; } return p; }
    Val load(u64 a, unsigned w, const char* what = "read") {
        unsigned n = (w + 7) / 8; u32 off; Obj* o = find(a, n, what, off);
        bool allc = true; for (unsigned i = 0; i < n; ++i) if (o->st[off + i] != 1) { allc = false; break; }
        if (allc) { u64 v = 0; memcpy(&v, &o->data[off], n); return CV(v & maskw(w)); }
        bool one = true; Node* base = nullptr;
        for (unsigned i = 0; i < n && one; ++i) { if (o->st[off + i] != 2) { one = false; break; } SB& sb = o->sym[off + i]; if (i == 0) base = sb.n; if (sb.n != base || sb.idx != i) one = false; }
        if (one && base->w == w) return NV(base);
        if (one && (base->w + 7) / 8 == n && base->w > w) return NV(X.extract(base, w - 1, 0));
        Node* r = nullptr;
        for (int i = n - 1; i >= 0; --i) {
            Node* b; if (o->st[off + i] == 1) b = X.cst(o->data[off + i], 8); else if (o->st[off + i] == 0) b = X.undef(8);
            else { SB& sb = o->sym[off + i]; unsigned lo = sb.idx * 8, hi = lo + 7; if (hi >= sb.n->w) { b = X.zext(X.extract(sb.n, sb.n->w - 1, lo), 8); } else b = X.extract(sb.n, hi, lo); }
            r = r ? X.concat(r, b) : b;
        }
        if (r->w > w) r = X.extract(r, w - 1, 0);
        return NV(r);
    }
    void wcheck(Obj* o, const char* what) {
        if (o->kind == Const_) die("memory", std::string("write to constant data"));
        if (o->frozen && S->freezeOn) die("frame", std::string("non-atomic ") + what + " to a node shared with another tree");
    }
    void store(u64 a, unsigned w, const Val& v, const char* what = "write") {
        unsigned n = (w + 7) / 8; u32 off; Obj* o = find(a, n, what, off); wcheck(o, what); o = own(a);
        if (!v.n) { u64 c = v.c; memcpy(&o->data[off], &c, n); memset(&o->st[off], 1, n); return; }
        if (v.n->op == K::Undef) { memset(&o->st[off], 0, n); return; }
        if (o->sym.empty()) o->sym.resize(o->size);
        Node* x = v.n; if (w % 8) x = X.zext(x, n * 8);
        for (unsigned i = 0; i < n; ++i) { o->st[off + i] = 2; o->sym[off + i] = SB{x, (uint8_t)i}; }
    }
    void memcopy(u64 d, u64 s, u64 n) {
        if (!n) return; u32 so, dof; Obj* p = find(s, n, "read", so); Obj* q = find(d, n, "write", dof); wcheck(q, "write"); q = own(d); p = S->mem[(s >> 20) & 0xFFFFF].o.p;
        std::vector<uint8_t> dd(p->data.begin() + so, p->data.begin() + so + n), ss(p->st.begin() + so, p->st.begin() + so + n); std::vector<SB> yy; if (!p->sym.empty()) yy.assign(p->sym.begin() + so, p->sym.begin() + so + n);
        memcpy(&q->data[dof], dd.data(), n); memcpy(&q->st[dof], ss.data(), n);
        if (!yy.empty()) { if (q->sym.empty()) q->sym.resize(q->size); for (u64 i = 0; i < n; ++i) q->sym[dof + i] = yy[i]; }
    }
    // ---- registers
    Val get(const Opd& o, int i = 0) {
        if (o.slot >= 0) return S->fr.back().regs[o.slot + i];
        if (o.agg) { auto& p = (*o.agg)[i]; if (p.second) return NV(X.undef(64)); return CV(p.first); }
        if (o.undef) return NV(X.undef(o.w)); return CV(o.c);
    }
    void set(int dst, const Val& v, int i = 0) { S->fr.back().regs[dst + i] = v; }
    Val bin(K op, unsigned w, const Val& a, const Val& b) { if (!a.n && !b.n) return CV(Exprs::fold(op, w, a.c, b.c)); return NV(X.bin(op, ND(a, w), ND(b, w))); }

    // pointer operand: fork on symbolic addresses; loads from ite-trees of constants become ite trees of values
    u64 ptr(const Opd& o) { Val v = get(o); if (!v.n) return v.c; return concretize(v, 64, "address"); }
    Val loadTree(Node* a, unsigned w) { // precondition: leaves>0
        if (a->op == K::Const) return load(a->k, w);
        Val t = loadTree(a->b, w), e = loadTree(a->c, w); return NV(X.ite(a->a, ND(t, w), ND(e, w)));
    }
    bool treeSafe(Node* a, u64 n) { if (a->op == K::Const) { u64 p = a->k; u32 s = (p >> 20) & 0xFFFFF; if (p < (1ull << 20) || (p >> 60) == 0xF || s >= S->mem.size()) return false; auto& sl = S->mem[s]; return sl.gen == (p >> 40) && sl.o.p && !sl.o.p->dead && (p & 0xFFFFF) + n <= sl.o.p->size; } return treeSafe(a->b, n) && treeSafe(a->c, n); }

    void jump(int to) { Frame& f = S->fr.back(); int from = f.blk; auto& B = f.f->blocks[to]; if (!B.phis.empty()) { std::vector<std::pair<int, Val>> t; for (auto& p : B.phis) { const Opd* o = nullptr; for (auto& in : p.in) if (in.first == from) { o = &in.second; break; } if (!o) tool("phi"); for (int i = 0; i < p.n; ++i) t.push_back({p.dst + i, get(*o, i)}); } for (auto& x : t) f.regs[x.first] = x.second; } f.prev = from; f.blk = to; f.ip = 0; }

    void pushFrame(Function* F, std::vector<Val>& args, const CInst* q) {
        CFunc* c = compile(F); ++c->execs; if (S->fr.size() > 400) die("termination", "call depth exceeded");
        Frame f; f.f = c; f.regs.resize(c->nslots); size_t k = 0; for (auto& a : c->args) for (int i = 0; i < a.second; ++i) { if (k >= args.size()) tool("args " + c->name); f.regs[a.first + i] = args[k++]; }
        if (q) { f.retDst = q->dst; f.normal = q->invoke ? q->t1 : -1; f.unwind = q->invoke ? q->t2 : -1; f.site = q->I; }
        S->fr.push_back(std::move(f));
    }
    void popFrame() { for (u64 a : S->fr.back().allocas) freeObj(a); S->fr.pop_back(); }
    void ret(const std::vector<Val>& v) {
        Frame& f = S->fr.back(); int dst = f.retDst, normal = f.normal; popFrame(); if (S->fr.empty()) return;
        if (dst >= 0) for (size_t i = 0; i < v.size(); ++i) set(dst, v[i], i);
        if (normal >= 0) jump(normal);
    }
    void retBuiltin(const CInst& q, const std::vector<Val>& v) { Frame& f = S->fr.back(); if (q.dst >= 0) for (size_t i = 0; i < v.size(); ++i) set(q.dst, v[i], i); if (q.invoke) jump(q.t1); else ++f.ip; }

    // ---- exceptions
    std::string tiName(u64 a) { for (auto& g : gaddr) if (g.second == a) return g.first->getName().str(); return "?"; }
    bool tiMatch(u64 thrown, u64 clause) {
        if (clause == 0) return true; if (thrown == clause) return true; std::string t = tiName(thrown), c = tiName(clause);
        static const std::map<std::string, std::string> par = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}};
        std::string x = t; while (true) { auto it = par.find(x); if (it == par.end()) break; x = it->second; if (x == c) return true; }
        // single-inheritance type info defined in this module: {vtable, name, base}
        for (auto& g : gaddr) if (g.second == thrown) if (auto* gv = dyn_cast<GlobalVariable>(g.first)) if (gv->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer())) if (cs->getNumOperands() == 3) if (auto* b = dyn_cast<GlobalValue>(cs->getOperand(2)->stripPointerCasts())) return tiMatch(gaddr[b], clause);
        return false;
    }
    // propagate the exception on top of S->flying out of the current instruction's frame chain
    void unwindFrom(bool inCallee) { // inCallee: the throwing instruction q in top frame is a (possibly invoke) call site
        (void)inCallee;
        while (!S->fr.empty()) {
            Frame& f = S->fr.back(); auto& bl = f.f->blocks[f.blk].insts; CInst& q = bl[f.ip];
            if (q.op == I_Call && q.invoke) {
                CInst* lp = nullptr; for (auto& x : f.f->blocks[q.t2].insts) if (x.op == I_LandingPad) { lp = &x; break; }
                if (!lp) tool("no landing pad");
                ExnRec& e = S->flying.back(); int sel = 0; bool hit = false;
                for (size_t i = 0; i < lp->ops.size(); ++i) if (tiMatch(e.ti, lp->ops[i].c)) { sel = typeId(lp->ops[i].c); hit = true; break; }
                if (hit || lp->imm) { jump(q.t2); Frame& g = S->fr.back(); int i = 0; auto& B = g.f->blocks[g.blk]; while (B.insts[i].op != I_LandingPad) ++i; set(B.insts[i].dst, CV(e.addr), 0); set(B.insts[i].dst, CV((u64)sel), 1); g.ip = i + 1; return; }
            }
            if (f.f->F->hasFnAttribute(Attribute::NoUnwind) && !(q.op == I_Call && q.invoke)) die("exception", "an exception leaves a noexcept function (std::terminate)");
            popFrame();
        }
        die("exception", "an exception leaves the unit under proof");
    }
    std::map<u64, int> tids; int typeId(u64 a) { auto it = tids.find(a); if (it != tids.end()) return it->second; int n = tids.size() + 1; tids[a] = n; return n; }

    bool builtin(Function* F, const CInst& q, const std::vector<Val>& A);
    void step();
    void run(Function* U);
    void report(FILE* out, const std::string& unit);
};

// ip convention: while a callee runs the caller's ip stays on the call; it advances (or takes the normal edge) on return.

static const char* strAt(Engine& E, u64 a) { u32 s = (a >> 20) & 0xFFFFF; auto& sl = E.S->mem[s]; if (!sl.o.p) return "?"; return (const char*)&sl.o.p->data[a & 0xFFFFF]; }
static std::map<std::string, std::string> strPool; static const char* intern(const std::string& s) { return strPool.emplace(s, s).first->second.c_str(); }

bool Engine::builtin(Function* F, const CInst& q, const std::vector<Val>& A) {
    StringRef N = F->getName();
    auto R = [&](Val v) { retBuiltin(q, {v}); return true; }; auto R0 = [&]() { retBuiltin(q, {}); return true; };
    if (F->isIntrinsic()) {
        auto W = [&](int i) { return (unsigned)width(F->getFunctionType()->getParamType(i)); };
        switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: { u64 a = concretize(A[1], 64); u32 s = (a >> 20) & 0xFFFFF; if (s < S->mem.size() && S->mem[s].o.p && S->mem[s].gen == (a >> 40)) { Obj* o = own(a); o->dead = false; memset(o->st.data(), 0, o->size); } return R0(); }
        case Intrinsic::lifetime_end: { u64 a = concretize(A[1], 64); u32 s = (a >> 20) & 0xFFFFF; if (s < S->mem.size() && S->mem[s].o.p && S->mem[s].gen == (a >> 40)) { Obj* o = own(a); o->dead = true; } return R0(); }
        case Intrinsic::memcpy: case Intrinsic::memmove: { u64 n = concretize(A[2], W(2)); u64 d = concretize(A[0], 64), s = concretize(A[1], 64);
            if (F->getIntrinsicID() == Intrinsic::memcpy && n && d != s && (d >> 20) == (s >> 20) && (d < s ? s - d : d - s) < n) die("memory", "memcpy with overlapping ranges");
            memcopy(d, s, n); return R0(); }
        case Intrinsic::memset: { u64 n = concretize(A[2], W(2)), d = concretize(A[0], 64); u64 c = concretize(A[1], 8); for (u64 i = 0; i < n; ++i) store(d + i, 8, CV(c & 255)); return R0(); }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { unsigned w = W(0); bool sg = F->getIntrinsicID() == Intrinsic::smin || F->getIntrinsicID() == Intrinsic::smax; bool mn = F->getIntrinsicID() == Intrinsic::umin || F->getIntrinsicID() == Intrinsic::smin; Val c = bin(sg ? K::Slt : K::Ult, w, A[0], A[1]); if (!mn) c = bin(sg ? K::Slt : K::Ult, w, A[1], A[0]); return R(c.n ? NV(X.ite(c.n, ND(A[0], w), ND(A[1], w))) : c.c ? A[0] : A[1]); }
        case Intrinsic::abs: { unsigned w = W(0); Val c = bin(K::Slt, w, A[0], CV(0)), ng = bin(K::Sub, w, CV(0), A[0]); return R(c.n ? NV(X.ite(c.n, ND(ng, w), ND(A[0], w))) : c.c ? ng : A[0]); }
        case Intrinsic::uadd_with_overflow: { unsigned w = W(0); Val s = bin(K::Add, w, A[0], A[1]); retBuiltin(q, {s, bin(K::Ult, w, s, A[0])}); return true; }
        case Intrinsic::usub_with_overflow: { unsigned w = W(0); retBuiltin(q, {bin(K::Sub, w, A[0], A[1]), bin(K::Ult, w, A[0], A[1])}); return true; }
        case Intrinsic::umul_with_overflow: { unsigned w = W(0); u64 a = concretize(A[0], w), b = concretize(A[1], w); unsigned __int128 p = (unsigned __int128)a * b; retBuiltin(q, {CV((u64)p & maskw(w)), CV(p > maskw(w))}); return true; }
        case Intrinsic::usub_sat: { unsigned w = W(0); Val c = bin(K::Ult, w, A[0], A[1]), d = bin(K::Sub, w, A[0], A[1]); return R(c.n ? NV(X.ite(c.n, X.cst(0, w), ND(d, w))) : c.c ? CV(0) : d); }
        case Intrinsic::uadd_sat: { unsigned w = W(0); Val d = bin(K::Add, w, A[0], A[1]), c = bin(K::Ult, w, d, A[0]); return R(c.n ? NV(X.ite(c.n, X.cst(maskw(w), w), ND(d, w))) : c.c ? CV(maskw(w)) : d); }
        case Intrinsic::ctlz: { unsigned w = W(0); u64 a = concretize(A[0], w); return R(CV(a ? __builtin_clzll(a) - (64 - w) : w)); }
        case Intrinsic::cttz: { unsigned w = W(0); u64 a = concretize(A[0], w); return R(CV(a ? __builtin_ctzll(a) : w)); }
        case Intrinsic::ctpop: { unsigned w = W(0); u64 a = concretize(A[0], w); return R(CV(__builtin_popcountll(a))); }
        case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = W(0); u64 a = concretize(A[0], w), b = concretize(A[1], w), c = concretize(A[2], w) % w; u64 r = F->getIntrinsicID() == Intrinsic::fshl ? (c ? (a << c) | (b >> (w - c)) : a) : (c ? (a << (w - c)) | (b >> c) : b); return R(CV(r & maskw(w))); }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return R(A[0]);
        case Intrinsic::is_constant: return R(CV(0));
        case Intrinsic::objectsize: return R(CV(~0ull));
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return R0();
        case Intrinsic::invariant_start: return R(CV(0));
        case Intrinsic::stacksave: return R(CV(0)); case Intrinsic::stackrestore: return R0();
        case Intrinsic::trap: case Intrinsic::ubsantrap: die("trap", "trap reached");
        case Intrinsic::eh_typeid_for: return R(CV((u64)typeId(A[0].c)));
        default: tool("intrinsic " + N.str());
        }
    }
    if (N.starts_with("vf_")) {
        if (N == "vf_choose") {
            u64 n = concretize(A[0], 64); if (n == 0) { ++pathsKilled; throw PathEnd{}; }
            u64 v; if (S->pendChoice >= 0) { v = S->pendChoice; S->pendChoice = -1; } else { for (u64 i = n - 1; i > 0; --i) { auto cl = std::make_unique<State>(*S); cl->pendChoice = i; work.push_back(std::move(cl)); } v = 0; }
            S->in.push_back({'c', 64, v, nullptr, n}); S->caseid = S->caseid * 1000003 + v * 7919 + 13; S->hp = S->hp * n + v; return R(CV(v));
        }
        if (N.starts_with("vf_sym")) { unsigned w = std::stoi(N.substr(6).str()); Node* v = X.var(S->nvar++, w); S->in.push_back({'s', (uint8_t)w, 0, v, 0}); return R(NV(v)); }
        if (N == "vf_assume") { vassume(A[0]); return R0(); }
        if (N == "vf_assert") { const char* m = strAt(*this, A[1].c); std::string id = std::string(m); vassert(A[0], id, intern(id)); return R0(); }
        if (N == "vf_cover") { ++covers[strAt(*this, A[0].c)]; return R0(); }
        if (N == "vf_part") { ++partPoints; u64 h = S->caseid; h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; if (partK > 1 && h % partK != partI) { ++pathsKilled; throw PathEnd{}; } return R0(); }
        if (N == "vf_live") return R(CV(S->liveHeap));
        if (N == "vf_allocs") return R(CV(S->allocs));
        if (N == "vf_ite") { if (!A[0].n) return R(A[0].c & 1 ? A[1] : A[2]); return R(NV(X.ite(A[0].n, ND(A[1], 64), ND(A[2], 64)))); }
        if (N == "vf_concretize") return R(CV(concretize(A[0], 64)));
        if (N == "vf_note") { S->notes.push_back({intern(strAt(*this, A[0].c)), A[1]}); return R0(); }
        if (N == "vf_freeze_heap") { for (auto& s : S->mem) if (s.o.p && s.o.p->kind == Heap && !s.o.p->frozen) { if (s.o.p->rc > 1) { Obj* o = new Obj(*s.o.p); o->rc = 0; s.o = ORef(o); } s.o.p->frozen = true; } S->freezeOn = true; return R0(); }
        if (N == "vf_freeze") { u64 a = concretize(A[0], 64); u32 off; find(a, 1, "read", off); own(a)->frozen = true; S->freezeOn = true; return R0(); }
        if (N == "vf_unfreeze") { for (auto& s : S->mem) if (s.o.p && s.o.p->frozen) { if (s.o.p->rc > 1) { Obj* o = new Obj(*s.o.p); o->rc = 0; s.o = ORef(o); } s.o.p->frozen = false; } S->freezeOn = false; return R0(); }
        if (N == "vf_is_live") { u64 a = concretize(A[0], 64); u32 s = (a >> 20) & 0xFFFFF; bool ok = a >= (1ull << 20) && (a >> 60) != 0xF && s < S->mem.size() && S->mem[s].o.p && S->mem[s].gen == (a >> 40) && !S->mem[s].o.p->dead; return R(CV(ok)); }
        if (N == "vf_spawn" || N == "vf_join") return R0();
        if (N == "vf_native") return R(CV(0));
        if (N == "vf_fail") { const char* m = strAt(*this, A[0].c); obls[m].failed++; die("assert", m); }
        if (N == "vf_kill") { ++pathsKilled; throw PathEnd{}; }
        tool("unknown intrinsic " + N.str());
    }
    if (N == "_Znwm" || N == "_Znam" || N == "_ZnwmSt11align_val_t" || N == "malloc") { u64 n = concretize(A[0], 64); u64 a = newObj(n, Heap, "heap"); ++S->allocs; ++S->liveHeap; return R(CV(a)); }
    if (N == "_ZdlPv" || N == "_ZdlPvm" || N == "_ZdaPv" || N == "_ZdaPvm" || N == "free" || N == "_ZdlPvSt11align_val_t" || N == "_ZdlPvmSt11align_val_t") {
        u64 a = concretize(A[0], 64); if (!a) return R0(); u32 off; Obj* o = find(a, 0, "delete", off); if (off || o->kind != Heap) die("memory", "delete of a pointer not returned by new");
        if (N.contains("Pvm") && !A[1].n && A[1].c != o->size) die("memory", "sized delete with a size different from the allocation");
        if (o->decOrder == 1) die("order", "a node is destroyed after a reference count decrement without release ordering");
        if (o->decOrder == 2) die("order", "a node is destroyed without an acquire after the last reference count decrement");
        freeObj(a); --S->liveHeap; return R0(); }
    if (N == "memcpy" || N == "memmove") { memcopy(concretize(A[0], 64), concretize(A[1], 64), concretize(A[2], 64)); return R(A[0]); }
    if (N == "memcmp") { u64 n = concretize(A[2], 64); for (u64 i = 0; i < n; ++i) { Val x = load(concretize(A[0], 64) + i, 8), y = load(concretize(A[1], 64) + i, 8); u64 p = concretize(x, 8), r = concretize(y, 8); if (p != r) return R(CV((u64)(p < r ? -1 : 1) & 0xFFFFFFFF)); } return R(CV(0)); }
    if (N == "strlen") { u64 a = concretize(A[0], 64), n = 0; while (concretize(load(a + n, 8), 8)) ++n; return R(CV(n)); }
    if (N == "__cxa_allocate_exception") { u64 a = newObj(concretize(A[0], 64), Exn, "exception"); return R(CV(a)); }
    if (N == "__cxa_free_exception") { freeObj(A[0].c); return R0(); }
    if (N == "__cxa_throw") { S->flying.push_back({A[0].c, A[1].c, A[2].c, 0}); unwindFrom(true); return true; }
    if (N == "__cxa_begin_catch") { if (S->flying.empty()) tool("begin_catch"); ExnRec e = S->flying.back(); S->flying.pop_back(); e.handlers = 1; S->caught.push_back(e); return R(CV(e.addr)); }
    if (N == "__cxa_rethrow") { ExnRec e = S->caught.back(); S->caught.back().handlers = -1; S->flying.push_back(e); unwindFrom(true); return true; }
    if (N == "__cxa_end_catch") { ExnRec e = S->caught.back(); S->caught.pop_back(); if (e.handlers == -1) return R0();
        if (e.dtor) { Function* d = faddr[e.dtor]; if (d && !d->isDeclaration()) { std::vector<Val> a{CV(e.addr)}; CInst* qq = const_cast<CInst*>(&q); retBuiltin(*qq, {}); /* continue after call; run dtor first */ Frame& top = S->fr.back(); (void)top; CFunc* c = compile(d); Frame f; f.f = c; f.regs.resize(c->nslots); f.regs[0] = CV(e.addr); f.retDst = -1; f.site = (const Instruction*)1; S->fr.push_back(f); return true; } }
        freeObj(e.addr); return R0(); }
    if (N == "__cxa_guard_acquire") { u64 a = A[0].c; Val v = load(a, 8); return R(CV(!(concretize(v, 8) & 1))); }
    if (N == "__cxa_guard_release") { store(A[0].c, 8, CV(1)); return R0(); }
    if (N == "__cxa_atexit") return R(CV(0));
    if (N == "_ZSt9terminatev" || N == "abort" || N == "__cxa_pure_virtual" || N == "__assert_fail" || N == "exit") die("abort", "call of " + N.str());
    // libstdc++ exception classes: opaque constructors and destructors
    if (N.starts_with("_ZNSt11logic_errorC") || N.starts_with("_ZNSt12out_of_rangeC") || N.starts_with("_ZNSt13runtime_errorC") || N.starts_with("_ZNSt16invalid_argumentC") || N.starts_with("_ZNSt12length_errorC")) { store(A[0].c, 64, CV(0)); store(A[0].c + 8, 64, CV(0)); return R0(); }
    if (N.starts_with("_ZNSt11logic_errorD") || N.starts_with("_ZNSt12out_of_rangeD") || N.starts_with("_ZNSt13runtime_errorD") || N.starts_with("_ZNSt9exceptionD") || N.starts_with("_ZNSt16invalid_argumentD") || N.starts_with("_ZNSt12length_errorD")) return R0();
    if (N.starts_with("_ZSt") && N.contains("__throw_")) die("abort", "library throw " + N.str());
    return false;
}

void Engine::step() {
    Frame& f = S->fr.back(); CInst& q = f.f->blocks[f.blk].insts[f.ip];
    ++S->steps; ++totalSteps;
    if (S->steps > stepLimit) die("termination", "step limit exceeded on one path (possible non-termination)");
    switch (q.op) {
    case I_Bin: {
        Val a = get(q.ops[0]), b = get(q.ops[1]); K op = (K)q.sub;
        if (op == K::UDiv || op == K::SDiv || op == K::URem || op == K::SRem) { if (!b.n) { if (!b.c) die("arith", "division by zero"); } else if (decide(X.bin(K::Eq, b.n, X.cst(0, q.w)))) die("arith", "division by zero"); }
        if ((op == K::Shl || op == K::LShr || op == K::AShr) && !b.n && b.c >= q.w) { set(q.dst, NV(X.undef(q.w))); ++f.ip; return; }
        set(q.dst, bin(op, q.w, a, b)); ++f.ip; return; }
    case I_Icmp: {
        Val a = get(q.ops[0]), b = get(q.ops[1]); unsigned w = q.w2; Val r;
        switch ((CmpInst::Predicate)q.sub) {
        case CmpInst::ICMP_EQ: r = bin(K::Eq, w, a, b); break; case CmpInst::ICMP_NE: r = bin(K::Eq, w, a, b); r = r.n ? NV(X.lnot(r.n)) : CV(!r.c); break;
        case CmpInst::ICMP_ULT: r = bin(K::Ult, w, a, b); break; case CmpInst::ICMP_UGT: r = bin(K::Ult, w, b, a); break; case CmpInst::ICMP_ULE: r = bin(K::Ule, w, a, b); break; case CmpInst::ICMP_UGE: r = bin(K::Ule, w, b, a); break;
        case CmpInst::ICMP_SLT: r = bin(K::Slt, w, a, b); break; case CmpInst::ICMP_SGT: r = bin(K::Slt, w, b, a); break; case CmpInst::ICMP_SLE: r = bin(K::Sle, w, a, b); break; case CmpInst::ICMP_SGE: r = bin(K::Sle, w, b, a); break;
        default: tool("icmp"); }
        set(q.dst, r); ++f.ip; return; }
    case I_Cast: {
        Val a = get(q.ops[0]); unsigned w = q.w, w2 = q.w2;
        switch (q.sub) {
        case Instruction::Trunc: set(q.dst, a.n ? NV(X.extract(a.n, w - 1, 0)) : CV(a.c & maskw(w))); break;
        case Instruction::ZExt: set(q.dst, a.n ? NV(X.zext(a.n, w)) : a); break;
        case Instruction::SExt: set(q.dst, a.n ? NV(X.sext(a.n, w)) : CV((u64)sx(a.c, w2) & maskw(w))); break;
        default: if (w == w2) set(q.dst, a); else if (w < w2) set(q.dst, a.n ? NV(X.extract(a.n, w - 1, 0)) : CV(a.c & maskw(w))); else set(q.dst, a.n ? NV(X.zext(a.n, w)) : a); }
        ++f.ip; return; }
    case I_FP: {
        auto D = [&](u64 v, unsigned w) { double d; if (w == 32) { float x; u32 y = v; memcpy(&x, &y, 4); d = x; } else memcpy(&d, &v, 8); return d; }; auto B = [&](double d, unsigned w) { u64 v = 0; if (w == 32) { float x = d; u32 y; memcpy(&y, &x, 4); v = y; } else memcpy(&v, &d, 8); return v; };
        Val a = get(q.ops[0]); if (a.n) tool("symbolic floating point"); Val b; if (q.ops.size() > 1) { b = get(q.ops[1]); if (b.n) tool("symbolic floating point"); }
        if (q.sub == 200) { double x = D(a.c, q.w2), y = D(b.c, q.w2); bool r; switch ((CmpInst::Predicate)q.imm) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; default: tool("fcmp"); } set(q.dst, CV(r)); ++f.ip; return; }
        switch (q.sub) {
        case Instruction::FAdd: set(q.dst, CV(B(D(a.c, q.w) + D(b.c, q.w), q.w))); break; case Instruction::FSub: set(q.dst, CV(B(D(a.c, q.w) - D(b.c, q.w), q.w))); break; case Instruction::FMul: set(q.dst, CV(B(D(a.c, q.w) * D(b.c, q.w), q.w))); break; case Instruction::FDiv: set(q.dst, CV(B(D(a.c, q.w) / D(b.c, q.w), q.w))); break;
        case Instruction::SIToFP: set(q.dst, CV(B((double)sx(a.c, q.w2), q.w))); break; case Instruction::UIToFP: set(q.dst, CV(B((double)a.c, q.w))); break; case Instruction::FPToSI: set(q.dst, CV((u64)(int64_t)D(a.c, q.w2) & maskw(q.w))); break; case Instruction::FPToUI: set(q.dst, CV((u64)D(a.c, q.w2) & maskw(q.w))); break; case Instruction::FPExt: case Instruction::FPTrunc: set(q.dst, CV(B(D(a.c, q.w2), q.w))); break;
        default: tool("fp op"); }
        ++f.ip; return; }
    case I_Sel: {
        Val c = get(q.ops[0]); if (c.n && q.sub) { c.c = decide(c.n, "selection"); c.n = nullptr; }
        for (int i = 0; i < q.n; ++i) { Val a = get(q.ops[1], i), b = get(q.ops[2], i); if (!c.n) set(q.dst, c.c & 1 ? a : b, i); else { unsigned w = q.wid[i]; set(q.dst, NV(X.ite(c.n, ND(a, w), ND(b, w))), i); } }
        ++f.ip; return; }
    case I_Freeze: { for (int i = 0; i < q.n; ++i) set(q.dst, get(q.ops[0], i), i); ++f.ip; return; }
    case I_Load: {
        Val pv = get(q.ops[0]);
        if (pv.n && pv.n->leaves > 1 && q.offs.size() == 1 && treeSafe(pv.n, (q.wid[0] + 7) / 8)) { set(q.dst, loadTree(pv.n, q.wid[0])); ++f.ip; return; }
        u64 a = pv.n ? concretize(pv, 64, "address") : pv.c;
        if (q.imm > 1 && q.offs.size() && (a & (std::min<u64>(q.imm, 8) - 1))) die("memory", "misaligned read");
        for (size_t i = 0; i < q.offs.size(); ++i) set(q.dst, load(a + q.offs[i], q.wid[i]), i);
        ++f.ip; return; }
    case I_Store: {
        u64 a = ptr(q.ops[0]);
        if (q.imm > 1 && q.offs.size() && (a & (std::min<u64>(q.imm, 8) - 1))) die("memory", "misaligned write");
        for (size_t i = 0; i < q.offs.size(); ++i) store(a + q.offs[i], q.wid[i], get(q.ops[1], i));
        ++f.ip; return; }
    case I_Gep: {
        Val p = get(q.ops[0]); Val r = bin(K::Add, 64, p, CV(q.imm));
        for (size_t i = 0; i < q.aux.size(); ++i) { Val x = get(q.ops[i + 1]); unsigned w = q.ops[i + 1].w; if (w < 64) x = x.n ? NV(X.sext(x.n, 64)) : CV((u64)sx(x.c, w)); r = bin(K::Add, 64, r, bin(K::Mul, 64, x, CV(q.aux[i]))); }
        set(q.dst, r); ++f.ip; return; }
    case I_Alloca: { u64 a = newObj(q.imm, Stack, "local"); S->fr.back().allocas.push_back(a); set(q.dst, CV(a)); ++S->fr.back().ip; return; }
    case I_ExtractV: { for (int i = 0; i < q.n; ++i) set(q.dst, get(q.ops[0], q.imm + i), i); ++f.ip; return; }
    case I_InsertV: { std::vector<Val> t; for (int i = 0; i < q.n; ++i) t.push_back(get(q.ops[0], i)); for (int i = 0; i < q.ops[1].n; ++i) t[q.imm + i] = get(q.ops[1], i); for (int i = 0; i < q.n; ++i) set(q.dst, t[i], i); ++f.ip; return; }
    case I_Br: jump(q.t1); return;
    case I_CBr: { Val c = get(q.ops[0]); bool v = c.n ? decide(c.n) : (c.c & 1); jump(v ? q.t1 : q.t2); return; }
    case I_Switch: { Val v = get(q.ops[0]); if (!v.n) { for (auto& c : q.cases) if (c.first == v.c) { jump(c.second); return; } jump(q.t1); return; } for (auto& c : q.cases) if (decide(X.bin(K::Eq, v.n, X.cst(c.first, q.w2)))) { jump(c.second); return; } jump(q.t1); return; }
    case I_Ret: {
        std::vector<Val> v; if (!q.ops.empty()) for (int i = 0; i < q.ops[0].n; ++i) v.push_back(get(q.ops[0], i));
        Frame& g = S->fr.back(); bool dtorFrame = g.site == (const Instruction*)1; int dst = g.retDst, normal = g.normal; u64 exn = dtorFrame && !g.regs.empty() ? g.regs[0].c : 0; popFrame();
        if (dtorFrame) { freeObj(exn); return; }
        if (S->fr.empty()) return;
        if (dst >= 0) for (size_t i = 0; i < v.size(); ++i) set(dst, v[i], i);
        if (normal >= 0) jump(normal); else ++S->fr.back().ip;
        return; }
    case I_Unreach: die("unreachable", "unreachable code reached");
    case I_Rmw: {
        u64 a = ptr(q.ops[0]); Val b = get(q.ops[1]); Val o = load(a, q.w); Val r;
        switch ((AtomicRMWInst::BinOp)q.sub) { case AtomicRMWInst::Add: r = bin(K::Add, q.w, o, b); break; case AtomicRMWInst::Sub: r = bin(K::Sub, q.w, o, b); break; case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::And: r = bin(K::And, q.w, o, b); break; case AtomicRMWInst::Or: r = bin(K::Or, q.w, o, b); break; default: tool("rmw"); }
        Obj* ob = own(a); bool fz = ob->frozen; ob->frozen = false; store(a, q.w, r); ob = own(a); ob->frozen = fz;
        bool dec = (AtomicRMWInst::BinOp)q.sub == AtomicRMWInst::Sub || (!b.n && sx(b.c, q.w) < 0);
        AtomicOrdering od = (AtomicOrdering)q.order;
        if (dec && ob->kind == Heap) { bool rel = od == AtomicOrdering::Release || od == AtomicOrdering::AcquireRelease || od == AtomicOrdering::SequentiallyConsistent; bool acq = od == AtomicOrdering::Acquire || od == AtomicOrdering::AcquireRelease || od == AtomicOrdering::SequentiallyConsistent; ob->decOrder = !rel ? 1 : acq ? 3 : 2; ++implicitChecks; if (!rel) die("order", "a reference count is decremented without release ordering"); }
        set(q.dst, o); ++S->fr.back().ip; return; }
    case I_CmpXchg: { u64 a = ptr(q.ops[0]); Val e = get(q.ops[1]), n = get(q.ops[2]); Val o = load(a, q.w2); Val c = bin(K::Eq, q.w2, o, e); bool v = c.n ? decide(c.n) : c.c; if (v) { Obj* ob = own(a); bool fz = ob->frozen; ob->frozen = false; store(a, q.w2, n); own(a)->frozen = fz; } set(q.dst, o, 0); set(q.dst, CV(v), 1); ++S->fr.back().ip; return; }
    case I_Fence: { AtomicOrdering od = (AtomicOrdering)q.order; if (od == AtomicOrdering::Acquire || od == AtomicOrdering::AcquireRelease || od == AtomicOrdering::SequentiallyConsistent) for (auto& s : S->mem) if (s.o.p && s.o.p->decOrder == 2) { if (s.o.p->rc > 1) { Obj* o = new Obj(*s.o.p); o->rc = 0; s.o = ORef(o); } s.o.p->decOrder = 3; } ++f.ip; return; }
    case I_LandingPad: tool("landingpad executed");
    case I_Resume: { // exception object is still on top of flying
        // find the record for this address
        u64 a = concretize(get(q.ops[0], 0), 64); if (S->flying.empty() || S->flying.back().addr != a) tool("resume of unknown exception");
        if (S->fr.back().f->F->hasFnAttribute(Attribute::NoUnwind)) die("exception", "an exception leaves a noexcept function");
        popFrame(); if (S->fr.empty()) die("exception", "an exception leaves the unit under proof"); unwindFrom(true); return; }
    case I_Call: {
        Function* F = q.callee; size_t nargs = q.ops.size();
        if (!F) { u64 a = ptr(q.ops.back()); auto it = faddr.find(a); if (it == faddr.end()) die("memory", "call of an invalid function pointer"); F = it->second; --nargs; }
        std::vector<Val> A; for (size_t i = 0; i < nargs; ++i) for (int j = 0; j < q.ops[i].n; ++j) A.push_back(get(q.ops[i], j));
        if (F->isDeclaration()) { if (builtin(F, q, A)) return; tool("call of external function " + F->getName().str()); }
        if (F->isIntrinsic()) { builtin(F, q, A); return; }
        std::vector<u64> copies; size_t k = 0; for (size_t i = 0; i < nargs; ++i) { if (i < q.aux.size() && q.aux[i]) { u64 src = concretize(A[k], 64); u64 d = newObj(q.aux[i], Stack, "byval"); memcopy(d, src, q.aux[i]); A[k] = CV(d); copies.push_back(d); } k += q.ops[i].n; }
        pushFrame(F, A, &q); for (u64 d : copies) S->fr.back().allocas.push_back(d);
        return; }
    }
}

void Engine::run(Function* U) {
    auto st = std::make_unique<State>(); S = st.get(); st->model = std::make_shared<Model>(); st->model->epoch = X.nextEpoch++; setupGlobals(*st);
    for (auto& f : M) addrOf(&f);
    // global constructors
    CFunc* c = compile(U); Frame f; f.f = c; f.regs.resize(c->nslots); st->fr.push_back(f); ++c->execs; work.push_back(std::move(st));
    u64 it = 0;
    while (!work.empty()) {
        auto cur = std::move(work.back()); work.pop_back(); S = cur.get();
        try {
            while (!S->fr.empty()) { step(); if ((++it & 0xFFF) == 0 && deadline && now() - startT > deadline) { incomplete = true; why = "time limit"; work.clear(); S = nullptr; return; } }
            ++paths;
        } catch (PathEnd&) { ++paths; }
        S = nullptr;
    }
}

static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32) r += " "; else r += ch; } return r + "\""; }

void Engine::report(FILE* out, const std::string& unit) {
    u64 tr = 0, so = 0, fa = 0, un = 0; std::string ob; for (auto& o : obls) { tr += o.second.trivial; so += o.second.solver; fa += o.second.failed; un += o.second.undecided; if (!ob.empty()) ob += ","; ob += js(o.first) + ":[" + std::to_string(o.second.trivial) + "," + std::to_string(o.second.solver) + "," + std::to_string(o.second.failed) + "," + std::to_string(o.second.undecided) + "]"; }
    std::string cv; for (auto& c : covers) { if (!cv.empty()) cv += ","; cv += js(c.first) + ":" + std::to_string(c.second); }
    std::set<std::string> fn; for (auto& c : cf) if (c.second->repo && c.second->execs) { std::string n = c.second->F->getSubprogram()->getName().str(); size_t lt = n.find('<'); if (lt != std::string::npos && lt > 0 && n.rfind("operator", 0) != 0) n = n.substr(0, lt); std::string fl = c.second->file; size_t p = fl.rfind('/'); fn.insert(fl.substr(p + 1) + " " + n); }
    std::string fs; for (auto& s : fn) { if (!fs.empty()) fs += ","; fs += js(s); }
    std::string ff; for (auto& f : fails) { if (!ff.empty()) ff += ","; ff += "{\"kind\":" + js(f.kind) + ",\"msg\":" + js(f.msg) + ",\"loc\":" + js(f.loc) + ",\"stack\":" + js(f.stack) + ",\"inputs\":" + js(f.inputs) + ",\"notes\":" + js(f.notes) + "}"; }
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(out, "{\"unit\":%s,\"part\":[%u,%u],\"paths\":%llu,\"pruned\":%llu,\"steps\":%llu,\"trivial\":%llu,\"solver\":%llu,\"failed\":%llu,\"undecided\":%llu,\"implicit\":%llu,\"queries\":%llu,\"cached\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%ld,\"incomplete\":%s,\"why\":%s,\"obligations\":{%s},\"covers\":{%s},\"functions\":[%s],\"errors\":%llu,\"failures\":[%s]}\n",
        js(unit).c_str(), partI, partK, (unsigned long long)paths, (unsigned long long)pathsKilled, (unsigned long long)totalSteps, (unsigned long long)tr, (unsigned long long)so, (unsigned long long)fa, (unsigned long long)un, (unsigned long long)implicitChecks, (unsigned long long)queries, (unsigned long long)cacheHits, (unsigned long long)unknowns, solverTime, now() - startT, ru.ru_maxrss / 1024, incomplete ? "true" : "false", js(why).c_str(), ob.c_str(), cv.c_str(), fs.c_str(), (unsigned long long)errs, ff.c_str());
}

static int mainThread(int argc, char** argv) {
    std::string file, unit, outf; unsigned pi = 0, pk = 1; double tl = 0; u64 sl = 0; bool list = false; std::string repo = "/repo/include/"; unsigned mf = 0;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--unit") unit = argv[++i]; else if (a == "--part") { sscanf(argv[++i], "%u/%u", &pi, &pk); } else if (a == "--timeout") tl = atof(argv[++i]); else if (a == "--steps") sl = strtoull(argv[++i], 0, 10); else if (a == "--list") list = true; else if (a == "--out") outf = argv[++i]; else if (a == "--repo") repo = argv[++i]; else if (a == "--max-fails") mf = atoi(argv[++i]); else if (a == "--dump") { smtDump = argv[++i]; } else if (a == "--dump-max") dumpMax = strtoull(argv[++i], 0, 10); else file = a; }
    LLVMContext C; SMDiagnostic err; auto M = parseIRFile(file, err, C); if (!M) { err.print("cv", errs()); return 3; }
    if (list) { for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("vf_unit_")) printf("%s\n", f.getName().str().c_str()); return 0; }
    Function* U = M->getFunction(unit); if (!U || U->isDeclaration()) { fprintf(stderr, "no unit %s\n", unit.c_str()); return 3; }
    Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), qTimeoutMs); Z3_solver_set_params(ctx, slv, p);
    Engine E(*M); E.partI = pi; E.partK = pk; E.deadline = tl; E.repoPrefix = repo; if (sl) E.stepLimit = sl; if (mf) E.maxFails = mf;
    FILE* out = outf.empty() ? stdout : fopen(outf.c_str(), "w");
    try { E.run(U); } catch (ToolError& e) { std::string st; if (E.S && !E.S->fr.empty()) st = E.stackStr(); fprintf(out, "{\"unit\":%s,\"part\":[%u,%u],\"tool_error\":%s,\"stack\":%s}\n", js(unit).c_str(), pi, pk, js(e.msg).c_str(), js(st).c_str()); fflush(out); _exit(4); }
    E.report(out, unit); fflush(out); _exit(E.fails.empty() ? 0 : 1);
}
int main(int argc, char** argv) {
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = 1ull << 30; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 29); pthread_t th; struct A { int c; char** v; int r; } a{argc, argv, 0};
    pthread_create(&th, &at, [](void* p) -> void* { A* a = (A*)p; a->r = mainThread(a->c, a->v); return nullptr; }, &a); pthread_join(th, nullptr); return a.r;
}
