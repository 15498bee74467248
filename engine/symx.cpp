// symx: a symbolic executor for LLVM 18 bitcode on top of Z3.
//
//   symx [options] program.bc entry...
//
// Every path of symx_entry_<entry>() is executed; values made by symx_byte()/symx_bits()
// are solver variables. A branch on such a value is decided by the solver for all values:
// infeasible sides are refuted, feasible ones are both followed. symx_assert() asks for a
// value that falsifies it. See DESIGN.md for what is modelled.
#include "expr.h"
#include <cmath>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace llvm;
typedef uint64_t u64;

static Pool P;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { u64 c = 0; Expr* e = nullptr; };

// ------------------------------------------------------------------ memory
enum { SHIFT = 22 };
static const u64 HEAP = 1ULL << 45, STACK = 1ULL << 46, GLOB = 1ULL << 44, REGION = 7ULL << 44;
struct Obj { std::vector<uint8_t> d; std::vector<Expr*> s; bool ro = false; char kind = 'h'; };
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; };
struct PVec {
    std::vector<std::shared_ptr<Chunk>> ch;
    ObjP* get(u64 i) { u64 k = i >> 6; if (k >= ch.size() || !ch[k]) return nullptr; auto& o = ch[k]->o[i & 63]; return o ? &o : nullptr; }
    ObjP& own(u64 i) { u64 k = i >> 6; if (k >= ch.size()) ch.resize(k + 1); if (!ch[k]) ch[k] = std::make_shared<Chunk>(); else if (ch[k].use_count() > 1) ch[k] = std::make_shared<Chunk>(*ch[k]); return ch[k]->o[i & 63]; }
};

// ------------------------------------------------------------------ decoded code
struct FnInfo;
enum Op : uint8_t { O_BIN, O_CMP, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_SELECT, O_CAST, O_ALLOCA, O_EXTRACTV, O_INSERTV, O_UNREACH, O_RESUME, O_LANDING, O_FREEZE, O_RMW, O_CMPXCHG, O_NOP, O_FBIN, O_FCMP, O_BAD };
struct Leaf { unsigned w; u64 off; };
struct Edge { int target; std::vector<std::pair<int, int>> mv; bool overlap; };
struct Clause { bool isCatch; std::vector<u64> types; };
struct Inst {
    Op op; uint8_t sub = 0; unsigned w = 0, w2 = 0; int dst = -1; unsigned nd = 0;
    std::vector<int> ops;              // >= 0 register, < 0 constant ~i
    std::vector<std::pair<int, u64>> gep; u64 imm = 0;
    std::vector<Leaf> leaves;
    std::vector<int> edges; std::vector<u64> cases;
    Function* callee = nullptr; int builtin = -1; std::vector<unsigned> argn; std::vector<u64> byval; bool invoke = false;
    std::vector<Clause> clauses; bool cleanup = false;
    Instruction const* llvm = nullptr;
};
struct FnInfo { Function* f; std::string name; bool decoded = false, ran = false; unsigned nregs = 0; std::vector<int> params; std::vector<Inst> code; std::vector<Edge> edges; std::vector<Val> pool; bool varargs = false; };

struct Frame { FnInfo* fn; int pc = 0; std::vector<Val> r, va; std::vector<u64> allocas; u64 stackTop = 0; };
struct Exc { u64 obj; u64 ti; int handlers; };
struct Dom { u64 b[4]; bool has(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; } bool operator==(Dom const& o) const { return !memcmp(b, o.b, 32); }
    unsigned count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); } };
struct SymInfo { unsigned w; char const* name; };

struct State {
    std::vector<std::shared_ptr<Frame>> st;
    PVec heap, stack, globs; u64 heapNext = 1, stackTop = 1;
    std::vector<SymInfo> syms; std::vector<Dom> dom; SymSet inMulti {}; std::vector<Expr*> multi; std::vector<u64> model;
    std::vector<std::pair<Expr*, bool>> facts;
    std::vector<Exc> excs; std::vector<u64> caught; u64 inflight = 0;
    u64 steps = 0; unsigned depth = 0; std::vector<char const*> trail;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ globals
static std::unique_ptr<Module> M; static DataLayout const* DL;
static std::unordered_map<Function const*, FnInfo*> fns; static std::unordered_map<u64, Function*> fnByAddr; static std::unordered_map<Function const*, u64> fnAddr;
static std::unordered_map<GlobalValue const*, u64> gaddr; static std::unordered_map<u64, std::string> gname;
static State init0;
static std::deque<StateP> work;
static u64 optMaxSteps = 50000000, optMaxPaths = 10000000; static double optTime = 800, tStart; static int optJobs = 1; static unsigned optQueryMs = 60000; static bool optTrace = false, optPrint = false; static int optMaxViol = 3;
struct Violation { std::string msg; std::vector<std::pair<std::string, u64>> vals; std::string entry, where; };
struct Stats { u64 paths = 0, forks = 0, steps = 0, queries = 0, certified = 0, unknown = 0, asserts = 0, symasserts = 0, assumeEnds = 0; double solver = 0; bool complete = true; std::string incomplete; unsigned maxSyms = 0; u64 maxSteps = 0; };
struct Sample { std::string entry; std::vector<std::pair<std::string, u64>> vals; std::string trail; };
static std::vector<Sample> samples; static int optSamples = 0; static bool assumeEnd = false, violSeen = false;
static Stats S; static std::vector<Violation> viols; static std::map<std::string, u64> reach; static std::set<std::string> ranFns; static std::string curEntry;

struct PathEnd {};
[[noreturn]] static void endPath() { throw PathEnd {}; }
[[noreturn]] static void fatal(std::string const& m) { std::cerr << "symx: " << m << std::endl; _exit(3); }
static void bad(State& s, std::string const& msg);
[[noreturn]] static void err(State& s, std::string const& msg) { bad(s, msg); endPath(); }

static void flat(Type* t, std::vector<Leaf>& out, u64 off = 0) {
    if (auto* i = dyn_cast<IntegerType>(t)) { out.push_back({ i->getBitWidth(), off }); return; }
    if (t->isPointerTy()) { out.push_back({ 64, off }); return; }
    if (t->isFloatTy()) { out.push_back({ 32, off }); return; }
    if (t->isDoubleTy()) { out.push_back({ 64, off }); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flat(st->getElementType(i), out, off + l->getElementOffset(i)); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 n = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) flat(a->getElementType(), out, off + i * n); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 n = DL->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); ++i) flat(v->getElementType(), out, off + i * n); return; }
    if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return;
    out.push_back({ 999, off });
}
static unsigned nleaf(Type* t) { std::vector<Leaf> l; flat(t, l); return (unsigned) l.size(); }

static u64 constInt(Constant const* c);
static u64 addrOf(GlobalValue const* g) {
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    if (auto* a = dyn_cast<GlobalAlias>(g)) return constInt(a->getAliasee());
    fatal("no address for " + g->getName().str());
}
static u64 constInt(Constant const* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) fatal("wide constant"); return i->getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* f = dyn_cast<ConstantFP>(c)) { auto b = f->getValueAPF().bitcastToAPInt(); return b.getBitWidth() > 64 ? 0 : b.getZExtValue(); }
    if (auto* g = dyn_cast<GlobalValue>(c)) return addrOf(g);
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        auto op = [&](unsigned i) { return constInt(cast<Constant>(e->getOperand(i))); };
        unsigned w = e->getType()->isPointerTy() ? 64 : e->getType()->getIntegerBitWidth();
        switch (e->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) fatal("gep const"); return op(0) + off.getZExtValue(); }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: return op(0) & maskw(w);
            case Instruction::Add: return (op(0) + op(1)) & maskw(w);
            case Instruction::Sub: return (op(0) - op(1)) & maskw(w);
            case Instruction::Mul: return (op(0) * op(1)) & maskw(w);
            case Instruction::And: return op(0) & op(1);
            case Instruction::Xor: return op(0) ^ op(1);
            case Instruction::ICmp: { auto p = cast<ConstantExpr>(e)->getPredicate(); u64 a = op(0), b = op(1); return p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGT ? a > b : 0; }
            default: fatal(std::string("const expr ") + e->getOpcodeName());
        }
    }
    if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return addrOf(d->getGlobalValue());
    std::string t; raw_string_ostream o(t); c->print(o); fatal("constant " + t);
}
static void constFlat(Constant const* c, std::vector<u64>& out) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        unsigned n = nleaf(t);
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { out.insert(out.end(), n, 0); return; }
        unsigned k = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned) t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < k; ++i) constFlat(c->getAggregateElement(i), out);
        return;
    }
    out.push_back(constInt(c));
}
static void initMem(Constant const* c, uint8_t* p) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { auto r = d->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    Type* t = c->getType();
    if (auto* st = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) initMem(c->getAggregateElement(i), p + l->getElementOffset(i)); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 n = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) initMem(c->getAggregateElement((unsigned) i), p + i * n); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { auto v = ci->getValue(); for (unsigned i = 0; i < (v.getBitWidth() + 7) / 8; ++i) p[i] = (uint8_t) v.extractBitsAsZExtValue(std::min(8U, v.getBitWidth() - i * 8), i * 8); return; }
    u64 v = constInt(c); u64 n = DL->getTypeStoreSize(t); for (u64 i = 0; i < n && i < 8; ++i) p[i] = (uint8_t) (v >> (8 * i));
}

// ------------------------------------------------------------------ builtins
enum B { b_ceil, b_floor, b_vastart, b_vacopy, b_byte, b_bits, b_assume, b_assert, b_reach, b_fork, b_stop, b_active, b_print, b_same, b_fail, b_malloc, b_calloc, b_realloc, b_free, b_memcpy, b_memmove, b_memset, b_memcmp, b_strlen, b_memchr, b_abort, b_exit, b_atexit, b_guardacq, b_guardrel, b_calloc_exc, b_throw, b_begincatch, b_endcatch, b_rethrow, b_freeexc, b_pure, b_nop, b_terminate, b_typeid, b_umax, b_umin, b_smax, b_smin, b_uaddo, b_usubo, b_umulo, b_saddo, b_ssubo, b_smulo, b_usubsat, b_uaddsat, b_ctlz, b_cttz, b_ctpop, b_abs, b_bswap, b_fshl, b_fshr, b_trap, b_first, b_isconst, b_objsize, b_assertfail, b_zero };
static std::map<std::string, int> const builtins {
    { "symx_byte", b_byte }, { "symx_bits", b_bits }, { "symx_assume", b_assume }, { "symx_assert", b_assert }, { "symx_reach", b_reach }, { "symx_fork", b_fork }, { "symx_stop", b_stop }, { "symx_active", b_active }, { "symx_print", b_print }, { "symx_fail", b_fail }, { "symx_same", b_same },
    { "malloc", b_malloc }, { "_Znwm", b_malloc }, { "_Znam", b_malloc }, { "_ZnwmRKSt9nothrow_t", b_malloc }, { "calloc", b_calloc }, { "realloc", b_realloc }, { "free", b_free }, { "_ZdlPv", b_free }, { "_ZdaPv", b_free }, { "_ZdlPvm", b_free }, { "_ZdaPvm", b_free },
    { "memcpy", b_memcpy }, { "memmove", b_memmove }, { "memset", b_memset }, { "memcmp", b_memcmp }, { "bcmp", b_memcmp }, { "strlen", b_strlen }, { "memchr", b_memchr },
    { "abort", b_abort }, { "exit", b_exit }, { "_exit", b_exit }, { "__cxa_atexit", b_atexit }, { "__cxa_guard_acquire", b_guardacq }, { "__cxa_guard_release", b_guardrel }, { "__cxa_guard_abort", b_nop },
    { "__cxa_allocate_exception", b_calloc_exc }, { "__cxa_throw", b_throw }, { "__cxa_begin_catch", b_begincatch }, { "__cxa_end_catch", b_endcatch }, { "__cxa_rethrow", b_rethrow }, { "__cxa_free_exception", b_freeexc }, { "__cxa_pure_virtual", b_pure },
    { "__assert_fail", b_assertfail }, { "pthread_mutex_lock", b_zero }, { "pthread_mutex_trylock", b_zero }, { "pthread_mutex_init", b_zero }, { "pthread_mutex_destroy", b_zero }, { "pthread_rwlock_rdlock", b_zero }, { "pthread_rwlock_wrlock", b_zero }, { "pthread_rwlock_unlock", b_zero }, { "__cxa_thread_atexit", b_zero },
    { "_ZnwmSt11align_val_t", b_malloc }, { "_ZnamSt11align_val_t", b_malloc }, { "_ZnamRKSt9nothrow_t", b_malloc }, { "_ZdlPvSt11align_val_t", b_free }, { "_ZdaPvSt11align_val_t", b_free }, { "_ZdlPvmSt11align_val_t", b_free }, { "_ZdaPvmSt11align_val_t", b_free }, { "_ZdlPvRKSt9nothrow_t", b_free }, { "_ZdaPvRKSt9nothrow_t", b_free }, { "pthread_mutex_unlock", b_zero } };

// ------------------------------------------------------------------ decoding
static FnInfo* info(Function* f) { auto& p = fns[f]; if (!p) { p = new FnInfo {}; p->f = f; p->name = f->getName().str(); p->varargs = f->isVarArg(); } return p; }

static void decode(FnInfo* fi) {
    if (fi->decoded) return; fi->decoded = true;
    Function* f = fi->f; std::unordered_map<Value const*, int> reg; unsigned nr = 0;
    auto newreg = [&](Value const* v) { reg[v] = (int) nr; nr += nleaf(v->getType()); };
    for (auto& a : f->args()) { fi->params.push_back((int) nr); newreg(&a); }
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) newreg(&i);
    auto opn = [&](Value const* v, std::vector<int>& out) {
        unsigned n = nleaf(v->getType());
        if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> vs; constFlat(c, vs); for (u64 x : vs) { fi->pool.push_back({ x, nullptr }); out.push_back(~(int) (fi->pool.size() - 1)); } return; }
        auto it = reg.find(v); if (it == reg.end()) { for (unsigned i = 0; i < n; ++i) { fi->pool.push_back({}); out.push_back(~(int) (fi->pool.size() - 1)); } return; }
        for (unsigned i = 0; i < n; ++i) out.push_back(it->second + (int) i);
    };
    std::unordered_map<BasicBlock const*, int> bstart; std::vector<std::pair<int, BasicBlock const*>> efix;
    auto edge = [&](BasicBlock const* from, BasicBlock const* to) {
        Edge e {}; std::set<int> dsts;
        for (auto& phi : to->phis()) { std::vector<int> src; opn(phi.getIncomingValueForBlock(from), src); int d = reg[&phi]; for (unsigned i = 0; i < src.size(); ++i) { e.mv.push_back({ d + (int) i, src[i] }); dsts.insert(d + (int) i); } }
        for (auto& m : e.mv) if (m.second >= 0 && dsts.count(m.second)) e.overlap = true;
        fi->edges.push_back(e); efix.push_back({ (int) fi->edges.size() - 1, to }); return (int) fi->edges.size() - 1;
    };
    for (auto& bb : *f) {
        bstart[&bb] = (int) fi->code.size();
        for (auto& I : bb) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Inst n {}; n.llvm = &I; n.op = O_BAD;
            if (!I.getType()->isVoidTy()) { n.dst = reg[&I]; n.nd = nleaf(I.getType()); if (n.nd == 1) { std::vector<Leaf> l; flat(I.getType(), l); n.w = l[0].w; } }
            auto add = [&](Value const* v) { opn(v, n.ops); };
            switch (I.getOpcode()) {
                case Instruction::Add: n.op = O_BIN; n.sub = ADD; break; case Instruction::Sub: n.op = O_BIN; n.sub = SUB; break; case Instruction::Mul: n.op = O_BIN; n.sub = MUL; break;
                case Instruction::UDiv: n.op = O_BIN; n.sub = UDIV; break; case Instruction::SDiv: n.op = O_BIN; n.sub = SDIV; break; case Instruction::URem: n.op = O_BIN; n.sub = UREM; break; case Instruction::SRem: n.op = O_BIN; n.sub = SREM; break;
                case Instruction::Shl: n.op = O_BIN; n.sub = SHL; break; case Instruction::LShr: n.op = O_BIN; n.sub = LSHR; break; case Instruction::AShr: n.op = O_BIN; n.sub = ASHR; break;
                case Instruction::And: n.op = O_BIN; n.sub = AND; break; case Instruction::Or: n.op = O_BIN; n.sub = OR; break; case Instruction::Xor: n.op = O_BIN; n.sub = XOR; break;
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: n.op = O_FBIN; n.sub = (uint8_t) (I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3); break;
                default: break;
            }
            if (n.op == O_BIN || n.op == O_FBIN) { add(I.getOperand(0)); add(I.getOperand(1)); if (n.nd != 1 || n.w > 64) n.op = O_BAD; }
            else if (auto* c = dyn_cast<ICmpInst>(&I)) { n.op = O_CMP; n.sub = (uint8_t) c->getPredicate(); add(c->getOperand(0)); add(c->getOperand(1)); std::vector<Leaf> l; flat(c->getOperand(0)->getType(), l); n.w2 = l[0].w; if (n.nd != 1 || n.w2 > 64) n.op = O_BAD; }
            else if (auto* c = dyn_cast<FCmpInst>(&I)) { n.op = O_FCMP; n.sub = (uint8_t) c->getPredicate(); n.w2 = c->getOperand(0)->getType()->isFloatTy() ? 32 : 64; add(c->getOperand(0)); add(c->getOperand(1)); }
            else if (auto* l = dyn_cast<LoadInst>(&I)) { n.op = O_LOAD; add(l->getPointerOperand()); flat(l->getType(), n.leaves); }
            else if (auto* st = dyn_cast<StoreInst>(&I)) { n.op = O_STORE; add(st->getPointerOperand()); add(st->getValueOperand()); flat(st->getValueOperand()->getType(), n.leaves); }
            else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                n.op = O_GEP; add(g->getPointerOperand()); u64 off = 0;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* idx = it.getOperand();
                    if (auto* stt = it.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset((unsigned) cast<ConstantInt>(idx)->getZExtValue()); continue; }
                    u64 sz = it.getSequentialElementStride(*DL);
                    if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += (u64) ci->getSExtValue() * sz; continue; }
                    std::vector<int> o; opn(idx, o); n.gep.push_back({ o[0], sz }); n.cases.push_back(idx->getType()->getIntegerBitWidth());
                }
                n.imm = off;
            }
            else if (auto* b = dyn_cast<BranchInst>(&I)) { if (b->isConditional()) { n.op = O_CBR; add(b->getCondition()); n.edges = { edge(&bb, b->getSuccessor(0)), edge(&bb, b->getSuccessor(1)) }; } else { n.op = O_BR; n.edges = { edge(&bb, b->getSuccessor(0)) }; } }
            else if (auto* sw = dyn_cast<SwitchInst>(&I)) { n.op = O_SWITCH; add(sw->getCondition()); n.w2 = sw->getCondition()->getType()->getIntegerBitWidth(); n.edges.push_back(edge(&bb, sw->getDefaultDest())); for (auto& c : sw->cases()) { n.cases.push_back(c.getCaseValue()->getZExtValue()); n.edges.push_back(edge(&bb, c.getCaseSuccessor())); } }
            else if (auto* r = dyn_cast<ReturnInst>(&I)) { n.op = O_RET; if (r->getReturnValue()) add(r->getReturnValue()); }
            else if (isa<UnreachableInst>(I)) n.op = O_UNREACH;
            else if (auto* r = dyn_cast<ResumeInst>(&I)) { n.op = O_RESUME; add(r->getValue()); }
            else if (auto* s = dyn_cast<SelectInst>(&I)) { n.op = O_SELECT; add(s->getCondition()); add(s->getTrueValue()); add(s->getFalseValue()); flat(I.getType(), n.leaves); if (s->getCondition()->getType()->isVectorTy()) n.op = O_BAD; }
            else if (auto* c = dyn_cast<CastInst>(&I)) { n.op = O_CAST; n.sub = (uint8_t) c->getOpcode(); add(c->getOperand(0)); std::vector<Leaf> l; flat(c->getSrcTy(), l); n.w2 = l[0].w; if (n.nd != 1 || n.w > 64 || n.w2 > 64) n.op = O_BAD; }
            else if (auto* a = dyn_cast<AllocaInst>(&I)) { n.op = O_ALLOCA; n.imm = DL->getTypeAllocSize(a->getAllocatedType()); add(a->getArraySize()); }
            else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { n.op = O_EXTRACTV; std::vector<int> o; opn(ev->getAggregateOperand(), o); Type* t = ev->getAggregateOperand()->getType(); unsigned k = 0; for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; ++j) k += nleaf(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } for (unsigned j = 0; j < n.nd; ++j) n.ops.push_back(o[k + j]); }
            else if (auto* iv = dyn_cast<InsertValueInst>(&I)) { n.op = O_INSERTV; opn(iv->getAggregateOperand(), n.ops); std::vector<int> v; opn(iv->getInsertedValueOperand(), v); Type* t = iv->getType(); unsigned k = 0; for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; ++j) k += nleaf(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } for (unsigned j = 0; j < v.size(); ++j) n.ops[k + j] = v[j]; }
            else if (isa<FreezeInst>(I)) { n.op = O_FREEZE; add(I.getOperand(0)); }
            else if (isa<FenceInst>(I)) n.op = O_NOP;
            else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { n.op = O_RMW; n.sub = (uint8_t) rm->getOperation(); add(rm->getPointerOperand()); add(rm->getValOperand()); }
            else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { n.op = O_CMPXCHG; add(cx->getPointerOperand()); add(cx->getCompareOperand()); add(cx->getNewValOperand()); n.w2 = cx->getCompareOperand()->getType()->isPointerTy() ? 64 : cx->getCompareOperand()->getType()->getIntegerBitWidth(); }
            else if (auto* lp = dyn_cast<LandingPadInst>(&I)) { n.op = O_LANDING; n.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); ++i) { Clause c {}; c.isCatch = lp->isCatch(i); if (c.isCatch) c.types.push_back(constInt(lp->getClause(i))); else { std::vector<u64> v; constFlat(lp->getClause(i), v); c.types = v; } n.clauses.push_back(c); } }
            else if (auto* cb = dyn_cast<CallBase>(&I)) {
                n.op = O_CALL; Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                Function* cf = dyn_cast<Function>(cv);
                if (cb->isInlineAsm()) n.op = O_BAD;
                if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
                    n.op = O_CALL; cf = nullptr;
                    switch (ii->getIntrinsicID()) {
                        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::donothing: n.op = O_NOP; break;
                        case Intrinsic::stacksave: n.builtin = b_zero; break;
                        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: n.builtin = b_memcpy; break; case Intrinsic::memmove: n.builtin = b_memmove; break; case Intrinsic::memset: n.builtin = b_memset; break;
                        case Intrinsic::umax: n.builtin = b_umax; break; case Intrinsic::umin: n.builtin = b_umin; break; case Intrinsic::smax: n.builtin = b_smax; break; case Intrinsic::smin: n.builtin = b_smin; break;
                        case Intrinsic::uadd_with_overflow: n.builtin = b_uaddo; break; case Intrinsic::usub_with_overflow: n.builtin = b_usubo; break; case Intrinsic::umul_with_overflow: n.builtin = b_umulo; break;
                        case Intrinsic::sadd_with_overflow: n.builtin = b_saddo; break; case Intrinsic::ssub_with_overflow: n.builtin = b_ssubo; break; case Intrinsic::smul_with_overflow: n.builtin = b_smulo; break;
                        case Intrinsic::usub_sat: n.builtin = b_usubsat; break; case Intrinsic::uadd_sat: n.builtin = b_uaddsat; break;
                        case Intrinsic::ctlz: n.builtin = b_ctlz; break; case Intrinsic::cttz: n.builtin = b_cttz; break; case Intrinsic::ctpop: n.builtin = b_ctpop; break; case Intrinsic::abs: n.builtin = b_abs; break; case Intrinsic::bswap: n.builtin = b_bswap; break;
                        case Intrinsic::fshl: n.builtin = b_fshl; break; case Intrinsic::fshr: n.builtin = b_fshr; break;
                        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: n.builtin = b_trap; break;
                        case Intrinsic::eh_typeid_for: n.builtin = b_typeid; break; case Intrinsic::expect: case Intrinsic::threadlocal_address: n.builtin = b_first; break; case Intrinsic::vastart: n.builtin = b_vastart; break; case Intrinsic::vacopy: n.builtin = b_vacopy; break; case Intrinsic::vaend: n.op = O_NOP; break; case Intrinsic::ceil: n.builtin = b_ceil; break; case Intrinsic::floor: n.builtin = b_floor; break; case Intrinsic::is_constant: n.builtin = b_isconst; break; case Intrinsic::objectsize: n.builtin = b_objsize; break;
                        default: n.op = O_BAD;
                    }
                    std::vector<Leaf> l; if (ii->arg_size()) flat(ii->getArgOperand(0)->getType(), l); n.w2 = l.empty() ? 0 : l[0].w;
                    if (l.size() > 1 && n.op == O_CALL) n.op = O_BAD;
                } else if (cf) { auto it = builtins.find(cf->getName().str()); if (it != builtins.end()) n.builtin = it->second; else n.callee = cf; }
                if (!cf && n.builtin < 0 && n.op == O_CALL) add(cb->getCalledOperand());
                if (n.op == O_CALL) for (unsigned i = 0; i < cb->arg_size(); ++i) { Value* a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) continue; n.argn.push_back(nleaf(a->getType())); n.byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0); add(a); }
                if (auto* iv = dyn_cast<InvokeInst>(cb)) { n.invoke = true; n.edges = { edge(&bb, iv->getNormalDest()), edge(&bb, iv->getUnwindDest()) }; }
            }
            fi->code.push_back(std::move(n));
        }
    }
    for (auto& p : efix) fi->edges[p.first].target = bstart[p.second];
    fi->nregs = nr;
}

// ------------------------------------------------------------------ constraints
static Expr* asExpr(Val const& v, unsigned w) { return v.e ? v.e : P.konst(v.c, w); }
static Val mkv(Expr* e) { return e->k == CONST ? Val { e->c, nullptr } : Val { 0, e }; }

static Z3_solver newSolver() { Z3_solver s = Z3_mk_solver_for_logic(P.ctx, Z3_mk_string_symbol(P.ctx, "QF_BV")); Z3_solver_inc_ref(P.ctx, s); Z3_params p = Z3_mk_params(P.ctx); Z3_params_inc_ref(P.ctx, p); Z3_params_set_uint(P.ctx, p, Z3_mk_string_symbol(P.ctx, "timeout"), optQueryMs); Z3_solver_set_params(P.ctx, s, p); Z3_params_dec_ref(P.ctx, p); return s; }

static Z3_ast domZ(unsigned id, unsigned w, Dom const& d) { bool in[256]; for (int i = 0; i < 256; ++i) in[i] = d.has((unsigned) i); return P.in_ranges(P.z(P.symbol(id, w)), w, in); }

// batch of "the listed outcomes of e are all outcomes under dom" obligations, discharged by Z3
struct Cert { unsigned sym, w; Dom d; Expr* e; std::vector<u64> vals; };
static std::vector<Cert> certs; static std::unordered_map<u64, int> certSeen;
static void flushCerts() {
    if (certs.empty()) return; double t = now();
    Z3_solver s = newSolver(); std::vector<Z3_ast> ors;
    for (auto& c : certs) { std::vector<Z3_ast> a { domZ(c.sym, c.w, c.d) }; for (u64 v : c.vals) a.push_back(Z3_mk_not(P.ctx, Z3_mk_eq(P.ctx, P.z(c.e), P.num(v, c.e->w)))); ors.push_back(Z3_mk_and(P.ctx, (unsigned) a.size(), a.data())); }
    Z3_solver_assert(P.ctx, s, Z3_mk_or(P.ctx, (unsigned) ors.size(), ors.data()));
    auto r = Z3_solver_check(P.ctx, s); Z3_solver_dec_ref(P.ctx, s);
    ++S.queries; S.solver += now() - t;
    if (r == Z3_L_TRUE) fatal("internal: solver contradicts the value tables");
    if (r == Z3_L_UNDEF) { ++S.unknown; S.complete = false; S.incomplete = "solver gave up on a coverage obligation"; } else S.certified += certs.size();
    certs.clear();
}
static void certify(State& s, int sym, Expr* e, std::vector<u64> const& vals) {
    u64 h = Pool::mix(e->id, (u64) sym); for (int i = 0; i < 4; ++i) h = Pool::mix(h, s.dom[sym].b[i]); for (u64 v : vals) h = Pool::mix(h, v);
    if (certSeen.emplace(h, 1).second) { certs.push_back({ (unsigned) sym, s.syms[sym].w, s.dom[sym], e, vals }); if (certs.size() >= 256) flushCerts(); }
}

/// satisfiability of the path plus extra; fills model on success
static bool sat(State& s, Expr* extra, std::vector<u64>& model) {
    if (extra->k == CONST && extra->c == 0) return false;
    SymSet need = extra->syms; std::vector<Expr*> cons; std::vector<bool> used(s.multi.size());
    for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < s.multi.size(); ++i) if (!used[i]) { bool hit = false; for (int k = 0; k < 4; ++k) hit |= (s.multi[i]->syms[k] & need[k]) != 0; if (hit) { used[i] = true; cons.push_back(s.multi[i]); for (int k = 0; k < 4; ++k) need[k] |= s.multi[i]->syms[k]; ch = true; } } }
    double t = now(); Z3_solver sv = newSolver();
    for (auto* c : cons) Z3_solver_assert(P.ctx, sv, P.zb(c));
    Z3_solver_assert(P.ctx, sv, P.zb(extra));
    for (unsigned i = 0; i < s.syms.size(); ++i) if ((need[i >> 6] >> (i & 63)) & 1) if (s.syms[i].w <= 8 && s.dom[i].count() != (1U << s.syms[i].w)) Z3_solver_assert(P.ctx, sv, domZ(i, s.syms[i].w, s.dom[i]));
    auto r = Z3_solver_check(P.ctx, sv); ++S.queries; bool res = false;
    if (r == Z3_L_TRUE) {
        res = true; model = s.model; Z3_model m = Z3_solver_get_model(P.ctx, sv); Z3_model_inc_ref(P.ctx, m);
        for (unsigned i = 0; i < s.syms.size(); ++i) if ((need[i >> 6] >> (i & 63)) & 1) { Z3_ast v; if (Z3_model_eval(P.ctx, m, P.z(P.symbol(i, s.syms[i].w)), true, &v)) { uint64_t x = 0; Z3_get_numeral_uint64(P.ctx, v, &x); model[i] = x; } }
        Z3_model_dec_ref(P.ctx, m);
    } else if (r == Z3_L_UNDEF) { ++S.unknown; S.complete = false; S.incomplete = "solver gave up on a query"; }
    Z3_solver_dec_ref(P.ctx, sv); S.solver += now() - t;
    return res;
}

static Expr* under(State& s, Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
    if (e->k == CONST) return e;
    if (e->s1 >= 0) { Dom const& d = s.dom[e->s1]; bool first = true; u64 v = 0; for (int k = 0; k < 4; ++k) for (u64 b = d.b[k]; b; b &= b - 1) { u64 x = e->tab[k * 64 + __builtin_ctzll(b)]; if (first) { v = x; first = false; } else if (x != v) return e; } return P.konst(v, e->w); }
    if (e->k == SYM) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr* r = nullptr;
    if (e->w == 1) for (size_t i = s.facts.size(); i-- > 0;) if (s.facts[i].first == e) { r = P.konst(s.facts[i].second, 1); break; }
    if (!r) {
        Expr* a = under(s, e->a, memo);
        if (e->k == ITE && a->k == CONST) r = under(s, a->c ? e->b : e->x, memo);
        else {
            Expr* b = e->b ? under(s, e->b, memo) : nullptr; Expr* x = e->x ? under(s, e->x, memo) : nullptr;
            if (a == e->a && b == e->b && x == e->x) r = e;
            else r = e->k == EXTRACT ? P.extract(a, e->lo, e->w) : e->k == CONCAT ? P.concat(a, b) : P.mk(e->k, e->w, a, b, x);
        }
        if (r != e && r->w == 1 && r->k != CONST) for (size_t i = s.facts.size(); i-- > 0;) if (s.facts[i].first == r) { r = P.konst(s.facts[i].second, 1); break; }
    }
    memo[e] = r; return r;
}
static Expr* simp(State& s, Expr* e) { std::unordered_map<Expr*, Expr*> memo; return under(s, e, memo); }

/// adds a constraint already known to be satisfiable; the caller keeps s.model right
static void addC(State& s, Expr* c) {
    if (c->k == CONST) return;
    if (c->s1 >= 0) { Dom& d = s.dom[c->s1]; for (unsigned i = 0; i < 256; ++i) if (!c->tab[i]) d.b[i >> 6] &= ~(1ULL << (i & 63)); return; }
    if (c->k == AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
    s.facts.push_back({ c, true }); Expr* n = P.bnot(c); s.facts.push_back({ n, false });
    if (n->k == OR) { addC(s, P.bnot(n->a)); addC(s, P.bnot(n->b)); return; }
    s.multi.push_back(c); for (int k = 0; k < 4; ++k) s.inMulti[k] |= c->syms[k];
}
static bool entangled(State& s, int sym) { return (s.inMulti[sym >> 6] >> (sym & 63)) & 1; }
static u64 minSym(State&, Expr* e);

static void pushWork(StateP n) { n->st.back() = std::make_shared<Frame>(*n->st.back()); ++S.forks; n->depth++; work.push_back(std::move(n)); }

/// forks over the distinct values of a single-symbol expression; returns the value taken here
static u64 forkSingle(State& s, Expr* e) {
    int sym = e->s1; Dom d = s.dom[sym]; std::map<u64, Dom> groups;
    for (unsigned i = 0; i < 256; ++i) if (d.has(i)) { auto& g = groups.emplace(e->tab[i], Dom {}).first->second; g.b[i >> 6] |= 1ULL << (i & 63); }
    std::vector<u64> vals; for (auto& g : groups) vals.push_back(g.first);
    certify(s, sym, e, vals);
    struct Alt { u64 v; Dom d; std::vector<u64> model; }; std::vector<Alt> alts;
    u64 cur = e->tab[s.model[sym] & 255];
    for (auto& g : groups) {
        if (g.first == cur) { alts.insert(alts.begin(), Alt { g.first, g.second, s.model }); continue; }
        std::vector<u64> m;
        if (!entangled(s, sym)) { m = s.model; for (unsigned i = 0; i < 256; ++i) if (g.second.has(i)) { m[sym] = i; break; } }
        else if (!sat(s, P.mk(EQ, 1, e, P.konst(g.first, e->w)), m)) continue;
        alts.push_back({ g.first, g.second, std::move(m) });
    }
    for (size_t i = 1; i < alts.size(); ++i) { auto n = std::make_unique<State>(s); n->dom[sym] = alts[i].d; n->model = alts[i].model; pushWork(std::move(n)); }
    s.dom[sym] = alts[0].d; s.model = alts[0].model;
    return alts[0].v;
}
/// decides a one-bit value, forking when both outcomes are possible
static bool decide(State& s, Val const& v) {
    if (!v.e) return v.c & 1;
    Expr* e = simp(s, v.e);
    if (e->k == CONST) return e->c;
    if (e->s1 >= 0) return forkSingle(s, e) != 0;
    bool cur = P.eval(e, s.model); Expr* other = cur ? P.bnot(e) : e; std::vector<u64> m;
    if (sat(s, other, m)) { auto n = std::make_unique<State>(s); n->model = m; addC(*n, other); pushWork(std::move(n)); }
    addC(s, cur ? e : P.bnot(e));
    return cur;
}
static Expr* pickSingle(Expr* e, std::unordered_set<Expr*>& seen) {
    if (e->k == CONST) return nullptr; if (e->s1 >= 0) return e; if (!seen.insert(e).second) return nullptr;
    Expr* best = nullptr; for (Expr* o : { e->a, e->b, e->x }) if (o) { Expr* r = pickSingle(o, seen); if (r && (!best || r->s1 < best->s1)) best = r; } return best;
}
/// a concrete value for v, forking over all of them
static u64 concretize(State& s, Val const& v) {
    if (!v.e) return v.c;
    for (;;) {
        Expr* e = simp(s, v.e);
        if (e->k == CONST) return e->c;
        if (e->s1 >= 0) return forkSingle(s, e);
        std::unordered_set<Expr*> seen; Expr* p = pickSingle(e, seen);
        if (p) { forkSingle(s, p); continue; }
        // wide symbols: split off the value of the current model
        u64 cur = P.eval(e, s.model); Expr* eq = P.mk(EQ, 1, e, P.konst(cur, e->w)); std::vector<u64> m;
        if (sat(s, P.bnot(eq), m)) { auto n = std::make_unique<State>(s); n->model = m; addC(*n, P.bnot(eq)); pushWork(std::move(n)); }
        addC(s, eq); return cur;
    }
}

static std::string where(State& s) { std::string r; int n = 0; for (size_t i = s.st.size(); i-- > 0 && n < 6; ++n) r += (n ? " < " : "") + demangle(s.st[i]->fn->name).substr(0, 120); return r; }
static void record(State& s, std::string const& msg, std::vector<u64> const& m) {
    violSeen = true;
    for (auto& v : viols) if (v.msg == msg && v.entry == curEntry) { if ((int) viols.size() >= optMaxViol) return; break; }
    if ((int) viols.size() >= 64) return;
    int same = 0; for (auto& v : viols) same += v.msg == msg; if (same >= optMaxViol) return;
    Violation v; v.msg = msg; v.entry = curEntry; v.where = where(s);
    for (unsigned i = 0; i < s.syms.size(); ++i) v.vals.push_back({ s.syms[i].name, i < m.size() ? m[i] : 0 });
    viols.push_back(v);
    if (optTrace) { std::cerr << "violation: " << msg << " @ " << v.where << "\n"; for (auto& x : v.vals) std::cerr << "  " << x.first << "=" << x.second << "\n"; }
}
static void bad(State& s, std::string const& msg) { record(s, msg, s.model); }

// ------------------------------------------------------------------ memory access
static ObjP* find(State& s, u64 a, u64 n, u64& off) {
    u64 id = (a & (GLOB - 1)) >> SHIFT; off = a & ((1ULL << SHIFT) - 1); ObjP* p = nullptr;
    if ((a & REGION) == GLOB) p = s.globs.get(id); else if ((a & REGION) == HEAP) p = s.heap.get(id); else if ((a & REGION) == STACK) p = s.stack.get(id);
    if (a >> 47) p = nullptr;
    if (!p || off + n > (*p)->d.size()) return nullptr;
    return p;
}
static ObjP& objr(State& s, u64 a, u64 n, u64& off) { ObjP* p = find(s, a, n, off); if (!p) { char b[96]; snprintf(b, sizeof b, "invalid memory read of %llu bytes at 0x%llx", (unsigned long long) n, (unsigned long long) a); err(s, b); } return *p; }
static Obj& objw(State& s, u64 a, u64 n, u64& off) {
    ObjP* p = find(s, a, n, off); if (!p || (*p)->ro) { char b[96]; snprintf(b, sizeof b, "invalid memory write of %llu bytes at 0x%llx", (unsigned long long) n, (unsigned long long) a); err(s, b); }
    u64 id = (a & (GLOB - 1)) >> SHIFT; PVec& pv = (a & REGION) == GLOB ? s.globs : (a & REGION) == HEAP ? s.heap : s.stack;
    ObjP& o = pv.own(id); if (o.use_count() > 1) o = std::make_shared<Obj>(*o); return *o;
}
static u64 allocHeap(State& s, u64 n) { if (n >= (1ULL << SHIFT)) err(s, "allocation too large for the executor"); u64 id = s.heapNext++; auto o = std::make_shared<Obj>(); o->d.assign(n, 0xA5); s.heap.own(id) = o; return HEAP | (id << SHIFT); }
static u64 allocStack(State& s, u64 n) { if (n >= (1ULL << SHIFT)) err(s, "allocation too large for the executor"); u64 id = s.stackTop++; auto o = std::make_shared<Obj>(); o->d.assign(n, 0xA5); o->kind = 's'; s.stack.own(id) = o; return STACK | (id << SHIFT); }

static Val loadAt(State& s, u64 a, unsigned w) {
    unsigned n = (w + 7) / 8; u64 off; Obj& o = *objr(s, a, n, off);
    bool sym = false; if (!o.s.empty()) for (unsigned i = 0; i < n; ++i) sym |= o.s[off + i] != nullptr;
    if (!sym) { u64 v = 0; memcpy(&v, &o.d[off], n); return { v & maskw(w), nullptr }; }
    Expr* e = nullptr; for (unsigned i = 0; i < n; ++i) { Expr* b = o.s[off + i] ? o.s[off + i] : P.konst(o.d[off + i], 8); e = e ? P.concat(b, e) : b; }
    if (e->w > w) e = P.extract(e, 0, w);
    return mkv(e);
}
static void storeAt(State& s, u64 a, unsigned w, Val const& v) {
    unsigned n = (w + 7) / 8; u64 off; Obj& o = objw(s, a, n, off);
    if (!v.e) { u64 c = v.c & maskw(w); memcpy(&o.d[off], &c, n); if (!o.s.empty()) for (unsigned i = 0; i < n; ++i) o.s[off + i] = nullptr; return; }
    if (o.s.empty()) o.s.resize(o.d.size());
    Expr* e = v.e; if (e->w < n * 8) e = P.mk(ZEXT, n * 8, e);
    for (unsigned i = 0; i < n; ++i) { Expr* b = P.extract(e, i * 8, 8); if (b->k == CONST) { o.d[off + i] = (uint8_t) b->c; o.s[off + i] = nullptr; } else o.s[off + i] = b; }
}
/// address of an access; symbolic loads from concrete tables stay symbolic
static Val loadV(State& s, Val const& av, unsigned w) {
    if (!av.e) return loadAt(s, av.c, w);
    for (;;) {
        Expr* e = simp(s, av.e);
        if (e->k == CONST) return loadAt(s, e->c, w);
        if (e->s1 >= 0) {
            Dom const& d = s.dom[e->s1]; std::vector<u64> tab(256); bool ok = true; unsigned n = (w + 7) / 8; u64 last = 0; bool haveLast = false; Obj* lo = nullptr;
            for (unsigned i = 0; i < 256 && ok; ++i) if (d.has(i)) {
                u64 a = e->tab[i], off; ObjP* p = find(s, a, n, off); if (!p) { ok = false; break; }
                Obj& o = **p; if (haveLast && lo != &o) { ok = false; break; } lo = &o; haveLast = true; (void) last;
                if (!o.s.empty()) for (unsigned k = 0; k < n; ++k) if (o.s[off + k]) ok = false;
                u64 v = 0; memcpy(&v, &o.d[off], n); tab[i] = v & maskw(w);
            }
            if (ok) return mkv(P.lut(P.symbol((unsigned) e->s1, s.syms[e->s1].w), w, tab.data()));
            u64 a = forkSingle(s, e); return loadAt(s, a, w);
        }
        std::unordered_set<Expr*> seen; Expr* p = pickSingle(e, seen);
        if (!p) return loadAt(s, concretize(s, av), w);
        forkSingle(s, p);
    }
}
static void copyMem(State& s, u64 d, u64 a, u64 n) {
    if (!n) return; u64 so, dp; ObjP src = objr(s, a, n, so); Obj& o = objw(s, d, n, dp); // src kept alive (copy on write)
    Obj& f = *src;
    if (&f == &o) memmove(&o.d[dp], &f.d[so], n); else memcpy(&o.d[dp], &f.d[so], n);
    if (f.s.empty()) { if (!o.s.empty()) for (u64 i = 0; i < n; ++i) o.s[dp + i] = nullptr; }
    else { bool any = false; for (u64 i = 0; i < n && !any; ++i) any = f.s[so + i] != nullptr;
        if (any && o.s.empty()) o.s.resize(o.d.size());
        if (!o.s.empty()) memmove(&o.s[dp], &f.s[so], n * sizeof(Expr*)); }
}
static Val byteAt(State& s, u64 a) { return loadAt(s, a, 8); }

// ------------------------------------------------------------------ exceptions
static bool derives(State& s, u64 ti, u64 base) {
    if (ti == base) return true;
    u64 vt = loadAt(s, ti, 64).c; std::string k; for (auto& g : gname) if (vt >= g.first && vt < g.first + 64) { k = g.second; break; }
    if (k == "_ZTVN10__cxxabiv120__si_class_type_infoE") return derives(s, loadAt(s, ti + 16, 64).c, base);
    if (k == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { unsigned n = (unsigned) loadAt(s, ti + 20, 32).c; for (unsigned i = 0; i < n; ++i) if (derives(s, loadAt(s, ti + 24 + 16 * i, 64).c, base)) return true; }
    return false;
}
static Frame& top(State& s) { auto& f = s.st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
static void popFrame(State& s) {
    u64 keep = s.st.back()->stackTop; while (s.stackTop > keep) { --s.stackTop; s.stack.own(s.stackTop) = nullptr; } s.st.pop_back();
}
static void go(State& s, Frame& f, int edge) {
    Edge const& e = f.fn->edges[edge];
    if (!e.mv.empty()) {
        auto val = [&](int o) -> Val const& { return o >= 0 ? f.r[o] : f.fn->pool[~o]; };
        if (e.overlap) { std::vector<Val> t; t.reserve(e.mv.size()); for (auto& m : e.mv) t.push_back(val(m.second)); for (size_t i = 0; i < t.size(); ++i) f.r[e.mv[i].first] = t[i]; }
        else for (auto& m : e.mv) f.r[m.first] = val(m.second);
    }
    f.pc = e.target; (void) s;
}
static void unwind(State& s, u64 obj) {
    // called with the throwing frame on top; leaves control at a landing pad
    u64 ti = 0; for (auto& x : s.excs) if (x.obj == obj) ti = x.ti;
    for (;;) {
        if (s.st.size() <= 1) { bad(s, "uncaught exception " + demangle(gname.count(ti) ? gname[ti] : "?")); endPath(); }
        popFrame(s); // the callee (or throwing pseudo frame)
        Frame& f = top(s); Inst const& call = f.fn->code[f.pc];
        if (call.op != O_CALL || !call.invoke) continue;
        Edge const& e = f.fn->edges[call.edges[1]]; Inst const& lp = f.fn->code[e.target];
        if (lp.op != O_LANDING) fatal("landing pad expected");
        u64 sel = 0; bool hit = false;
        for (auto& c : lp.clauses) if (c.isCatch && (c.types[0] == 0 || derives(s, ti, c.types[0]))) { sel = c.types[0] ? c.types[0] : 1; hit = true; break; }
            else if (!c.isCatch) { bool m = false; for (u64 t : c.types) m |= derives(s, ti, t); if (!m) { sel = ~0ULL; hit = true; break; } }
        if (!hit && !lp.cleanup) continue;
        s.inflight = obj; go(s, f, call.edges[1]);
        // selectors are 32 bit: identify a type by the index of its object
        Inst const& pad = f.fn->code[f.pc]; f.r[pad.dst] = { obj, nullptr }; f.r[pad.dst + 1] = { hit ? ((sel >> SHIFT) & 0x7fffffff) : 0, nullptr };
        ++f.pc; return;
    }
}

// ------------------------------------------------------------------ execution
static void enter(State& s, FnInfo* fi, std::vector<Val> const& args) {
    decode(fi); if (!fi->ran) { fi->ran = true; ranFns.insert(fi->name); }
    if (s.st.size() > 3000) err(s, "stack overflow (recursion deeper than 3000 frames)");
    auto f = std::make_shared<Frame>(); f->fn = fi; f->r.resize(fi->nregs); f->stackTop = s.stackTop;
    size_t np = fi->varargs ? std::min(args.size(), fi->params.size()) : args.size();
    for (size_t i = 0; i < np && i < fi->nregs; ++i) f->r[i] = args[i];
    for (size_t i = np; i < args.size(); ++i) f->va.push_back(args[i]);
    s.st.push_back(std::move(f));
}
static void leave(State& s, std::vector<Val> const& rv) {
    popFrame(s); if (s.st.empty()) return;
    Frame& f = top(s); Inst const& c = f.fn->code[f.pc];
    for (unsigned i = 0; i < c.nd && i < rv.size(); ++i) f.r[c.dst + (int) i] = rv[i];
    if (c.invoke) go(s, f, c.edges[0]); else ++f.pc;
}
static Val bin(K k, unsigned w, Val const& a, Val const& b) {
    if (!a.e && !b.e) return { evalop(k, w, w, a.c & maskw(w), b.c & maskw(w), 0, 0, 0), nullptr };
    return mkv(P.mk(k, w, asExpr(a, w), asExpr(b, w)));
}
static Val cmpv(K k, unsigned w, Val const& a, Val const& b) {
    if (!a.e && !b.e) return { evalop(k, 1, w, a.c & maskw(w), b.c & maskw(w), 0, 0, 0), nullptr };
    return mkv(P.mk(k, 1, asExpr(a, w), asExpr(b, w)));
}
static Val notv(Val const& v) { return v.e ? mkv(P.bnot(v.e)) : Val { !(v.c & 1), nullptr }; }
static Val itev(Val const& c, unsigned w, Val const& a, Val const& b) { if (!c.e) return c.c & 1 ? a : b; return mkv(P.mk(ITE, w, c.e, asExpr(a, w), asExpr(b, w))); }
static std::string cstr(State& s, u64 a) { std::string r; for (;; ++a) { Val v = byteAt(s, a); if (v.e || !v.c) break; r += (char) v.c; if (r.size() > 300) break; } return r; }
static std::set<std::string> interned; static char const* intern(std::string const& x) { return interned.insert(x).first->c_str(); }
static void newSym(State& s, char const* name, unsigned w) { if (s.syms.size() >= 255) err(s, "too many symbolic values"); s.syms.push_back({ w, name }); Dom d; for (int i = 0; i < 4; ++i) d.b[i] = ~0ULL; if (w < 8) for (unsigned i = 1U << w; i < 256; ++i) d.b[i >> 6] &= ~(1ULL << (i & 63)); s.dom.push_back(d); s.model.push_back(0); S.maxSyms = std::max(S.maxSyms, (unsigned) s.syms.size()); }

static bool builtin(State& s, Frame& f, Inst const& I) {
    // returns true when the call completed (results stored), false when control moved
    std::vector<Val> a; for (size_t i = (I.callee || I.builtin >= 0) ? 0 : 1; i < I.ops.size(); ++i) a.push_back(I.ops[i] >= 0 ? f.r[I.ops[i]] : f.fn->pool[~I.ops[i]]);
    auto ret = [&](Val v) { if (I.dst >= 0) f.r[I.dst] = v; };
    auto C = [&](size_t i) { u64 v = concretize(s, a[i]); a[i] = { v, nullptr }; return v; };
    unsigned w = I.w2;
    switch (I.builtin) {
        case b_byte: { auto n = intern(cstr(s, C(0))); unsigned id = (unsigned) s.syms.size(); newSym(s, n, 8); ret(mkv(P.symbol(id, 8))); return true; }
        case b_bits: { auto n = intern(cstr(s, C(0))); unsigned ww = (unsigned) C(1); unsigned id = (unsigned) s.syms.size(); newSym(s, n, ww); ret(mkv(P.mk(ZEXT, 64, P.symbol(id, ww)))); return true; }
        case b_assume: {
            Val c = a[0]; if (c.e) c = notv(cmpv(EQ, 32, c, { 0, nullptr })); else c.c = c.c != 0;
            if (c.e) { Expr* e = simp(s, c.e); c = mkv(e); }
            if (!c.e) { if (!c.c) { ++S.assumeEnds; assumeEnd = true; endPath(); } return true; }
            if (c.e->s1 >= 0 && !entangled(s, c.e->s1)) {
                Dom d = s.dom[c.e->s1]; unsigned pick = 256; for (unsigned i = 0; i < 256; ++i) if (d.has(i) && c.e->tab[i]) { pick = i; break; }
                if (pick == 256) { ++S.assumeEnds; assumeEnd = true; endPath(); }
                if (!c.e->tab[s.model[c.e->s1] & 255]) s.model[c.e->s1] = pick;
                addC(s, c.e); return true;
            }
            if (!P.eval(c.e, s.model)) { std::vector<u64> m; if (!sat(s, c.e, m)) { ++S.assumeEnds; assumeEnd = true; endPath(); } s.model = m; }
            addC(s, c.e); return true; }
        case b_assert: {
            ++S.asserts; Val c = a[0]; std::string msg = cstr(s, C(1));
            if (c.e) c = notv(cmpv(EQ, 32, c, { 0, nullptr })); else c.c = c.c != 0;
            if (c.e) c = mkv(simp(s, c.e));
            if (!c.e) { if (!c.c) { record(s, msg, s.model); endPath(); } return true; }
            ++S.symasserts; std::vector<u64> m; Expr* neg = P.bnot(c.e);
            bool viol = false; if (P.eval(neg, s.model)) { viol = true; m = s.model; } else viol = sat(s, neg, m);
            if (viol) { record(s, msg, m); if (!P.eval(c.e, s.model)) { if (!sat(s, c.e, m)) endPath(); s.model = m; } }
            addC(s, c.e); return true; }
        case b_same: { // two texts of the same length are equal on this path: one obligation for the solver
            ++S.asserts; u64 p = C(0), q = C(1), n = C(2); std::string msg = cstr(s, C(3)); std::vector<Z3_ast> ors; SymSet need {}; Expr* dis = nullptr; bool differ = false;
            for (u64 i = 0; i < n; ++i) { Val x = byteAt(s, p + i), y = byteAt(s, q + i);
                if (!x.e && !y.e) { if (x.c != y.c) differ = true; continue; }
                Expr* ex = asExpr(x, 8); Expr* ey = asExpr(y, 8); for (auto* e : { ex, ey }) for (int k = 0; k < 4; ++k) need[k] |= e->syms[k];
                ors.push_back(Z3_mk_not(P.ctx, Z3_mk_eq(P.ctx, P.z(ex), P.z(ey)))); Expr* ne = P.bnot(P.mk(EQ, 1, ex, ey)); dis = dis ? P.mk(OR, 1, dis, ne) : ne; }
            if (differ) { record(s, msg, s.model); endPath(); }
            if (ors.empty()) return true;
            ++S.symasserts; double t0 = now(); Z3_solver sv = newSolver();
            for (auto* c : s.multi) Z3_solver_assert(P.ctx, sv, P.zb(c));
            for (unsigned i = 0; i < s.syms.size(); ++i) if (((need[i >> 6] >> (i & 63)) & 1) && s.syms[i].w <= 8 && s.dom[i].count() != (1U << s.syms[i].w)) Z3_solver_assert(P.ctx, sv, domZ(i, s.syms[i].w, s.dom[i]));
            Z3_solver_assert(P.ctx, sv, Z3_mk_or(P.ctx, (unsigned) ors.size(), ors.data())); auto r = Z3_solver_check(P.ctx, sv); Z3_solver_dec_ref(P.ctx, sv); ++S.queries; S.solver += now() - t0;
            if (r == Z3_L_UNDEF) { ++S.unknown; S.complete = false; S.incomplete = "solver gave up on a query"; return true; }
            if (r == Z3_L_FALSE) return true;
            std::vector<u64> m; Expr* d = simp(s, dis); if (d->k == CONST ? d->c != 0 : P.eval(d, s.model)) m = s.model; else if (!sat(s, d, m)) fatal("internal: inconsistent answers on a text comparison");
            record(s, msg, m); endPath(); }
        case b_reach: { std::string l = cstr(s, C(0)); reach[curEntry + ":" + l]++; s.trail.push_back(intern(l)); return true; }
        case b_fork: { u64 v = concretize(s, a[0]); ret({ v, nullptr }); return true; }
        case b_stop: endPath();
        case b_active: ret({ 1, nullptr }); return true;
        case b_print: { u64 p = C(0), n = C(1); if (optPrint) { std::string t; for (u64 i = 0; i < n; ++i) { Val v = byteAt(s, p + i); if (v.e) v.c = P.eval(v.e, s.model); t += (char) v.c; } std::cerr << "[print] " << t << "\n"; } return true; }
        case b_fail: err(s, cstr(s, C(0)));
        case b_malloc: { u64 n = C(0); if (n >= (1ULL << SHIFT)) err(s, "huge allocation"); ret({ allocHeap(s, n), nullptr }); return true; }
        case b_calloc: { u64 n = C(0) * C(1); u64 p = allocHeap(s, n); u64 o; auto& ob = objw(s, p, n, o); std::fill(ob.d.begin(), ob.d.end(), 0); ret({ p, nullptr }); return true; }
        case b_realloc: { u64 p = C(0), n = C(1); u64 q = allocHeap(s, n); if (p) { u64 o; u64 on = objr(s, p, 0, o)->d.size(); copyMem(s, q, p, std::min(n, on)); s.heap.own((p & (GLOB - 1)) >> SHIFT) = nullptr; } ret({ q, nullptr }); return true; }
        case b_free: { u64 p = C(0); if (!p) return true; u64 o; ObjP* q = find(s, p, 0, o); if (!q || o != 0 || (p & REGION) != HEAP) err(s, "invalid or double free"); s.heap.own((p & (GLOB - 1)) >> SHIFT) = nullptr; return true; }
        case b_memcpy: case b_memmove: { u64 d = C(0), q = C(1), n = C(2); copyMem(s, d, q, n); ret(a[0]); return true; }
        case b_memset: { u64 d = C(0), n = C(2); Val v = a[1]; if (n) { u64 o; Obj& ob = objw(s, d, n, o); if (!v.e) { memset(&ob.d[o], (int) (v.c & 255), n); if (!ob.s.empty()) for (u64 i = 0; i < n; ++i) ob.s[o + i] = nullptr; } else { Val b = mkv(P.extract(v.e, 0, 8)); for (u64 i = 0; i < n; ++i) storeAt(s, d + i, 8, b); } } ret(a[0]); return true; }
        case b_memcmp: { u64 p = C(0), q = C(1), n = C(2); Val r { 0, nullptr };
            for (u64 i = n; i-- > 0;) { Val x = byteAt(s, p + i), y = byteAt(s, q + i); Val d = !x.e && !y.e ? Val { x.c < y.c ? 0xffffffffULL : 1, nullptr } : itev(cmpv(ULT, 8, x, y), 32, { 0xffffffffULL, nullptr }, { 1, nullptr }); r = itev(cmpv(EQ, 8, x, y), 32, r, d); }
            ret(r); return true; }
        case b_strlen: { u64 p = C(0), n = 0; for (;; ++n) { Val v = byteAt(s, p + n); if (decide(s, cmpv(EQ, 8, v, { 0, nullptr }))) break; } ret({ n, nullptr }); return true; }
        case b_memchr: { u64 p = C(0), n = C(2); Val c = a[1].e ? mkv(P.extract(a[1].e, 0, 8)) : Val { a[1].c & 255, nullptr }; for (u64 i = 0; i < n; ++i) if (decide(s, cmpv(EQ, 8, byteAt(s, p + i), c))) { ret({ p + i, nullptr }); return true; } ret({ 0, nullptr }); return true; }
        case b_abort: err(s, "abort() called");
        case b_assertfail: err(s, "assertion failed: " + cstr(s, C(0)));
        case b_exit: err(s, "exit() called");
        case b_trap: err(s, "trap (undefined behaviour)");
        case b_pure: err(s, "pure virtual call");
        case b_atexit: case b_zero: ret({ 0, nullptr }); return true;
        case b_nop: return true;
        case b_guardacq: { u64 p = C(0); Val v = byteAt(s, p); ret({ v.c & 1 ? 0ULL : 1ULL, nullptr }); return true; }
        case b_guardrel: storeAt(s, C(0), 8, { 1, nullptr }); return true;
        case b_calloc_exc: { u64 p = allocHeap(s, C(0)); s.excs.push_back({ p, 0, 0 }); ret({ p, nullptr }); return true; }
        case b_throw: { u64 p = C(0), ti = C(1); for (auto& x : s.excs) if (x.obj == p) x.ti = ti; auto fr = std::make_shared<Frame>(); fr->fn = f.fn; fr->stackTop = s.stackTop; s.st.push_back(fr); unwind(s, p); return false; }
        case b_rethrow: { if (s.caught.empty()) err(s, "rethrow without exception"); u64 p = s.caught.back(); auto fr = std::make_shared<Frame>(); fr->fn = f.fn; fr->stackTop = s.stackTop; s.st.push_back(fr); unwind(s, p); return false; }
        case b_begincatch: { u64 p = C(0); s.caught.push_back(p); ret({ p, nullptr }); return true; }
        case b_endcatch: if (!s.caught.empty()) s.caught.pop_back(); return true;
        case b_freeexc: return true;
        case b_typeid: { u64 t = C(0); ret({ (t >> SHIFT) & 0x7fffffff, nullptr }); return true; }
        case b_umax: ret(itev(cmpv(ULT, w, a[0], a[1]), w, a[1], a[0])); return true;
        case b_umin: ret(itev(cmpv(ULT, w, a[0], a[1]), w, a[0], a[1])); return true;
        case b_smax: ret(itev(cmpv(SLT, w, a[0], a[1]), w, a[1], a[0])); return true;
        case b_smin: ret(itev(cmpv(SLT, w, a[0], a[1]), w, a[0], a[1])); return true;
        case b_uaddo: { Val r = bin(ADD, w, a[0], a[1]); f.r[I.dst] = r; f.r[I.dst + 1] = cmpv(ULT, w, r, a[0]); return true; }
        case b_usubo: f.r[I.dst] = bin(SUB, w, a[0], a[1]); f.r[I.dst + 1] = cmpv(ULT, w, a[0], a[1]); return true;
        case b_umulo: { Val r = bin(MUL, w, a[0], a[1]); f.r[I.dst + 1] = !a[0].e && !a[1].e ? Val { evalop(UMULO, 1, w, a[0].c, a[1].c, 0, 0, 0), nullptr } : mkv(P.mk(UMULO, 1, asExpr(a[0], w), asExpr(a[1], w))); f.r[I.dst] = r; return true; }
        case b_saddo: { Val r = bin(ADD, w, a[0], a[1]); Val z { 0, nullptr }; f.r[I.dst] = r; f.r[I.dst + 1] = cmpv(SLT, w, bin(AND, w, bin(XOR, w, r, a[0]), bin(XOR, w, r, a[1])), z); return true; }
        case b_ssubo: { Val r = bin(SUB, w, a[0], a[1]); Val z { 0, nullptr }; f.r[I.dst] = r; f.r[I.dst + 1] = cmpv(SLT, w, bin(AND, w, bin(XOR, w, a[0], a[1]), bin(XOR, w, r, a[0])), z); return true; }
        case b_smulo: { __int128 p = (__int128) sx(C(0), w) * sx(C(1), w); f.r[I.dst] = { (u64) p & maskw(w), nullptr }; f.r[I.dst + 1] = { p != (__int128) sx((u64) p & maskw(w), w), nullptr }; return true; }
        case b_usubsat: ret(itev(cmpv(ULT, w, a[0], a[1]), w, { 0, nullptr }, bin(SUB, w, a[0], a[1]))); return true;
        case b_uaddsat: { Val r = bin(ADD, w, a[0], a[1]); ret(itev(cmpv(ULT, w, r, a[0]), w, { maskw(w), nullptr }, r)); return true; }
        case b_ctlz: { u64 v = C(0) & maskw(w); ret({ v ? (u64) __builtin_clzll(v) - (64 - w) : w, nullptr }); return true; }
        case b_cttz: { u64 v = C(0) & maskw(w); ret({ v ? (u64) __builtin_ctzll(v) : w, nullptr }); return true; }
        case b_ctpop: ret({ (u64) __builtin_popcountll(C(0)), nullptr }); return true;
        case b_abs: { Val z { 0, nullptr }; ret(itev(cmpv(SLT, w, a[0], z), w, bin(SUB, w, z, a[0]), a[0])); return true; }
        case b_bswap: { u64 v = __builtin_bswap64(C(0)) >> (64 - w); ret({ v, nullptr }); return true; }
        case b_fshl: { u64 n = C(2) % w; if (!n) ret(a[0]); else ret(bin(OR, w, bin(SHL, w, a[0], { n, nullptr }), bin(LSHR, w, a[1], { w - n, nullptr }))); return true; }
        case b_fshr: { u64 n = C(2) % w; if (!n) ret(a[1]); else ret(bin(OR, w, bin(SHL, w, a[0], { w - n, nullptr }), bin(LSHR, w, a[1], { n, nullptr }))); return true; }
        case b_first: ret(a[0]); return true;
        case b_vastart: { // every variable argument is in the overflow area of the SysV va_list
            u64 p = C(0); std::vector<Val> v = f.va; u64 q = allocHeap(s, 8 * v.size() + 8); for (size_t i = 0; i < v.size(); ++i) storeAt(s, q + 8 * i, v[i].e ? v[i].e->w : 64, v[i]);
            storeAt(s, p, 32, { 48, nullptr }); storeAt(s, p + 4, 32, { 176, nullptr }); storeAt(s, p + 8, 64, { q, nullptr }); storeAt(s, p + 16, 64, { 0, nullptr }); return true; }
        case b_ceil: case b_floor: { u64 c = C(0); if (w == 32) { uint32_t u = (uint32_t) c; float x; memcpy(&x, &u, 4); x = I.builtin == b_ceil ? std::ceil(x) : std::floor(x); memcpy(&u, &x, 4); c = u; } else { double x; memcpy(&x, &c, 8); x = I.builtin == b_ceil ? std::ceil(x) : std::floor(x); memcpy(&c, &x, 8); } ret({ c, nullptr }); return true; }
        case b_vacopy: copyMem(s, C(0), C(1), 24); return true;
        case b_isconst: ret({ 0, nullptr }); return true;
        case b_objsize: ret({ ~0ULL, nullptr }); return true;
        default: fatal("builtin");
    }
}

static void run(State& s) {
    for (;;) {
        if (s.st.empty()) return;
        Frame& f = top(s); Inst const& I = f.fn->code[f.pc];
        if (++s.steps > optMaxSteps) { bad(s, "does not terminate within the step bound"); endPath(); }
        ++S.steps;
        if ((S.steps & 0xfffff) == 0 && now() - tStart > optTime) { S.complete = false; S.incomplete = "time budget"; endPath(); }
        auto V = [&](int i) -> Val const& { int o = I.ops[(size_t) i]; return o >= 0 ? f.r[o] : f.fn->pool[~o]; };
        switch (I.op) {
            case O_BIN: {
                Val const &a = V(0), &b = V(1); K k = (K) I.sub;
                if (k >= UDIV && k <= SREM) { Val z = cmpv(EQ, I.w, b, { 0, nullptr }); if (z.e || z.c) { if (decide(s, z)) err(s, "division by zero"); } }
                f.r[I.dst] = bin(k, I.w, a, b); ++f.pc; break; }
            case O_CMP: {
                Val const &a = V(0), &b = V(1); Val r; unsigned w = I.w2;
                switch (I.sub) {
                    case CmpInst::ICMP_EQ: r = cmpv(EQ, w, a, b); break; case CmpInst::ICMP_NE: r = notv(cmpv(EQ, w, a, b)); break;
                    case CmpInst::ICMP_ULT: r = cmpv(ULT, w, a, b); break; case CmpInst::ICMP_ULE: r = cmpv(ULE, w, a, b); break; case CmpInst::ICMP_UGT: r = cmpv(ULT, w, b, a); break; case CmpInst::ICMP_UGE: r = cmpv(ULE, w, b, a); break;
                    case CmpInst::ICMP_SLT: r = cmpv(SLT, w, a, b); break; case CmpInst::ICMP_SLE: r = cmpv(SLE, w, a, b); break; case CmpInst::ICMP_SGT: r = cmpv(SLT, w, b, a); break; default: r = cmpv(SLE, w, b, a); break;
                }
                f.r[I.dst] = r; ++f.pc; break; }
            case O_LOAD: {
                if (I.leaves.size() == 1 && I.leaves[0].w <= 64) f.r[I.dst] = loadV(s, V(0), I.leaves[0].w);
                else { u64 a = concretize(s, V(0)); for (size_t i = 0; i < I.leaves.size(); ++i) { if (I.leaves[i].w > 64) err(s, "unsupported load width"); f.r[I.dst + (int) i] = loadAt(s, a + I.leaves[i].off, I.leaves[i].w); } }
                ++f.pc; break; }
            case O_STORE: { u64 a = concretize(s, V(0)); for (size_t i = 0; i < I.leaves.size(); ++i) { if (I.leaves[i].w > 64) err(s, "unsupported store width"); storeAt(s, a + I.leaves[i].off, I.leaves[i].w, V((int) i + 1)); } ++f.pc; break; }
            case O_GEP: {
                Val r = V(0); if (I.imm) r = bin(ADD, 64, r, { I.imm, nullptr });
                for (size_t i = 0; i < I.gep.size(); ++i) { int o = I.gep[i].first; Val ix = o >= 0 ? f.r[o] : f.fn->pool[~o]; unsigned w = (unsigned) I.cases[i]; if (w < 64) ix = ix.e ? mkv(P.mk(SEXT, 64, ix.e)) : Val { (u64) sx(ix.c, w), nullptr }; r = bin(ADD, 64, r, bin(MUL, 64, ix, { I.gep[i].second, nullptr })); }
                f.r[I.dst] = r; ++f.pc; break; }
            case O_BR: go(s, f, I.edges[0]); break;
            case O_CBR: { bool c = decide(s, V(0)); go(s, f, I.edges[c ? 0 : 1]); break; }
            case O_SWITCH: {
                Val v = V(0); if (v.e) v = mkv(simp(s, v.e));
                if (v.e && v.e->s1 >= 0) { // group values by destination
                    u64 tab[256]; for (int i = 0; i < 256; ++i) { tab[i] = 0; for (size_t k = 0; k < I.cases.size(); ++k) if (I.cases[k] == v.e->tab[i]) { tab[i] = k + 1; break; } if (tab[i]) { auto t = f.fn->edges[I.edges[tab[i]]].target; for (u64 k = 0; k < tab[i]; ++k) if (f.fn->edges[I.edges[k]].target == t && f.fn->edges[I.edges[k]].mv.empty()) { tab[i] = k; break; } } }
                    Expr* sel = P.lut(P.symbol((unsigned) v.e->s1, s.syms[v.e->s1].w), 16, tab); u64 k = concretize(s, mkv(sel)); go(s, f, I.edges[k]); break;
                }
                if (v.e) { // multi-symbol: ask case by case
                    size_t k = 0; bool done = false;
                    for (; k < I.cases.size() && !done; ++k) if (decide(s, cmpv(EQ, I.w2, v, { I.cases[k], nullptr }))) { go(s, f, I.edges[k + 1]); done = true; }
                    if (!done) go(s, f, I.edges[0]);
                    break;
                }
                size_t k = 0; for (; k < I.cases.size(); ++k) if (I.cases[k] == v.c) break; go(s, f, I.edges[k < I.cases.size() ? k + 1 : 0]); break; }
            case O_RET: { std::vector<Val> rv; for (size_t i = 0; i < I.ops.size(); ++i) rv.push_back(V((int) i)); leave(s, rv); break; }
            case O_SELECT: {
                Val c = V(0); size_t n = I.leaves.size(); if (c.e) c = mkv(simp(s, c.e));
                for (size_t i = 0; i < n; ++i) f.r[I.dst + (int) i] = itev(c, I.leaves[i].w, V(1 + (int) i), V(1 + (int) (n + i)));
                ++f.pc; break; }
            case O_CAST: {
                Val a = V(0);
                switch (I.sub) {
                    case Instruction::Trunc: a = a.e ? mkv(P.extract(a.e, 0, I.w)) : Val { a.c & maskw(I.w), nullptr }; break;
                    case Instruction::ZExt: if (a.e) a = mkv(P.mk(ZEXT, I.w, a.e)); break;
                    case Instruction::SExt: a = a.e ? mkv(P.mk(SEXT, I.w, a.e)) : Val { (u64) sx(a.c, I.w2) & maskw(I.w), nullptr }; break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: if (I.w < I.w2) a = a.e ? mkv(P.extract(a.e, 0, I.w)) : Val { a.c & maskw(I.w), nullptr }; else if (I.w > I.w2 && a.e) a = mkv(P.mk(ZEXT, I.w, a.e)); break;
                    case Instruction::BitCast: case Instruction::AddrSpaceCast: break;
                    case Instruction::UIToFP: case Instruction::SIToFP: { u64 c = concretize(s, a); double d = I.sub == Instruction::UIToFP ? (double) c : (double) sx(c, I.w2); if (I.w == 32) { float x = (float) d; uint32_t b; memcpy(&b, &x, 4); a = { b, nullptr }; } else { u64 b; memcpy(&b, &d, 8); a = { b, nullptr }; } break; }
                    case Instruction::FPExt: { u64 c = concretize(s, a); uint32_t b = (uint32_t) c; float x; memcpy(&x, &b, 4); double d = x; u64 r; memcpy(&r, &d, 8); a = { r, nullptr }; break; }
                    case Instruction::FPTrunc: { u64 c = concretize(s, a); double d; memcpy(&d, &c, 8); float x = (float) d; uint32_t b; memcpy(&b, &x, 4); a = { b, nullptr }; break; }
                    case Instruction::FPToUI: case Instruction::FPToSI: { u64 c = concretize(s, a); double d; if (I.w2 == 32) { uint32_t b = (uint32_t) c; float x; memcpy(&x, &b, 4); d = x; } else memcpy(&d, &c, 8); a = { (I.sub == Instruction::FPToUI ? (u64) d : (u64) (int64_t) d) & maskw(I.w), nullptr }; break; }
                    default: err(s, "unsupported cast");
                }
                f.r[I.dst] = a; ++f.pc; break; }
            case O_FBIN: case O_FCMP: {
                u64 a = concretize(s, V(0)), b = concretize(s, V(1)); unsigned w = I.op == O_FCMP ? I.w2 : I.w; double x, y;
                if (w == 32) { float p, q; uint32_t u = (uint32_t) a, v = (uint32_t) b; memcpy(&p, &u, 4); memcpy(&q, &v, 4); x = p; y = q; } else { memcpy(&x, &a, 8); memcpy(&y, &b, 8); }
                if (I.op == O_FCMP) { bool un = x != x || y != y, r = false; unsigned p = I.sub; if (un) r = (p & 8) != 0; else r = x == y ? (p & 1) != 0 : x > y ? (p & 2) != 0 : (p & 4) != 0; f.r[I.dst] = { r, nullptr }; }
                else { double r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : x / y; if (w == 32) { float g = (float) r; uint32_t u; memcpy(&u, &g, 4); f.r[I.dst] = { u, nullptr }; } else { u64 u; memcpy(&u, &r, 8); f.r[I.dst] = { u, nullptr }; } }
                ++f.pc; break; }
            case O_ALLOCA: { u64 n = concretize(s, V(0)) * I.imm; f.r[I.dst] = { allocStack(s, n), nullptr }; ++f.pc; break; }
            case O_EXTRACTV: case O_FREEZE: { if (I.nd == 1) f.r[I.dst] = V(0); else { std::vector<Val> t; for (unsigned i = 0; i < I.nd; ++i) t.push_back(V((int) i)); for (unsigned i = 0; i < I.nd; ++i) f.r[I.dst + (int) i] = t[i]; } ++f.pc; break; }
            case O_INSERTV: { for (unsigned i = 0; i < I.nd; ++i) f.r[I.dst + (int) i] = V((int) i); ++f.pc; break; }
            case O_UNREACH: err(s, "unreachable code reached (undefined behaviour)");
            case O_RESUME: { u64 o = concretize(s, V(0)); unwind(s, o); break; }
            case O_LANDING: fatal("landingpad executed");
            case O_RMW: {
                u64 a = concretize(s, V(0)); Val o = loadAt(s, a, I.w), v = V(1), n;
                switch (I.sub) { case AtomicRMWInst::Add: n = bin(ADD, I.w, o, v); break; case AtomicRMWInst::Sub: n = bin(SUB, I.w, o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = bin(AND, I.w, o, v); break; case AtomicRMWInst::Or: n = bin(OR, I.w, o, v); break; default: err(s, "unsupported atomic"); }
                storeAt(s, a, I.w, n); f.r[I.dst] = o; ++f.pc; break; }
            case O_CMPXCHG: { u64 a = concretize(s, V(0)); Val o = loadAt(s, a, I.w2); bool eq = decide(s, cmpv(EQ, I.w2, o, V(1))); if (eq) storeAt(s, a, I.w2, V(2)); f.r[I.dst] = o; f.r[I.dst + 1] = { eq, nullptr }; ++f.pc; break; }
            case O_NOP: ++f.pc; break;
            case O_CALL: {
                if (I.builtin >= 0) { if (builtin(s, f, I)) { if (I.invoke) go(s, f, I.edges[0]); else ++f.pc; } break; }
                Function* cf = I.callee; size_t first = 0;
                if (!cf) { u64 a = concretize(s, V(0)); first = 1; auto it = fnByAddr.find(a); if (it == fnByAddr.end()) err(s, "call through an invalid function pointer"); cf = it->second;
                    auto b = builtins.find(cf->getName().str()); if (b != builtins.end()) { Inst J = I; J.builtin = b->second; J.ops.erase(J.ops.begin()); if (builtin(s, f, J)) { if (I.invoke) go(s, f, I.edges[0]); else ++f.pc; } break; } }
                if (cf->isDeclaration()) err(s, "call to unmodelled external function " + cf->getName().str());
                FnInfo* fi = info(cf); std::vector<Val> args; size_t o = first;
                u64 savedTop = s.stackTop; (void) savedTop;
                for (size_t k = 0; k < I.argn.size(); ++k) { if (I.byval[k]) { u64 a = concretize(s, V((int) o)); u64 c = allocStack(s, I.byval[k]); copyMem(s, c, a, I.byval[k]); args.push_back({ c, nullptr }); ++o; } else for (unsigned j = 0; j < I.argn[k]; ++j) args.push_back(V((int) o++)); }
                enter(s, fi, args); break; }
            case O_BAD: default: { std::string t; raw_string_ostream os(t); I.llvm->print(os); S.complete = false; S.incomplete = "unsupported instruction: " + t.substr(0, 200); std::cerr << "symx: unsupported instruction " << t << "\n"; endPath(); }
        }
    }
}

// ------------------------------------------------------------------ driver
static void setupGlobals() {
    u64 fa = 0x1000; for (auto& f : *M) { gaddr[&f] = fa; fnAddr[&f] = fa; fnByAddr[fa] = &f; fa += 16; }
    u64 id = 1; std::vector<std::pair<GlobalVariable*, u64>> gs;
    for (auto& g : M->globals()) { u64 a = GLOB | (id << SHIFT); gaddr[&g] = a; gname[a] = g.getName().str(); gs.push_back({ &g, id }); ++id; }
    for (auto& p : gs) {
        auto* g = p.first; auto o = std::make_shared<Obj>(); o->kind = 'g'; u64 n = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()) : 8;
        if (g->isDeclaration()) n = std::max<u64>(n, 128);
        o->d.assign(n, 0);
        if (g->hasInitializer()) initMem(g->getInitializer(), o->d.data());
        if (g->getName() == "__libc_single_threaded") o->d[0] = 1;
        o->ro = g->isConstant(); init0.globs.own(p.second) = o;
    }
}
static void explore(std::deque<StateP>& w, bool bfs, size_t stopAt) {
    std::swap(work, w);
    while (!work.empty()) {
        if (bfs && work.size() >= stopAt) break;
        if (now() - tStart > optTime) { S.complete = false; S.incomplete = "time budget"; work.clear(); break; }
        if (S.paths >= optMaxPaths) { S.complete = false; S.incomplete = "path budget"; work.clear(); break; }
        StateP s; if (bfs) { s = std::move(work.front()); work.pop_front(); } else { s = std::move(work.back()); work.pop_back(); }
        assumeEnd = violSeen = false; bool bad0 = !S.complete;
        try { run(*s); } catch (PathEnd&) {}
        if (!assumeEnd && !violSeen && bad0 == !S.complete) { int n = 0; for (auto& x : samples) n += x.entry == curEntry; if (n < optSamples && (S.paths & (S.paths - 1)) == 0) {
            Sample m; m.entry = curEntry; for (unsigned i = 0; i < s->syms.size(); ++i) m.vals.push_back({ s->syms[i].name, s->model[i] }); for (auto* l : s->trail) m.trail += std::string(l) + ";"; samples.push_back(m); } }
        ++S.paths; S.maxSteps = std::max(S.maxSteps, s->steps);
    }
    if (!bfs) flushCerts();
    std::swap(work, w);
}
static std::string esc(std::string const& x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char) c; } return r; }
static std::string dump() {
    std::ostringstream o; o << "S " << S.paths << ' ' << S.forks << ' ' << S.steps << ' ' << S.queries << ' ' << S.certified << ' ' << S.unknown << ' ' << S.asserts << ' ' << S.symasserts << ' ' << S.assumeEnds << ' ' << S.solver << ' ' << S.complete << ' ' << S.maxSyms << ' ' << S.maxSteps << '\n';
    if (!S.complete) o << "I " << esc(S.incomplete) << '\n';
    for (auto& m : samples) { o << "M " << m.entry << '\t' << esc(m.trail); for (auto& x : m.vals) o << '\t' << x.first << '=' << x.second; o << '\n'; }
    for (auto& r : reach) o << "R " << r.second << ' ' << r.first << '\n';
    for (auto& f : ranFns) o << "F " << f << '\n';
    for (auto& v : viols) { o << "V " << v.entry << '\t' << esc(v.msg) << '\t' << esc(v.where); for (auto& x : v.vals) o << '\t' << x.first << '=' << x.second; o << '\n'; }
    return o.str();
}
static void merge(std::string const& t) {
    std::istringstream in(t); std::string l;
    while (std::getline(in, l)) {
        std::istringstream a(l.substr(2));
        if (l[0] == 'S') { Stats x; a >> x.paths >> x.forks >> x.steps >> x.queries >> x.certified >> x.unknown >> x.asserts >> x.symasserts >> x.assumeEnds >> x.solver >> x.complete >> x.maxSyms >> x.maxSteps; S.paths += x.paths; S.forks += x.forks; S.steps += x.steps; S.queries += x.queries; S.certified += x.certified; S.unknown += x.unknown; S.asserts += x.asserts; S.symasserts += x.symasserts; S.assumeEnds += x.assumeEnds; S.solver += x.solver; S.complete &= x.complete; S.maxSyms = std::max(S.maxSyms, x.maxSyms); S.maxSteps = std::max(S.maxSteps, x.maxSteps); }
        else if (l[0] == 'I') S.incomplete = l.substr(2);
        else if (l[0] == 'R') { u64 n; a >> n; std::string k; std::getline(a, k); reach[k.substr(1)] += n; }
        else if (l[0] == 'M') { Sample m; std::string x; std::getline(a, m.entry, '\t'); std::getline(a, m.trail, '\t'); while (std::getline(a, x, '\t')) { auto p = x.rfind('='); m.vals.push_back({ x.substr(0, p), strtoull(x.c_str() + p + 1, nullptr, 10) }); } int n = 0; for (auto& y : samples) n += y.entry == m.entry; if (n < optSamples) samples.push_back(m); }
        else if (l[0] == 'F') ranFns.insert(l.substr(2));
        else if (l[0] == 'V') { Violation v; std::string x; std::getline(a, v.entry, '\t'); std::getline(a, v.msg, '\t'); std::getline(a, v.where, '\t'); while (std::getline(a, x, '\t')) { auto p = x.rfind('='); v.vals.push_back({ x.substr(0, p), strtoull(x.c_str() + p + 1, nullptr, 10) }); } int same = 0; for (auto& y : viols) same += y.msg == v.msg && y.entry == v.entry; if (same < optMaxViol) viols.push_back(v); }
    }
}

int main(int argc, char** argv) {
    rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (2ULL << 30) && !getenv("SYMX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ULL << 30) : rl.rlim_max; if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); } }
    std::string bc, out; std::vector<std::string> entries;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-j") optJobs = atoi(argv[++i]); else if (a == "-t") optTime = atof(argv[++i]); else if (a == "-o") out = argv[++i]; else if (a == "-v") optTrace = true; else if (a == "-p") optPrint = true; else if (a == "--max-steps") optMaxSteps = strtoull(argv[++i], nullptr, 10); else if (a == "--max-paths") optMaxPaths = strtoull(argv[++i], nullptr, 10); else if (a == "--query-ms") optQueryMs = (unsigned) atoi(argv[++i]); else if (a == "--samples") optSamples = atoi(argv[++i]); else if (a == "--max-viol") optMaxViol = atoi(argv[++i]);
        else if (bc.empty()) bc = a; else entries.push_back(a);
    }
    tStart = now();
    Z3_config cfg = Z3_mk_config(); P.ctx = Z3_mk_context(cfg);
    LLVMContext ctx; SMDiagnostic d; M = parseIRFile(bc, d, ctx); if (!M) { d.print("symx", errs()); return 2; } DL = &M->getDataLayout();
    if (auto e = M->materializeAll()) { errs() << toString(std::move(e)); return 2; }
    setupGlobals();
    // static constructors
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs; for (auto& o : arr->operands()) if (auto* st = dyn_cast<ConstantStruct>(o)) if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f });
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        curEntry = "static-init";
        for (auto& c : cs) { enter(init0, info(c.second), {}); try { run(init0); } catch (PathEnd&) { fatal("static constructor failed"); } }
    }
    for (auto& e : entries) {
        Function* f = M->getFunction("symx_entry_" + e); if (!f) fatal("no entry " + e);
        curEntry = e; std::deque<StateP> w; auto s = std::make_unique<State>(init0); enter(*s, info(f), {}); w.push_back(std::move(s));
        if (optJobs <= 1) { explore(w, false, 0); continue; }
        explore(w, true, (size_t) optJobs * 24); flushCerts();
        if (w.empty()) continue;
        // hand the frontier to forked workers in small groups
        std::vector<StateP> fr; while (!w.empty()) { fr.push_back(std::move(w.front())); w.pop_front(); }
        size_t groups = std::min<size_t>(fr.size(), (size_t) optJobs * 8), next = 0; struct Job { pid_t pid; int fd; std::string buf; }; std::vector<Job> jobs;
        while (next < groups || !jobs.empty()) {
            while (next < groups && jobs.size() < (size_t) optJobs) {
                int fd[2]; if (pipe(fd)) fatal("pipe"); fflush(nullptr); pid_t p = fork();
                if (p == 0) {
                    close(fd[0]); S = Stats {}; reach.clear(); ranFns.clear(); viols.clear(); samples.clear(); for (auto& x : fns) x.second->ran = false;
                    std::deque<StateP> mine; for (size_t i = next; i < fr.size(); i += groups) mine.push_back(std::move(fr[i]));
                    explore(mine, false, 0); std::string t = dump(); size_t o = 0; while (o < t.size()) { ssize_t n = write(fd[1], t.data() + o, t.size() - o); if (n <= 0) break; o += (size_t) n; } _exit(0);
                }
                close(fd[1]); jobs.push_back({ p, fd[0], "" }); ++next;
            }
            fd_set rs; FD_ZERO(&rs); int mx = 0; for (auto& j : jobs) { FD_SET(j.fd, &rs); mx = std::max(mx, j.fd); } select(mx + 1, &rs, nullptr, nullptr, nullptr);
            for (size_t i = 0; i < jobs.size();) { auto& j = jobs[i]; if (FD_ISSET(j.fd, &rs)) { char b[65536]; ssize_t n = read(j.fd, b, sizeof b); if (n > 0) { j.buf.append(b, (size_t) n); ++i; continue; } close(j.fd); int st; waitpid(j.pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { S.complete = false; S.incomplete = "a worker process died"; } merge(j.buf); jobs.erase(jobs.begin() + (long) i); } else ++i; }
        }
    }
    flushCerts();
    std::ostringstream o; o << "{\"paths\":" << S.paths << ",\"forks\":" << S.forks << ",\"instructions\":" << S.steps << ",\"queries\":" << S.queries << ",\"certified\":" << S.certified << ",\"unknown\":" << S.unknown << ",\"asserts\":" << S.asserts << ",\"symbolic_asserts\":" << S.symasserts << ",\"assume_ends\":" << S.assumeEnds << ",\"solver_s\":" << S.solver << ",\"wall_s\":" << now() - tStart << ",\"max_symbols\":" << S.maxSyms << ",\"max_path_steps\":" << S.maxSteps << ",\"complete\":" << (S.complete ? "true" : "false") << ",\"incomplete\":\"" << esc(S.incomplete) << "\",\"reach\":{";
    bool first = true; for (auto& r : reach) { o << (first ? "" : ",") << "\"" << esc(r.first) << "\":" << r.second; first = false; }
    o << "},\"functions\":["; first = true; for (auto& r : ranFns) { o << (first ? "" : ",") << "\"" << esc(demangle(r)) << "\""; first = false; }
    o << "],\"samples\":["; first = true;
    for (auto& m : samples) { o << (first ? "" : ",") << "{\"entry\":\"" << m.entry << "\",\"trail\":\"" << esc(m.trail) << "\",\"values\":["; bool f2 = true; for (auto& x : m.vals) { o << (f2 ? "" : ",") << "[\"" << esc(x.first) << "\"," << x.second << "]"; f2 = false; } o << "]}"; first = false; }
    o << "],\"violations\":["; first = true;
    for (auto& v : viols) { o << (first ? "" : ",") << "{\"entry\":\"" << v.entry << "\",\"message\":\"" << esc(v.msg) << "\",\"where\":\"" << esc(v.where) << "\",\"values\":["; bool f2 = true; for (auto& x : v.vals) { o << (f2 ? "" : ",") << "[\"" << esc(x.first) << "\"," << x.second << "]"; f2 = false; } o << "]}"; first = false; }
    o << "]}\n";
    if (out.empty()) std::cout << o.str(); else { std::ofstream of(out); of << o.str(); }
    std::cout.flush(); _exit(0);
}
