// rfsym: bounded symbolic executor for C++ programs in LLVM-16 IR (threads, exceptions, heap checking).
//   rfsym prep OUT.bc HARNESS.bc SUPPORT.bc LIB.bc...   link, inline+simplify (O1 scalar passes), keep entries h_*
//   rfsym run  PREP.bc --entry h_x --out R.json [options]
//   rfsym instr PREP.bc OUT.bc --sites FILE --entry h_x [--asan|--tsan]
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include "llvm/Analysis/TargetLibraryInfo.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Linker/Linker.h>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <cstring>
#include <unistd.h>
#include <array>
#include <fstream>
#include <sstream>
#include <algorithm>
using namespace llvm;
ExprPool X;
static Solver* SV; static Evaluator EV;
static std::unique_ptr<Module> M; static const DataLayout* DL;

[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "rfsym: error: %s\n", s.c_str()); exit(3); }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

// ---------------------------------------------------------------- values / code
struct Val { uint64_t c; E e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : X.konst(w, v.c); }
static inline Val fromE(E e) { return isC(e) ? Val{e->c, nullptr} : Val{0, e}; }

enum Opc : uint8_t { I_BIN, I_FBIN, I_CMP, I_FCMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH,
	I_CMPXCHG, I_RMW, I_FENCE, I_LPAD, I_RESUME, I_FPCAST, I_FNEG };
struct Op { uint8_t kind; uint32_t reg; uint64_t c; }; // 0 const 1 reg 2 tls(reg=index, c=offset)
struct Comp { uint32_t off; uint8_t w; };
struct Edge { uint32_t pc; std::vector<std::pair<uint32_t, Op>> copies; bool simple = true; };
struct Func;
struct CallInfo { Func* f = nullptr; std::vector<Op> args; std::vector<uint8_t> argw; Op target{}; bool indirect = false; bool invoke = false; uint32_t normalEdge = 0, unwindEdge = 0; uint32_t nret = 0; bool nounwind = false; };
struct LPad { bool cleanup; std::vector<std::pair<int, const GlobalVariable*>> clauses; /*kind 0 catch,1 filter(empty)*/ };
struct Ins { Opc op; uint8_t sub; uint8_t w; uint8_t w2; uint8_t atomic; uint8_t n; uint32_t dst; Op a, b, c; uint32_t x; uint32_t site; const Instruction* I; };
struct Func {
	const Function* F; std::string name; bool compiled = false; int intr = 0; uint64_t addr = 0;
	std::vector<Ins> code; std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<LPad> lpads;
	struct Sw { unsigned w; std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; }; std::vector<Sw> sws;
	std::vector<std::vector<std::pair<Op, uint64_t>>> geps; std::vector<uint8_t> gepw_; std::vector<std::vector<uint8_t>> gepw;
	std::vector<std::vector<Comp>> comps; std::vector<uint32_t> argreg; uint32_t nreg = 0; std::vector<uint8_t> hit;
};
static std::unordered_map<const Function*, Func*> FM; static std::vector<Func*> FV; // index by (addr-FBASE)/16
static const uint64_t FBASE = 1 << 16;
static std::unordered_map<const GlobalValue*, uint64_t> GA; static std::unordered_map<const GlobalVariable*, uint32_t> TLSI; static std::vector<const GlobalVariable*> TLSV;
static std::unordered_map<const Instruction*, uint32_t> SITE; static std::vector<const Instruction*> SITEV;
static std::unordered_map<const GlobalVariable*, uint32_t> TYPEID;
static uint32_t typeId(const GlobalVariable* g) { if (!g) return 1; auto it = TYPEID.find(g); if (it != TYPEID.end()) return it->second; uint32_t k = 2 + TYPEID.size(); return TYPEID[g] = k; }

static void flatten(Type* T, uint64_t off, std::vector<Comp>& out) {
	if (auto* S = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); ++i) flatten(S->getElementType(i), off + L->getElementOffset(i), out); return; }
	if (auto* A = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * sz, out); return; }
	if (auto* V = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeStoreSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); ++i) flatten(V->getElementType(), off + i * sz, out); return; }
	uint64_t w = DL->getTypeSizeInBits(T).getFixedValue(); if (w > 64) { std::string s; raw_string_ostream o(s); T->print(o); die("unsupported wide type " + s); }
	out.push_back(Comp{(uint32_t)off, (uint8_t)w});
}
static unsigned ncomp(Type* T) { if (T->isVoidTy()) return 0; std::vector<Comp> c; flatten(T, 0, c); return c.size(); }
static unsigned widthOf(Type* T) { return (unsigned)DL->getTypeSizeInBits(T).getFixedValue(); }

static uint64_t fnAddr(const Function* F);
// constant evaluation; tls: index+1 when relative to a thread-local base
static uint64_t evalC(const Constant* C, int* tls = nullptr) {
	if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) die("wide const"); return ci->getZExtValue(); }
	if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
	if (auto* cf = dyn_cast<ConstantFP>(C)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
	if (auto* f = dyn_cast<Function>(C)) return fnAddr(f);
	if (auto* a = dyn_cast<GlobalAlias>(C)) return evalC(a->getAliasee(), tls);
	if (auto* g = dyn_cast<GlobalVariable>(C)) { if (g->isThreadLocal()) { if (!tls) die("tls constant in unsupported position"); *tls = TLSI.at(g) + 1; return 0; } auto it = GA.find(g); if (it == GA.end()) die("no address for " + g->getName().str()); return it->second; }
	if (auto* ce = dyn_cast<ConstantExpr>(C)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("const gep"); return evalC(ce->getOperand(0), tls) + off.getSExtValue(); }
		case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return evalC(ce->getOperand(0), tls);
		case Instruction::Add: return evalC(ce->getOperand(0)) + evalC(ce->getOperand(1));
		case Instruction::Sub: return evalC(ce->getOperand(0)) - evalC(ce->getOperand(1));
		case Instruction::Trunc: return evalC(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
		case Instruction::ZExt: return evalC(ce->getOperand(0));
		case Instruction::And: return evalC(ce->getOperand(0)) & evalC(ce->getOperand(1));
		case Instruction::ICmp: { uint64_t a = evalC(ce->getOperand(0)), b = evalC(ce->getOperand(1)); auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; break; }
		case Instruction::Select: return evalC(ce->getOperand(0)) ? evalC(ce->getOperand(1)) : evalC(ce->getOperand(2));
		}
	}
	std::string s; raw_string_ostream o(s); C->print(o); die("unsupported constant " + s);
}
static void flatC(const Constant* C, std::vector<uint64_t>& out, std::vector<int>* tls = nullptr) {
	Type* T = C->getType();
	if (T->isAggregateType() || T->isVectorTy()) { unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
		for (unsigned i = 0; i < n; ++i) flatC(C->getAggregateElement(i), out, tls); return; }
	int t = 0; out.push_back(evalC(C, &t)); if (tls) tls->push_back(t);
}

// intrinsics known to the engine
enum Intr { N_NONE = 0, N_NOP, N_NEW, N_NEWA, N_MALLOC, N_DEL, N_DELA, N_FREE, N_MEMCPY, N_MEMSET, N_SYM, N_ASSUME, N_CHECK, N_LOG, N_REACH, N_SPAWN, N_JOIN, N_LEAKB, N_LEAKE, N_BYTES, N_CONCRETE, N_PARAM, N_TID,
	N_UNWIND, N_MLOCK, N_MUNLOCK, N_MTRY, N_YIELD, N_ASSERT, N_ABORT, N_TERMINATE, N_OVF, N_MINMAX, N_TYPEID, N_TRAP, N_TLSADDR, N_RET0, N_ABS, N_CTPOP, N_CLZ, N_CTZ, N_BSWAP, N_FSH, N_USAT, N_IDENT, N_SELF, N_FAIL, N_EVSTEP, N_NTHR, N_PAUSE, N_POINT, N_LIVE, N_OBJSIZE, N_ISCONST, N_FAULT };
static int intrOf(StringRef n) {
	static std::map<std::string, int> m = {
		{"_Znwm", N_NEW}, {"_Znam", N_NEWA}, {"_ZnwmSt11align_val_t", N_NEW}, {"_ZnamSt11align_val_t", N_NEWA}, {"_ZnwmRKSt9nothrow_t", N_NEW}, {"_ZnamRKSt9nothrow_t", N_NEWA}, {"malloc", N_MALLOC}, {"_ZdlPv", N_DEL}, {"_ZdlPvm", N_DEL}, {"_ZdlPvSt11align_val_t", N_DEL}, {"_ZdlPvmSt11align_val_t", N_DEL}, {"_ZdlPvRKSt9nothrow_t", N_DEL},
		{"_ZdaPv", N_DELA}, {"_ZdaPvm", N_DELA}, {"free", N_FREE}, {"memcpy", N_MEMCPY}, {"memmove", N_MEMCPY}, {"memset", N_MEMSET},
		{"rf_sym", N_SYM}, {"rf_assume", N_ASSUME}, {"rf_check", N_CHECK}, {"rf_log", N_LOG}, {"rf_reach", N_REACH}, {"rf_spawn", N_SPAWN}, {"rf_join", N_JOIN}, {"rf_leak_begin", N_LEAKB}, {"rf_leak_end", N_LEAKE}, {"rf_concrete", N_CONCRETE}, {"rf_param", N_PARAM}, {"rf_tid", N_TID}, {"rf_fail", N_FAIL}, {"rf_point", N_POINT}, {"rf_is_live", N_LIVE}, {"rf_live_bytes", N_BYTES},
		{"rf_unwind", N_UNWIND}, {"pthread_mutex_lock", N_MLOCK}, {"pthread_mutex_unlock", N_MUNLOCK}, {"pthread_mutex_trylock", N_MTRY}, {"sched_yield", N_YIELD}, {"nanosleep", N_YIELD}, {"clock_nanosleep", N_YIELD}, {"__assert_fail", N_ASSERT}, {"abort", N_ABORT}, {"_ZSt9terminatev", N_TERMINATE}, {"__cxa_pure_virtual", N_ABORT}, {"exit", N_ABORT}, {"pthread_self", N_SELF},
		{"__cxa_atexit", N_RET0}, {"__cxa_thread_atexit", N_RET0} };
	auto it = m.find(n.str()); if (it != m.end()) return it->second;
	auto sw = [&](const char* p) { return n.startswith(p); };
	if (!sw("llvm.")) return 0;
	if (sw("llvm.memcpy") || sw("llvm.memmove")) return N_MEMCPY; if (sw("llvm.memset")) return N_MEMSET;
	if (sw("llvm.umul.with") || sw("llvm.smul.with") || sw("llvm.uadd.with") || sw("llvm.sadd.with") || sw("llvm.usub.with") || sw("llvm.ssub.with")) return N_OVF;
	if (sw("llvm.smax") || sw("llvm.smin") || sw("llvm.umax") || sw("llvm.umin")) return N_MINMAX;
	if (sw("llvm.eh.typeid.for")) return N_TYPEID; if (sw("llvm.trap") || sw("llvm.ubsantrap")) return N_TRAP; if (sw("llvm.threadlocal.address")) return N_TLSADDR;
	if (sw("llvm.lifetime") || sw("llvm.dbg") || sw("llvm.assume") || sw("llvm.experimental.noalias") || sw("llvm.stackrestore") || sw("llvm.invariant") || sw("llvm.prefetch") || sw("llvm.donothing")) return N_NOP;
	if (sw("llvm.abs")) return N_ABS; if (sw("llvm.ctpop")) return N_CTPOP; if (sw("llvm.ctlz")) return N_CLZ; if (sw("llvm.cttz")) return N_CTZ; if (sw("llvm.bswap")) return N_BSWAP; if (sw("llvm.fsh")) return N_FSH; if (sw("llvm.usub.sat")) return N_USAT;
	if (sw("llvm.expect") || sw("llvm.launder") || sw("llvm.strip") || sw("llvm.ptrmask_")) return N_IDENT; if (sw("llvm.stacksave")) return N_RET0; if (sw("llvm.x86.sse2.pause")) return N_PAUSE; if (sw("llvm.objectsize")) return N_OBJSIZE; if (sw("llvm.is.constant")) return N_RET0;
	return 0;
}
static Func* getFunc(const Function* F) {
	auto it = FM.find(F); if (it != FM.end()) return it->second;
	Func* f = new Func; f->F = F; f->name = F->getName().str(); f->addr = FBASE + 16 * FV.size(); FV.push_back(f); FM[F] = f;
	if (F->isDeclaration() || F->getName().startswith("rf_unwind")) f->intr = intrOf(F->getName());
	return f;
}
static uint64_t fnAddr(const Function* F) { return getFunc(F)->addr; }

struct Compiler {
	Func* f; std::unordered_map<const Value*, uint32_t> reg; std::unordered_map<const BasicBlock*, uint32_t> bpc;
	uint32_t alloc(const Value* v) { uint32_t r = f->nreg; f->nreg += std::max(1u, ncomp(v->getType())); reg[v] = r; return r; }
	Op opnd(const Value* v, unsigned k = 0) {
		if (auto* C = dyn_cast<Constant>(v)) {
			if (C->getType()->isAggregateType() || C->getType()->isVectorTy()) { std::vector<uint64_t> o; std::vector<int> t; flatC(C, o, &t); if (t[k]) return Op{2, (uint32_t)t[k] - 1, o[k]}; return Op{0, 0, o[k]}; }
			int tls = 0; uint64_t c = evalC(C, &tls); if (tls) return Op{2, (uint32_t)tls - 1, c};
			unsigned w = widthOf(C->getType()); return Op{0, 0, c & maskw(w)};
		}
		auto it = reg.find(v); if (it == reg.end()) { if (isa<MetadataAsValue>(v)) return Op{0, 0, 0}; std::string s; raw_string_ostream o(s); v->print(o); die("no reg for " + s + " in " + f->name); }
		return Op{1, it->second + k, 0};
	}
	uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
		Edge e; e.pc = ~0u;
		for (auto& I : *to) { auto* P = dyn_cast<PHINode>(&I); if (!P) break; unsigned n = ncomp(P->getType()); const Value* v = P->getIncomingValueForBlock(from); for (unsigned k = 0; k < n; ++k) e.copies.push_back({reg.at(P) + k, opnd(v, k)}); }
		std::set<uint32_t> d; for (auto& c : e.copies) { if (c.second.kind == 1 && d.count(c.second.reg)) e.simple = false; d.insert(c.first); }
		f->edges.push_back(e); pend.push_back({(uint32_t)f->edges.size() - 1, to}); return f->edges.size() - 1;
	}
	std::vector<std::pair<uint32_t, const BasicBlock*>> pend;
	void run(Func* ff) {
		f = ff; const Function* F = f->F; f->compiled = true;
		for (auto& A : F->args()) { uint32_t r = alloc(&A); unsigned n = ncomp(A.getType()); for (unsigned k = 0; k < n; ++k) f->argreg.push_back(r + k); }
		for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I);
		for (auto& B : *F) { bpc[&B] = f->code.size(); for (auto& I : B) one(I); }
		for (auto& p : pend) f->edges[p.first].pc = bpc.at(p.second);
		f->hit.assign(f->code.size(), 0);
	}
	void one(const Instruction& I) {
		if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) return;
		Ins i{}; i.I = &I; i.dst = I.getType()->isVoidTy() ? ~0u : reg.at(&I); auto sit = SITE.find(&I); i.site = sit == SITE.end() ? 0 : sit->second;
		unsigned n = I.getType()->isVoidTy() ? 0 : ncomp(I.getType());
		Type* T = I.getType();
		auto scalarW = [&](Type* t) { return (uint8_t)widthOf(t->getScalarType()); };
		auto emit = [&] { f->code.push_back(i); };
		switch (I.getOpcode()) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
			static const std::map<unsigned, XOp> mp = {{Instruction::Add, XADD}, {Instruction::Sub, XSUB}, {Instruction::Mul, XMUL}, {Instruction::UDiv, XUDIV}, {Instruction::SDiv, XSDIV}, {Instruction::URem, XUREM}, {Instruction::SRem, XSREM}, {Instruction::And, XAND}, {Instruction::Or, XOR_}, {Instruction::Xor, XXOR}, {Instruction::Shl, XSHL}, {Instruction::LShr, XLSHR}, {Instruction::AShr, XASHR}};
			i.op = I_BIN; i.sub = mp.at(I.getOpcode()); i.w = scalarW(T); for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = opnd(I.getOperand(0), k); i.b = opnd(I.getOperand(1), k); emit(); } return; }
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: i.op = I_FBIN; i.sub = I.getOpcode() - Instruction::FAdd; i.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3; i.w = scalarW(T); i.a = opnd(I.getOperand(0)); i.b = opnd(I.getOperand(1)); emit(); return;
		case Instruction::FNeg: i.op = I_FNEG; i.w = scalarW(T); i.a = opnd(I.getOperand(0)); emit(); return;
		case Instruction::ICmp: { i.op = I_CMP; i.sub = cast<ICmpInst>(I).getPredicate(); i.w = scalarW(I.getOperand(0)->getType()); for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = opnd(I.getOperand(0), k); i.b = opnd(I.getOperand(1), k); emit(); } return; }
		case Instruction::FCmp: i.op = I_FCMP; i.sub = cast<FCmpInst>(I).getPredicate(); i.w = scalarW(I.getOperand(0)->getType()); i.a = opnd(I.getOperand(0)); i.b = opnd(I.getOperand(1)); emit(); return;
		case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: i.op = I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC; i.w = scalarW(T); i.w2 = scalarW(I.getOperand(0)->getType()); for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = opnd(I.getOperand(0), k); emit(); } return;
		case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned wi = scalarW(I.getOperand(0)->getType()), wo = scalarW(T); i.op = wi > wo ? I_TRUNC : wi < wo ? I_ZEXT : I_COPY; i.n = 1; i.w = wo; i.w2 = wi; i.a = opnd(I.getOperand(0)); emit(); return; }
		case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
			if (n != ncomp(I.getOperand(0)->getType())) die("bitcast vector reshape in " + f->name);
			i.op = I_COPY; i.n = 1; for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = opnd(I.getOperand(0), k); emit(); } return;
		case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: i.op = I_FPCAST; i.sub = I.getOpcode() == Instruction::UIToFP ? 0 : I.getOpcode() == Instruction::SIToFP ? 1 : I.getOpcode() == Instruction::FPToUI ? 2 : I.getOpcode() == Instruction::FPToSI ? 3 : 4; i.w = scalarW(T); i.w2 = scalarW(I.getOperand(0)->getType()); i.a = opnd(I.getOperand(0)); emit(); return;
		case Instruction::Select: { bool vc = I.getOperand(0)->getType()->isVectorTy(); std::vector<Comp> cs; flatten(T, 0, cs); i.op = I_SELECT; for (unsigned k = 0; k < n; ++k) { i.w = cs[k].w; i.dst = reg.at(&I) + k; i.a = opnd(I.getOperand(0), vc ? k : 0); i.b = opnd(I.getOperand(1), k); i.c = opnd(I.getOperand(2), k); emit(); } return; }
		case Instruction::Load: { auto& L = cast<LoadInst>(I); i.op = I_LOAD; i.a = opnd(L.getPointerOperand()); std::vector<Comp> cs; flatten(T, 0, cs); i.x = f->comps.size(); i.n = cs.size(); i.w = cs.size() == 1 ? cs[0].w : 0; f->comps.push_back(cs); i.atomic = L.isAtomic() ? 1 + (int)L.getOrdering() : 0; emit(); return; }
		case Instruction::Store: { auto& S = cast<StoreInst>(I); i.op = I_STORE; i.a = opnd(S.getPointerOperand()); std::vector<Comp> cs; flatten(S.getValueOperand()->getType(), 0, cs); i.x = f->comps.size(); i.n = cs.size(); i.atomic = S.isAtomic() ? 1 + (int)S.getOrdering() : 0; f->comps.push_back(cs);
			if (cs.size() == 1) { i.b = opnd(S.getValueOperand()); i.w = cs[0].w; emit(); }
			else { if (i.atomic) die("atomic aggregate store"); for (unsigned k = 0; k < cs.size(); ++k) { Ins j = i; j.n = 1; j.b = opnd(S.getValueOperand(), k); j.w = cs[k].w; j.c = Op{0, 0, cs[k].off}; f->code.push_back(j); } }
			return; }
		case Instruction::GetElementPtr: { auto& G = cast<GetElementPtrInst>(I); if (T->isVectorTy()) die("vector gep"); i.op = I_GEP; i.a = opnd(G.getPointerOperand()); std::vector<std::pair<Op, uint64_t>> t; std::vector<uint8_t> ws; uint64_t off = 0;
			for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { const Value* idx = it.getOperand();
				if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
				uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += (uint64_t)ci->getSExtValue() * sz; continue; }
				t.push_back({opnd(idx), sz}); ws.push_back(widthOf(idx->getType())); }
			i.c = Op{0, 0, off}; i.x = f->geps.size(); i.n = t.size(); f->geps.push_back(t); f->gepw.push_back(ws); emit(); return; }
		case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); i.op = I_ALLOCA; i.a = opnd(A.getArraySize()); i.c = Op{0, 0, DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue()}; emit(); return; }
		case Instruction::Br: { auto& B = cast<BranchInst>(I); if (B.isUnconditional()) { i.op = I_BR; i.x = edge(I.getParent(), B.getSuccessor(0)); } else { i.op = I_CBR; i.a = opnd(B.getCondition()); i.x = edge(I.getParent(), B.getSuccessor(0)); i.dst = edge(I.getParent(), B.getSuccessor(1)); } emit(); return; }
		case Instruction::Switch: { auto& S = cast<SwitchInst>(I); i.op = I_SWITCH; i.a = opnd(S.getCondition()); Func::Sw sw; sw.w = widthOf(S.getCondition()->getType()); std::map<const BasicBlock*, uint32_t> em; auto ed = [&](const BasicBlock* b) { auto it = em.find(b); if (it != em.end()) return it->second; return em[b] = edge(I.getParent(), b); }; for (auto& c : S.cases()) sw.cases.push_back({c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor())}); sw.def = ed(S.getDefaultDest()); i.x = f->sws.size(); f->sws.push_back(sw); emit(); return; }
		case Instruction::Ret: { i.op = I_RET; auto* v = cast<ReturnInst>(I).getReturnValue(); i.n = v ? ncomp(v->getType()) : 0; if (v) { i.x = f->geps.size(); std::vector<std::pair<Op, uint64_t>> t; for (unsigned k = 0; k < i.n; ++k) t.push_back({opnd(v, k), 0}); f->geps.push_back(t); f->gepw.push_back({}); } emit(); return; }
		case Instruction::Unreachable: i.op = I_UNREACH; emit(); return;
		case Instruction::Fence: i.op = I_FENCE; emit(); return;
		case Instruction::ExtractValue: { auto& EVI = cast<ExtractValueInst>(I); unsigned base = aggOff(EVI.getAggregateOperand()->getType(), EVI.getIndices()); i.op = I_COPY; i.n = 1; for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = opnd(EVI.getAggregateOperand(), base + k); emit(); } return; }
		case Instruction::InsertValue: { auto& IV = cast<InsertValueInst>(I); unsigned base = aggOff(IV.getAggregateOperand()->getType(), IV.getIndices()), m = ncomp(IV.getInsertedValueOperand()->getType()); i.op = I_COPY; i.n = 1; for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = (k >= base && k < base + m) ? opnd(IV.getInsertedValueOperand(), k - base) : opnd(IV.getAggregateOperand(), k); emit(); } return; }
		case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) die("extractelement var"); i.op = I_COPY; i.a = opnd(I.getOperand(0), ci->getZExtValue()); emit(); return; }
		case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) die("insertelement var"); i.op = I_COPY; for (unsigned k = 0; k < n; ++k) { i.dst = reg.at(&I) + k; i.a = k == ci->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), k); emit(); } return; }
		case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(I); unsigned m = ncomp(I.getOperand(0)->getType()); i.op = I_COPY; for (unsigned k = 0; k < n; ++k) { int s = S.getMaskValue(k); i.dst = reg.at(&I) + k; i.a = s < 0 ? Op{0, 0, 0} : (unsigned)s < m ? opnd(I.getOperand(0), s) : opnd(I.getOperand(1), s - m); emit(); } return; }
		case Instruction::AtomicCmpXchg: { auto& C = cast<AtomicCmpXchgInst>(I); i.op = I_CMPXCHG; i.a = opnd(C.getPointerOperand()); i.b = opnd(C.getCompareOperand()); i.c = opnd(C.getNewValOperand()); i.w = widthOf(C.getCompareOperand()->getType()); i.atomic = 1 + (int)C.getSuccessOrdering(); i.sub = 1 + (int)C.getFailureOrdering(); emit(); return; }
		case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); i.op = I_RMW; i.sub = R.getOperation(); i.a = opnd(R.getPointerOperand()); i.b = opnd(R.getValOperand()); i.w = widthOf(T); i.atomic = 1 + (int)R.getOrdering(); emit(); return; }
		case Instruction::LandingPad: { auto& L = cast<LandingPadInst>(I); i.op = I_LPAD; LPad lp; lp.cleanup = L.isCleanup(); for (unsigned k = 0; k < L.getNumClauses(); ++k) { if (L.isCatch(k)) lp.clauses.push_back({0, dyn_cast<GlobalVariable>(L.getClause(k)->stripPointerCasts())}); else lp.clauses.push_back({1, nullptr}); } i.x = f->lpads.size(); f->lpads.push_back(lp); emit(); return; }
		case Instruction::Resume: i.op = I_RESUME; i.a = opnd(I.getOperand(0), 0); emit(); return;
		case Instruction::Call: case Instruction::Invoke: {
			auto& C = cast<CallBase>(I); i.op = I_CALL; CallInfo ci; ci.invoke = isa<InvokeInst>(I); ci.nret = n; ci.nounwind = C.doesNotThrow();
			if (C.isInlineAsm()) { if (cast<InlineAsm>(C.getCalledOperand())->getAsmString().empty() && !n) return; die("inline asm in " + f->name); }
			unsigned pad = 0; const Value* cv = C.getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
			if (auto* cf = dyn_cast<Function>(cv)) { if (!ci.invoke && cf->isIntrinsic() && intrOf(cf->getName()) == N_NOP) return; if (cf->isVarArg()) { StringRef nm = cf->getName(); const Function* rf = nm == "sprintf" ? cf->getParent()->getFunction("rf_sprintf") : nm == "snprintf" ? cf->getParent()->getFunction("rf_snprintf") : nullptr; if (rf && C.arg_size() <= rf->arg_size()) { cf = rf; pad = rf->arg_size(); } } ci.f = getFunc(cf); }
			else { ci.indirect = true; ci.target = opnd(cv); }
			for (auto& A : C.args()) { const Value* v = A.get(); if (v->getType()->isMetadataTy()) { ci.args.push_back(Op{0, 0, 0}); ci.argw.push_back(64); continue; } std::vector<Comp> cs; flatten(v->getType(), 0, cs); for (unsigned k = 0; k < cs.size(); ++k) { ci.args.push_back(opnd(v, k)); ci.argw.push_back(cs[k].w); } }
			while (ci.args.size() < pad) { ci.args.push_back(Op{0, 0, 0}); ci.argw.push_back(64); }
			if (ci.invoke) { auto& V = cast<InvokeInst>(I); ci.normalEdge = edge(I.getParent(), V.getNormalDest()); ci.unwindEdge = edge(I.getParent(), V.getUnwindDest()); }
			i.x = f->calls.size(); f->calls.push_back(ci); emit(); return; }
		default: { std::string s; raw_string_ostream o(s); I.print(o); die("unsupported instruction: " + s); }
		}
	}
	unsigned aggOff(Type* T, ArrayRef<unsigned> idx) { unsigned r = 0; for (unsigned i : idx) { if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) r += ncomp(S->getElementType(k)); T = S->getElementType(i); } else { auto* A = cast<ArrayType>(T); r += i * ncomp(A->getElementType()); T = A->getElementType(); } } return r; }
};

// ---------------------------------------------------------------- memory
static const int MAXT = 5; // threads (0..4); region 6 = globals
struct Cell { uint32_t wclk, wsite; uint8_t wt; uint32_t rclk[MAXT], rsite[MAXT]; };
struct AccRec { uint8_t t; bool w; uint32_t sj, site; };
struct VC { uint32_t c[MAXT]; };
struct Shadow { std::vector<Cell> cells; std::map<uint32_t, VC> sync; std::map<uint32_t, std::vector<AccRec>> at; };
struct SB { E e; uint8_t i; };
struct Obj { int rc = 1; uint32_t size; uint8_t kind; bool ro = false; bool hv = false; uint32_t seq = 0; const Instruction* where = nullptr; std::vector<uint8_t> d; std::vector<SB> s; std::shared_ptr<Shadow> sh; uint64_t h = 0; };
enum { K_GLOBAL, K_STACK, K_NEW, K_NEWA, K_MALLOC, K_TLS };
static inline uint64_t mix64(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
struct Chunk { int rc = 1; bool hv = false; uint64_t h = 0; Obj* o[32] = {}; };
static void relObj(Obj* o) { if (o && --o->rc == 0) delete o; }
static void relChunk(Chunk* c) { if (c && --c->rc == 0) { for (auto* o : c->o) relObj(o); delete c; } }
struct Mem {
	std::vector<Chunk*> reg[7]; uint32_t cnt[7] = {1, 0, 0, 0, 0, 0, 0};
	Mem() {} Mem(const Mem& m) { for (int i = 0; i < 7; ++i) { reg[i] = m.reg[i]; cnt[i] = m.cnt[i]; for (auto* c : reg[i]) if (c) ++c->rc; } }
	~Mem() { for (auto& r : reg) for (auto* c : r) relChunk(c); }
	Obj* get(uint64_t id) { unsigned r = id >> 20; if (r >= 7) return nullptr; uint32_t k = id & 0xFFFFF; if ((k >> 5) >= reg[r].size()) return nullptr; Chunk* c = reg[r][k >> 5]; return c ? c->o[k & 31] : nullptr; }
	Obj*& slot(uint64_t id) { unsigned r = id >> 20; uint32_t k = id & 0xFFFFF; auto& v = reg[r]; if ((k >> 5) >= v.size()) v.resize((k >> 5) + 1, nullptr); Chunk*& c = v[k >> 5]; if (!c) c = new Chunk; else if (c->rc > 1) { Chunk* n = new Chunk; for (int i = 0; i < 32; ++i) { n->o[i] = c->o[i]; if (n->o[i]) ++n->o[i]->rc; } --c->rc; c = n; } c->hv = false; return c->o[k & 31]; }
	Obj* own(uint64_t id) { Obj*& o = slot(id); if (o->rc > 1) { --o->rc; o = new Obj(*o); o->rc = 1; } o->hv = false; return o; }
	uint64_t alloc(unsigned region, uint32_t size, uint8_t kind, const Instruction* where, uint8_t fill) { uint64_t id = ((uint64_t)region << 20) | cnt[region]++; if (cnt[region] >= (1u << 20)) die("too many objects"); Obj*& o = slot(id); o = new Obj; o->size = size; o->kind = kind; o->where = where; o->d.assign(size, fill); return id << 24; }
	uint64_t hash() { uint64_t H = 0; for (int r = 0; r < 6; ++r) for (size_t i = 0; i < reg[r].size(); ++i) { Chunk* c = reg[r][i]; if (!c) continue; if (!c->hv) { uint64_t h = 7; for (int k = 0; k < 32; ++k) if (Obj* o = c->o[k]) { if (!o->hv) { uint64_t x = o->size; size_t n = o->d.size(), j = 0; for (; j + 8 <= n; j += 8) { uint64_t u; memcpy(&u, &o->d[j], 8); x = mix64(x, u); } for (; j < n; ++j) x = mix64(x, o->d[j]); for (size_t q = 0; q < o->s.size(); ++q) if (o->s[q].e) x = mix64(x, ((uint64_t)o->s[q].e->id << 16) ^ (q << 40) ^ o->s[q].i); o->h = x; o->hv = true; } h = mix64(h, o->h + k); } c->h = h; c->hv = true; } H = mix64(H, c->h + ((uint64_t)r << 32) + i); }
		// globals region
		for (size_t i = 0; i < reg[6].size(); ++i) { Chunk* c = reg[6][i]; if (!c) continue; if (!c->hv) { uint64_t h = 7; for (int k = 0; k < 32; ++k) if (Obj* o = c->o[k]) { if (!o->hv) { uint64_t x = o->size; for (auto b : o->d) x = mix64(x, b); for (size_t q = 0; q < o->s.size(); ++q) if (o->s[q].e) x = mix64(x, ((uint64_t)o->s[q].e->id << 16) ^ (q << 40) ^ o->s[q].i); o->h = x; o->hv = true; } h = mix64(h, o->h + k); } c->h = h; c->hv = true; } H = mix64(H, c->h + (6ull << 32) + i); }
		return H; }
};
// ---------------------------------------------------------------- state
struct Frame { int rc = 1; Func* f; uint32_t pc = 0; const CallInfo* call = nullptr; uint32_t dst = ~0u; uint32_t extra = 0; std::vector<Val> r; std::vector<uint64_t> al; };
enum { T_RUN, T_MUTEX, T_JOIN, T_SPIN, T_YIELD, T_DONE };
struct Thread { std::vector<Frame*> st; uint8_t status = T_RUN; uint64_t wa = 0, wv = 0; uint8_t ww = 0; uint32_t ystamp = 0; bool passed = false; uint32_t spSite = ~0u; uint64_t spAddr = 0, spVal = 0; uint32_t spCnt = 0; uint32_t yrep = 0; uint64_t since = 0, sinceIc = 0; std::vector<uint64_t> tls; VC vc{}, sj{};
	Thread() {} Thread(const Thread& t) { *this = t; for (auto* f : st) ++f->rc; } Thread& operator=(const Thread& t) = default; Thread(Thread&&) = default; };
struct LogN { const LogN* p; E e; uint64_t c; }; struct SchN { const SchN* p; uint32_t ev; uint8_t t; uint8_t kind; }; struct SymN { const SymN* p; uint32_t v; };
struct State { uint32_t forced = 0; Mem m; std::vector<Thread> th; int cur = 0; const PC* pc = nullptr; std::shared_ptr<Model> mod; const SymN* syms = nullptr; uint32_t nsym = 0; const LogN* log = nullptr; const SchN* sch = nullptr; uint64_t ic = 0; uint32_t events = 0; uint32_t preempt = 0; uint32_t seq = 0; uint32_t leakSeq = ~0u; bool multi = false; uint32_t forks = 0; uint64_t pchash = 0; uint64_t loghash = 0; uint32_t lives = 0;
	~State() { for (auto& t : th) for (auto* f : t.st) if (--f->rc == 0) delete f; } };

struct Cfg { std::string entry, out, sitesIn; uint64_t maxIns = 4000000, maxPaths = 1000000; double maxTime = 600; unsigned preempt = 2, fair = 0; std::map<std::string, uint64_t> params; unsigned samples = 6; uint64_t seed = 1; bool dedup = true, noSpin = false; unsigned enumLimit = 64; bool raceViolation = false; bool verbose = false; } CF;
static std::set<uint32_t> SCHED_SITES, newSites, RACE_SITES;
static struct { uint64_t paths = 0, assumed = 0, pruned = 0, ins = 0, forks = 0, schedForks = 0, checks = 0, symChecks = 0, concretized = 0, events = 0, restarts = 0, maxDepth = 0, stateObjs = 0; } ST;
static std::map<std::string, uint64_t> LABELS; static std::set<std::string> ALLLABELS;
struct Viol { std::string kind, msg, where, stack; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::array<uint32_t, 3>> sched; std::vector<uint64_t> log; uint32_t events; };
static std::vector<Viol> VIOLS; static std::string INCOMPLETE;
struct Sample { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<std::array<uint32_t, 3>> sched; std::vector<uint64_t> log; uint32_t events; };
static std::vector<Sample> SAMPLES; static uint64_t rng;
static std::vector<State*> WORK;
static std::unordered_map<uint64_t, std::pair<uint64_t, uint32_t>> SEEN;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct PathEnd {}; // thrown to terminate a path
struct Retry {};   // state rearranged; re-enter main loop

static std::string locOf(const Instruction* I) { if (!I) return "?"; if (auto& d = I->getDebugLoc()) { std::string s = d->getFilename().str() + ":" + std::to_string(d->getLine()); return s; } return I->getFunction()->getName().str(); }
static std::string fnOf(const Instruction* I) { if (!I) return "?"; if (auto& d = I->getDebugLoc()) if (auto* sp = d->getScope()->getSubprogram()) { std::string n = sp->getLinkageName().str(); if (n.empty()) n = sp->getName().str(); return demangle(n); } return demangle(I->getFunction()->getName().str()); }

struct Exec {
	State* S; Thread* T; Frame* F;
	void sync() { T = &S->th[S->cur]; if (T->st.empty()) { F = nullptr; return; } F = T->st.back(); if (F->rc > 1) { --F->rc; Frame* n = new Frame(*F); n->rc = 1; T->st.back() = n; F = n; } }
	State* fork() { State* n = new State(*S); ++ST.forks; ++n->forks; return n; }
	// --- reporting
	void fillModel(const Model& m, std::vector<std::pair<std::string, uint64_t>>& in, std::vector<std::array<uint32_t, 3>>& sc, std::vector<uint64_t>& lg) {
		for (auto* p = S->syms; p; p = p->p) in.push_back({X.vars[p->v].name, p->v < m.size() ? m[p->v] & maskw(X.vars[p->v].w) : 0}); std::reverse(in.begin(), in.end());
		for (auto* p = S->sch; p; p = p->p) sc.push_back({p->ev, p->t, p->kind}); std::reverse(sc.begin(), sc.end());
		for (auto* p = S->log; p; p = p->p) lg.push_back(p->e ? EV.eval(p->e, m) : p->c); std::reverse(lg.begin(), lg.end());
	}
	[[noreturn]] void violation(const std::string& kind, const std::string& msg, const Model* m = nullptr, const Instruction* I = nullptr) {
		Viol v; v.kind = kind; v.msg = msg; const Model& mm = m ? *m : *S->mod; fillModel(mm, v.inputs, v.sched, v.log); v.events = S->events;
		if (!I && F && F->pc > 0) I = F->f->code[F->pc - 1].I;
		v.where = locOf(I) + " in " + fnOf(I);
		for (size_t t = 0; t < S->th.size(); ++t) { v.stack += "thread " + std::to_string(t) + ":\n"; int k = 0; for (auto it = S->th[t].st.rbegin(); it != S->th[t].st.rend() && k < 14; ++it, ++k) { Frame* f = *it; const Instruction* q = f->pc > 0 ? f->f->code[f->pc - 1].I : nullptr; v.stack += "  " + demangle(f->f->name).substr(0, 120) + " @ " + locOf(q) + "\n"; } }
		VIOLS.push_back(v); throw PathEnd();
	}
	[[noreturn]] void incomplete(const std::string& s) { INCOMPLETE = s + " at " + locOf(F && F->pc ? F->f->code[F->pc - 1].I : nullptr); throw PathEnd(); }
	// --- constraints
	void addPC(State* s, E e) { if (isC(e)) return; s->pc = new PC{s->pc, e, s->pc ? s->pc->depth + 1 : 1}; s->pchash = s->pchash + mix64(e->id, 0x51ed27); }
	bool feasible(E e, std::shared_ptr<Model>& out) { if (isC(e)) { if (e->c) { out = S->mod; return true; } return false; } if (EV.eval(e, *S->mod)) { out = S->mod; return true; } auto m = std::make_shared<Model>(); int r = SV->check(S->pc, e, *S->mod, m.get()); if (r < 0) incomplete("solver returned unknown"); if (r) out = m; return r == 1; }
	// decide a symbolic condition; forks the other side. In the fork, `alt` is run after cloning.
	template <class A> bool branch(E c, A alt) {
		if (isC(c)) return c->c;
		bool v = EV.eval(c, *S->mod); E nc = mkNot(c); std::shared_ptr<Model> om;
		if (feasible(v ? nc : c, om)) { State* n = fork(); n->mod = om; addPC(n, v ? nc : c); WORK.push_back(n); State* sv = S; S = n; sync(); alt(!v); S = sv; sync(); addPC(S, v ? c : nc); }
		return v;
	}
	// make operand register concrete, exploring every feasible value (re-executes the instruction in the forks)
	uint64_t conc(const Op& o, unsigned w) {
		Val v = get(o); if (!v.e) return v.c;
		if (isC(v.e)) return v.e->c;
		uint64_t k = EV.eval(v.e, *S->mod); E eq = mkBin(XEQ, v.e, X.konst(v.e->w, k)); std::shared_ptr<Model> om; ++ST.concretized;
		if (feasible(mkNot(eq), om)) { State* n = fork(); n->mod = om; addPC(n, mkNot(eq)); State* sv = S; S = n; sync(); F->pc--; S = sv; sync(); WORK.push_back(n); }
		addPC(S, eq); if (o.kind == 1) F->r[o.reg] = CV(k); return k;
	}
	Val get(const Op& o) { if (o.kind == 1) return F->r[o.reg]; if (o.kind == 0) return CV(o.c); return CV(tlsAddr(o.reg) + o.c); }
	uint64_t tlsAddr(uint32_t i) { if (T->tls.size() <= i) T->tls.resize(TLSV.size(), 0); if (!T->tls[i]) { const GlobalVariable* g = TLSV[i]; uint64_t a = S->m.alloc(S->cur, DL->getTypeAllocSize(g->getValueType()), K_TLS, nullptr, 0); if (g->hasInitializer()) initObj(S->m.own(a >> 24), g->getInitializer(), 0); T->tls[i] = a; } return T->tls[i]; }
	static void initObj(Obj* o, const Constant* C, uint64_t off) {
		if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
		if (auto* cds = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cds->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
		Type* t = C->getType();
		if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) initObj(o, cast<Constant>(C->getOperand(i)), off + L->getElementOffset(i)); return; }
		if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); ++i) initObj(o, cast<Constant>(C->getOperand(i)), off + i * sz); return; }
		uint64_t v = evalC(C); memcpy(&o->d[off], &v, DL->getTypeStoreSize(t).getFixedValue());
	}
	// --- memory
	Obj* look(uint64_t addr, uint32_t size, bool write, const char* what) {
		Obj* o = S->m.get(addr >> 24); uint32_t off = addr & 0xFFFFFF;
		if (!o) { uint64_t id = addr >> 24; char b[160]; unsigned r = id >> 20; if (id == 0) snprintf(b, 160, "%s of %u bytes through null/invalid pointer 0x%llx", what, size, (unsigned long long)addr); else if (r < 7 && (id & 0xFFFFF) < S->m.cnt[r]) snprintf(b, 160, "%s of %u bytes in freed memory", what, size); else snprintf(b, 160, "%s of %u bytes through wild pointer 0x%llx", what, size, (unsigned long long)addr); violation("memory", b); }
		if ((uint64_t)off + size > o->size) { char b[160]; snprintf(b, 160, "%s of %u bytes out of bounds (offset %u, object size %u)", what, size, off, o->size); violation("memory", b); }
		if (write && o->ro) violation("memory", "write to constant object");
		return o;
	}
	Val load(uint64_t addr, unsigned w) {
		unsigned n = (w + 7) / 8; Obj* o = look(addr, n, false, "read"); uint32_t off = addr & 0xFFFFFF;
		bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) if (o->s[off + i].e) { sym = true; break; }
		if (!sym) { uint64_t v = 0; memcpy(&v, &o->d[off], n); return CV(v & maskw(w)); }
		return loadSym(o, off, w, n);
	}
	Val loadSym(Obj* o, uint32_t off, unsigned w, unsigned n) {
		SB& s0 = o->s[off]; if (s0.e && s0.i == 0 && s0.e->w == w) { bool ok = true; for (unsigned i = 1; i < n; ++i) if (o->s[off + i].e != s0.e || o->s[off + i].i != i) { ok = false; break; } if (ok) return fromE(s0.e); }
		E e = nullptr;
		for (int i = (int)n - 1; i >= 0; --i) { SB& b = o->s[off + i]; E be; if (!b.e) be = X.konst(8, o->d[off + i]); else { unsigned lo = b.i * 8; be = b.e->w < lo + 8 ? mkZext(mkExtract(b.e, lo, b.e->w - lo), 8) : mkExtract(b.e, lo, 8); } e = e ? mkConcat(e, be) : be; }
		if (e->w > w) e = mkExtract(e, 0, w); return fromE(e);
	}
	void store(uint64_t addr, Val v, unsigned w) {
		unsigned n = (w + 7) / 8; look(addr, n, true, "write"); Obj* o = S->m.own(addr >> 24); uint32_t off = addr & 0xFFFFFF;
		if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(&o->d[off], &c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i].e = nullptr; return; }
		if (o->s.empty()) o->s.assign(o->size, SB{nullptr, 0});
		memset(&o->d[off], 0, n); for (unsigned i = 0; i < n; ++i) o->s[off + i] = SB{v.e, (uint8_t)i};
	}
	std::string cstr(uint64_t a) { std::string s; for (;;) { Val v = load(a++, 8); if (v.e || !v.c) break; s += (char)v.c; if (s.size() > 200) break; } return s; }
	// --- access bookkeeping for interleaving-relevant sites
	bool concurrent() const { return S->multi; }
	// library functions that work on the caller's memory: their accesses count as made by the call
	uint32_t effSite(const Ins& I) {
		static const std::set<std::string> onCaller = {"rf_snprintf", "rf_sprintf", "strlen", "strcmp", "memcmp", "memchr", "bcmp", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1EPKc"};
		if (!I.site || !supp(I.site)) return I.site;
		for (size_t k = T->st.size() - 1; k > 0; --k) { Frame* c = T->st[k - 1]; const Ins& ci = c->f->code[c->pc - 1]; if (ci.site && supp(ci.site)) continue; return ci.op == I_CALL && ci.site && onCaller.count(T->st[k]->f->name) ? ci.site : I.site; }
		return I.site;
	}
	void noteAccess(uint64_t addr, unsigned n, bool wr, bool at, const Ins& I) {
		Obj* o0 = S->m.get(addr >> 24); if (!o0 || o0->ro) return; uint32_t off = addr & 0xFFFFFF; int t = S->cur;
		uint32_t site = effSite(I);
		Obj* o = S->m.own(addr >> 24); if (!o->sh) o->sh = std::make_shared<Shadow>(); else if (o->sh.use_count() > 1) o->sh = std::make_shared<Shadow>(*o->sh); Shadow& h = *o->sh;
		if (h.cells.empty()) h.cells.assign(o->size, Cell{});
		bool race = false;
		for (unsigned i = 0; i < n; ++i) { Cell& c = h.cells[off + i];
			if (c.wclk && c.wt != t && c.wclk > T->vc.c[c.wt] && !(at && (c.wsite & 0x80000000u))) { race = true; flag(c.wsite & 0x7fffffff, site, true, wr, addr); }
			if (wr) for (int k = 0; k < MAXT; ++k) if (k != t && c.rclk[k] > T->vc.c[k] && !(at && (c.rsite[k] & 0x80000000u))) { race = true; flag(c.rsite[k] & 0x7fffffff, site, true, wr, addr); }
			uint32_t ck = T->vc.c[t]; uint32_t st = site | (at ? 0x80000000u : 0); if (wr) { c.wclk = ck; c.wt = t; c.wsite = st; } else { c.rclk[t] = ck; c.rsite[t] = st; } }
		(void)race;
		if (at) {
			auto& v = h.at[off]; bool have = false;
			for (auto& r : v) { if (r.t != t) { if ((r.w || wr) && r.sj > T->sj.c[r.t]) flag(r.site, site, false, wr, addr); } else if (r.site == site && r.w == wr) { r.sj = T->sj.c[t]; have = true; } }
			if (!have) v.push_back(AccRec{(uint8_t)t, wr, T->sj.c[t], site});
		}
	}
	std::set<std::pair<uint32_t, uint32_t>> racePairs;
	static bool supp(uint32_t a) { return SITEV[a]->getFunction()->hasFnAttribute("rf-support"); }
	void flag(uint32_t a, uint32_t b, bool race, bool, uint64_t addr) {
		if (supp(a) || supp(b)) return;
		if (race) { if (RACE_SITES.insert(a).second | RACE_SITES.insert(b).second) {} racePairs.insert({std::min(a, b), std::max(a, b)}); if (CF.raceViolation) violation("race", "data race: " + locOf(SITEV[a]) + " (" + fnOf(SITEV[a]) + ") and " + locOf(SITEV[b]) + " (" + fnOf(SITEV[b]) + ")"); }
		if (!SCHED_SITES.count(a)) newSites.insert(a); if (!SCHED_SITES.count(b)) newSites.insert(b);
	}
	void acq(uint64_t addr) { Obj* o = S->m.get(addr >> 24); if (o && o->sh) { auto it = o->sh->sync.find(addr & 0xFFFFFF); if (it != o->sh->sync.end()) for (int k = 0; k < MAXT; ++k) T->vc.c[k] = std::max(T->vc.c[k], it->second.c[k]); } }
	void rel(uint64_t addr, bool join) { Obj* o = S->m.own(addr >> 24); if (!o->sh) o->sh = std::make_shared<Shadow>(); else if (o->sh.use_count() > 1) o->sh = std::make_shared<Shadow>(*o->sh); VC& v = o->sh->sync[addr & 0xFFFFFF]; for (int k = 0; k < MAXT; ++k) v.c[k] = join ? std::max(v.c[k], T->vc.c[k]) : T->vc.c[k]; ++T->vc.c[S->cur]; }
	// order codes: 1+AtomicOrdering. monotonic=2 acquire=4 release=5 acqrel=6 seqcst=7
	static bool isAcq(uint8_t a) { auto o = (AtomicOrdering)(a - 1); return isAcquireOrStronger(o); }
	static bool isRel(uint8_t a) { auto o = (AtomicOrdering)(a - 1); return isReleaseOrStronger(o); }
	void noteAtomic(uint64_t addr, unsigned n, bool wr, bool rd, const Ins& I, bool success) {
		if (!S->multi) return;
		noteAccess(addr, n, wr && success, true, I);
		if (rd && isAcq(success ? I.atomic : (uint8_t)I.sub)) acq(addr);
		if (wr && success) { if (isRel(I.atomic)) rel(addr, rd); else if (!rd) { Obj* o = S->m.own(addr >> 24); if (o->sh) { if (o->sh.use_count() > 1) o->sh = std::make_shared<Shadow>(*o->sh); o->sh->sync.erase(addr & 0xFFFFFF); } } }
	}
	// --- threads
	bool enabled(int t) {
		Thread& q = S->th[t];
		switch (q.status) {
		case T_RUN: return true; case T_DONE: return false;
		case T_MUTEX: { Obj* o = S->m.get(q.wa >> 24); if (!o) return true; uint32_t v; memcpy(&v, &o->d[q.wa & 0xFFFFFF], 4); return v == 0; }
		case T_JOIN: return S->th[q.wa].status == T_DONE;
		case T_SPIN: { Obj* o = S->m.get(q.wa >> 24); if (!o) return true; uint64_t v = 0; memcpy(&v, &o->d[q.wa & 0xFFFFFF], (q.ww + 7) / 8); return v != q.wv; }
		case T_YIELD: return false;
		} return false;
	}
	void switchTo(State* s, int t, uint8_t kind) { s->sch = new SchN{s->sch, s->events, (uint8_t)t, kind}; s->cur = t; Thread& q = s->th[t]; q.since = s->events; q.sinceIc = s->ic; if (q.status == T_YIELD || q.status == T_SPIN || q.status == T_MUTEX || q.status == T_JOIN) q.status = T_RUN; }
	bool dedupHit() {
		if (!CF.dedup || !S->multi) return false;
		uint64_t h = S->m.hash(); h = mix64(h, S->pchash); h = mix64(h, S->cur); uint64_t h2 = 99;
		for (auto& t : S->th) { h = mix64(h, t.status + 16 * t.passed); h = mix64(h, t.wa + t.spCnt * 77 + t.spSite); h = mix64(h, t.ystamp == S->events); for (auto* f : t.st) { h = mix64(h, f->pc); h = mix64(h, f->f->addr); for (auto& v : f->r) { h = mix64(h, v.e ? v.e->id * 2 + 1 : v.c * 2); } h2 = mix64(h2, h); } }
		h2 = mix64(h2, h * 31 + S->loghash); h2 = mix64(h2, S->nsym);
		auto it = SEEN.find(h); if (it != SEEN.end() && it->second.first == h2 && it->second.second <= S->preempt) return true;
		if (SEEN.size() < 20000000) SEEN[h] = {h2, S->preempt}; return false;
	}
	// a thread that has run this long without an event may be polling: make this operation an event, so that the fairness rule can act
	void fairSite(const Ins& I) { if (CF.fair && S->multi && S->ic - T->sinceIc > 20000 && !SCHED_SITES.count(I.site)) { newSites.insert(I.site); throw PathEnd(); } }
	// a scheduling point before instruction (pc already advanced). returns when the current thread may go on.
	// The schedule is part of the symbolic input: preemption j happens at event P_j and hands over to thread T_j; forced switch k
	// goes to B_k. A fork is taken when the solver finds these values feasible with the path so far. (Not in pchash: two
	// schedules that lead to the same state are the same state.)
	static E schedVar(char kind, unsigned j, unsigned w) { static std::map<std::pair<char, unsigned>, uint32_t> vm; auto k = std::make_pair(kind, j); auto it = vm.find(k); if (it == vm.end()) { it = vm.emplace(k, (uint32_t)X.vars.size()).first; X.vars.push_back({std::string("sched_") + kind + std::to_string(j), w}); } return X.var(it->second); }
	bool schedFeasible(State* n, E e) { auto m = std::make_shared<Model>(); int q = SV->check(n->pc, e, *n->mod, m.get()); if (q < 0) incomplete("solver returned unknown"); if (!q) return false; n->mod = m; n->pc = new PC{n->pc, e, n->pc ? n->pc->depth + 1 : 1}; return true; }
	bool preemptAt(State* n, int t) {
		unsigned j = n->preempt; E e = mkBin(XAND, mkBin(XEQ, schedVar('P', j, 24), X.konst(24, n->events)), mkBin(XEQ, schedVar('T', j, 8), X.konst(8, t)));
		if (j) e = mkBin(XAND, e, mkBin(XULT, schedVar('P', j - 1, 24), schedVar('P', j, 24)));
		return schedFeasible(n, e);
	}
	bool forcedTo(State* n, int t, const std::vector<int>& en) { E v = schedVar('B', n->forced++, 8), dom = X.konst(1, 0); for (int c : en) dom = mkBin(XOR_, dom, mkBin(XEQ, v, X.konst(8, c))); return schedFeasible(n, mkBin(XAND, dom, mkBin(XEQ, v, X.konst(8, t)))); }
	void point(bool suppressed) {
		if (!S->multi) return;
		if (T->passed) { T->passed = false; return; }
		++S->events; ++ST.events; for (auto& q : S->th) if (q.status == T_YIELD && &q != T) { q.status = T_RUN; }
		if (CF.fair && S->events - T->since > CF.fair) { // a thread that polls without yielding: the others get a turn after so many of its events
			for (int k = 1; k < (int)S->th.size(); ++k) { int t = (S->cur + k) % (int)S->th.size(); if (!enabled(t)) continue; T->passed = true; --F->pc; ++ST.schedForks; switchTo(S, t, 0); sync(); if (dedupHit()) { ++ST.pruned; throw PathEnd(); } throw Retry(); } T->since = S->events; }
		if (suppressed || S->preempt >= CF.preempt) return;
		std::vector<int> en; for (int t = 0; t < (int)S->th.size(); ++t) if (t != S->cur && enabled(t)) en.push_back(t);
		if (en.empty()) return;
		for (int t : en) { State* n = fork(); if (!preemptAt(n, t)) { delete n; continue; } ++ST.schedForks; Thread& me = n->th[n->cur]; me.passed = true; Frame* f = me.st.back(); if (f->rc > 1) { --f->rc; f = new Frame(*f); f->rc = 1; me.st.back() = f; } --f->pc; ++n->preempt; switchTo(n, t, 0);
			State* sv = S; S = n; sync(); bool hit = dedupHit(); S = sv; sync(); if (hit) { ++ST.pruned; delete n; } else WORK.push_back(n); }
	}
	// current thread cannot go on: choose someone else. pc must already be set for later re-execution.
	[[noreturn]] void blockSwitch() {
		if (S->multi) { ++S->events; ++ST.events; } std::vector<int> en; for (int t = 0; t < (int)S->th.size(); ++t) if (t != S->cur && enabled(t)) en.push_back(t);
		if (en.empty()) { for (int t = 0; t < (int)S->th.size(); ++t) if (t != S->cur && S->th[t].status == T_YIELD) en.push_back(t); }
		if (en.empty()) { if (enabled(S->cur)) { S->th[S->cur].status = T_RUN; throw Retry(); }
			if (T->status == T_YIELD) { T->status = T_RUN; if (++T->yrep > 60 && S->multi) violation("hang", "livelock: the only runnable thread keeps yielding"); throw Retry(); }
			std::string w; for (size_t t = 0; t < S->th.size(); ++t) { static const char* nm[] = {"run", "mutex", "join", "spin", "yield", "done"}; w += " t" + std::to_string(t) + "=" + nm[S->th[t].status]; }
			S->sch = new SchN{S->sch, S->events, 255, 2};
			violation("deadlock", "no thread can make progress:" + w); }
		if (en.size() > 1) { S->forced++; for (size_t k = 1; k < en.size(); ++k) { State* n = fork(); --n->forced; if (!forcedTo(n, en[k], en)) { delete n; continue; } ++ST.schedForks; switchTo(n, en[k], 1); State* sv = S; S = n; sync(); bool hit = dedupHit(); S = sv; sync(); if (hit) { ++ST.pruned; delete n; } else WORK.push_back(n); }
			--S->forced; if (!forcedTo(S, en[0], en)) throw PathEnd(); }
		switchTo(S, en[0], 1); sync(); if (dedupHit()) { ++ST.pruned; throw PathEnd(); } throw Retry();
	}
	// --- calls
	void pushFrame(Func* f, const Val* args, size_t n, const CallInfo* ci, uint32_t dst) {
		if (!f->compiled) { if (f->F->isDeclaration()) incomplete("call to unmodelled external function " + demangle(f->name)); Compiler c; c.run(f); }
		if (T->st.size() > 2000) violation("stack", "call depth exceeds 2000");
		Frame* fr = new Frame; fr->f = f; fr->call = ci; fr->dst = dst; fr->r.assign(f->nreg, Val{0, nullptr}); for (size_t i = 0; i < n && i < f->argreg.size(); ++i) fr->r[f->argreg[i]] = args[i]; T->st.push_back(fr); F = fr;
	}
	void popFrame() { for (uint64_t a : F->al) { Obj*& o = S->m.slot(a >> 24); relObj(o); o = nullptr; } T->st.pop_back(); if (--F->rc == 0) delete F; if (T->st.empty()) F = nullptr; else sync(); }
	void take(uint32_t e) { const Edge& d = F->f->edges[e]; if (d.simple) { for (auto& c : d.copies) F->r[c.first] = get(c.second); } else { static std::vector<Val> tmp; tmp.clear(); for (auto& c : d.copies) tmp.push_back(get(c.second)); for (size_t i = 0; i < tmp.size(); ++i) F->r[d.copies[i].first] = tmp[i]; } F->pc = d.pc; }
	void threadDone() {
		T->status = T_DONE; T->st.clear(); ++T->vc.c[S->cur]; ++T->sj.c[S->cur];
		if (S->cur == 0) { for (auto& q : S->th) if (q.status != T_DONE) violation("harness", "main returned with live threads"); endPath(); }
		blockSwitch();
	}
	// the model of a finished path is arbitrary; move each input to a random value where the path allows it
	void diversify() {
		E acc = X.konst(1, 1); uint64_t r = rng ^ (ST.paths * 0x9E3779B97F4A7C15ull); int k = 0;
		for (auto* p = S->syms; p && k < 40; p = p->p, ++k) {
			unsigned w = X.vars[p->v].w; r = r * 6364136223846793005ull + 1442695040888963407ull; uint64_t val = (r >> 17) & maskw(w); if (w == 64) val &= 0xffffffff;
			E t = mkBin(XAND, acc, mkBin(XEQ, X.var(p->v), X.konst(w, val))); auto m = std::make_shared<Model>(); if (isC(t)) continue;
			if (SV->check(S->pc, t, *S->mod, m.get()) == 1) { acc = t; S->mod = m; }
		}
	}
	[[noreturn]] void endPath() {
		++ST.paths; uint64_t n = ST.paths; if (S->forks > ST.maxDepth) ST.maxDepth = S->forks;
		rng = rng * 6364136223846793005ull + 1442695040888963407ull; size_t slot = SAMPLES.size() < CF.samples ? SAMPLES.size() : (rng >> 33) % n;
		if (slot < CF.samples) { Sample sm; diversify(); fillModel(*S->mod, sm.inputs, sm.sched, sm.log); sm.events = S->events; if (slot < SAMPLES.size()) SAMPLES[slot] = sm; else SAMPLES.push_back(sm); }
		throw PathEnd();
	}
	// exceptions
	static const GlobalVariable* gvAt(uint64_t a) { static std::unordered_map<uint64_t, const GlobalVariable*> r; if (r.empty()) for (auto& k : GA) if (auto* g = dyn_cast<GlobalVariable>(k.first)) r[k.second] = g; auto it = r.find(a); return it == r.end() ? nullptr : it->second; }
	static bool derives(const GlobalVariable* d, const GlobalVariable* b) {
		if (!d || !b) return false; if (d == b || d->getName() == b->getName()) return true; if (!d->hasInitializer()) return false; auto* cs = dyn_cast<ConstantStruct>(d->getInitializer()); if (!cs) return false;
		std::string vt; if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(0)->stripInBoundsConstantOffsets())) vt = g->getName().str();
		if (vt.find("si_class") != std::string::npos) return derives(dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()), b);
		if (vt.find("vmi_class") != std::string::npos) { for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) if (derives(dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()), b)) { if ((evalC(cs->getOperand(i + 1)) >> 8) != 0) die("catch through non-zero base offset"); return true; } }
		return false;
	}
	[[noreturn]] void unwind(uint64_t handle) {
		// header layout in support.cpp: {type, dtor, obj, ...}
		Val tv = load(handle, 64); const GlobalVariable* ty = gvAt(tv.c);
		auto match = [&](const LPad& lp, int& sel) -> int { for (auto& c : lp.clauses) { if (c.first == 1) { sel = -1; return 2; } if (!c.second || derives(ty, c.second)) { sel = typeId(c.second); return 2; } } sel = 0; return lp.cleanup ? 1 : 0; };
		auto lpOf = [&](Frame* f, const CallInfo* ci) -> const LPad& { const Edge& e = f->f->edges[ci->unwindEdge]; uint32_t p = e.pc; while (f->f->code[p].op != I_LPAD) ++p; return f->f->lpads[f->f->code[p].x]; };
		bool found = false; std::string tn = ty ? demangle(ty->getName().str()) : "?";
		const Instruction* bad = nullptr;
		for (int i = (int)T->st.size() - 1; i >= 0 && !found; --i) { Frame* f = T->st[i]; const Ins& ci = f->f->code[f->pc - 1]; if (ci.op == I_CALL) { const CallInfo& c = f->f->calls[ci.x]; if (c.invoke) { int sel; if (match(lpOf(f, &c), sel) == 2) { found = true; break; } } else if (f->f->F->doesNotThrow()) { bad = ci.I; break; } } }
		if (!found) violation("terminate", "exception reaches no handler (" + tn + ")" + (bad ? " in noexcept function" : ""));
		for (;;) {
			const Ins& ci = F->f->code[F->pc - 1];
			if (ci.op == I_CALL) { const CallInfo& c = F->f->calls[ci.x]; if (c.invoke) { const LPad& lp = lpOf(F, &c); int sel; int r = match(lp, sel); if (r) { take(c.unwindEdge); Ins& li = F->f->code[F->pc]; F->r[li.dst] = CV(handle); F->r[li.dst + 1] = CV((uint32_t)sel); ++F->pc; throw Retry(); } } }
			popFrame(); if (!F) die("unwind ran off the stack");
		}
	}
	Val fpbin(unsigned sub, unsigned w, uint64_t a, uint64_t b) { if (w == 64) { double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); double r = sub == 0 ? x + y : sub == 1 ? x - y : sub == 2 ? x * y : x / y; uint64_t u; memcpy(&u, &r, 8); return CV(u); } float x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); float r = sub == 0 ? x + y : sub == 1 ? x - y : sub == 2 ? x * y : x / y; uint32_t u; memcpy(&u, &r, 4); return CV(u); }

	bool spinCheck(const Ins& I, uint64_t addr, unsigned w, bool isLoadLike) {
		if (CF.noSpin) return false; // the harness plays the other threads
		// returns true if this access repeats the previous one with nothing changed (stuttering)
		if (T->spSite == I.site && T->spAddr == addr && T->spCnt) { Obj* o = S->m.get(addr >> 24); if (!o || (addr & 0xFFFFFF) + (w + 7) / 8 > o->size) return false; uint64_t v = 0; memcpy(&v, &o->d[addr & 0xFFFFFF], (w + 7) / 8); return v == T->spVal; }
		return false;
	}
	void spinNote(const Ins& I, uint64_t addr, unsigned w, Val v) { if (v.e) { T->spCnt = 0; return; } if (T->spSite == I.site && T->spAddr == addr && T->spVal == v.c) ++T->spCnt; else { T->spSite = I.site; T->spAddr = addr; T->spVal = v.c; T->spCnt = 1; } }

	void intrinsic(Func* f, const Ins& I, const CallInfo& ci) {
		auto arg = [&](unsigned k) { return get(ci.args[k]); };
		auto ret = [&](Val v) { if (I.dst != ~0u) F->r[I.dst] = v; };
		auto finish = [&] { if (ci.invoke) take(ci.normalEdge); };
		const std::string& nm = f->name;
		if (S->multi && (f->intr == N_MEMCPY || f->intr == N_MEMSET || f->intr == N_DEL || f->intr == N_DELA || f->intr == N_FREE) && SCHED_SITES.count(I.site)) point(false);
		switch (f->intr) {
		case N_NOP: break;
		case N_RET0: ret(CV(0)); break;
		case N_IDENT: ret(arg(0)); break;
		case N_NEW: case N_NEWA: case N_MALLOC: { uint64_t n = conc(ci.args[0], 64); if (n > 0xFF0000) violation("memory", "allocation of " + std::to_string(n) + " bytes"); uint64_t a = S->m.alloc(S->cur, n, f->intr == N_NEW ? K_NEW : f->intr == N_NEWA ? K_NEWA : K_MALLOC, I.I, 0xbe); S->m.get(a >> 24)->seq = ++S->seq; ret(CV(a)); break; }
		case N_DEL: case N_DELA: case N_FREE: { uint64_t a = conc(ci.args[0], 64); if (!a) break; Obj* o = S->m.get(a >> 24); uint8_t want = f->intr == N_DEL ? K_NEW : f->intr == N_DELA ? K_NEWA : K_MALLOC;
			if (!o) { uint64_t id = a >> 24; unsigned r = id >> 20; violation("memory", (r < 7 && (id & 0xFFFFF) < S->m.cnt[r] && id) ? "double free" : "free of wild pointer"); }
			if (a & 0xFFFFFF) violation("memory", "free of interior pointer"); if (o->kind != want) violation("memory", "mismatched or invalid deallocation");
			if (S->multi) { for (unsigned q = 0; q < 1; ++q) noteAccess(a, std::min<uint32_t>(o->size, 64), true, false, I); }
			Obj*& sl = S->m.slot(a >> 24); relObj(sl); sl = nullptr; break; }
		case N_MEMCPY: { uint64_t n = conc(ci.args[2], 64), d = conc(ci.args[0], 64), s = conc(ci.args[1], 64); if (n) { look(s, n, false, "read"); look(d, n, true, "write"); if (S->multi) { noteAccess(s, n, false, false, I); noteAccess(d, n, true, false, I); }
				Obj* so = S->m.get(s >> 24); std::vector<uint8_t> tmp(so->d.begin() + (s & 0xFFFFFF), so->d.begin() + (s & 0xFFFFFF) + n); std::vector<SB> ts; if (!so->s.empty()) ts.assign(so->s.begin() + (s & 0xFFFFFF), so->s.begin() + (s & 0xFFFFFF) + n);
				Obj* o = S->m.own(d >> 24); uint32_t off = d & 0xFFFFFF; memcpy(&o->d[off], tmp.data(), n); if (!ts.empty()) { if (o->s.empty()) o->s.assign(o->size, SB{nullptr, 0}); std::copy(ts.begin(), ts.end(), o->s.begin() + off); } else if (!o->s.empty()) for (uint64_t k = 0; k < n; ++k) o->s[off + k].e = nullptr; }
			if (nm[0] != 'l') ret(CV(d)); break; }
		case N_MEMSET: { uint64_t n = conc(ci.args[2], 64), d = conc(ci.args[0], 64), v = conc(ci.args[1], 8); if (n) { look(d, n, true, "write"); if (S->multi) noteAccess(d, n, true, false, I); Obj* o = S->m.own(d >> 24); uint32_t off = d & 0xFFFFFF; memset(&o->d[off], (int)v, n); if (!o->s.empty()) for (uint64_t k = 0; k < n; ++k) o->s[off + k].e = nullptr; } if (nm[0] != 'l') ret(CV(d)); break; }
		case N_SYM: { std::string n = cstr(conc(ci.args[0], 64)); unsigned w = conc(ci.args[1], 32); static std::map<std::tuple<uint32_t, std::string, unsigned>, uint32_t> vm; auto key = std::make_tuple(S->nsym, n, w); auto it = vm.find(key); uint32_t idx; if (it == vm.end()) { idx = X.vars.size(); X.vars.push_back({n, w}); vm[key] = idx; } else idx = it->second; S->nsym++; S->syms = new SymN{S->syms, idx}; ret(fromE(mkZext(X.var(idx), 64))); break; }
		case N_ASSUME: { Val v = arg(0); if (!v.e) { if (!(v.c & 1)) { ++ST.assumed; throw PathEnd(); } break; } E c = mkExtract(v.e, 0, 1); std::shared_ptr<Model> m; if (!feasible(c, m)) { ++ST.assumed; throw PathEnd(); } S->mod = m; addPC(S, c); break; }
		case N_CHECK: { Val v = arg(0); ++ST.checks; if (!v.e) { if (!(v.c & 1)) violation("check", cstr(arg(1).c), nullptr, I.I); break; } ++ST.symChecks; E c = mkExtract(v.e, 0, 1); std::shared_ptr<Model> m; if (feasible(mkNot(c), m)) violation("check", cstr(arg(1).c), m.get(), I.I); break; }
		case N_FAIL: violation("check", cstr(arg(0).c), nullptr, I.I);
		case N_LOG: { Val v = arg(0); S->log = new LogN{S->log, v.e, v.c}; S->loghash = mix64(S->loghash, v.e ? v.e->id : v.c); break; }
		case N_REACH: { ++LABELS[cstr(conc(ci.args[0], 64))]; break; }
		case N_PARAM: { std::string n = cstr(conc(ci.args[0], 64)); auto it = CF.params.find(n); ret(it == CF.params.end() ? arg(1) : CV(it->second)); break; }
		case N_TID: ret(CV(S->cur)); break;
		case N_SELF: ret(CV(0x7000 + S->cur)); break;
		case N_CONCRETE: ret(CV(conc(ci.args[0], 64))); break;
		case N_LIVE: { uint64_t a = conc(ci.args[0], 64); ret(CV(S->m.get(a >> 24) != nullptr)); break; }
		case N_SPAWN: { uint64_t fn = conc(ci.args[0], 64); Val a = arg(1); if (fn < FBASE || (fn - FBASE) / 16 >= FV.size()) violation("memory", "bad thread function"); if (S->th.size() >= MAXT) die("too many threads"); int t = S->th.size(); S->th.emplace_back(); T = &S->th[S->cur]; Thread& n = S->th[t]; S->multi = true; n.vc = T->vc; n.sj = T->sj; n.vc.c[t] = 1; n.sj.c[t] = 1; ++T->vc.c[S->cur]; ++T->sj.c[S->cur];
			int sc = S->cur; S->cur = t; sync(); pushFrame(FV[(fn - FBASE) / 16], &a, 1, nullptr, ~0u); S->cur = sc; sync(); ret(CV(t)); break; }
		case N_JOIN: { uint64_t t = conc(ci.args[0], 64); if (t >= S->th.size()) die("join"); if (S->th[t].status != T_DONE) { T->status = T_JOIN; T->wa = t; --F->pc; blockSwitch(); } for (int k = 0; k < MAXT; ++k) { T->vc.c[k] = std::max(T->vc.c[k], S->th[t].vc.c[k]); T->sj.c[k] = std::max(T->sj.c[k], S->th[t].sj.c[k]); } break; }
		case N_BYTES: { uint64_t n = 0; for (int r = 0; r < 6; ++r) for (auto* c : S->m.reg[r]) if (c) for (auto* o : c->o) if (o && o->kind >= K_NEW && o->kind <= K_MALLOC && o->seq > S->leakSeq) n += o->size; ret(CV(n)); break; }
		case N_LEAKB: S->leakSeq = S->seq; break;
		case N_LEAKE: { for (int r = 0; r < 6; ++r) for (auto* c : S->m.reg[r]) if (c) for (auto* o : c->o) if (o && o->kind >= K_NEW && o->kind <= K_MALLOC && o->seq > S->leakSeq) violation("leak", "object of " + std::to_string(o->size) + " bytes allocated at " + locOf(o->where) + " (" + fnOf(o->where) + ") never released", nullptr, I.I); break; }
		case N_UNWIND: unwind(conc(ci.args[0], 64));
		case N_POINT: point(false); break;
		case N_MLOCK: { point(false); uint64_t a = conc(ci.args[0], 64); Val v = load(a, 32); if (v.c) { if (v.c == (uint64_t)S->cur + 1) { if (load(a + 16, 32).c == 1) { store(a + 4, CV(load(a + 4, 32).c + 1), 32); ret(CV(0)); break; } violation("deadlock", "thread locks a std::mutex it already holds"); } T->status = T_MUTEX; T->wa = a; --F->pc; T->passed = true; blockSwitch(); } store(a, CV(S->cur + 1), 32); if (S->multi) acq(a); ret(CV(0)); break; }
		case N_MTRY: { point(false); uint64_t a = conc(ci.args[0], 64); Val v = load(a, 32); if (v.c == (uint64_t)S->cur + 1 && load(a + 16, 32).c == 1) { store(a + 4, CV(load(a + 4, 32).c + 1), 32); ret(CV(0)); } else if (v.c) ret(CV(16)); else { store(a, CV(S->cur + 1), 32); if (S->multi) acq(a); ret(CV(0)); } break; }
		case N_MUNLOCK: { point(false); uint64_t a = conc(ci.args[0], 64); Val v = load(a, 32); if (v.c != (uint64_t)S->cur + 1) violation("mutex", "unlock of a std::mutex not held by this thread"); if (uint64_t n = load(a + 4, 32).c) { store(a + 4, CV(n - 1), 32); ret(CV(0)); break; } store(a, CV(0), 32); if (S->multi) rel(a, false); ret(CV(0)); break; }
		case N_PAUSE: break;
		case N_YIELD: { ret(CV(0)); if (S->th.size() > 1 || true) { if (ci.invoke) take(ci.normalEdge); T->spCnt = 0; T->status = T_YIELD; T->ystamp = S->events; blockSwitch(); } break; }
		case N_ASSERT: violation("assert", "assertion failed: " + cstr(arg(0).c) + " at " + cstr(arg(1).c) + ":" + std::to_string(arg(2).c), nullptr, I.I);
		case N_ABORT: violation("abort", nm, nullptr, I.I);
		case N_TERMINATE: violation("terminate", "std::terminate called", nullptr, I.I);
		case N_TRAP: violation("trap", "undefined behaviour trap", nullptr, I.I);
		case N_TYPEID: { auto* g = dyn_cast<GlobalVariable>(cast<CallBase>(I.I)->getArgOperand(0)->stripPointerCasts()); ret(CV(typeId(g))); break; }
		case N_TLSADDR: ret(arg(0)); break;
		case N_OBJSIZE: ret(CV(~0ull)); break;
		case N_OVF: { unsigned w = ci.argw[0]; Val a = arg(0), b = arg(1); bool sg = nm[5] == 's'; char o = nm[6]; XOp op = o == 'm' ? XMUL : o == 'a' ? XADD : XSUB;
			if (!a.e && !b.e) { uint64_t r = foldBin(op, w, a.c, b.c); __int128 x = sg ? (__int128)sextw(a.c, w) : (__int128)a.c, y = sg ? (__int128)sextw(b.c, w) : (__int128)b.c; __int128 z = op == XMUL ? x * y : op == XADD ? x + y : x - y; __int128 rr = sg ? (__int128)sextw(r, w) : (__int128)r; F->r[I.dst] = CV(r); F->r[I.dst + 1] = CV(z != rr); }
			else { if (!sg && op == XMUL && !b.e && b.c && w == 64) { E ea = a.e; F->r[I.dst] = fromE(mkBin(XMUL, ea, X.konst(w, b.c))); F->r[I.dst + 1] = fromE(mkBin(XULT, X.konst(w, maskw(w) / b.c), ea)); }
				else if (!sg && op != XMUL) { E ea = toE(a, w), eb = toE(b, w); E r = mkBin(op, ea, eb); F->r[I.dst] = fromE(r); F->r[I.dst + 1] = fromE(op == XADD ? mkBin(XULT, r, ea) : mkBin(XULT, ea, eb)); }
				else if (sg && op != XMUL) { E ea = toE(a, w), eb = toE(b, w), r = mkBin(op, ea, eb), z = X.konst(w, 0); E na = mkBin(XSLT, ea, z), nb = mkBin(XSLT, eb, z), nr = mkBin(XSLT, r, z); E ov = op == XADD ? mkBin(XAND, mkBin(XEQ, na, nb), mkBin(XXOR, na, nr)) : mkBin(XAND, mkBin(XXOR, na, nb), mkBin(XXOR, na, nr)); F->r[I.dst] = fromE(r); F->r[I.dst + 1] = fromE(ov); }
				else incomplete("symbolic overflow op " + nm); }
			break; }
		case N_MINMAX: { unsigned w = ci.argw[0]; Val a = arg(0), b = arg(1); bool sg = nm[5] == 's', mx = nm[7] == 'a'; XOp lt = sg ? XSLT : XULT; E ea = toE(a, w), eb = toE(b, w); E c = mkBin(lt, ea, eb); ret(fromE(mx ? mkIte(c, eb, ea) : mkIte(c, ea, eb))); break; }
		case N_ABS: { unsigned w = ci.argw[0]; E a = toE(arg(0), w); ret(fromE(mkIte(mkBin(XSLT, a, X.konst(w, 0)), mkBin(XSUB, X.konst(w, 0), a), a))); break; }
		case N_USAT: { unsigned w = ci.argw[0]; E a = toE(arg(0), w), b = toE(arg(1), w); ret(fromE(mkIte(mkBin(XULT, a, b), X.konst(w, 0), mkBin(XSUB, a, b)))); break; }
		case N_CTPOP: ret(CV(__builtin_popcountll(conc(ci.args[0], 64)))); break;
		case N_CLZ: { unsigned w = ci.argw[0]; uint64_t v = conc(ci.args[0], w); ret(CV(v ? __builtin_clzll(v) - (64 - w) : w)); break; }
		case N_CTZ: { unsigned w = ci.argw[0]; uint64_t v = conc(ci.args[0], w); ret(CV(v ? __builtin_ctzll(v) : w)); break; }
		case N_BSWAP: { unsigned w = ci.argw[0]; ret(CV(__builtin_bswap64(conc(ci.args[0], w)) >> (64 - w))); break; }
		case N_FSH: { unsigned w = ci.argw[0]; uint64_t a = conc(ci.args[0], w), b = conc(ci.args[1], w), s = conc(ci.args[2], w) % w; bool l = nm[8] == 'l'; ret(CV((!s ? (l ? a : b) : l ? (a << s) | (b >> (w - s)) : (b >> s) | (a << (w - s))) & maskw(w))); break; }
		default: incomplete("unmodelled intrinsic " + nm);
		}
		finish();
	}

	void step() {
		Func* fn = F->f; const Ins& I = fn->code[F->pc]; fn->hit[F->pc] = 1; ++F->pc; ++S->ic; ++ST.ins;
		switch (I.op) {
		case I_BIN: { Val a = get(I.a), b = get(I.b); if (!a.e && !b.e) { XOp op = (XOp)I.sub; if (b.c == 0 && op >= XUDIV && op <= XSREM) violation("trap", "division by zero"); F->r[I.dst] = CV(foldBin(op, I.w, a.c, b.c)); break; }
			XOp op = (XOp)I.sub; if (op >= XUDIV && op <= XSREM && b.e) { E z = mkBin(XEQ, b.e, X.konst(I.w, 0)); std::shared_ptr<Model> m; if (feasible(z, m)) violation("trap", "division by zero", m.get()); }
			F->r[I.dst] = fromE(mkBin(op, toE(a, I.w), toE(b, I.w))); break; }
		case I_CMP: { Val a = get(I.a), b = get(I.b); auto p = (CmpInst::Predicate)I.sub; unsigned w = I.w;
			if (!a.e && !b.e) { bool r; uint64_t x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w); switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; } F->r[I.dst] = CV(r); break; }
			E x = toE(a, w), y = toE(b, w), r; switch (p) { case CmpInst::ICMP_EQ: r = mkBin(XEQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(XEQ, x, y)); break; case CmpInst::ICMP_UGT: r = mkBin(XULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(XULE, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(XULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(XULE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(XSLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(XSLE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(XSLT, x, y); break; default: r = mkBin(XSLE, x, y); }
			F->r[I.dst] = fromE(r); break; }
		case I_ZEXT: { Val a = get(I.a); F->r[I.dst] = a.e ? fromE(mkZext(a.e, I.w)) : CV(a.c & maskw(I.w2)); break; }
		case I_SEXT: { Val a = get(I.a); F->r[I.dst] = a.e ? fromE(mkSext(a.e, I.w)) : CV((uint64_t)sextw(a.c, I.w2) & maskw(I.w)); break; }
		case I_TRUNC: { Val a = get(I.a); F->r[I.dst] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : CV(a.c & maskw(I.w)); break; }
		case I_COPY: F->r[I.dst] = get(I.a); break;
		case I_SELECT: { Val c = get(I.a); if (!c.e) { F->r[I.dst] = (c.c & 1) ? get(I.b) : get(I.c); break; } Val a = get(I.b), b = get(I.c); F->r[I.dst] = fromE(mkIte(c.e, toE(a, I.w), toE(b, I.w))); break; }
		case I_LOAD: { uint64_t a = conc(I.a, 64); const auto& cs = fn->comps[I.x];
			if (I.atomic) { fairSite(I); bool stut = spinCheck(I, a, I.w, true); if (stut && T->spCnt >= 40) { T->status = T_SPIN; T->wa = a; T->ww = I.w; T->wv = T->spVal; --F->pc; T->spCnt = 0; T->passed = SCHED_SITES.count(I.site) != 0; blockSwitch(); }
				if (SCHED_SITES.count(I.site)) point(stut); look(a, (I.w + 7) / 8, false, "atomic read"); Val v = load(a, I.w); spinNote(I, a, I.w, v); noteAtomic(a, (I.w + 7) / 8, false, true, I, true); F->r[I.dst] = v; break; }
			if (S->multi) { if (SCHED_SITES.count(I.site)) point(false); for (auto& c : cs) { look(a + c.off, (c.w + 7) / 8, false, "read"); noteAccess(a + c.off, (c.w + 7) / 8, false, false, I); } }
			if (I.n == 1) F->r[I.dst] = load(a, I.w); else for (unsigned k = 0; k < I.n; ++k) F->r[I.dst + k] = load(a + cs[k].off, cs[k].w); break; }
		case I_STORE: { uint64_t a = conc(I.a, 64) + I.c.c; if (I.atomic) { T->spCnt = 0; if (SCHED_SITES.count(I.site)) point(false); look(a, (I.w + 7) / 8, true, "atomic write"); noteAtomic(a, (I.w + 7) / 8, true, false, I, true); store(a, get(I.b), I.w); break; }
			if (S->multi) { if (SCHED_SITES.count(I.site)) { T->spCnt = 0; point(false); } look(a, (I.w + 7) / 8, true, "write"); noteAccess(a, (I.w + 7) / 8, true, false, I); }
			store(a, get(I.b), I.w); break; }
		case I_GEP: { Val b = get(I.a); uint64_t off = I.c.c; E es = nullptr; const auto& g = fn->geps[I.x]; const auto& ws = fn->gepw[I.x]; for (unsigned k = 0; k < I.n; ++k) { Val v = get(g[k].first); if (!v.e) off += (uint64_t)sextw(v.c, ws[k]) * g[k].second; else { E t = mkBin(XMUL, mkSext(v.e, 64), X.konst(64, g[k].second)); es = es ? mkBin(XADD, es, t) : t; } }
			if (!b.e && !es) F->r[I.dst] = CV(b.c + off); else { E r = toE(b, 64); if (es) r = mkBin(XADD, r, es); F->r[I.dst] = fromE(mkBin(XADD, r, X.konst(64, off))); } break; }
		case I_ALLOCA: { uint64_t n = conc(I.a, 64); uint64_t a = S->m.alloc(S->cur, n * I.c.c, K_STACK, I.I, 0); F->al.push_back(a); F->r[I.dst] = CV(a); break; }
		case I_BR: take(I.x); break;
		case I_CBR: { Val c = get(I.a); bool v; if (!c.e) v = c.c & 1; else v = branch(c.e, [&](bool x) { take(x ? I.x : I.dst); }); take(v ? I.x : I.dst); break; }
		case I_SWITCH: { Val c = get(I.a); const auto& sw = fn->sws[I.x]; if (!c.e) { uint32_t e = sw.def; for (auto& k : sw.cases) if (k.first == c.c) { e = k.second; break; } take(e); break; }
			std::map<uint32_t, E> tgt; E any = X.konst(1, 0); for (auto& k : sw.cases) { E q = mkBin(XEQ, c.e, X.konst(sw.w, k.first)); any = mkBin(XOR_, any, q); auto it = tgt.find(k.second); if (it == tgt.end()) tgt[k.second] = q; else it->second = mkBin(XOR_, it->second, q); }
			{ E q = mkNot(any); auto it = tgt.find(sw.def); if (it == tgt.end()) tgt[sw.def] = q; else it->second = mkBin(XOR_, it->second, q); }
			uint32_t mine = ~0u; E me = nullptr; const PC* basepc = S->pc; (void)basepc;
			std::vector<std::pair<uint32_t, E>> rest; for (auto& t : tgt) { if (mine == ~0u && EV.eval(t.second, *S->mod)) { mine = t.first; me = t.second; } else rest.push_back(t); }
			for (auto& t : rest) { std::shared_ptr<Model> m; if (feasible(t.second, m)) { State* n = fork(); n->mod = m; addPC(n, t.second); State* sv = S; S = n; sync(); take(t.first); S = sv; sync(); WORK.push_back(n); } }
			addPC(S, me); take(mine); break; }
		case I_RET: { Val rv[16]; unsigned n = I.n; if (n > 16) die("ret too wide"); for (unsigned k = 0; k < n; ++k) rv[k] = get(fn->geps[I.x][k].first); const CallInfo* ci = F->call; uint32_t dst = F->dst; popFrame(); if (!F) { threadDone(); }
			if (ci) { if (dst != ~0u) for (unsigned k = 0; k < n && k < ci->nret; ++k) F->r[dst + k] = rv[k]; if (ci->invoke) take(ci->normalEdge); } break; }
		case I_CALL: { const CallInfo& ci = fn->calls[I.x]; Func* g = ci.f; if (ci.indirect) { uint64_t a = conc(ci.target, 64); if (a < FBASE || (a - FBASE) % 16 || (a - FBASE) / 16 >= FV.size()) { char b[96]; snprintf(b, 96, "call through invalid function pointer 0x%llx", (unsigned long long)a); violation("memory", b); } g = FV[(a - FBASE) / 16]; }
			if (g->intr) { intrinsic(g, I, ci); break; }
			if (S->multi && SCHED_SITES.count(I.site)) point(false);
			Val av[32]; unsigned n = ci.args.size(); if (n > 32) die("too many args"); for (unsigned k = 0; k < n; ++k) av[k] = get(ci.args[k]);
			pushFrame(g, av, n, &ci, I.dst); break; }
		case I_UNREACH: violation("trap", "unreachable code reached", nullptr, I.I);
		case I_CMPXCHG: { fairSite(I); uint64_t a = conc(I.a, 64); bool stut = spinCheck(I, a, I.w, true); if (stut && T->spCnt >= 40) { T->status = T_SPIN; T->wa = a; T->ww = I.w; T->wv = T->spVal; --F->pc; T->spCnt = 0; T->passed = SCHED_SITES.count(I.site) != 0; blockSwitch(); }
			if (SCHED_SITES.count(I.site)) point(stut); look(a, (I.w + 7) / 8, true, "atomic update"); Val old = load(a, I.w); Val exp = get(I.b); bool ok; if (!old.e && !exp.e) ok = old.c == exp.c; else ok = branch(mkBin(XEQ, toE(old, I.w), toE(exp, I.w)), [&](bool x) { noteAtomic(a, (I.w + 7) / 8, true, true, I, x); F->r[I.dst] = old; F->r[I.dst + 1] = CV(x); if (x) store(a, get(I.c), I.w); });
			noteAtomic(a, (I.w + 7) / 8, true, true, I, ok); if (ok) { T->spCnt = 0; store(a, get(I.c), I.w); } else spinNote(I, a, I.w, old); F->r[I.dst] = old; F->r[I.dst + 1] = CV(ok); break; }
		case I_RMW: { fairSite(I); uint64_t a = conc(I.a, 64); T->spCnt = 0; if (SCHED_SITES.count(I.site)) point(false); look(a, (I.w + 7) / 8, true, "atomic update"); noteAtomic(a, (I.w + 7) / 8, true, true, I, true); Val old = load(a, I.w); E o = toE(old, I.w), v = toE(get(I.b), I.w), r; switch ((AtomicRMWInst::BinOp)I.sub) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = mkBin(XADD, o, v); break; case AtomicRMWInst::Sub: r = mkBin(XSUB, o, v); break; case AtomicRMWInst::And: r = mkBin(XAND, o, v); break; case AtomicRMWInst::Or: r = mkBin(XOR_, o, v); break; case AtomicRMWInst::Xor: r = mkBin(XXOR, o, v); break; default: incomplete("atomicrmw op"); }
			store(a, fromE(r), I.w); F->r[I.dst] = old; break; }
		case I_FENCE: break;
		case I_LPAD: break;
		case I_RESUME: unwind(conc(I.a, 64));
		case I_FBIN: F->r[I.dst] = fpbin(I.sub, I.w, conc(I.a, I.w), conc(I.b, I.w)); break;
		case I_FNEG: F->r[I.dst] = CV(conc(I.a, I.w) ^ (1ull << (I.w - 1))); break;
		case I_FCMP: { uint64_t a = conc(I.a, I.w), b = conc(I.b, I.w); double x, y; if (I.w == 64) { memcpy(&x, &a, 8); memcpy(&y, &b, 8); } else { float p, q; memcpy(&p, &a, 4); memcpy(&q, &b, 4); x = p; y = q; } bool un = x != x || y != y; bool r = false; switch ((CmpInst::Predicate)I.sub) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; default: incomplete("fcmp"); } F->r[I.dst] = CV(r); break; }
		case I_FPCAST: { uint64_t a = conc(I.a, I.w2); auto out = [&](double d) { if (I.w == 64) { uint64_t u; memcpy(&u, &d, 8); return u; } float g = d; uint32_t u; memcpy(&u, &g, 4); return (uint64_t)u; }; auto in = [&]() -> double { if (I.w2 == 64) { double d; memcpy(&d, &a, 8); return d; } float g; memcpy(&g, &a, 4); return g; }; switch (I.sub) { case 0: F->r[I.dst] = CV(out((double)a)); break; case 1: F->r[I.dst] = CV(out((double)sextw(a, I.w2))); break; case 2: F->r[I.dst] = CV((uint64_t)in() & maskw(I.w)); break; case 3: F->r[I.dst] = CV((uint64_t)(int64_t)in() & maskw(I.w)); break; default: F->r[I.dst] = CV(out(in())); } break; }
		}
	}
	bool runState(State* s) { // returns after the path ends
		S = s; sync();
		for (;;) {
			try {
				uint32_t lim = 0;
				for (;;) { step(); if (!(++lim & 1023)) { if (S->ic > CF.maxIns) violation("budget", "path exceeded " + std::to_string(CF.maxIns) + " instructions (no termination)"); if (elapsed() > CF.maxTime) { INCOMPLETE = "time limit"; throw PathEnd(); } } }
			} catch (Retry&) { sync(); if (S->ic > CF.maxIns) { try { violation("budget", "path exceeded instruction budget"); } catch (PathEnd&) { return true; } } }
			catch (PathEnd&) { return true; }
		}
	}
};

static void numberSites() { SITEV.push_back(nullptr); for (auto& F : *M) for (auto& B : F) for (auto& I : B) { SITE[&I] = SITEV.size(); SITEV.push_back(&I); } }
static State* initState() {
	State* s = new State; s->mod = std::make_shared<Model>();
	// type_info objects of the C++ runtime (external): word 1 is the mangled name
	std::vector<std::pair<const GlobalVariable*, Constant*>> rtti; { std::vector<GlobalVariable*> l; for (auto& g : M->globals()) if (!g.hasInitializer() && g.getName().startswith("_ZTI")) l.push_back(&g);
		for (auto* g : l) { auto* str = ConstantDataArray::getString(M->getContext(), g->getName().drop_front(4)); auto* nm = new GlobalVariable(*M, str->getType(), true, GlobalValue::PrivateLinkage, str, "rf.zts"); rtti.push_back({g, ConstantStruct::getAnon({ConstantPointerNull::get(PointerType::get(M->getContext(), 0)), nm})}); } }
	for (auto& g : M->globals()) { if (g.isThreadLocal()) { TLSI[&g] = TLSV.size(); TLSV.push_back(&g); continue; } uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8; if (!g.hasInitializer() && g.getName().startswith("_ZTI")) sz = 16; GA[&g] = s->m.alloc(6, std::max<uint64_t>(sz, 1), K_GLOBAL, nullptr, 0); }
	for (auto& g : M->globals()) { if (g.isThreadLocal() || !g.hasInitializer()) continue; Obj* o = s->m.own(GA[&g] >> 24); Exec::initObj(o, g.getInitializer(), 0); }
	for (auto& r : rtti) Exec::initObj(s->m.own(GA[r.first] >> 24), r.second, 0);
	for (auto& g : M->globals()) if (!g.isThreadLocal() && g.isConstant() && g.hasInitializer()) s->m.own(GA[&g] >> 24)->ro = true;
	s->th.reserve(MAXT); s->th.emplace_back(); s->th[0].vc.c[0] = 1; s->th[0].sj.c[0] = 1; return s;
}
static void collectLabels(const Function* F, std::set<const Function*>& seen) { // rf_reach labels statically reachable from the entry inside harness code
	if (!seen.insert(F).second) return;
	for (auto& B : *F) for (auto& I : B) { if (auto* C = dyn_cast<CallBase>(&I)) { if (auto* G = C->getCalledFunction()) { if (G->getName() == "rf_reach") { if (auto* gv = dyn_cast<GlobalVariable>(C->getArgOperand(0)->stripPointerCasts())) if (auto* cd = dyn_cast<ConstantDataArray>(gv->getInitializer())) ALLLABELS.insert(cd->getAsCString().str()); } }
		}
		for (auto& O : I.operands()) if (auto* G = dyn_cast<Function>(O.get()->stripPointerCasts())) if (!G->isDeclaration()) collectLabels(G, seen); }
}
static void dumpInputs(FILE* o, const std::vector<std::pair<std::string, uint64_t>>& in) { fprintf(o, "["); for (size_t i = 0; i < in.size(); ++i) fprintf(o, "%s[\"%s\",%llu]", i ? "," : "", jesc(in[i].first).c_str(), (unsigned long long)in[i].second); fprintf(o, "]"); }
static void dumpSched(FILE* o, const std::vector<std::array<uint32_t, 3>>& v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); ++i) fprintf(o, "%s[%u,%u,%u]", i ? "," : "", v[i][0], v[i][1], v[i][2]); fprintf(o, "]"); }
static void dumpLog(FILE* o, const std::vector<uint64_t>& v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); ++i) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)v[i]); fprintf(o, "]"); }

static int runMain() {
	T0 = std::chrono::steady_clock::now(); rng = CF.seed * 0x9E3779B97F4A7C15ull + 12345; Solver sv; SV = &sv; numberSites();
	State* base = initState(); Exec ex; const Function* EF = M->getFunction(CF.entry); if (!EF || EF->isDeclaration()) die("no entry " + CF.entry);
	{ std::set<const Function*> seen; collectLabels(EF, seen); }
	// global constructors, then entry: run constructors concretely on the base state
	std::vector<std::pair<uint64_t, const Function*>> ctors; if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	// build a call chain: push entry first, then ctors in reverse so that they run before it
	ex.S = base; ex.T = &base->th[0]; ex.pushFrame(getFunc(EF), nullptr, 0, nullptr, ~0u); 
	for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) { ex.pushFrame(getFunc(it->second), nullptr, 0, nullptr, ~0u); }
	unsigned iter = 0; std::set<uint32_t> seed; if (!CF.sitesIn.empty()) { std::ifstream f(CF.sitesIn); uint32_t x; while (f >> x) SCHED_SITES.insert(x); }
	for (;; ++iter) {
		newSites.clear(); WORK.clear(); SEEN.clear(); SAMPLES.clear(); ST.paths = ST.assumed = ST.pruned = 0; LABELS.clear();
		ex.S = base; State* s0 = new State(*base); WORK.push_back(s0); bool stop = false;
		while (!WORK.empty() && !stop) {
			State* s = WORK.back(); WORK.pop_back(); ex.runState(s); delete ex.S;
			if (!VIOLS.empty() || !INCOMPLETE.empty()) stop = true;
			if (ST.paths > CF.maxPaths) { INCOMPLETE = "path limit"; stop = true; }
			if (!newSites.empty()) stop = true;
		}
		for (auto* s : WORK) delete s; WORK.clear();
		if (!VIOLS.empty() || !INCOMPLETE.empty()) break;
		if (newSites.empty()) break;
		SCHED_SITES.insert(newSites.begin(), newSites.end()); ++ST.restarts; if (ST.restarts > 500) { INCOMPLETE = "site fixpoint did not converge"; break; }
	}
	FILE* o = fopen(CF.out.c_str(), "w"); if (!o) die("cannot write " + CF.out);
	std::vector<std::string> vac; for (auto& l : ALLLABELS) if (!LABELS.count(l)) vac.push_back(l);
	std::string status = !VIOLS.empty() ? "violation" : !INCOMPLETE.empty() ? "incomplete" : "ok";
	fprintf(o, "{\"entry\":\"%s\",\"status\":\"%s\",\"incomplete\":\"%s\",", CF.entry.c_str(), status.c_str(), jesc(INCOMPLETE).c_str());
	fprintf(o, "\"paths\":%llu,\"assumed_away\":%llu,\"pruned\":%llu,\"instructions\":%llu,\"forks\":%llu,\"sched_forks\":%llu,\"checks\":%llu,\"sym_checks\":%llu,\"concretized\":%llu,\"events\":%llu,\"restarts\":%llu,\"queries\":%llu,\"solved\":%llu,\"q_sat\":%llu,\"q_unsat\":%llu,\"q_unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"symbolic_vars\":%zu,\"sites\":%zu,\"race_sites\":%zu,\"preempt\":%u,",
		(unsigned long long)ST.paths, (unsigned long long)ST.assumed, (unsigned long long)ST.pruned, (unsigned long long)ST.ins, (unsigned long long)ST.forks, (unsigned long long)ST.schedForks, (unsigned long long)ST.checks, (unsigned long long)ST.symChecks, (unsigned long long)ST.concretized, (unsigned long long)ST.events, (unsigned long long)ST.restarts, (unsigned long long)sv.queries, (unsigned long long)sv.solved, (unsigned long long)sv.sat, (unsigned long long)sv.unsat, (unsigned long long)sv.unknown, sv.secs, sv.maxq, elapsed(), X.vars.size(), SCHED_SITES.size(), RACE_SITES.size(), CF.preempt);
	fprintf(o, "\"labels\":{"); { bool f = true; for (auto& l : LABELS) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); f = false; } } fprintf(o, "},\"unreached\":["); for (size_t i = 0; i < vac.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(vac[i]).c_str()); fprintf(o, "],");
	// functions and lines executed
	std::set<std::string> fns; std::map<std::string, std::set<unsigned>> lines; for (auto* f : FV) for (size_t i = 0; i < f->hit.size(); ++i) if (f->hit[i] && f->code[i].I) { if (DILocation* d = f->code[i].I->getDebugLoc()) { for (DILocation* q = d; q; q = q->getInlinedAt()) { std::string fl = q->getFilename().str(); if (fl.find("/repo/") != std::string::npos || fl.find("librf") != std::string::npos || fl.find("source/") != std::string::npos) { if (auto* sp = q->getScope()->getSubprogram()) { std::string n = sp->getLinkageName().str(); if (n.empty()) n = sp->getName().str(); fns.insert(demangle(n)); } lines[fl].insert(q->getLine()); } } } }
	fprintf(o, "\"functions\":["); { bool f = true; for (auto& n : fns) { fprintf(o, "%s\"%s\"", f ? "" : ",", jesc(n).c_str()); f = false; } } fprintf(o, "],\"lines\":{"); { bool f = true; for (auto& l : lines) { fprintf(o, "%s\"%s\":[", f ? "" : ",", jesc(l.first).c_str()); bool g = true; for (auto n : l.second) { fprintf(o, "%s%u", g ? "" : ",", n); g = false; } fprintf(o, "]"); f = false; } } fprintf(o, "},");
	fprintf(o, "\"races\":["); { bool f = true; for (auto& p : ex.racePairs) { fprintf(o, "%s\"%s | %s\"", f ? "" : ",", jesc(locOf(SITEV[p.first]) + " " + fnOf(SITEV[p.first])).c_str(), jesc(locOf(SITEV[p.second]) + " " + fnOf(SITEV[p.second])).c_str()); f = false; } } fprintf(o, "],\"site_list\":["); { bool f = true; for (auto s : SCHED_SITES) { fprintf(o, "%s%u", f ? "" : ",", s); f = false; } } fprintf(o, "],");
	fprintf(o, "\"samples\":["); for (size_t i = 0; i < SAMPLES.size(); ++i) { fprintf(o, "%s{\"inputs\":", i ? "," : ""); dumpInputs(o, SAMPLES[i].inputs); fprintf(o, ",\"sched\":"); dumpSched(o, SAMPLES[i].sched); fprintf(o, ",\"log\":"); dumpLog(o, SAMPLES[i].log); fprintf(o, ",\"events\":%u}", SAMPLES[i].events); } fprintf(o, "],");
	fprintf(o, "\"violations\":["); for (size_t i = 0; i < VIOLS.size(); ++i) { auto& v = VIOLS[i]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"inputs\":", i ? "," : "", v.kind.c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str()); dumpInputs(o, v.inputs); fprintf(o, ",\"sched\":"); dumpSched(o, v.sched); fprintf(o, ",\"log\":"); dumpLog(o, v.log); fprintf(o, ",\"events\":%u}", v.events); } fprintf(o, "]}\n"); fclose(o);
	fprintf(stderr, "%s: %s %s paths=%llu pruned=%llu ins=%.1fM forks=%llu queries=%llu solver=%.2fs wall=%.2fs sites=%zu races=%zu restarts=%llu\n", CF.entry.c_str(), status.c_str(), INCOMPLETE.c_str(), (unsigned long long)ST.paths, (unsigned long long)ST.pruned, ST.ins / 1e6, (unsigned long long)ST.forks, (unsigned long long)sv.queries, sv.secs, elapsed(), SCHED_SITES.size(), RACE_SITES.size(), (unsigned long long)ST.restarts);
	for (auto& v : VIOLS) { fprintf(stderr, "  VIOL %s: %s @ %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); if (CF.verbose) { fprintf(stderr, "%s", v.stack.c_str()); for (auto& p : v.inputs) fprintf(stderr, "   %s=%llu\n", p.first.c_str(), (unsigned long long)p.second); for (auto& q : v.sched) fprintf(stderr, "   sched ev%u->t%u k%u\n", q[0], q[1], q[2]); } }
	if (CF.verbose) for (auto& p : ex.racePairs) fprintf(stderr, "  RACE %s (%s) | %s (%s)\n", locOf(SITEV[p.first]).c_str(), fnOf(SITEV[p.first]).c_str(), locOf(SITEV[p.second]).c_str(), fnOf(SITEV[p.second]).c_str());
	fflush(nullptr); _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}

static void writeBC(const char* path) { std::error_code ec; raw_fd_ostream o(path, ec, sys::fs::OF_None); if (ec) die(path); WriteBitcodeToFile(*M, o); }
static int prepMain(const std::vector<std::string>& in, const char* out) { // in[0] already loaded in M; in[1] = support; rest = modules to link
	LLVMContext& C = M->getContext(); SMDiagnostic err;
	for (size_t i = 2; i < in.size(); ++i) { auto m = parseIRFile(in[i], err, C); if (!m) { err.print("rfsym", errs()); return 3; } if (Linker::linkModules(*M, std::move(m))) die("link " + in[i]); }
	std::set<std::string> sup; { auto m = parseIRFile(in[1], err, C); if (!m) { err.print("rfsym", errs()); return 3; } for (auto& F : *m) if (!F.isDeclaration()) { if (F.hasLocalLinkage()) F.setName("rfsup." + F.getName()); sup.insert(F.getName().str()); } for (auto& g : m->globals()) if (g.hasInitializer()) { if (g.hasLocalLinkage()) g.setName("rfsup." + g.getName()); sup.insert(g.getName().str()); }
		std::set<std::string> have; for (auto& F : *M) if (!F.isDeclaration()) have.insert(F.getName().str()); for (auto& g : M->globals()) if (g.hasInitializer()) have.insert(g.getName().str()); for (auto& h : have) sup.erase(h);
		if (Linker::linkModules(*M, std::move(m), Linker::Flags::LinkOnlyNeeded)) die("link support"); }
	for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::StackProtect); F.removeFnAttr(Attribute::StackProtectStrong);
		bool s = sup.count(F.getName().str()) && !F.isDeclaration(); if (s) { F.addFnAttr("rf-support"); if (!F.hasLocalLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::WeakAnyLinkage); } }
		if (s || F.getName().startswith("h_")) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } }
	for (auto& g : M->globals()) if (sup.count(g.getName().str()) && g.hasInitializer()) { g.addAttribute("rf-support"); if (!g.hasLocalLinkage()) { g.setComdat(nullptr); g.setLinkage(GlobalValue::WeakAnyLinkage); } }
	internalizeModule(*M, [](const GlobalValue& g) { return g.getName().startswith("h_") || g.getName() == "llvm.global_ctors" || (isa<Function>(g) && cast<Function>(g).hasFnAttribute("rf-support")) || (isa<GlobalVariable>(g) && cast<GlobalVariable>(g).hasAttribute("rf-support")); });
	PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.MergeFunctions = false;
	PassBuilder pb(nullptr, pto); LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; TargetLibraryInfoImpl tlii(Triple(M->getTargetTriple())); tlii.setUnavailable(LibFunc_bcmp); fam.registerPass([&] { return TargetLibraryAnalysis(tlii); }); pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
	{ ModulePassManager mpm; mpm.addPass(GlobalDCEPass()); mpm.run(*M, mam); } ModulePassManager m2 = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O1); m2.run(*M, mam);
	writeBC(out); fflush(nullptr); _exit(0);
}
static int instrMain(const char* out, const std::string& sites, const std::string& san) {
	numberSites(); std::set<uint32_t> ss; { std::ifstream f(sites); uint32_t x; while (f >> x) ss.insert(x); }
	auto& C = M->getContext(); FunctionCallee pt = M->getOrInsertFunction("__rf_point", Type::getVoidTy(C), Type::getInt32Ty(C));
	for (uint32_t s : ss) { Instruction* I = const_cast<Instruction*>(SITEV[s]); IRBuilder<> b(I); b.CreateCall(pt, {b.getInt32(s)}); }
	static const std::map<std::string, std::string> ren = {{"pthread_mutex_lock", "rf_n_mutex_lock"}, {"pthread_mutex_unlock", "rf_n_mutex_unlock"}, {"pthread_mutex_trylock", "rf_n_mutex_trylock"}, {"sched_yield", "rf_n_sched_yield"}, {"pthread_rwlock_rdlock", "rf_n_rwlock_rdlock"}, {"pthread_rwlock_wrlock", "rf_n_rwlock_wrlock"}, {"pthread_rwlock_tryrdlock", "rf_n_rwlock_tryrdlock"}, {"pthread_rwlock_trywrlock", "rf_n_rwlock_trywrlock"}, {"pthread_rwlock_unlock", "rf_n_rwlock_unlock"}, {"pthread_rwlock_init", "rf_n_rwlock_init"}, {"pthread_cond_clockwait", "rf_n_cond_clockwait"}, {"nanosleep", "rf_n_nanosleep"}};
	{ std::vector<GlobalAlias*> al; for (auto& A : M->aliases()) if (auto* F = dyn_cast<Function>(A.getAliaseeObject())) if (F->hasFnAttribute("rf-support")) al.push_back(&A);
		for (auto* A : al) { auto* T = cast<Function>(A->getAliaseeObject()); Function* D = Function::Create(T->getFunctionType(), GlobalValue::ExternalLinkage, "", M.get()); D->takeName(A); A->replaceAllUsesWith(D); A->eraseFromParent(); } }
	for (auto& F : *M) if (F.hasFnAttribute("rf-support") && !F.isDeclaration()) { if (F.hasLocalLinkage()) continue; F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.removeFnAttr(Attribute::NoInline); F.setComdat(nullptr); }
	for (auto& r : ren) if (auto* F = M->getFunction(r.first)) if (F->isDeclaration()) F->setName(r.second);
	for (auto& g : M->globals()) if (g.hasAttribute("rf-support") && g.hasInitializer() && !g.hasLocalLinkage()) { g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); g.setComdat(nullptr); }
	{ LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam); ModulePassManager mpm; mpm.addPass(GlobalDCEPass()); mpm.run(*M, mam); }
	for (auto& F : *M) { F.setDSOLocal(false); if (san == "asan" && !F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress); if (san == "tsan" && !F.isDeclaration()) F.addFnAttr(Attribute::SanitizeThread); }
	writeBC(out); fflush(nullptr); _exit(0);
}
int main(int argc, char** argv) {
	if (argc < 3) die("usage"); std::string mode = argv[1], mode_ = mode; LLVMContext C; SMDiagnostic err; M = parseIRFile(mode_ == "prep" ? argv[3] : argv[2], err, C); if (!M) { err.print("rfsym", errs()); return 3; } DL = &M->getDataLayout();
	std::string sites, san, outp; int i = 3; std::vector<std::string> ins; if (mode == "prep") { outp = argv[2]; for (int k = 3; k < argc; ++k) ins.push_back(argv[k]); i = argc; } else if (mode != "run") outp = argv[i++];
	for (; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { if (++i >= argc) die("arg " + a); return std::string(argv[i]); };
		if (a == "--no-spin") CF.noSpin = true; else if (a == "--entry") CF.entry = nx(); else if (a == "--out") CF.out = nx(); else if (a == "--max-ins") CF.maxIns = std::stoull(nx()); else if (a == "--max-paths") CF.maxPaths = std::stoull(nx()); else if (a == "--max-time") CF.maxTime = std::stod(nx()); else if (a == "--preempt") CF.preempt = std::stoul(nx()); else if (a == "--fair") CF.fair = std::stoul(nx()); else if (a == "--seed") CF.seed = std::stoull(nx()); else if (a == "--samples") CF.samples = std::stoul(nx()); else if (a == "--no-dedup") CF.dedup = false; else if (a == "--race") CF.raceViolation = true; else if (a == "-v") CF.verbose = true; else if (a == "--sites") { sites = nx(); CF.sitesIn = sites; } else if (a == "--san") san = nx();
		else if (a == "--param") { std::string p = nx(); auto e = p.find('='); CF.params[p.substr(0, e)] = std::stoull(p.substr(e + 1)); } else die("unknown option " + a); }
	if (mode == "prep") return prepMain(ins, outp.c_str()); if (mode == "instr") return instrMain(outp.c_str(), sites, san); if (CF.out.empty()) CF.out = "/dev/null"; return runMain();
}
