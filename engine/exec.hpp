// Abstract evaluation of LLVM IR into the value graph: one pass over the CFG in topological order,
// joins become gated selections, calls are inlined, loops are unfolded while the back edge is feasible.
#pragma once
#include "graph.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <memory>
#include <set>
#include <unordered_set>
using namespace llvm;

typedef std::vector<Id> Val;
struct Cell { Id n; uint32_t idx; };
typedef std::vector<Cell> Cells;
struct Mem { std::map<uint32_t, std::shared_ptr<Cells>> o; };
enum ObjKind { OK_LOCAL, OK_ARG, OK_GLOBAL, OK_FUNC, OK_NULL };
struct ObjMeta { ObjKind kind; uint64_t size, align; bool ro, wo; std::string name; const GlobalVariable *gv = nullptr; const Function *fn = nullptr; int arg = -1; bool dead = false; };
struct PC { std::vector<Id> l; }; // conjunction of 1-bit nodes, sorted
enum EvKind { EV_OOB, EV_ALIGN, EV_WILD, EV_UNREACH, EV_UNKCALL, EV_GWRITE, EV_GREAD, EV_UNSUP, EV_EXTCALL, EV_TABLE, EV_FPENV, EV_HIDDEN, EV_UNAVAIL };
static const char *evname[] = {"out-of-bounds", "misaligned", "wild-pointer", "reaches-end-without-value", "unknown-call", "writes-global", "reads-mutable-global", "unsupported", "external-call", "table-index-out-of-range", "floating-point-environment-changed", "reads-hidden-register", "executes-unavailable-instruction"};
struct Event { EvKind k; std::vector<Id> cond; std::string what; uint32_t loc; };

struct LoopStuff { DominatorTree dt; LoopInfo li; std::vector<BasicBlock *> rpo; std::map<const Loop *, std::vector<BasicBlock *>> region; };

struct Exec {
	Graph &g; Module &M; const DataLayout &DL; Bits &bits;
	std::vector<ObjMeta> objs; std::map<const GlobalValue *, uint32_t> gobj; std::map<uint32_t, std::shared_ptr<Cells>> gcells;
	std::map<const Function *, std::unique_ptr<LoopStuff>> fi;
	std::vector<Event> events; std::vector<PC> pcs; std::vector<std::string> stackNames;
	// location tree
	struct Loc { uint32_t parent; const DILocation *dl; const Function *f; }; std::vector<Loc> locs{{0, nullptr, nullptr}}; std::map<std::tuple<uint32_t, const void *>, uint32_t> locIdx; uint32_t curCall = 0;
	std::set<const Function *> visited; uint64_t ninst = 0; unsigned depth = 0; Val xmm1; std::set<std::string> extcalls, kernels;
	uint64_t budget = 40u * 1000 * 1000;
	Exec(Graph &g, Module &M, Bits &b) : g(g), M(M), DL(M.getDataLayout()), bits(b) {
		objs.push_back({OK_NULL, 0, 1, true, false, "null"});
		bits.tableEntries = [this](uint32_t o, unsigned w) { auto c = gcells.at(o); std::vector<uint64_t> r; for (size_t i = 0; i + w / 8 <= c->size(); i += w / 8) { Id x = assemble(*c, i, w / 8); r.push_back(this->g.isC(x) ? this->g.imm(x) : 0); } return r; };
	}
	[[noreturn]] void fail(const std::string &s) { std::string t = s; for (auto &x : stackNames) t += " <- " + x; throw AnalysisError(t); }
	uint32_t locOf(const Instruction &I) { const DILocation *d = I.getDebugLoc().get(); auto k = std::make_tuple(curCall, d ? (const void *)d : (const void *)I.getFunction()); auto it = locIdx.find(k); if (it != locIdx.end()) return it->second; locs.push_back({curCall, d, I.getFunction()}); return locIdx[k] = locs.size() - 1; }
	std::string locStr(uint32_t l, int maxn = 6) { std::string s; int k = 0; for (; l && k < maxn; l = locs[l].parent) { auto &x = locs[l]; std::string f, fn; unsigned line = 0; if (x.dl) { f = x.dl->getFilename().str(); line = x.dl->getLine(); fn = x.dl->getScope()->getSubprogram() ? x.dl->getScope()->getSubprogram()->getName().str() : ""; } if (f.find("/repo/") == std::string::npos && f.find("dpm/") == std::string::npos) continue; if (!s.empty()) s += " <- "; s += f + ":" + std::to_string(line) + " (" + fn + ")"; ++k; } return s; }
	// ---- path conditions ----
	void pcAdd(PC &p, Id c, bool &dead) { if (g.isC(c)) { if (!g.imm(c)) dead = true; return; } if (g.op(c) == AND) { pcAdd(p, g.kid(c, 0), dead); pcAdd(p, g.kid(c, 1), dead); return; }
		Id nc = g.bnot(c); if (std::binary_search(p.l.begin(), p.l.end(), nc)) { dead = true; return; } auto it = std::lower_bound(p.l.begin(), p.l.end(), c); if (it == p.l.end() || *it != c) p.l.insert(it, c); }
	Id pcNode(const std::vector<Id> &l) { Id r = g.bit(1); for (Id x : l) r = g.band(r, x); return r; }
	std::vector<Id> fullPC() { std::vector<Id> r; for (auto &p : pcs) r.insert(r.end(), p.l.begin(), p.l.end()); return r; }
	void event(EvKind k, const std::string &w, Id extra = 0) { if (events.size() > 4000) return; auto c = fullPC(); if (extra) c.push_back(extra); events.push_back({k, c, w, g.curLoc}); }
	bool feasible() { auto l = fullPC(); if (l.empty()) return true; Edge e = Bdd::T; for (Id x : l) { e = bits.b.and_(e, bits.get(x)[0]); if (e == Bdd::F) return false; } return true; }

	// ---- objects ----
	uint32_t newObj(ObjKind k, uint64_t sz, uint64_t al, const std::string &n) { objs.push_back({k, sz, al, false, false, n}); return objs.size() - 1; }
	Id ptr(uint32_t o, uint64_t off = 0) { return g.mk1(PTR, 64, g.c(64, off), o); }
	std::shared_ptr<Cells> cellsOf(Mem &m, uint32_t o) { auto it = m.o.find(o); if (it != m.o.end()) return it->second; auto &k = gcells[o]; if (!k) fail("no contents for object " + objs[o].name); return k; }
	Cells &mut(Mem &m, uint32_t o) { auto &sp = m.o[o]; if (!sp) { sp = std::make_shared<Cells>(*gcells.at(o)); } else if (sp.use_count() > 1) sp = std::make_shared<Cells>(*sp); return *sp; }
	Id assemble(const Cells &c, uint64_t off, uint64_t nb) {
		if (off + nb > c.size()) fail("assemble range");
		// runs of consecutive bytes of one node
		Id acc = 0; uint64_t i = 0;
		while (i < nb) { const Cell &s = c[off + i]; uint64_t j = i + 1; if (s.n) while (j < nb && c[off + j].n == s.n && c[off + j].idx == s.idx + (j - i)) ++j; else while (j < nb && !c[off + j].n) ++j;
			Id piece = s.n ? g.extract(s.n, s.idx * 8, (j - i) * 8) : g.undef((j - i) * 8); acc = acc ? g.concat(piece, acc) : piece; i = j; }
		return acc;
	}
	uint32_t objOfGlobal(const GlobalValue *gv) {
		auto it = gobj.find(gv); if (it != gobj.end()) return it->second;
		uint32_t o;
		if (auto *F = dyn_cast<Function>(gv)) { o = newObj(OK_FUNC, 0, 1, F->getName().str()); objs[o].fn = F; gobj[gv] = o; return o; }
		auto *V = dyn_cast<GlobalVariable>(gv); if (!V) fail("alias global");
		uint64_t sz = DL.getTypeAllocSize(V->getValueType()); uint64_t al = V->getAlign() ? V->getAlign()->value() : DL.getABITypeAlign(V->getValueType()).value();
		o = newObj(OK_GLOBAL, sz, al, V->getName().str()); objs[o].gv = V; objs[o].ro = V->isConstant(); gobj[gv] = o;
		auto c = std::make_shared<Cells>(sz, Cell{0, 0});
		if (V->hasInitializer() && V->isConstant()) initCells(*c, 0, V->getInitializer());
		else { for (uint64_t i = 0; i < sz; i += 8) { unsigned n = std::min<uint64_t>(8, sz - i); Id l = g.leaf(n * 8, "global:" + objs[o].name + "+" + std::to_string(i), 1); for (unsigned k = 0; k < n; ++k) (*c)[i + k] = {l, k}; } }
		gcells[o] = c; return o;
	}
	void put(Cells &c, uint64_t off, Id v) { unsigned n = g.w(v) / 8; for (unsigned i = 0; i < n; ++i) c[off + i] = {v, i}; }
	void initCells(Cells &c, uint64_t off, const Constant *k) {
		Type *t = k->getType();
		if (isa<UndefValue>(k)) return;
		if (k->isNullValue()) { uint64_t n = DL.getTypeStoreSize(t); for (uint64_t i = 0; i < n; ++i) c[off + i] = {g.c(8, 0), 0}; return; }
		if (auto *ci = dyn_cast<ConstantInt>(k)) { put(c, off, g.c(DL.getTypeStoreSize(t) * 8, ci->getZExtValue())); return; }
		if (auto *cf = dyn_cast<ConstantFP>(k)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) return; put(c, off, g.c(a.getBitWidth(), a.getZExtValue())); return; }
		if (auto *cd = dyn_cast<ConstantDataSequential>(k)) { uint64_t es = DL.getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) initCells(c, off + i * es, cd->getElementAsConstant(i)); return; }
		if (auto *st = dyn_cast<ConstantStruct>(k)) { auto *sl = DL.getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); ++i) initCells(c, off + sl->getElementOffset(i), st->getOperand(i)); return; }
		if (auto *ca = dyn_cast<ConstantAggregate>(k)) { Type *et = ca->getOperand(0)->getType(); uint64_t es = DL.getTypeAllocSize(et); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initCells(c, off + i * es, ca->getOperand(i)); return; }
		Val v = constant(k); if (v.size() == 1) put(c, off, v[0]);
	}
	// ---- types ----
	unsigned bw(Type *t) { if (!t->isSized()) return 0; if (t->isPointerTy()) return 64; return DL.getTypeSizeInBits(t); }
	unsigned flat(Type *t) { if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements(); if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += flat(e); return n; } if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * flat(a->getElementType()); return 1; }
	void undefs(Type *t, Val &o) { if (auto *v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) o.push_back(g.undef(bw(v->getElementType()))); } else if (auto *s = dyn_cast<StructType>(t)) { for (Type *e : s->elements()) undefs(e, o); } else if (auto *a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); ++i) undefs(a->getElementType(), o); } else o.push_back(g.undef(bw(t))); }
	void zeros(Type *t, Val &o) { if (auto *v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) o.push_back(g.c(bw(v->getElementType()), 0)); } else if (auto *s = dyn_cast<StructType>(t)) { for (Type *e : s->elements()) zeros(e, o); } else if (auto *a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); ++i) zeros(a->getElementType(), o); } else o.push_back(g.c(bw(t), 0)); }
	Val constant(const Constant *k) {
		Type *t = k->getType();
		if (isa<UndefValue>(k)) { Val o; undefs(t, o); return o; }
		if (k->isNullValue()) { Val o; zeros(t, o); return o; }
		if (auto *ci = dyn_cast<ConstantInt>(k)) { if (ci->getBitWidth() > 64) { APInt a = ci->getValue(); Id lo = g.c(64, a.extractBitsAsZExtValue(64, 0)); Id hi = g.c(a.getBitWidth() - 64, a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64)); return {g.concat(hi, lo)}; } return {g.c(ci->getBitWidth(), ci->getZExtValue())}; }
		if (auto *cf = dyn_cast<ConstantFP>(k)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) { return {g.concat(g.c(a.getBitWidth() - 64, a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64)), g.c(64, a.extractBitsAsZExtValue(64, 0)))}; } return {g.c(a.getBitWidth(), a.getZExtValue())}; }
		if (auto *cd = dyn_cast<ConstantDataSequential>(k)) { Val o; for (unsigned i = 0; i < cd->getNumElements(); ++i) o.push_back(constant(cd->getElementAsConstant(i))[0]); return o; }
		if (auto *ca = dyn_cast<ConstantAggregate>(k)) { Val o; for (unsigned i = 0; i < ca->getNumOperands(); ++i) { Val e = constant(ca->getOperand(i)); o.insert(o.end(), e.begin(), e.end()); } return o; }
		if (auto *gv = dyn_cast<GlobalValue>(k)) return {ptr(objOfGlobal(gv))};
		if (auto *ce = dyn_cast<ConstantExpr>(k)) {
			if (auto *gp = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (gp->accumulateConstantOffset(DL, off)) return {g.gep(constant(cast<Constant>(gp->getPointerOperand()))[0], g.c(64, off.getZExtValue()))}; }
			if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt) { Val v = constant(cast<Constant>(ce->getOperand(0))); if (v.size() == 1 && g.w(v[0]) == bw(t) && flat(t) == 1) return v; }
		}
		fail("unsupported constant");
	}
	typedef DenseMap<const Value *, Val> Env;
	Val get(Env &e, const Value *v) { if (auto *k = dyn_cast<Constant>(v)) return constant(k); auto it = e.find(v); if (it == e.end()) fail("undefined SSA value " + v->getName().str()); return it->second; }
	Id get1(Env &e, const Value *v) { Val x = get(e, v); if (x.size() != 1) fail("expected scalar"); return x[0]; }

	// ---- memory access ----
	bool check(uint32_t o, Id off, uint64_t nb, uint64_t al, bool wr) {
		ObjMeta &m = objs[o];
		if (m.kind == OK_FUNC || m.kind == OK_NULL) { event(EV_WILD, "access to non-data pointer"); return false; }
		if (m.dead) { event(EV_WILD, "access to expired object " + m.name); return false; }
		if (g.isC(off)) { int64_t x = g.imm(off); if (x < 0 || (uint64_t)x + nb > m.size) { event(EV_OOB, std::string(wr ? "write of " : "read of ") + std::to_string(nb) + " bytes at offset " + std::to_string(x) + " of " + m.name + " (" + std::to_string(m.size) + " bytes)"); return false; }
			uint64_t ga = m.align; if (x) ga = std::min<uint64_t>(ga, (uint64_t)x & -(uint64_t)x); if (ga < al) event(EV_ALIGN, std::to_string(al) + "-byte aligned " + (wr ? "store" : "load") + " at offset " + std::to_string(x) + " of " + m.name + " (alignment " + std::to_string(m.align) + ")"); }
		else { if (nb > m.size) { event(EV_OOB, "access larger than " + m.name); return false; } Id bad = g.ult(g.c(64, m.size - nb), off); event(m.kind == OK_GLOBAL ? EV_TABLE : EV_OOB, std::string(wr ? "write" : "read") + " at computed offset of " + m.name + " (" + std::to_string(m.size) + " bytes)", bad); }
		if (wr && m.ro) event(EV_OOB, "write to read-only " + m.name);
		if (m.kind == OK_GLOBAL && !m.gv->isConstant()) event(wr ? EV_GWRITE : EV_GREAD, m.name);
		return true;
	}
	Id undefB(uint64_t nb) { Id acc = 0; while (nb) { uint64_t k = std::min<uint64_t>(nb, 8); Id u = g.undef(k * 8); acc = acc ? g.concat(u, acc) : u; nb -= k; } return acc; }
	Id load(Mem &m, Id p, uint64_t nb, uint64_t al) {
		switch (g.op(p)) {
		case PTR: { uint32_t o = g.imm(p); Id off = g.kid(p, 0); if (!check(o, off, nb, al, false)) return undefB(nb);
			auto c = cellsOf(m, o); if (g.isC(off)) return assemble(*c, g.imm(off), nb);
			if (objs[o].kind == OK_GLOBAL && objs[o].ro) { return g.table(o, off, nb * 8); }
			if (objs[o].size / nb > 256) fail("symbolic load from a large object");
			Id r = undefB(nb); for (uint64_t i = objs[o].size / nb; i-- > 0;) r = g.ite(g.eq(off, g.c(64, i * nb)), assemble(*c, i * nb, nb), r); return r; }
		case ITE: { Id c = g.kid(p, 0); bool d1 = false, d2 = false; PC s = pcs.back(); pcAdd(pcs.back(), c, d1); Id a = d1 ? undefB(nb) : load(m, g.kid(p, 1), nb, al); pcs.back() = s; pcAdd(pcs.back(), g.bnot(c), d2); Id b = d2 ? undefB(nb) : load(m, g.kid(p, 2), nb, al); pcs.back() = s; return d1 ? b : d2 ? a : g.ite(c, a, b); }
		default: event(EV_WILD, "load through " + g.str(p, 2)); return undefB(nb);
		}
	}
	void store(Mem &m, Id p, Id v, uint64_t al) {
		uint64_t nb = g.w(v) / 8; if (g.w(v) % 8) { v = g.zext(v, (nb + 1) * 8); nb++; }
		switch (g.op(p)) {
		case PTR: { uint32_t o = g.imm(p); Id off = g.kid(p, 0); if (!check(o, off, nb, al, true)) return; if (objs[o].ro) return;
			Cells &c = mut(m, o); if (g.isC(off)) { put(c, g.imm(off), v); return; }
			if (objs[o].size / nb > 256) fail("symbolic store to a large object");
			for (uint64_t i = 0; i < objs[o].size / nb; ++i) { Id old = assemble(c, i * nb, nb); put(c, i * nb, g.ite(g.eq(off, g.c(64, i * nb)), v, old)); } return; }
		case ITE: { Id c = g.kid(p, 0); for (int k = 0; k < 2; ++k) { bool d = false; PC s = pcs.back(); Id cc = k ? g.bnot(c) : c; pcAdd(pcs.back(), cc, d); if (!d) { Id q = g.kid(p, 1 + k); Id old = load(m, q, nb, 1); store(m, q, g.ite(cc, v, old), al); } pcs.back() = s; } return; }
		default: event(EV_WILD, "store through " + g.str(p, 2));
		}
	}
	Val loadT(Mem &m, Id p, Type *t, uint64_t al) {
		if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = bw(vt->getElementType()), n = vt->getNumElements(); if (ew % 8) { Id x = load(m, p, (ew * n + 7) / 8, al); Val r; for (unsigned i = 0; i < n; ++i) r.push_back(g.extract(x, i * ew, ew)); return r; }
			// one bounds/alignment check for the whole access, then lane-wise reads
			if (g.op(p) == PTR && g.isC(g.kid(p, 0))) { uint32_t o = g.imm(p); Id off = g.kid(p, 0); if (!check(o, off, n * ew / 8, al, false)) { Val r; undefs(t, r); return r; } auto c = cellsOf(m, o); Val r; for (unsigned i = 0; i < n; ++i) r.push_back(assemble(*c, g.imm(off) + i * ew / 8, ew / 8)); return r; }
			Id x = load(m, p, n * ew / 8, al); Val r; for (unsigned i = 0; i < n; ++i) r.push_back(g.extract(x, i * ew, ew)); return r; }
		if (t->isAggregateType()) { Val r; aggr(t, 0, [&](Type *e, uint64_t off) { Val v = loadT(m, g.gep(p, g.c(64, off)), e, 1); r.insert(r.end(), v.begin(), v.end()); }); return r; }
		unsigned b = bw(t); Id x = load(m, p, (b + 7) / 8, al); return {g.extract(x, 0, b)};
	}
	void aggr(Type *t, uint64_t off, const std::function<void(Type *, uint64_t)> &f) { if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) aggr(s->getElementType(i), off + sl->getElementOffset(i), f); } else if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); ++i) aggr(a->getElementType(), off + i * es, f); } else f(t, off); }
	void storeT(Mem &m, Id p, Type *t, const Val &v, uint64_t al) {
		if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = bw(vt->getElementType()), n = vt->getNumElements(); if (ew % 8 == 0) {
				if (g.op(p) == PTR && g.isC(g.kid(p, 0))) { uint32_t o = g.imm(p); Id off = g.kid(p, 0); if (!check(o, off, n * ew / 8, al, true) || objs[o].ro) return; Cells &c = mut(m, o); for (unsigned i = 0; i < n; ++i) put(c, g.imm(off) + i * ew / 8, v[i]); return; } }
			Id x = v[0]; for (unsigned i = 1; i < n; ++i) x = g.concat(v[i], x); store(m, p, x, al); return; }
		if (t->isAggregateType()) { size_t k = 0; aggr(t, 0, [&](Type *e, uint64_t off) { unsigned n = flat(e); Val q(v.begin() + k, v.begin() + k + n); k += n; storeT(m, g.gep(p, g.c(64, off)), e, q, 1); }); return; }
		store(m, p, v[0], al);
	}
	void copyMem(Mem &m, Id d, Id s, uint64_t nb, uint64_t ald, uint64_t als) {
		if (!nb) return;
		if (g.op(d) == PTR && g.op(s) == PTR && g.isC(g.kid(d, 0)) && g.isC(g.kid(s, 0))) {
			uint32_t od = g.imm(d), os = g.imm(s); bool a = check(os, g.kid(s, 0), nb, als, false), b = check(od, g.kid(d, 0), nb, ald, true); if (!b || objs[od].ro) return;
			Cells tmp; if (a) { auto c = cellsOf(m, os); tmp.assign(c->begin() + g.imm(g.kid(s, 0)), c->begin() + g.imm(g.kid(s, 0)) + nb); } else tmp.assign(nb, Cell{0, 0});
			Cells &c = mut(m, od); std::copy(tmp.begin(), tmp.end(), c.begin() + g.imm(g.kid(d, 0))); return; }
		Id v = load(m, s, nb, als); store(m, d, v, ald);
	}
	// ---- merging ----
	struct In { PC pc; Mem mem; std::map<const PHINode *, Val> phi; };
	void mergeIns(std::vector<In> &ins, PC &pc, Mem &mem, std::map<const PHINode *, Val> &phi) {
		if (ins.size() == 1) { pc = std::move(ins[0].pc); mem = std::move(ins[0].mem); phi = std::move(ins[0].phi); return; }
		std::vector<Id> common = ins[0].pc.l; for (size_t i = 1; i < ins.size(); ++i) { std::vector<Id> t; std::set_intersection(common.begin(), common.end(), ins[i].pc.l.begin(), ins[i].pc.l.end(), std::back_inserter(t)); common.swap(t); }
		std::vector<Id> sel; for (auto &x : ins) { std::vector<Id> r; std::set_difference(x.pc.l.begin(), x.pc.l.end(), common.begin(), common.end(), std::back_inserter(r)); sel.push_back(pcNode(r)); }
		Id any = g.bit(0); for (Id s : sel) any = g.bor(any, s);
		// multi-way joins (switch, nested ifs): decide tautology in the bit domain when cheap
		if (!g.isC(any) && ins.size() > 2) { }
		pc.l = common; bool dead = false; pcAdd(pc, any, dead);
		auto mux = [&](const std::function<Id(size_t)> &f) { Id r = f(ins.size() - 1); for (size_t i = ins.size() - 1; i-- > 0;) r = g.ite(sel[i], f(i), r); return r; };
		for (auto &kv : ins[0].phi) { Val r; for (size_t k = 0; k < kv.second.size(); ++k) r.push_back(mux([&](size_t i) { return ins[i].phi.at(kv.first)[k]; })); phi[kv.first] = r; }
		std::set<uint32_t> keys; for (auto &x : ins) for (auto &kv : x.mem.o) keys.insert(kv.first);
		for (uint32_t o : keys) {
			std::vector<std::shared_ptr<Cells>> cs; bool same = true, missing = false;
			for (auto &x : ins) { auto it = x.mem.o.find(o); std::shared_ptr<Cells> c = it != x.mem.o.end() ? it->second : (gcells.count(o) ? gcells[o] : nullptr); if (!c) { missing = true; } cs.push_back(c); if (c != cs[0]) same = false; }
			if (missing) { for (auto &c : cs) if (c) { /* object exists on one path only: contents undefined elsewhere */ for (auto &d : cs) if (!d) d = std::make_shared<Cells>(c->size(), Cell{0, 0}); break; } same = false; }
			if (same) { mem.o[o] = cs[0]; continue; }
			auto out = std::make_shared<Cells>(*cs[0]); size_t sz = out->size();
			for (size_t i = 0; i < sz;) {
				bool eqc = true; for (auto &c : cs) if ((*c)[i].n != (*cs[0])[i].n || (*c)[i].idx != (*cs[0])[i].idx) { eqc = false; break; }
				if (eqc) { ++i; continue; }
				bool anyUninit = false; for (auto &c : cs) if (!(*c)[i].n) anyUninit = true;
				// widest run that is consecutive in every input
				size_t j = i + 1; while (j < sz && j - i < 8) { bool ok = true; for (auto &c : cs) { const Cell &a = (*c)[i], &b = (*c)[j]; if (a.n ? !(b.n == a.n && b.idx == a.idx + (j - i)) : b.n != 0) { ok = false; break; } } if (!ok) break; ++j; }
				(void)anyUninit; Id r = mux([&](size_t q) { return assemble(*cs[q], i, j - i); }); for (size_t k = i; k < j; ++k) (*out)[k] = {r, (uint32_t)(k - i)}; i = j; }
			mem.o[o] = out;
		}
	}
	LoopStuff &info(Function &F) {
		auto &p = fi[&F]; if (p) return *p; p = std::make_unique<LoopStuff>(); p->dt.recalculate(F); p->li.analyze(p->dt);
		ReversePostOrderTraversal<Function *> r(&F); for (BasicBlock *b : r) p->rpo.push_back(b);
		for (BasicBlock *b : p->rpo) { Loop *l = p->li.getLoopFor(b); if (l && l->getHeader() == b) { p->region[l->getParentLoop()].push_back(b); p->region[l].insert(p->region[l].begin(), b); } else p->region[l].push_back(b); }
		return *p;
	}
	struct Frame { Function *F; LoopStuff *ls; Env env; std::map<BasicBlock *, std::vector<In>> in; std::map<BasicBlock *, std::vector<In>> back; std::vector<In> rets; std::vector<Val> retv; std::vector<uint32_t> allocas; uint32_t callLoc; };

	void edge(Frame &f, BasicBlock *from, BasicBlock *to, const PC &pc, const Mem &m) {
		In x; x.pc = pc; x.mem = m; for (PHINode &p : to->phis()) x.phi[&p] = get(f.env, p.getIncomingValueForBlock(from));
		Loop *l = f.ls->li.getLoopFor(to);
		if (l && l->getHeader() == to && l->contains(from)) f.back[to].push_back(std::move(x)); else f.in[to].push_back(std::move(x));
	}
	void runRegion(Frame &f, Loop *L) {
		for (BasicBlock *b : f.ls->region[L]) {
			Loop *bl = f.ls->li.getLoopFor(b);
			if (bl != L) { runLoop(f, bl); continue; }
			auto it = f.in.find(b); if (it == f.in.end() || it->second.empty()) continue;
			std::vector<In> ins = std::move(it->second); f.in.erase(it); runBlock(f, b, ins);
		}
	}
	void runLoop(Frame &f, Loop *L) {
		BasicBlock *h = L->getHeader(); unsigned sym = 0;
		for (unsigned iter = 0;; ++iter) {
			auto it = f.in.find(h); if (it == f.in.end() || it->second.empty()) return;
			runRegion(f, L);
			std::vector<In> bk = std::move(f.back[h]); f.back.erase(h); if (bk.empty()) return;
			if (iter > 8192) fail("loop bound exceeded");
			bool cst = true; for (auto &x : bk) if (!x.pc.l.empty()) cst = false;
			if (!cst) { if (++sym > 80) fail("data-dependent loop bound exceeded"); if (sym > 1) { bool feas = false; for (auto &x : bk) { pcs.push_back(x.pc); if (feasible()) feas = true; pcs.pop_back(); } if (!feas) return; } }
			f.in[h] = std::move(bk);
		}
	}
	void runBlock(Frame &f, BasicBlock *b, std::vector<In> &ins) {
		PC pc; Mem m; std::map<const PHINode *, Val> phi; mergeIns(ins, pc, m, phi);
		for (auto &kv : phi) f.env[kv.first] = kv.second;
		pcs.push_back(pc);
		for (Instruction &I : *b) {
			if (isa<PHINode>(I)) continue;
			if (++ninst > budget) fail("instruction budget exceeded");
			g.curLoc = locOf(I);
			if (I.isTerminator()) { term(f, b, I, m); break; }
			bool cont = inst(f, I, m);
			if (!cont) break;
		}
		pcs.pop_back();
	}
	void term(Frame &f, BasicBlock *b, Instruction &I, Mem &m) {
		PC pc = pcs.back();
		if (auto *br = dyn_cast<BranchInst>(&I)) {
			if (br->isUnconditional()) { edge(f, b, br->getSuccessor(0), pc, m); return; }
			Id c = get1(f.env, br->getCondition());
			for (int k = 0; k < 2; ++k) { PC q = pc; bool dead = false; pcAdd(q, k ? g.bnot(c) : c, dead); if (!dead) edge(f, b, br->getSuccessor(k), q, m); }
		} else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
			Id v = get1(f.env, sw->getCondition()); std::map<BasicBlock *, Id> conds; Id none = g.bit(1); std::vector<BasicBlock *> order;
			for (auto &cs : sw->cases()) { Id e = g.eq(v, g.c(g.w(v), cs.getCaseValue()->getZExtValue())); if (!conds.count(cs.getCaseSuccessor())) { order.push_back(cs.getCaseSuccessor()); conds[cs.getCaseSuccessor()] = e; } else conds[cs.getCaseSuccessor()] = g.bor(conds[cs.getCaseSuccessor()], e); none = g.band(none, g.bnot(e)); }
			BasicBlock *d = sw->getDefaultDest(); if (!conds.count(d)) { order.push_back(d); conds[d] = none; } else conds[d] = g.bor(conds[d], none);
			for (BasicBlock *t : order) { PC q = pc; bool dead = false; pcAdd(q, conds[t], dead); if (!dead) edge(f, b, t, q, m); }
		} else if (auto *r = dyn_cast<ReturnInst>(&I)) {
			In x; x.pc = pc; x.mem = m; f.rets.push_back(std::move(x)); f.retv.push_back(r->getReturnValue() ? get(f.env, r->getReturnValue()) : Val{});
		} else if (isa<UnreachableInst>(&I)) { event(EV_UNREACH, "control reaches a point with no defined continuation in " + f.F->getName().str()); }
		else if (auto *iv = dyn_cast<InvokeInst>(&I)) { if (inst(f, I, m)) edge(f, b, iv->getNormalDest(), pcs.back(), m); }
		else fail(std::string("terminator ") + I.getOpcodeName());
	}
	Val call(Function &F, const std::vector<Val> &args, Mem &m, bool &returns) {
		if (depth > 150) fail("call depth");
		visited.insert(&F); LoopStuff &ls = info(F); Frame f; f.F = &F; f.ls = &ls; unsigned i = 0;
		for (Argument &a : F.args()) {
			if (i >= args.size()) fail("argument count");
			if (a.hasByValAttr()) { Type *t = a.getParamByValType(); uint64_t sz = DL.getTypeAllocSize(t); uint32_t o = newObj(OK_LOCAL, sz, std::max<uint64_t>(a.getParamAlign() ? a.getParamAlign()->value() : 1, 1), "byval"); m.o[o] = std::make_shared<Cells>(sz, Cell{0, 0}); f.allocas.push_back(o); copyMem(m, ptr(o), args[i][0], sz, 1, 1); f.env[&a] = {ptr(o)}; }
			else f.env[&a] = args[i];
			++i; }
		++depth; stackNames.push_back(F.getName().str()); uint32_t sc = curCall; curCall = g.curLoc; uint32_t sl = g.curLoc;
		In x; x.mem = std::move(m); f.in[&F.getEntryBlock()].push_back(std::move(x)); runRegion(f, nullptr);
		curCall = sc; g.curLoc = sl; stackNames.pop_back(); --depth;
		if (f.rets.empty()) { returns = false; return {}; }
		returns = true; Val rv; PC pc; Mem mm; std::map<const PHINode *, Val> phi;
		if (f.rets.size() > 1) { for (size_t k = 0; k < f.rets.size(); ++k) f.rets[k].phi[(const PHINode *)nullptr] = f.retv[k]; mergeIns(f.rets, pc, mm, phi); rv = phi[(const PHINode *)nullptr]; }
		else { rv = f.retv[0]; pc = f.rets[0].pc; mm = std::move(f.rets[0].mem); }
		for (uint32_t o : f.allocas) { mm.o.erase(o); objs[o].dead = true; }
		m = std::move(mm); bool dead = false; for (Id l : pc.l) pcAdd(pcs.back(), l, dead);
		return rv;
	}
	bool inst(Frame &f, Instruction &I, Mem &m);
	bool callInst(Frame &f, CallBase &C, Mem &m);
	bool intrinsic(Frame &f, CallBase &C, StringRef nm, Mem &m, Val &out);
	bool libcall(Frame &f, CallBase &C, StringRef nm, Mem &m, Val &out);
};
