// vg: decides probe obligations from LLVM IR by value-graph comparison.
#include "insts.hpp"
#include "acc.hpp"
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <chrono>
#include <sys/resource.h>

enum { P_END, P_IN, P_OUT, P_INOUT, P_MSK_IN, P_MSK_OUT, P_BOOL_IN, P_BOOL_OUT, P_OKARG, P_MSK_INOUT, P_BOOL_INOUT, P_BUF_IN, P_BUF_OUT, P_STATE_OUT, P_IDX_IN };
enum { M_BITS, M_FP, M_FPZ };
enum { FL_SPLAT = 1, FL_NOREF = 2, FL_REASSOC = 4, FL_NEGSYM = 8, FL_EXACT = 16, FL_SPECIAL = 32, FL_ACC = 64 };
struct PArg { unsigned kind, lanes, lb, bytes, align, mode; };
struct Probe { std::string prop, op, type, abi; Function *I, *R; unsigned nargs, flags; std::vector<PArg> a; };

static std::string cstr(const Constant *c) { c = cast<Constant>(c->stripPointerCasts()); if (auto *gv = dyn_cast<GlobalVariable>(c)) if (auto *ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) return ca->getAsCString().str(); return ""; }
static unsigned cint(const Constant *c) { return cast<ConstantInt>(c)->getZExtValue(); }
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else o += c; } return o + "\""; }

static std::map<const Function *, std::unique_ptr<LoopStuff>> g_fi;
static bool eventsOnly = false; // memory and definedness events only: lanes not reached by an undefined value are not compared
struct AccSpec { const char *f; int w; long double k; int lo, hi, neg, dense, stride; double top; uint64_t budget; };
static const AccSpec accSpecs[] = { // permitted error in units of 2^-24 or 2^-53; binades [lo, hi); every binade within +-dense, then one in stride; an end point
#define A(F, K32, K64, LO, HI, NEG, TOP) {F, 32, K32, LO, HI, NEG, 12, 8, TOP, 300000}, {F, 64, K64, LO, HI, NEG, 4, 256, TOP, 1500000},
	A("sin", 24, 24, -60, 6, 1, 0) A("cos", 24, 24, -60, 6, 1, 0) A("tan", 64, 64, -60, 6, 1, 0) A("sincos_sin", 24, 24, -60, 6, 1, 0) A("sincos_cos", 24, 24, -60, 6, 1, 0)
	A("asin", 24, 24, -60, 0, 1, 1) A("acos", 24, 24, -60, 0, 1, 1) A("atan", 24, 24, -60, 100, 1, 0)
	A("log", 24, 24, -9999, 1024, 0, 0) A("log2", 24, 32, -9999, 1024, 0, 0) A("log10", 24, 24, -9999, 1024, 0, 0) {"log1p", 32, 32, -60, 100, 1, 12, 8, 0, 300000}, {"log1p", 64, 32, -60, 1, 1, 4, 64, 0, 1500000},
	A("sqrt", 4, 4, -9999, 1024, 0, 0) A("hypot1", 16, 16, -60, 60, 1, 0) A("hypot3", 16, 16, -60, 60, 1, 0)
#undef A
};
struct Runner {
	Module &M; Graph g; Bdd b; Bits bits; std::ostream &os; bool verbose;
	Runner(Module &M, std::ostream &os, bool v) : M(M), bits(g, b), os(os), verbose(v) {}
	struct Finding { std::string kind, detail, where; };
	Id byteJoin(Exec &X, Cells &c, unsigned off, unsigned n) { return X.assemble(c, off, n); }
	std::string witness(Edge diff) { // one satisfying assignment
		std::map<uint32_t, std::map<unsigned, bool>> asg; Edge e = diff; while (e > 1) { auto &x = b.n[e >> 1]; Edge hi = x.hi ^ (e & 1), lo = x.lo ^ (e & 1); bool v = hi != Bdd::F; auto [leaf, bit] = bits.varInfo[x.var]; asg[leaf][bit] = v; e = v ? hi : lo; }
		std::string s; int k = 0; for (auto &kv : asg) { auto &vl = bits.vleaf[kv.first]; uint64_t val = 0; for (auto &p : kv.second) if (p.second) { val |= 1ull << p.first; } char buf[64]; snprintf(buf, 64, "=0x%llx", (unsigned long long)val); if (k++ > 10) { s += " .."; break; } s += (s.empty() ? "" : ", ") + vl.name + buf; } return s; }
	bool dependsUndef(Edge e) { std::unordered_set<uint32_t> seen; std::vector<uint32_t> st{e >> 1}; while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (!i || !seen.insert(i).second) continue; if (bits.vleaf[bits.varInfo[b.n[i].var].first].undef) return true; st.push_back(b.n[i].hi >> 1); st.push_back(b.n[i].lo >> 1); } return false; }
	std::set<uint32_t> support(Edge e) { std::unordered_set<uint32_t> seen; std::set<uint32_t> s; std::vector<uint32_t> st{e >> 1}; while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (!i || !seen.insert(i).second) continue; s.insert(b.n[i].var); st.push_back(b.n[i].hi >> 1); st.push_back(b.n[i].lo >> 1); } return s; }
	// drop the arms of a gate that the applicability condition rules out
	Id under(Id x, Edge ok) { if (ok == Bdd::T) return x; for (int k = 0; k < 64 && g.op(x) == ITE; ++k) { Edge c = bits.get(g.kid(x, 0))[0]; if (b.and_(ok, b.neg(c)) == Bdd::F) x = g.kid(x, 1); else if (b.and_(ok, c) == Bdd::F) x = g.kid(x, 2); else break; } return x; }
	Edge pcEdge(const std::vector<Id> &l) { Edge e = Bdd::T; for (Id x : l) { e = b.and_(e, bits.get(x)[0]); if (e == Bdd::F) break; } return e; }

	bool reachesUndef(Id v) { std::set<Id> seen; std::vector<Id> st{v}; while (!st.empty()) { Id x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (g.op(x) == UNDEF) return true; for (unsigned i = 0; i < g.n[x].nk; ++i) st.push_back(g.kid(x, i)); } return false; }
	// Lanes and instances whose obligation is the same graph up to a renaming of the input leaves are decided once.
	std::set<std::pair<uint64_t, uint64_t>> proven; uint64_t runNo = 0;
	std::pair<uint64_t, uint64_t> shape(Id vi, Id vr, Id okn, unsigned mode, unsigned nb) {
		uint64_t h0 = 0x243f6a8885a308d3ull, h1 = 0x13198a2e03707344ull; auto put = [&](uint64_t v) { h0 = (h0 ^ v) * 0x9e3779b97f4a7c15ull; h0 ^= h0 >> 29; h1 = (h1 + v) * 0xc2b2ae3d27d4eb4full; h1 ^= h1 >> 31; h1 += h0 << 7 | h0 >> 57; };
		std::unordered_map<Id, uint64_t> no; std::unordered_map<uint64_t, uint64_t> leaf; bool local = false; put(mode); put(nb); put(g.ac * 4 + bits.negsym * 2 + bits.exact + bits.special * 8);
		for (Id root : {vi, vr, okn}) { std::vector<std::pair<Id, unsigned>> st{{root, 0}};
			while (!st.empty()) { auto &[x, i] = st.back(); if (no.count(x)) { put(no[x]); st.pop_back(); continue; } const Node &q = g.n[x]; if (i < q.nk) { Id k = g.kid(x, i++); st.push_back({k, 0}); continue; }
				put(0x100 + q.op); put(q.w); put(q.nk); for (unsigned k = 0; k < q.nk; ++k) put(no[g.kid(x, k)]);
				switch ((Op)q.op) { case LEAF: case UNDEF: { auto it = leaf.emplace(q.imm, leaf.size()).first; put(it->second); put(std::min(g.leaves[q.imm].group, 7u)); put(g.leaves[q.imm].undef); break; } case UF: for (char c : g.names[q.imm]) put(c); break; case TABLE: case PTR: local = true; put(q.imm); break; default: put(q.imm); }
				no[x] = no.size() + 1; st.pop_back(); } put(~0ull); }
		if (local) put(runNo); return {h0, h1}; }
	struct Pending { unsigned i, k; Id vi, vr, okn; unsigned mode, nb; };
	// equal whatever the floating-point results occurring in both are
	bool equalByCut(Id vi, Id vr, Id okn, unsigned mode, unsigned nb) {
		auto reach = [&](Id r) { std::unordered_set<Id> s; std::vector<Id> st{r}; while (!st.empty()) { Id x = st.back(); st.pop_back(); if (!s.insert(x).second) continue; for (unsigned i = 0; i < g.n[x].nk; ++i) st.push_back(g.kid(x, i)); } return s; };
		std::unordered_set<Id> a = reach(vi), c = reach(vr), cut; for (Id x : a) if (c.count(x)) switch (g.op(x)) { case FADD: case FMUL: case FDIV: case FMA: case FSQRT: case FREM: case UF: if (g.w(x) >= 32 && g.w(x) <= 64) cut.insert(x); break; default: break; }
		if (cut.empty()) return false;
		size_t cap = b.cap, n0 = b.n.size(); bool r = false; b.cap = n0 + 1000000;
		try { Bits cb(g, b); cb.tableEntries = bits.tableEntries; cb.exact = bits.exact; cb.negsym = bits.negsym; cb.special = bits.special; cb.cut = &cut; Edge ok = cb.get(okn)[0]; const Bits::V x = cb.get(vi), y = cb.get(vr); bool fp = (mode == M_FP || mode == M_FPZ) && (nb == 4 || nb == 8); Edge excl = b.neg(ok); if (fp) excl = b.or_(excl, b.and_(cb.nanV(x), cb.nanV(y))); if (fp && mode == M_FPZ) excl = b.or_(excl, b.and_(cb.zeroV(x), cb.zeroV(y)));
			r = true; for (size_t z = x.size(); r && z-- > 0;) r = b.or_(excl, b.xnor_(x[z], y[z])) == Bdd::T;
		} catch (AnalysisError &e) { if (std::string(e.what()) != "bit domain too large") throw; r = false; }
		b.cap = cap; if (b.n.size() > n0 + 1000000 || b.n.size() > cap / 2) { b.reset(); bits.reset(); } return r; }
	// false: the bit domain is too large to tell
	bool compare(Exec &X, const Probe &p, unsigned i, unsigned k, Id vi, Id vr, Id okn, unsigned mode, unsigned nb, const std::string &entry, std::vector<Finding> &fs, unsigned &trivial) {
		struct Uncube { Bits &b; bool on; ~Uncube() { if (on) b.cube.clear(); } } uncube{bits, false};
		try {
			Edge oke = bits.get(okn)[0]; if (oke == Bdd::F) return true;
			if (bits.special && oke != Bdd::T && bits.cube.empty()) { // operand bits decided by the condition become constants
				std::map<uint64_t, std::pair<uint64_t, uint64_t>> fx;
				for (uint32_t v : support(oke)) { Edge e = b.v(v); int val = b.and_(oke, e) == Bdd::F ? 0 : b.and_(oke, b.neg(e)) == Bdd::F ? 1 : -1; if (val < 0) continue; auto [leaf, bit] = bits.varInfo[v]; Id nd = bits.vleaf[leaf].node; if (g.op(nd) != LEAF) continue; auto &c = fx.emplace(g.imm(nd), std::make_pair(uint64_t(0), Graph::msk(g.w(nd)))).first->second; c.second &= ~(1ull << bit); if (val) c.first |= 1ull << bit; }
				b.reset(); bits.reset(); bits.cube = fx; uncube.on = true; oke = bits.get(okn)[0]; bits.care = oke; for (auto it = bits.memo.begin(); it != bits.memo.end();) if (g.op(it->first) == LEAF || g.op(it->first) == UNDEF || it->first == okn) ++it; else it = bits.memo.erase(it); }
			vi = under(vi, oke); vr = under(vr, oke); if (vi == vr) { ++trivial; return true; }
			const Bits::V bi = bits.get(vi), br = bits.get(vr);
			bool fp = (mode == M_FP || mode == M_FPZ) && (nb == 4 || nb == 8);
			Edge excl = b.neg(oke), same = Bdd::T;
			if (fp) { Edge nn = b.and_(bits.nanV(bi), bits.nanV(br)); Edge zz = mode == M_FPZ ? b.and_(bits.zeroV(bi), bits.zeroV(br)) : Bdd::F; excl = b.or_(b.or_(nn, zz), excl); }
			for (size_t z = bi.size(); z-- > 0;) { same = b.and_(same, b.or_(excl, b.xnor_(bi[z], br[z]))); if (same == Bdd::F) break; }
			if (same != Bdd::T) { std::string w = X.locStr(g.n[vi].loc); if (w.empty()) w = entry; fs.push_back({dependsUndef(b.neg(same)) ? "undefined-value" : "value", "output " + std::string(1, char('a' + i)) + "[" + std::to_string(k) + "] differs when " + witness(b.neg(same)) + (verbose ? "\n   I=" + g.str(vi, 6) + "\n   R=" + g.str(vr, 6) : ""), w}); }
			return true;
		} catch (AnalysisError &e) { if (std::string(e.what()) != "bit domain too large") throw; b.reset(); bits.reset(); return false; }
	}
	bool refute(Exec &X, const Probe &p, const Pending &q, const std::string &entry, std::vector<Finding> &fs) {
		std::set<uint64_t> lv; std::set<Id> seen; std::vector<Id> st{q.vi, q.vr, q.okn}; while (!st.empty()) { Id x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (g.op(x) == LEAF || g.op(x) == UNDEF) { if (g.w(x) > 1 && g.w(x) <= 64) lv.insert(g.imm(x)); continue; } for (unsigned i = 0; i < g.n[x].nk; ++i) st.push_back(g.kid(x, i)); }
		auto cells = [&](unsigned w) { std::vector<std::pair<uint64_t, uint64_t>> c; uint64_t m = Graph::msk(w), top = 1ull << (w - 1);
			if (w == 32 || w == 64) { unsigned mb = w == 32 ? 23 : 52, bias = w == 32 ? 127 : 1023; for (unsigned e : {0u, 1u, bias - 1, bias, bias + 1, bias + 7, bias + 15, bias + mb - 1, bias + mb, bias + 30, bias + 31, bias + 62, bias + 63, 2 * bias, 2 * bias + 1, bias - 30}) c.push_back({(uint64_t)e << mb, top | 7ull << (mb - 3) | 1}); }
			c.push_back({0, (m ^ (m >> 3)) | (7 & m)}); c.push_back({m & (m >> 3) & ~7ull, (m ^ (m >> 3)) | 7}); return c; };
		std::vector<uint64_t> L(lv.begin(), lv.end()); std::vector<std::vector<std::pair<uint64_t, uint64_t>>> C; for (uint64_t l : L) C.push_back(cells(g.leaves[l].w));
		size_t cap0 = b.cap, tries = 0; bool found = false; unsigned t = 0; auto t0 = std::chrono::steady_clock::now();
		size_t A = C.empty() ? 1 : C[0].size(), B = C.size() > 1 ? C[1].size() : 1, D = C.size() > 2 ? 4 : 1;
		for (size_t d = 0; d < D && !found; ++d) for (size_t a = 0; a < A && !found; ++a) for (size_t c = 0; c < B && !found; ++c) {
			if (++tries > 1500 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 20) { d = D; a = A; break; }
			bits.cube.clear(); for (size_t i = 0; i < L.size(); ++i) bits.cube[L[i]] = C[i][i == 0 ? a : i == 1 ? c : (a * 5 + c * 3 + d * 7 + i) % C[i].size()];
			b.reset(); bits.reset(); b.cap = 300000; size_t n0 = fs.size(); compare(X, p, q.i, q.k, q.vi, q.vr, q.okn, q.mode, q.nb, entry, fs, t); if (fs.size() > n0) found = true; }
		b.cap = cap0; bits.cube.clear(); b.reset(); bits.reset(); return found;
	}

	void accuracy(Exec &X, const Probe &p, Id y, Id x, std::vector<Finding> &fs, std::string &err, unsigned &oblig, const std::string &entry, std::string &stats) {
		Acc a(g, y, x); a.table = bits.tableEntries; Acc::Result res; unsigned mb = a.w == 32 ? 23 : 52; int bias = a.w == 32 ? 127 : 1023; const AccSpec *sp = nullptr; for (auto &q : accSpecs) if (p.op == q.f && (int)a.w == q.w) sp = &q;
		if (!sp) throw AnalysisError("no accuracy specification for " + p.op); const char *ks = getenv("VG_ACCK"); Acc::R kk = sp->k * (ks ? atof(ks) : 1); std::string f = p.op; if (f.substr(0, 6) == "sincos") f = f.substr(7);
		try {
			const int lo = std::max(sp->lo, 2 - bias), hi = std::min(sp->hi, bias + 1);
			for (int s = 0; s <= sp->neg; ++s) { const uint64_t sg = (uint64_t)s << (a.w - 1); const int top = s && f == "log1p" ? -1 : hi;
				for (int e = lo; e < top; ++e) if ((e == lo && sp->lo > -bias) || e == top - 1 || std::abs(e) <= sp->dense || e % sp->stride == 0) a.range(f, kk, (sg >> mb) | (uint64_t)(e + bias), mb, 0, res, sp->budget);
				if (sp->lo < 1 - bias) for (unsigned j = 0; j < mb; ++j) if (j + 1 == mb || j % 16 == 0) a.range(f, kk, (sg >> j) | 1, j, 0, res, sp->budget); } // denormal binades
			if (sp->top) a.range(f, kk, Acc::bits(sp->top, a.w), 0, 0, res, sp->budget); if (sp->neg && sp->top) a.range(f, kk, Acc::bits(-sp->top, a.w), 0, 0, res, sp->budget);
		} catch (Acc::Unsup &u) { err = "accuracy: " + u.what; return; }
		oblig = res.pieces; char b[200]; snprintf(b, 200, "pieces=%llu points=%llu worst=%.3Lf of the allowance at %.17g", (unsigned long long)res.pieces, (unsigned long long)res.points, res.worst, res.at); stats = b; if (getenv("VG_ACC")) fprintf(stderr, "%s %s %s: %s %s\n", p.op.c_str(), p.type.c_str(), p.abi.c_str(), b, res.open.c_str());
		if (!res.bad.empty()) { std::string w = X.locStr(g.n[y].loc); fs.push_back({"accuracy", res.bad, w.empty() ? entry : w}); } else if (!res.open.empty()) err = "accuracy not decided: " + res.open;
	}

	void run(const Probe &p) {
		auto t0 = std::chrono::steady_clock::now(); ++runNo; g.reset(); b.reset(); bits.reset(); g.ac = p.flags & FL_REASSOC; bits.negsym = p.flags & FL_NEGSYM; bits.exact = p.flags & FL_EXACT; bits.special = p.flags & FL_SPECIAL;
		std::vector<Finding> fs; std::string err; unsigned oblig = 0, trivial = 0; uint64_t ninst = 0; std::string srcs; std::string entry; unsigned nfun = 0; std::set<std::string> ext; std::string accStats;
		try {
			Exec X(g, M, bits); X.fi.swap(g_fi); struct Restore { Exec &X; ~Restore() { X.fi.swap(g_fi); } } rst{X};
			std::vector<Cells> init; // common initial contents
			unsigned intGroup = 0; for (auto &a : p.a) if (a.mode != M_BITS && (a.lb == 4 || a.lb == 8)) intGroup = a.lb == 4 ? 4 : 5;
			for (unsigned i = 0; i < p.a.size(); ++i) {
				const PArg &a = p.a[i]; Cells c(a.bytes, Cell{0, 0}); bool msk = a.kind == P_MSK_IN || a.kind == P_MSK_INOUT, bl = a.kind == P_BOOL_IN || a.kind == P_BOOL_INOUT; bool out = a.kind == P_OUT || a.kind == P_MSK_OUT || a.kind == P_BOOL_OUT || a.kind == P_BUF_OUT || a.kind == P_STATE_OUT;
				std::map<unsigned, Id> splat;
				for (unsigned k = 0; (k + 1) * a.lb <= a.bytes && a.lb; ++k) { bool pad = k >= a.lanes; std::string nm = std::string(1, char('a' + i)) + (pad ? ".pad[" : out ? ".old[" : "[") + std::to_string(k) + "]"; Id l;
					if ((p.flags & FL_SPLAT) && !out && splat.count(pad)) l = splat[pad];
					else if (msk) l = g.sext(g.leaf(1, nm, 0, i, k), a.lb * 8); else if (bl) l = g.zext(g.leaf(1, nm, 0, i, k), a.lb * 8);
					else if (a.lb > 8) { l = g.leaf(64, nm, 1, i, k); for (unsigned q = 8; q < a.lb; q += 8) l = g.concat(g.leaf(std::min(8u, a.lb - q) * 8, nm + "+" + std::to_string(q), 1, i, k), l); } else if (a.kind == P_IDX_IN) l = g.zext(g.leaf(32, nm, 0, i, k), a.lb * 8); else l = g.leaf(a.lb * 8, nm, (p.flags & FL_EXACT) && a.mode == M_BITS && !out ? intGroup : 1, i, k);
					splat[pad] = l; for (unsigned q = 0; q < a.lb; ++q) c[k * a.lb + q] = {l, q}; }
				init.push_back(c); }
			auto side = [&](Function *F, Mem &m, std::vector<uint32_t> &ao, bool ref) {
				std::vector<Val> av; for (unsigned i = 0; i < p.a.size(); ++i) { const PArg &a = p.a[i]; uint32_t o = X.newObj(OK_ARG, a.bytes, a.align, std::string("argument ") + char('a' + i)); if (!ref && (a.kind == P_BUF_IN || a.kind == P_IN)) X.objs[o].ro = true; X.objs[o].arg = i; m.o[o] = std::make_shared<Cells>(init[i]); ao.push_back(o); av.push_back({X.ptr(o)}); }
				while (av.size() < F->arg_size()) av.push_back({g.c(64, 0)});
				X.pcs.clear(); X.pcs.push_back({}); X.curCall = 0; bool ret; X.call(*F, av, m, ret); return ret; };
			Mem mr; std::vector<uint32_t> ar; bool rret = true; size_t evR = 0; PC rpc;
			if (p.R) { rret = side(p.R, mr, ar, true); evR = X.events.size(); rpc = X.pcs.back(); }
			std::vector<Pending> pending;
			// per-lane applicability
			std::vector<Id> ok; for (unsigned i = 0; i < p.a.size(); ++i) if (p.a[i].kind == P_OKARG) { auto c = X.cellsOf(mr, ar[i]); for (unsigned k = 0; k < p.a[i].lanes; ++k) { Id v = X.assemble(*c, k, 1); ok.push_back(g.bnot(g.eq(v, g.c(8, 0)))); } }
			// applicability is a conjunction over lanes; only the conjuncts sharing a variable with a condition can matter to it
			std::vector<std::pair<Edge, std::set<uint32_t>>> oks; { std::set<Edge> seen; std::vector<Id> conj; { std::vector<Id> st(ok); while (!st.empty()) { Id x = st.back(); st.pop_back(); if (g.op(x) == AND && g.w(x) == 1) { st.push_back(g.kid(x, 0)); st.push_back(g.kid(x, 1)); } else if (g.op(x) == NOT && g.op(g.kid(x, 0)) == OR) { Id y = g.kid(x, 0), y0 = g.kid(y, 0), y1 = g.kid(y, 1); st.push_back(g.bnot(y0)); st.push_back(g.bnot(y1)); } else conj.push_back(x); } } if (getenv("VG_DUMP")) for (Id o : conj) fprintf(stderr, "OK=%s\n", g.str(o, 6).c_str()); for (Id o : conj) { Edge e = bits.get(o)[0]; if (e == Bdd::F) err = "reference excludes every input"; if (e != Bdd::T && seen.insert(e).second) oks.push_back({e, support(e)}); } }
			auto underOk = [&](Edge c) { if (c == Bdd::F) return c; auto s = support(c); for (auto &o : oks) { bool hit = false; for (uint32_t v : o.second) if (s.count(v)) { hit = true; break; } if (hit) { c = b.and_(c, o.first); if (c == Bdd::F) break; } } return c; };
			for (size_t i = 0; i < evR; ++i) { auto &e = X.events[i]; if (underOk(pcEdge(e.cond)) != Bdd::F) err = "reference: " + std::string(evname[e.k]) + ": " + e.what; }
			if (!rret) err = "reference does not return";
			X.visited.clear();
			Mem mi; std::vector<uint32_t> ai; bool iret = side(p.I, mi, ai, false);
			ninst = X.ninst; nfun = X.visited.size(); ext = X.extcalls;
			for (size_t i = 1; i < X.locs.size() && entry.empty(); ++i) if (X.locs[i].f != p.R) { std::string s = X.locStr(i, 1); if (!s.empty()) { bool under = false; for (uint32_t l = i; l; l = X.locs[l].parent) if (X.locs[l].f == p.I) under = true; if (under) entry = s; } }
			std::set<std::string> files; for (auto *F : X.visited) if (auto *sp = F->getSubprogram()) { std::string fn = sp->getFilename().str(); if (fn.find("dpm/") != std::string::npos) files.insert(fn.substr(fn.find("dpm/"))); } for (auto &s : files) srcs += (srcs.empty() ? "" : ",") + s;
			for (size_t i = evR; i < X.events.size(); ++i) { auto &e = X.events[i]; Edge c = underOk(pcEdge(e.cond)); if (c == Bdd::F) continue; 
				if (e.k == EV_UNKCALL || e.k == EV_UNSUP) { err = std::string(evname[e.k]) + ": " + e.what; continue; }
				std::string w = witness(c); fs.push_back({evname[e.k], e.what + (w.empty() ? "" : " when " + w), X.locStr(e.loc)}); }
			if (!iret) fs.push_back({"no-return", "no path reaches the return", entry});
			else if (p.flags & FL_ACC) { unsigned o = p.a.size(), in = o; for (unsigned i = 0; i < p.a.size(); ++i) { if (p.a[i].kind == P_OUT && o == p.a.size()) o = i; if (p.a[i].kind == P_IN && in == p.a.size()) in = i; } if (o == p.a.size() || in == p.a.size()) throw AnalysisError("accuracy probe without operands");
				auto co = X.cellsOf(mi, ai[o]); accuracy(X, p, X.assemble(*co, 0, p.a[o].lb), init[in][0].n, fs, err, oblig, entry, accStats); }
			else if (p.R) for (unsigned i = 0; i < p.a.size(); ++i) { const PArg &a = p.a[i]; bool out = a.kind == P_OUT || a.kind == P_INOUT || a.kind == P_MSK_OUT || a.kind == P_MSK_INOUT || a.kind == P_BOOL_OUT || a.kind == P_BOOL_INOUT || a.kind == P_BUF_OUT; if (!out) continue;
				auto ci = X.cellsOf(mi, ai[i]), cr = X.cellsOf(mr, ar[i]);
				for (unsigned k = 0; k < a.lanes; ++k) {
					// lanes wider than 64 bits are compared in pieces
					for (unsigned q0 = 0; q0 < a.lb; q0 += 8) { unsigned nb = std::min(8u, a.lb - q0); ++oblig; Id vi = X.assemble(*ci, k * a.lb + q0, nb), vr = X.assemble(*cr, k * a.lb + q0, nb); if (vi == vr || (eventsOnly && !reachesUndef(vi))) { ++trivial; continue; } if (getenv("VG_DUMP")) fprintf(stderr, "I=%s\nR=%s\n", g.str(vi, 12).c_str(), g.str(vr, 12).c_str());
					Id okn = ok.empty() ? g.bit(1) : ok.size() == 1 ? ok[0] : k < ok.size() ? ok[k] : g.bit(1);
					auto sh = shape(vi, vr, okn, a.mode, nb); if (proven.count(sh)) continue; size_t nf = fs.size();
					if (equalByCut(vi, vr, okn, a.mode, nb)) { proven.insert(sh); continue; }
					if (compare(X, p, i, k, vi, vr, okn, a.mode, nb, entry, fs, trivial)) { if (fs.size() == nf) proven.insert(sh); } else pending.push_back({i, k, vi, vr, okn, a.mode, nb});
					if (pending.size() > 4) break; } } }
			// lanes whose difference is too large for one diagram: compare cell by cell of a partition of the operands
			for (auto &q : pending) { if (!refute(X, p, q, entry, fs)) err = "bit domain too large"; else { err.clear(); break; } }
		} catch (AnalysisError &e) { err = e.what(); }
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		std::map<std::string, std::pair<int, Finding>> by; for (auto &f : fs) { auto &q = by[f.kind]; if (!q.first++) q.second = f; }
		std::ostringstream o; o << "{\"prop\":" << js(p.prop) << ",\"op\":" << js(p.op) << ",\"type\":" << js(p.type) << ",\"abi\":" << js(p.abi) << ",\"status\":\"" << (!err.empty() ? "error" : fs.empty() ? "ok" : "viol") << "\",\"obl\":" << oblig << ",\"id\":" << trivial << ",\"inst\":" << ninst << ",\"fun\":" << nfun << ",\"nodes\":" << g.n.size() << ",\"bdd\":" << b.n.size() << ",\"t\":" << dt << ",\"files\":" << js(srcs) << ",\"entry\":" << js(entry);
		if (!err.empty()) o << ",\"error\":" << js(err);
		o << ",\"ext\":["; { bool first = true; for (auto &s : ext) { o << (first ? "" : ",") << js(s); first = false; } } o << "]";
		o << ",\"findings\":["; bool first = true; for (auto &kv : by) { if (!first) o << ","; first = false; o << "{\"kind\":" << js(kv.first) << ",\"n\":" << kv.second.first << ",\"detail\":" << js(kv.second.second.detail) << ",\"where\":" << js(kv.second.second.where) << "}"; } o << "]}\n";
		os << o.str() << std::flush;
		if (verbose) for (auto &f : fs) fprintf(stderr, "%s/%s/%s/%s: %s: %s\n   at %s\n", p.prop.c_str(), p.op.c_str(), p.type.c_str(), p.abi.c_str(), f.kind.c_str(), f.detail.c_str(), f.where.c_str());
	}
};

// Effects of everything the probes reach and of every library function in the module: shared mutable state, atomic and volatile
// accesses, calls outside the library that are not pure, and functions declared pure that touch their caller's memory.
static std::set<const Function *> purity(Module &M, const std::vector<Probe> &ps, std::ostream &o) {
	std::set<const Function *> csr; std::map<std::pair<std::string, std::string>, std::pair<int, std::pair<std::string, std::string>>> fs; size_t nins = 0, nacc = 0; std::set<std::string> ext; std::set<const GlobalVariable *> gvs; std::set<std::string> files;
	auto where = [&](const Function &F, const Instruction *I) { std::string r; if (I && I->getDebugLoc()) { auto *l = I->getDebugLoc().get(); r = l->getFilename().str() + ":" + std::to_string(l->getLine()); } else if (auto *sp = F.getSubprogram()) r = sp->getFilename().str() + ":" + std::to_string(sp->getLine()); std::string n = F.getSubprogram() ? F.getSubprogram()->getName().str() : F.getName().str(); return r + " (" + n + ")"; };
	auto add = [&](const std::string &kind, const std::string &what, const Function &F, const Instruction *I) { auto &q = fs[{kind, what}]; if (!q.first++) q.second = {what, where(F, I)}; };
	static const std::set<std::string> pureExt = {"memcpy", "memmove", "memset", "memcmp", "abort", "_ZSt9terminatev", "__cxa_throw", "__assert_fail", "__clang_call_terminate", "__cxa_begin_catch", "__gxx_personality_v0", "_Unwind_Resume"};
	static const std::set<std::string> libm = [] { std::set<std::string> r; for (const char *n : {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sincos", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "sqrt", "cbrt", "hypot", "erf", "erfc", "tgamma", "lgamma", "ceil", "floor", "trunc", "round", "lround", "llround", "rint", "lrint", "llrint", "nearbyint", "frexp", "ldexp", "scalbn", "scalbln", "modf", "ilogb", "logb", "nextafter", "nexttoward", "copysign", "fabs", "fmod", "remainder", "remquo", "fma", "fmax", "fmin", "fdim"}) { r.insert(n); r.insert(std::string(n) + "f"); r.insert(std::string(n) + "l"); } for (const char *n : {"__isnan", "__isinf", "__finite", "__fpclassify", "__signbit", "isnan", "isinf", "finite"}) { r.insert(n); r.insert(std::string(n) + "f"); } return r; }();
	std::vector<const Function *> st; std::set<const Function *> seen; auto push = [&](const Function *F) { if (seen.insert(F).second) st.push_back(F); };
	// not roots: the assertion reporter (terminates the program) and the processor query object, initialised once before main
	auto assertion = [](const Function &F) { return F.getName().contains("3dpm6detail10assert_err") || F.getName().contains("3dpm6detail11assert_trap"); };
	auto setup = [&](const Function &F) { StringRef n = F.getName(), f = F.getSubprogram()->getFilename(); return assertion(F) || n.contains("3dpm3ext5cpuid") || (f.ends_with("/cpuid.cpp") && (n.starts_with("__cxx_global_var_init") || n.starts_with("_GLOBAL__sub_I"))); };
	for (auto &p : ps) push(p.I);
	for (auto &F : M) if (auto *sp = F.getSubprogram(); sp && !F.isDeclaration() && sp->getFilename().find("/dpm/") != StringRef::npos && !setup(F)) push(&F);
	auto own = [&](const Function &F) { auto *sp = F.getSubprogram(); return sp && sp->getFilename().find("/dpm/") != StringRef::npos; };
	while (!st.empty()) { const Function &F = *st.back(); st.pop_back();
		if (F.isDeclaration() || assertion(F)) continue; if (own(F)) { std::string n = F.getSubprogram()->getFilename().str(); files.insert(n.substr(n.rfind("/dpm/") + 1)); }
		bool none = F.doesNotAccessMemory(), ro = F.onlyReadsMemory();
		for (auto &I : instructions(F)) { if (isa<DbgInfoIntrinsic>(I)) continue; ++nins;
			std::vector<const Value *> ops(I.op_begin(), I.op_end()); std::set<const Value *> vs;
			while (!ops.empty()) { const Value *v = ops.back(); ops.pop_back(); if (!isa<Constant>(v) || !vs.insert(v).second) continue;
				if (auto *f = dyn_cast<Function>(v)) { bool callee = isa<CallBase>(I) && cast<CallBase>(I).getCalledFunction() == f; if (callee || !f->isDeclaration()) push(f); else if (!f->isIntrinsic() && !pureExt.count(f->getName().str()) && !libm.count(f->getName().str()) && !f->getName().starts_with("_ZN3dpm6detail") && !f->getName().starts_with("vp_")) add("external-call", "address of " + f->getName().str() + " is taken", F, &I); }
				else if (auto *gv = dyn_cast<GlobalVariable>(v)) { gvs.insert(gv); if (!gv->isConstant() && !gv->getName().starts_with("llvm.")) { bool wr = isa<StoreInst>(I) && getUnderlyingObject(cast<StoreInst>(I).getPointerOperand()) == gv; add(wr ? "global-write" : "mutable-global", std::string(wr ? "writes " : "uses ") + (gv->isThreadLocal() ? "thread-local " : "") + "mutable object " + gv->getName().str(), F, &I); } else if (gv->hasInitializer() && false) {} }
				else if (auto *c = dyn_cast<Constant>(v)) for (auto &u : c->operands()) ops.push_back(u.get()); }
			auto mem = [&](const Value *p, bool wr) { ++nacc; const Value *ob = getUnderlyingObject(p, 0); if (isa<AllocaInst>(ob)) return;
				if (wr && isa<GlobalVariable>(ob) && cast<GlobalVariable>(ob)->isConstant()) add("global-write", "writes constant object " + ob->getName().str(), F, &I);
				auto *a = dyn_cast<Argument>(ob); if (a && (a->hasStructRetAttr() || a->hasByValAttr())) return;
				if (wr && ro && a) add("pure-function-writes", "function declared pure or const writes through its argument", F, &I);
				if (!wr && none && a) add("const-function-reads", "function declared const reads through its argument", F, &I); };
			if (auto *L = dyn_cast<LoadInst>(&I)) { mem(L->getPointerOperand(), false); if (L->isVolatile() || L->isAtomic()) add("atomic-or-volatile", "atomic or volatile load", F, &I); }
			else if (auto *S = dyn_cast<StoreInst>(&I)) { mem(S->getPointerOperand(), true); if (S->isVolatile() || S->isAtomic()) add("atomic-or-volatile", "atomic or volatile store", F, &I); }
			else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<FenceInst>(I)) add("atomic-or-volatile", "atomic operation or fence", F, &I);
			else if (auto *C = dyn_cast<CallBase>(&I)) {
				if (auto *as = dyn_cast<InlineAsm>(C->getCalledOperand())) { StringRef t = as->getAsmString(), c = as->getConstraintString(); if (c.contains("~{memory}") || (as->hasSideEffects() && !t.starts_with("int3"))) add("inline-assembly", "inline assembly with side effects: " + t.str(), F, &I); continue; }
				const Function *f = C->getCalledFunction(); if (!f || !f->isDeclaration()) continue; StringRef n = f->getName();
				if (f->isIntrinsic()) { if (n.contains("ldmxcsr")) csr.insert(&F); else if (n.contains("set.rounding") || n.contains("set.fpenv") || n.contains("set.fpmode") || n.contains("reset.fp") || n.contains("rdtsc") || n.contains("rdrand") || n.contains("rdseed") || n.contains("xsetbv") || n.contains("readcyclecounter")) add("processor-state", "changes or reads processor state: " + n.str(), F, &I); continue; }
				ext.insert(n.str()); if (!pureExt.count(n.str()) && !libm.count(n.str()) && !n.starts_with("_ZN3dpm6detail") && !n.starts_with("vp_")) add("external-call", "calls " + n.str(), F, &I); } } }
	o << "{\"prop\":\"A20\",\"op\":\"effects\",\"type\":\"module\",\"abi\":\"\",\"status\":\"" << (fs.empty() ? "ok" : "viol") << "\",\"obl\":" << nins << ",\"id\":" << nins << ",\"inst\":" << nins << ",\"fun\":" << seen.size() << ",\"nodes\":" << nacc << ",\"bdd\":" << gvs.size() << ",\"t\":0,\"files\":\""; bool c = false; for (auto &f : files) { o << (c ? "," : "") << f; c = true; } o << "\",\"entry\":\"\",\"ext\":["; c = false; for (auto &e : ext) { o << (c ? "," : "") << js(e); c = true; } o << "],\"findings\":["; c = false;
	for (auto &[k, q] : fs) { o << (c ? "," : "") << "{\"kind\":" << js(k.first) << ",\"n\":" << q.first << ",\"detail\":" << js(q.second.first) << ",\"where\":" << js(q.second.second) << "}"; c = true; } o << "]}\n"; return csr;
}

int main(int argc, char **argv) {
	std::vector<std::string> mods; std::string out, only; unsigned jobs = 8; bool verbose = false, list = false, pure = false;
	for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s == "-o") out = argv[++i]; else if (s == "-j") jobs = atoi(argv[++i]); else if (s == "-v") verbose = true; else if (s == "--events") eventsOnly = true; else if (s == "--purity") pure = true; else if (s == "--only") only = argv[++i]; else if (s == "--list") list = true; else mods.push_back(s); }
	struct rlimit rl{1ul << 30, 1ul << 30}; setrlimit(RLIMIT_STACK, &rl);
	if (!getenv("VG_STACK")) { setenv("VG_STACK", "1", 1); execv("/proc/self/exe", argv); }
	LLVMContext ctx; SMDiagnostic d; std::unique_ptr<Module> M;
	for (auto &f : mods) { auto m = parseIRFile(f, d, ctx); if (!m) { d.print("vg", errs()); return 2; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 2; } }
	{ LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam; PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cgam, mam);
		FunctionPassManager fpm; fpm.addPass(PromotePass()); fpm.addPass(LoopSimplifyPass()); fpm.addPass(LCSSAPass()); ModulePassManager mpm; mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm))); mpm.run(*M, mam); }
	std::vector<Probe> ps;
	for (auto &gv : M->globals()) { if (!gv.hasInitializer() || gv.getName().find("vp_probes") == StringRef::npos) continue; auto *init = gv.getInitializer(); auto *at = dyn_cast<ArrayType>(init->getType()); if (!at) continue;
		for (unsigned i = 0; i < at->getNumElements(); ++i) { Constant *e = init->getAggregateElement(i); Probe p; auto el = [&](unsigned k) { return e->getAggregateElement(k); }; p.prop = cstr(el(0)); p.op = cstr(el(1)); p.type = cstr(el(2)); p.abi = cstr(el(3)); p.I = dyn_cast<Function>(el(4)->stripPointerCasts()); p.R = dyn_cast<Function>(el(5)->stripPointerCasts()); p.nargs = cint(el(6)); p.flags = cint(el(7));
			for (unsigned k = 0; k < p.nargs; ++k) { Constant *a = el(8)->getAggregateElement(k); PArg pa; unsigned *q = &pa.kind; for (unsigned z = 0; z < 6; ++z) q[z] = cint(a->getAggregateElement(z)); p.a.push_back(pa); }
			std::string id = p.prop + "/" + p.op + "/" + p.type + "/" + p.abi; if (!only.empty() && id.find(only) == std::string::npos) continue; if (!p.I) { errs() << "probe without implementation " << id << "\n"; return 2; } ps.push_back(p); } }
	if (list) { for (auto &p : ps) printf("%s/%s/%s/%s\n", p.prop.c_str(), p.op.c_str(), p.type.c_str(), p.abi.c_str()); return 0; }
	if (ps.empty()) { errs() << "no probes found\n"; return 2; }
	if (pure) { std::ofstream fo(out); auto csr = purity(*M, ps, fo); if (csr.empty()) return 0;
		// probes that load MXCSR: the value loaded must be the one found on entry
		std::map<const Function *, std::set<const Function *>> calls; for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = C->getCalledFunction()) calls[&F].insert(f);
		eventsOnly = true; Runner r(*M, fo, verbose); for (auto &p : ps) { std::set<const Function *> seen{p.I}; std::vector<const Function *> st{p.I}; bool hit = false; while (!st.empty() && !hit) { auto *f = st.back(); st.pop_back(); hit = csr.count(f); for (auto *c : calls[f]) if (seen.insert(c).second) st.push_back(c); } if (hit) r.run(p); } return 0; }
	if (jobs <= 1 || out.empty()) { std::ofstream fo; if (!out.empty()) fo.open(out); std::ostream &os = out.empty() ? (std::ostream &)*new std::ostream(fo.rdbuf()) : fo; if (out.empty()) { static std::ostringstream so; Runner r(*M, so, verbose); for (auto &p : ps) { r.run(p); fputs(so.str().c_str(), stdout); so.str(""); } return 0; } Runner r(*M, os, verbose); for (auto &p : ps) r.run(p); return 0; }
	// workers take interleaved slices; each writes its own file
	std::vector<pid_t> kids; for (unsigned j = 0; j < jobs; ++j) { pid_t c = fork(); if (!c) { std::ofstream fo(out + "." + std::to_string(j)); Runner r(*M, fo, verbose); for (size_t i = j; i < ps.size(); i += jobs) r.run(ps[i]); fo.close(); _exit(0); } kids.push_back(c); }
	bool bad = false; for (pid_t c : kids) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
	std::ofstream fo(out); size_t lines = 0; for (unsigned j = 0; j < jobs; ++j) { std::string f = out + "." + std::to_string(j); std::ifstream in(f); std::string l; while (std::getline(in, l)) { fo << l << "\n"; ++lines; } unlink(f.c_str()); }
	if (bad || lines != ps.size()) { errs() << "worker failed: " << lines << " of " << ps.size() << " probes answered\n"; return 2; }
	return 0;
}
