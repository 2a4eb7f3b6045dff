// Instruction and intrinsic semantics.
#pragma once
#include "exec.hpp"

static inline bool inRangeArgs() { return true; }

struct Sem {
	Exec &X; Graph &g;
	Sem(Exec &x) : X(x), g(x.g) {}
	Id fcmp(unsigned pred, Id a, Id b) { // LLVM predicate: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
		Id r = g.bit(0); if (pred == CmpInst::FCMP_TRUE) return g.bit(1);
		if (pred & 8) r = g.bor(r, g.funo(a, b));
		switch (pred & 7) {
		case 0: break; case 1: r = g.bor(r, g.foeq(a, b)); break; case 2: r = g.bor(r, g.folt(b, a)); break; case 3: r = g.bor(r, g.fole(b, a)); break;
		case 4: r = g.bor(r, g.folt(a, b)); break; case 5: r = g.bor(r, g.fole(a, b)); break;
		case 6: { Id q = g.bor(g.folt(a, b), g.folt(b, a)); r = g.bor(r, q); break; }
		case 7: { r = g.bor(r, g.bnot(g.funo(a, b))); break; } }
		if ((pred & 15) == (8 | 6)) return g.bnot(g.foeq(a, b));
		if ((pred & 15) == (8 | 4)) return g.bnot(g.fole(b, a)); if ((pred & 15) == (8 | 5)) return g.bnot(g.folt(b, a));
		if ((pred & 15) == (8 | 2)) return g.bnot(g.fole(a, b)); if ((pred & 15) == (8 | 3)) return g.bnot(g.folt(a, b));
		return r; }
	Id icmp(unsigned p, Id a, Id b) { switch (p) {
		case CmpInst::ICMP_EQ: return g.eq(a, b); case CmpInst::ICMP_NE: return g.bnot(g.eq(a, b));
		case CmpInst::ICMP_ULT: return g.ult(a, b); case CmpInst::ICMP_UGT: return g.ult(b, a); case CmpInst::ICMP_ULE: return g.bnot(g.ult(b, a)); case CmpInst::ICMP_UGE: return g.bnot(g.ult(a, b));
		case CmpInst::ICMP_SLT: return g.slt(a, b); case CmpInst::ICMP_SGT: return g.slt(b, a); case CmpInst::ICMP_SLE: return g.bnot(g.slt(b, a)); default: return g.bnot(g.slt(a, b)); } }
	Id fc(unsigned w, double d) { return w == 32 ? g.c(32, Graph::b32((float)d)) : g.c(64, Graph::b64(d)); }
	// x86 conversion with the "integer indefinite" result out of range
	Id inRange(Id x, unsigned w, bool sgn) { unsigned fw = g.w(x); double hi = std::ldexp(1.0, sgn ? w - 1 : w), lo = sgn ? -std::ldexp(1.0, w - 1) : 0;
		Id a = g.folt(x, fc(fw, hi)); Id b; if (fw == 64 && w < 53) b = g.folt(fc(fw, lo - 1), x); else if (sgn) b = g.fole(fc(fw, lo), x); else b = g.folt(fc(fw, -1), x); if (fw == 32 && sgn && w < 24) b = g.folt(fc(fw, lo - 1), x); return g.band(a, b); }
	Id cvtt(Id x, unsigned w) { Id in = inRange(x, w, true); return g.ite(in, g.ftoi(FTOSI, x, w), g.c(w, 1ull << (w - 1))); }
	Id cvt(Id x, unsigned w) { return cvtt(g.fround(x, 0), w); }
	Id fptoi(Id x, unsigned w, bool sgn) { Id in = inRange(x, w, sgn); if (g.isC(in, 1)) return g.ftoi(sgn ? FTOSI : FTOUI, x, w); Id u = g.undef(w);
		if (!sgn) { if (w < 64) { Id v = g.trunc(g.ftoi(FTOSI, x, 64), w); return g.ite(in, v, u); } } return g.ite(in, g.ftoi(sgn ? FTOSI : FTOUI, x, w), u); }
	Id shl(Id a, Id b) { if (g.isC(b)) return g.shl(a, b); Id ok = g.ult(b, g.c(g.w(b), g.w(a))); if (g.isC(ok, 1)) return g.shl(a, b); Id s = g.shl(a, b); return g.ite(ok, s, g.undef(g.w(a))); }
	Id lshr(Id a, Id b) { if (g.isC(b)) return g.lshr(a, b); Id ok = g.ult(b, g.c(g.w(b), g.w(a))); Id s = g.lshr(a, b); return g.ite(ok, s, g.undef(g.w(a))); }
	Id ashr(Id a, Id b) { if (g.isC(b)) return g.ashr(a, b); Id ok = g.ult(b, g.c(g.w(b), g.w(a))); Id s = g.ashr(a, b); return g.ite(ok, s, g.undef(g.w(a))); }
	Id fminn(Id a, Id b) { Id na = g.isnan_(a), nb = g.isnan_(b); Id m = g.ite(g.folt(b, a), b, a); return g.ite(na, b, g.ite(nb, a, m)); }
	Id fmaxn(Id a, Id b) { Id na = g.isnan_(a), nb = g.isnan_(b); Id m = g.ite(g.folt(a, b), b, a); return g.ite(na, b, g.ite(nb, a, m)); }
	Id copysign(Id a, Id b) { unsigned w = g.w(a); return g.concat(g.extract(b, w - 1, 1), g.extract(a, 0, w - 1)); }
	Id sign(Id x) { return g.extract(x, g.w(x) - 1, 1); }
	Val cat(const Val &v, unsigned w) { // regroup lanes to width w
		unsigned a = g.w(v[0]); if (a == w) return v; Val r;
		if (a > w) { for (Id x : v) for (unsigned i = 0; i < a / w; ++i) r.push_back(g.extract(x, i * w, w)); return r; }
		unsigned k = w / a; for (size_t i = 0; i + k <= v.size(); i += k) { Id x = v[i]; for (unsigned j = 1; j < k; ++j) x = g.concat(v[i + j], x); r.push_back(x); } return r; }
	Id satTo(Id x, unsigned w, bool toSigned) { // signed x saturated to w bits
		unsigned W = g.w(x); int64_t hi = toSigned ? (1ll << (w - 1)) - 1 : (1ll << w) - 1, lo = toSigned ? -(1ll << (w - 1)) : 0; Id t = g.trunc(x, w); Id a = g.ite(g.slt(g.c(W, hi), x), g.c(w, hi), t); return g.ite(g.slt(x, g.c(W, lo)), g.c(w, lo), a); }
	Id popcnt(Id x, unsigned W) { Id r = g.c(W, 0); for (unsigned i = 0; i < g.w(x); ++i) r = g.add(r, g.ite(g.extract(x, i, 1), g.c(W, 1), g.c(W, 0))); return r; }
};

inline bool Exec::inst(Frame &f, Instruction &I, Mem &m) {
	Sem S(*this); Env &E = f.env; Type *t = I.getType();
	auto map1 = [&](const std::function<Id(Id)> &fn) { Val a = get(E, I.getOperand(0)); Val r; for (Id x : a) r.push_back(fn(x)); E[&I] = r; };
	auto map2 = [&](const std::function<Id(Id, Id)> &fn) { Val a = get(E, I.getOperand(0)), b = get(E, I.getOperand(1)); Val r; for (size_t i = 0; i < a.size(); ++i) r.push_back(fn(a[i], b[i])); E[&I] = r; };
	unsigned sw = bw(t->getScalarType());
	switch (I.getOpcode()) {
	case Instruction::Add: map2([&](Id a, Id b) { return g.add(a, b); }); return true;
	case Instruction::Sub: map2([&](Id a, Id b) { return g.sub(a, b); }); return true;
	case Instruction::Mul: map2([&](Id a, Id b) { return g.arith(MUL, a, b); }); return true;
	case Instruction::UDiv: map2([&](Id a, Id b) { return g.div(UDIV, a, b); }); return true;
	case Instruction::SDiv: map2([&](Id a, Id b) { return g.div(SDIV, a, b); }); return true;
	case Instruction::URem: map2([&](Id a, Id b) { return g.div(UREM, a, b); }); return true;
	case Instruction::SRem: map2([&](Id a, Id b) { return g.div(SREM, a, b); }); return true;
	case Instruction::Shl: map2([&](Id a, Id b) { return S.shl(a, b); }); return true;
	case Instruction::LShr: map2([&](Id a, Id b) { return S.lshr(a, b); }); return true;
	case Instruction::AShr: map2([&](Id a, Id b) { return S.ashr(a, b); }); return true;
	case Instruction::And: map2([&](Id a, Id b) { return g.band(a, b); }); return true;
	case Instruction::Or: map2([&](Id a, Id b) { return g.bor(a, b); }); return true;
	case Instruction::Xor: map2([&](Id a, Id b) { return g.bxor(a, b); }); return true;
	case Instruction::FAdd: map2([&](Id a, Id b) { return g.fbin(FADD, a, b); }); return true;
	case Instruction::FSub: map2([&](Id a, Id b) { return g.fsub(a, b); }); return true;
	case Instruction::FMul: map2([&](Id a, Id b) { return g.fbin(FMUL, a, b); }); return true;
	case Instruction::FDiv: map2([&](Id a, Id b) { return g.fbin(FDIV, a, b); }); return true;
	case Instruction::FRem: map2([&](Id a, Id b) { return g.fbin(FREM, a, b); }); return true;
	case Instruction::FNeg: map1([&](Id a) { return g.fneg(a); }); return true;
	case Instruction::ICmp: { unsigned p = cast<ICmpInst>(I).getPredicate(); map2([&](Id a, Id b) { return S.icmp(p, a, b); }); return true; }
	case Instruction::FCmp: { unsigned p = cast<FCmpInst>(I).getPredicate(); map2([&](Id a, Id b) { return S.fcmp(p, a, b); }); return true; }
	case Instruction::Trunc: map1([&](Id a) { return g.trunc(a, sw); }); return true;
	case Instruction::ZExt: map1([&](Id a) { return g.zext(a, sw); }); return true;
	case Instruction::SExt: map1([&](Id a) { return g.sext(a, sw); }); return true;
	case Instruction::FPExt: map1([&](Id a) { if (sw != 64) return g.uf("fpext" + std::to_string(sw), sw, {a}); return g.fpext(a); }); return true;
	case Instruction::FPTrunc: map1([&](Id a) { if (g.w(a) != 64) return g.uf("fptrunc" + std::to_string(g.w(a)) + "_" + std::to_string(sw), sw, {a}); return g.fptrunc(a); }); return true;
	case Instruction::FPToSI: map1([&](Id a) { if (g.w(a)>64) return g.uf("fptosi80_" + std::to_string(sw), sw, {a}); return S.fptoi(a, sw, true); }); return true;
	case Instruction::FPToUI: map1([&](Id a) { return S.fptoi(a, sw, false); }); return true;
	case Instruction::SIToFP: map1([&](Id a) { return g.itof(SITOF, a, sw); }); return true;
	case Instruction::UIToFP: map1([&](Id a) { return g.itof(UITOF, a, sw); }); return true;
	case Instruction::PtrToInt: map1([&](Id a) { return sw < 64 ? g.trunc(a, sw) : a; }); return true;
	case Instruction::IntToPtr: map1([&](Id a) { return g.zext(a, 64); }); return true;
	case Instruction::Freeze: E[&I] = get(E, I.getOperand(0)); return true;
	case Instruction::BitCast: { Val a = get(E, I.getOperand(0)); E[&I] = S.cat(a, sw); return true; }
	case Instruction::Select: { Val c = get(E, I.getOperand(0)), a = get(E, I.getOperand(1)), b = get(E, I.getOperand(2)); Val r; for (size_t i = 0; i < a.size(); ++i) r.push_back(g.ite(c.size() == a.size() ? c[i] : c[0], a[i], b[i])); E[&I] = r; return true; }
	case Instruction::ExtractElement: { Val a = get(E, I.getOperand(0)); Id i = get1(E, I.getOperand(1)); if (g.isC(i)) { E[&I] = {g.imm(i) < a.size() ? a[g.imm(i)] : g.undef(g.w(a[0]))}; return true; } Id r = g.undef(g.w(a[0])); for (size_t k = a.size(); k-- > 0;) r = g.ite(g.eq(i, g.c(g.w(i), k)), a[k], r); E[&I] = {r}; return true; }
	case Instruction::InsertElement: { Val a = get(E, I.getOperand(0)); Id v = get1(E, I.getOperand(1)); Id i = get1(E, I.getOperand(2)); if (g.isC(i)) { if (g.imm(i) < a.size()) a[g.imm(i)] = v; } else for (size_t k = 0; k < a.size(); ++k) a[k] = g.ite(g.eq(i, g.c(g.w(i), k)), v, a[k]); E[&I] = a; return true; }
	case Instruction::ShuffleVector: { auto &sv = cast<ShuffleVectorInst>(I); Val a = get(E, I.getOperand(0)), b = get(E, I.getOperand(1)); Val r; for (int k : sv.getShuffleMask()) r.push_back(k < 0 ? g.undef(g.w(a[0])) : (size_t)k < a.size() ? a[k] : b[k - a.size()]); E[&I] = r; return true; }
	case Instruction::ExtractValue: { auto &ev = cast<ExtractValueInst>(I); Val a = get(E, I.getOperand(0)); Type *ct = ev.getAggregateOperand()->getType(); unsigned off = 0; for (unsigned ix : ev.indices()) { if (auto *st = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; ++k) off += flat(st->getElementType(k)); ct = st->getElementType(ix); } else { auto *at = cast<ArrayType>(ct); off += ix * flat(at->getElementType()); ct = at->getElementType(); } } E[&I] = Val(a.begin() + off, a.begin() + off + flat(ct)); return true; }
	case Instruction::InsertValue: { auto &ev = cast<InsertValueInst>(I); Val a = get(E, I.getOperand(0)), v = get(E, I.getOperand(1)); Type *ct = ev.getAggregateOperand()->getType(); unsigned off = 0; for (unsigned ix : ev.indices()) { if (auto *st = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; ++k) off += flat(st->getElementType(k)); ct = st->getElementType(ix); } else { auto *at = cast<ArrayType>(ct); off += ix * flat(at->getElementType()); ct = at->getElementType(); } } std::copy(v.begin(), v.end(), a.begin() + off); E[&I] = a; return true; }
	case Instruction::Alloca: { auto &a = cast<AllocaInst>(I); uint64_t sz = DL.getTypeAllocSize(a.getAllocatedType()); Id n = get1(E, a.getArraySize()); if (!g.isC(n)) fail("dynamic alloca"); sz *= g.imm(n); uint32_t o = newObj(OK_LOCAL, sz, a.getAlign().value(), "local " + (a.hasName() ? a.getName().str() : std::string("tmp")) + " in " + f.F->getName().str()); m.o[o] = std::make_shared<Cells>(sz, Cell{0, 0}); f.allocas.push_back(o); E[&I] = {ptr(o)}; return true; }
	case Instruction::Load: { auto &l = cast<LoadInst>(I); E[&I] = loadT(m, get1(E, l.getPointerOperand()), t, l.getAlign().value()); return true; }
	case Instruction::Store: { auto &s = cast<StoreInst>(I); Val v = get(E, s.getValueOperand()); storeT(m, get1(E, s.getPointerOperand()), s.getValueOperand()->getType(), v, s.getAlign().value()); return true; }
	case Instruction::GetElementPtr: { auto *gp = cast<GEPOperator>(&I); Id p = get1(E, gp->getPointerOperand()); Id off = g.c(64, 0);
		for (auto gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi) { if (StructType *st = gi.getStructTypeOrNull()) { unsigned ix = cast<ConstantInt>(gi.getOperand())->getZExtValue(); off = g.add(off, g.c(64, DL.getStructLayout(st)->getElementOffset(ix))); } else { Id ix = get1(E, gi.getOperand()); ix = g.w(ix) < 64 ? g.sext(ix, 64) : ix; uint64_t es = DL.getTypeAllocSize(gi.getIndexedType()); off = g.add(off, g.arith(MUL, ix, g.c(64, es))); } }
		E[&I] = {g.gep(p, off)}; return true; }
	case Instruction::Call: case Instruction::Invoke: return callInst(f, cast<CallBase>(I), m);
	case Instruction::LandingPad: { Val o; undefs(t, o); E[&I] = o; return true; }
	case Instruction::Fence: return true;
	default: fail(std::string("unsupported instruction ") + I.getOpcodeName());
	}
}

inline bool Exec::callInst(Frame &f, CallBase &C, Mem &m) {
	Env &E = f.env;
	if (C.isInlineAsm()) {
		auto *ia = cast<InlineAsm>(C.getCalledOperand()); std::string s = ia->getAsmString(), cs = ia->getConstraintString();
		if (C.arg_size() == 0 && !C.getType()->isVoidTy() && s.find("%") != std::string::npos) { event(EV_HIDDEN, "inline asm: " + s); Val o; undefs(C.getType(), o); E[&C] = o; return true; } // reads a register no operand holds
		if (s.empty()) { if (!C.getType()->isVoidTy()) { Val o; undefs(C.getType(), o); E[&C] = o; } return true; }
		if (s.find("cpuid") != std::string::npos || s.find("0x0F, 0x01") != std::string::npos) {
			bool xg = s.find("cpuid") == std::string::npos; std::vector<Id> a; for (auto &x : C.args()) { Val v = get(E, x.get()); a.insert(a.end(), v.begin(), v.end()); } Val r; auto *st = dyn_cast<StructType>(C.getType()); unsigned k = st ? st->getNumElements() : C.getType()->isVoidTy() ? 0 : 1;
			// the constraints name the register of each output and input; an input may share an output's register
			std::vector<std::string> cons; for (size_t p = 0; p <= cs.size();) { size_t q = std::min(cs.find(',', p), cs.size()); cons.push_back(cs.substr(p, q - p)); p = q + 1; }
			auto reg = [&](std::string c) { while (!c.empty() && (c[0] == '=' || c[0] == '&' || c[0] == '+')) c = c.substr(1); if (c == "{ax}" || c == "{eax}" || c == "{rax}") return 'a'; if (c == "{bx}" || c == "{ebx}" || c == "{rbx}") return 'b'; if (c == "{cx}" || c == "{ecx}" || c == "{rcx}") return 'c'; if (c == "{dx}" || c == "{edx}" || c == "{rdx}") return 'd'; return c == "r" && s.find("xchg") != std::string::npos ? 'b' : '?'; };
			Id ax = 0, cx = 0; bool hax = false, hcx = false; size_t ai = 0;
			for (size_t i = k; i < cons.size() && ai < a.size(); ++i) { std::string c = cons[i]; if (c.empty() || c[0] == '~') continue; char q = isdigit((unsigned char)c[0]) ? (std::stoul(c) < k ? reg(cons[std::stoul(c)]) : '?') : reg(c); if (q == 'a') { ax = g.trunc(g.zext(a[ai], 64), 32); hax = true; } else if (q == 'c') { cx = g.trunc(g.zext(a[ai], 64), 32); hcx = true; } ++ai; }
			std::string why = "inline asm: " + s;
			if (xg) {
				if (!hcx) { event(EV_HIDDEN, why + ": ECX selects the register read and no operand sets it"); cx = g.uf("vp_hidden_ecx", 32, {}); }
				Id en = g.band(g.bnot(g.ult(g.uf("vp_cpuid_eax", 32, {g.c(32, 0), g.c(32, 0)}), g.c(32, 1))), g.extract(g.uf("vp_cpuid_ecx", 32, {g.c(32, 1), g.c(32, 0)}), 27, 1));
				event(EV_UNAVAIL, "XGETBV executed while CPUID.1:ECX.OSXSAVE is clear", g.bnot(en));
				for (unsigned i = 0; i < k; ++i) { char q = reg(cons[i]); r.push_back(q == '?' ? g.undef(32) : g.uf(std::string("vp_xcr_e") + q + "x", 32, {cx})); }
			} else {
				if (!hax) { event(EV_HIDDEN, why + ": EAX selects the leaf and no operand sets it"); ax = g.uf("vp_hidden_eax", 32, {}); }
				bool sub = !g.isC(ax) || g.imm(ax) == 4 || g.imm(ax) == 7 || (g.imm(ax) >= 0xb && g.imm(ax) < 0x80000000);
				if (!sub) cx = g.c(32, 0); else if (!hcx) { event(EV_HIDDEN, why + ": ECX selects the subleaf and no operand sets it"); cx = g.uf("vp_hidden_ecx", 32, {}); }
				for (unsigned i = 0; i < k; ++i) { char q = reg(cons[i]); r.push_back(q == '?' ? g.undef(32) : g.uf(std::string("vp_cpuid_e") + q + "x", 32, {ax, cx})); }
			}
			if (k) E[&C] = r; return true; }
		event(EV_UNSUP, "inline asm: " + s); if (!C.getType()->isVoidTy()) { Val o; undefs(C.getType(), o); E[&C] = o; } return true;
	}
	Function *F = C.getCalledFunction();
	if (!F) if (auto *ga = dyn_cast<GlobalAlias>(C.getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
	if (!F) { Id p = get1(E, C.getCalledOperand()); if (g.op(p) == PTR && objs[g.imm(p)].kind == OK_FUNC) F = const_cast<Function *>(objs[g.imm(p)].fn); else { event(EV_WILD, "call through an unresolved pointer"); if (!C.getType()->isVoidTy()) { Val o; undefs(C.getType(), o); E[&C] = o; } return true; } }
	Val out; StringRef nm = F->getName();
	if (nm.starts_with("llvm.")) { if (!intrinsic(f, C, nm, m, out)) { fail("unmodelled intrinsic " + nm.str()); } if (!C.getType()->isVoidTy()) E[&C] = out; return true; }
	if (!F->isDeclaration()) {
		std::vector<Val> args; for (auto &a : C.args()) args.push_back(get(E, a.get()));
		bool ret; Val r = call(*F, args, m, ret); if (!ret) return false; if (!C.getType()->isVoidTy()) E[&C] = r; return true; }
	if (nm == "_ZSt9terminatev" || nm == "abort" || nm == "__cxa_throw" || nm == "__assert_fail" || nm == "raise") { event(EV_EXTCALL, nm.str()); return false; }
	if (libcall(f, C, nm, m, out)) { extcalls.insert(nm.str()); if (!C.getType()->isVoidTy()) E[&C] = out; return true; }
	// a vector kernel compiled separately (analysed with its body by other units: pure, A20, and lane-wise, A19): each element of
	// each result (a pair comes back in memory) is an uninterpreted function of the corresponding elements of the arguments
	if (nm.starts_with("_ZN3dpm6detail")) {
		bool sret = C.hasStructRetAttr(); std::vector<Val> a; bool ok = C.arg_size() > sret; size_t n = 0;
		for (unsigned k = sret; k < C.arg_size(); ++k) { Value *x = C.getArgOperand(k); if (!x->getType()->isVectorTy()) { ok = false; break; } Val v = get(E, x); if (!n) n = v.size(); ok &= v.size() == n; a.push_back(v); }
		auto lanes = [&](Type *t, unsigned k) { Val r; for (size_t i = 0; i < n; ++i) { std::vector<Id> l; for (auto &v : a) l.push_back(v[i]); r.push_back(g.uf(nm.str() + "#" + std::to_string(k), bw(t->getScalarType()), l)); } return r; };
		auto fits = [&](Type *t) { auto *v = dyn_cast<FixedVectorType>(t); return v && v->getNumElements() == n; };
		if (ok && sret) { auto *st = dyn_cast<StructType>(C.getParamStructRetType(0)); ok = st; if (st) for (Type *t : st->elements()) ok &= fits(t); if (ok) { const StructLayout *sl = DL.getStructLayout(st); Id p = get1(E, C.getArgOperand(0)); for (unsigned k = 0; k < st->getNumElements(); ++k) storeT(m, g.gep(p, g.c(64, sl->getElementOffset(k))), st->getElementType(k), lanes(st->getElementType(k), k), 1); kernels.insert(nm.str()); return true; } }
		else if (ok && fits(C.getType())) { E[&C] = lanes(C.getType(), 0); kernels.insert(nm.str()); return true; }
	}
	event(EV_UNKCALL, nm.str()); if (!C.getType()->isVoidTy()) { Val o; undefs(C.getType(), o); E[&C] = o; } return true;
}

inline bool Exec::libcall(Frame &f, CallBase &C, StringRef nm, Mem &m, Val &out) {
	Sem S(*this); std::vector<Val> A; for (auto &a : C.args()) A.push_back(get(f.env, a.get()));
	std::string n = nm.str();
	if (n.compare(0, 3, "vp_") == 0) { std::vector<Id> a; for (auto &v : A) a.push_back(v[0]); out = {g.uf(n, bw(C.getType()), a)}; return true; } // the probes' opaque pure functions
	if (n == "memcpy" || n == "memmove") { if (!g.isC(A[2][0])) return false; copyMem(m, A[0][0], A[1][0], g.imm(A[2][0]), 1, 1); out = A[0]; return true; }
	if ((n == "memcmp" || n == "bcmp") && g.isC(A[2][0]) && g.imm(A[2][0]) <= 64) { Id r = g.c(32, 0); for (uint64_t i = g.imm(A[2][0]); i-- > 0;) { Id x = load(m, g.gep(A[0][0], g.c(64, i)), 1, 1), y = load(m, g.gep(A[1][0], g.c(64, i)), 1, 1); r = g.ite(g.eq(x, y), r, g.sub(g.zext(x, 32), g.zext(y, 32))); } out = {r}; return true; }
	if (n == "memset") { if (!g.isC(A[2][0])) return false; uint64_t k = g.imm(A[2][0]); for (uint64_t i = 0; i < k; ++i) store(m, g.gep(A[0][0], g.c(64, i)), g.trunc(A[1][0], 8), 1); out = A[0]; return true; }
	static const std::set<std::string> base = {"sin","cos","tan","asin","acos","atan","atan2","sinh","cosh","tanh","asinh","acosh","atanh","exp","exp2","expm1","exp10","log","log2","log10","log1p","pow","cbrt","hypot","erf","erfc","tgamma","lgamma","sqrt","fabs","floor","ceil","trunc","round","rint","nearbyint","lrint","llrint","lround","llround","fmod","remainder","remquo","fma","fmin","fmax","fdim","frexp","modf","ldexp","scalbn","scalbln","ilogb","logb","nextafter","nexttoward","copysign","sincos","roundeven","nan"};
	std::string b = n; bool isf = false; if (!base.count(b) && b.size() > 1 && b.back() == 'f') { b.pop_back(); isf = true; } if (!base.count(b) && b.size() > 1 && b.back() == 'l') { b.pop_back(); } if (!base.count(b)) return false; (void)isf;
	unsigned w = b == "sincos" ? g.w(A[0][0]) : bw(C.getType()); Id x = A.empty() ? 0 : A[0][0]; unsigned xw = x ? g.w(x) : 0; if (xw > 64) { std::vector<Id> a; for (auto &v : A) a.push_back(v[0]); out = {g.uf(b + "L" + std::to_string(w), w, a)}; return true; }
	auto one = [&](Id r) { out = {r}; return true; };
	if (b == "sqrt") return one(g.fsqrt(x)); if (b == "fabs") return one(g.fabs_(x));
	if (b == "floor") return one(g.fround(x, 1)); if (b == "ceil") return one(g.fround(x, 2)); if (b == "trunc") return one(g.fround(x, 3)); if (b == "round") return one(g.fround(x, 5)); if (b == "rint" || b == "nearbyint" || b == "roundeven") return one(g.fround(x, 0));
	if (b == "lrint" || b == "llrint") return one(S.fptoi(g.fround(x, 0), w, true)); if (b == "lround" || b == "llround") return one(S.fptoi(g.fround(x, 5), w, true));
	if (b == "fmod") return one(g.fbin(FREM, x, A[1][0])); if (b == "fma") return one(g.fma_(x, A[1][0], A[2][0]));
	if (b == "fmin") return one(S.fminn(x, A[1][0])); if (b == "fmax") return one(S.fmaxn(x, A[1][0])); if (b == "copysign") return one(S.copysign(x, A[1][0]));
	if (b == "fdim") { Id y = A[1][0]; return one(g.ite(g.fole(x, y), g.c(w, 0), g.fsub(x, y))); /* unordered: x - y is NaN */ }
	if (b == "sincos") { store(m, A[1][0], g.uf("sin" + std::to_string(w), w, {x}), 1); store(m, A[2][0], g.uf("cos" + std::to_string(w), w, {x}), 1); return true; }
	if (b == "frexp") { store(m, A[1][0], g.uf("frexp_e" + std::to_string(w), 32, {x}), 1); return one(g.uf("frexp_m" + std::to_string(w), w, {x})); }
	if (b == "modf") { store(m, A[1][0], g.uf("modf_i" + std::to_string(w), w, {x}), 1); return one(g.uf("modf_f" + std::to_string(w), w, {x})); }
	if (b == "remquo") { store(m, A[2][0], g.uf("remquo_q" + std::to_string(w), 32, {x, A[1][0]}), 1); return one(g.uf("remquo_r" + std::to_string(w), w, {x, A[1][0]})); }
	std::vector<Id> a; for (auto &v : A) a.push_back(v[0]); return one(g.uf(b + std::to_string(xw), w, a));
}

inline bool Exec::intrinsic(Frame &f, CallBase &C, StringRef nm, Mem &m, Val &out) {
	Sem S(*this); Env &E = f.env; auto A = [&](unsigned i) { return get(E, C.getArgOperand(i)); }; auto A1 = [&](unsigned i) { return get1(E, C.getArgOperand(i)); };
	auto map1 = [&](const std::function<Id(Id)> &fn) { for (Id x : A(0)) out.push_back(fn(x)); return true; };
	auto map2 = [&](const std::function<Id(Id, Id)> &fn) { Val a = A(0), b = A(1); for (size_t i = 0; i < a.size(); ++i) out.push_back(fn(a[i], b[i])); return true; };
	auto map3 = [&](const std::function<Id(Id, Id, Id)> &fn) { Val a = A(0), b = A(1), c = A(2); for (size_t i = 0; i < a.size(); ++i) out.push_back(fn(a[i], b[i], c[i])); return true; };
	StringRef n = nm.drop_front(5); auto is = [&](const char *p) { return n.starts_with(p) && (n.size() == strlen(p) || n[strlen(p)] == '.' || p[strlen(p) - 1] == '.'); };
	if (is("lifetime.start") || is("lifetime.end")) { Id p = A1(1); if (g.op(p) == PTR) { uint32_t o = g.imm(p); if (objs[o].kind == OK_LOCAL) m.o[o] = std::make_shared<Cells>(objs[o].size, Cell{0, 0}); } return true; }
	if (is("dbg") || is("assume") || is("invariant") || is("experimental.noalias") || is("prefetch") || is("donothing") || is("stackrestore")|| is("invariant.end")) { if (!C.getType()->isVoidTy()) { undefs(C.getType(), out); } return true; }
	if (is("stacksave")) { undefs(C.getType(), out); return true; }
	if (is("expect")) { out = A(0); return true; }
	if (is("is.constant")) { out = {g.bit(0)}; return true; }
	if (is("objectsize")) { out = {g.c(bw(C.getType()), ~0ull)}; return true; }
	if (is("trap") || is("ubsantrap")) { event(EV_UNREACH, "trap"); return true; }
	if (is("memcpy") || is("memmove") || is("memcpy.inline")) { Id l = A1(2); if (!g.isC(l)) fail("memcpy of variable length"); auto &mi = cast<MemTransferInst>(C); copyMem(m, A1(0), A1(1), g.imm(l), mi.getDestAlign().valueOrOne().value(), mi.getSourceAlign().valueOrOne().value()); return true; }
	if (is("memset")) { Id l = A1(2), v = A1(1), p = A1(0); if (!g.isC(l)) fail("memset of variable length"); for (uint64_t i = 0; i < g.imm(l); ++i) store(m, g.gep(p, g.c(64, i)), v, 1); return true; }
	if (is("fma") || is("fmuladd")) return map3([&](Id a, Id b, Id c) { return n.starts_with("fmuladd") ? g.fbin(FADD, g.fbin(FMUL, a, b), c) : g.fma_(a, b, c); });
	if (is("sqrt")) return map1([&](Id a) { return g.fsqrt(a); });
	if (is("fabs")) return map1([&](Id a) { return g.fabs_(a); });
	if (is("copysign")) return map2([&](Id a, Id b) { return S.copysign(a, b); });
	if (is("floor")) return map1([&](Id a) { return g.fround(a, 1); }); if (is("ceil")) return map1([&](Id a) { return g.fround(a, 2); }); if (is("trunc")) return map1([&](Id a) { return g.fround(a, 3); });
	if (is("rint") || is("nearbyint") || is("roundeven")) return map1([&](Id a) { return g.fround(a, 0); }); if (is("round")) return map1([&](Id a) { return g.fround(a, 5); });
	if (is("lrint") || is("llrint")) { out = {S.fptoi(g.fround(A1(0), 0), bw(C.getType()), true)}; return true; } if (is("lround") || is("llround")) { out = {S.fptoi(g.fround(A1(0), 5), bw(C.getType()), true)}; return true; }
	if (is("minnum")) return map2([&](Id a, Id b) { return S.fminn(a, b); }); if (is("maxnum")) return map2([&](Id a, Id b) { return S.fmaxn(a, b); });
	if (is("umin")) return map2([&](Id a, Id b) { return g.ite(g.ult(a, b), a, b); }); if (is("umax")) return map2([&](Id a, Id b) { return g.ite(g.ult(b, a), a, b); });
	if (is("smin")) return map2([&](Id a, Id b) { return g.ite(g.slt(a, b), a, b); }); if (is("smax")) return map2([&](Id a, Id b) { return g.ite(g.slt(b, a), a, b); });
	if (is("abs")) return map1([&](Id a) { return g.ite(S.sign(a), g.neg(a), a); });
	if (is("uadd.sat")) return map2([&](Id a, Id b) { Id s = g.add(a, b); return g.ite(g.ult(s, a), g.c(g.w(a), ~0ull), s); });
	if (is("usub.sat")) return map2([&](Id a, Id b) { Id s = g.sub(a, b); return g.ite(g.ult(a, b), g.c(g.w(a), 0), s); });
	if (is("sadd.sat") || is("ssub.sat")) { bool add = is("sadd.sat"); return map2([&](Id a, Id b) { unsigned w = g.w(a); if (w > 32) fail("wide saturating add"); Id x = g.sext(a, 2 * w), y = g.sext(b, 2 * w); return S.satTo(add ? g.add(x, y) : g.sub(x, y), w, true); }); }
	if (is("ctpop")) return map1([&](Id a) { return S.popcnt(a, g.w(a)); });
	if (is("cttz")) return map1([&](Id a) { unsigned w = g.w(a); Id r = g.c(w, w); for (unsigned i = w; i-- > 0;) r = g.ite(g.extract(a, i, 1), g.c(w, i), r); return r; });
	if (is("ctlz")) return map1([&](Id a) { unsigned w = g.w(a); Id r = g.c(w, w); for (unsigned i = 0; i < w; ++i) r = g.ite(g.extract(a, i, 1), g.c(w, w - 1 - i), r); return r; });
	if (is("bswap")) return map1([&](Id a) { unsigned w = g.w(a); Id r = g.extract(a, w - 8, 8); for (unsigned i = w / 8 - 1; i-- > 0;) r = g.concat(g.extract(a, i * 8, 8), r); return r; });
	if (is("fshl") || is("fshr")) { bool l = is("fshl"); return map3([&](Id a, Id b, Id c) { if (!g.isC(c)) fail("variable funnel shift"); unsigned w = g.w(a), s = g.imm(c) % w; if (!s) return l ? a : b; return l ? g.concat(g.extract(a, 0, w - s), g.extract(b, w - s, s)) : g.concat(g.extract(a, 0, s), g.extract(b, s, w - s)); }); }
	if (is("is.fpclass")) { unsigned mk = g.imm(A1(1)); return map1([&](Id a) { unsigned w = g.w(a), mb = w == 32 ? 23 : 52; Id s = S.sign(a), e = g.extract(a, mb, w - 1 - mb), mm = g.extract(a, 0, mb); unsigned eb = w - 1 - mb; Id e0 = g.eq(e, g.c(eb, 0)), e1 = g.eq(e, g.c(eb, ~0ull)), mz = g.eq(mm, g.c(mb, 0)), q = g.extract(a, mb - 1, 1); Id nan = g.band(e1, g.bnot(mz)), inf = g.band(e1, mz), den = g.band(e0, g.bnot(mz)), zer = g.band(e0, mz), nor = g.band(g.bnot(e0), g.bnot(e1)); Id ns = g.bnot(s); Id r = g.bit(0);
			Id cl[10] = {g.band(nan, g.bnot(q)), g.band(nan, q), g.band(inf, s), g.band(nor, s), g.band(den, s), g.band(zer, s), g.band(zer, ns), g.band(den, ns), g.band(nor, ns), g.band(inf, ns)}; if ((mk & 3) == 3) { r = g.isnan_(a); mk &= ~3u; } for (int i = 0; i < 10; ++i) if (mk >> i & 1) r = g.bor(r, cl[i]); return r; }); }
	if (n.starts_with("vector.reduce.")) { StringRef o = n.drop_front(14); Val a = A(0); size_t k = 0; Id r; if (o.starts_with("fadd") || o.starts_with("fmul")) { r = a[0]; a = A(1); } else { r = a[0]; k = 1; }
		for (; k < a.size(); ++k) { Id x = a[k]; if (o.starts_with("add")) r = g.add(r, x); else if (o.starts_with("mul")) r = g.arith(MUL, r, x); else if (o.starts_with("and")) r = g.band(r, x); else if (o.starts_with("or")) r = g.bor(r, x); else if (o.starts_with("xor")) r = g.bxor(r, x); else if (o.starts_with("umin")) r = g.ite(g.ult(r, x), r, x); else if (o.starts_with("umax")) r = g.ite(g.ult(x, r), r, x); else if (o.starts_with("smin")) r = g.ite(g.slt(r, x), r, x); else if (o.starts_with("smax")) r = g.ite(g.slt(x, r), r, x); else if (o.starts_with("fadd")) r = g.fbin(FADD, r, x); else if (o.starts_with("fmul")) r = g.fbin(FMUL, r, x); else return false; } out = {r}; return true; }
	if (is("sincos")||is("sin")||is("cos")||is("exp")||is("exp2")||is("log")||is("log2")||is("log10")) { std::string b = n.split('.').first.str(); return map1([&](Id a) { return g.uf(b + std::to_string(g.w(a)), g.w(a), {a}); }); }
	if (is("frexp")) { Id a = A1(0); out = {g.uf("frexp_m" + std::to_string(g.w(a)), g.w(a), {a}), g.uf("frexp_e" + std::to_string(g.w(a)), 32, {a})}; return true; }
	if (is("ldexp")) return map2([&](Id a, Id b) { return g.uf("ldexp" + std::to_string(g.w(a)), g.w(a), {a, b}); });
	if (is("pow")) return map2([&](Id a, Id b) { return g.uf("pow" + std::to_string(g.w(a)), g.w(a), {a, b}); });
	if (is("masked.load") || is("masked.store")) {
		bool st = is("masked.store"); Id p = A1(st ? 1 : 0); Val mk = A(st ? 3 : 2); Val v = A(st ? 0 : 3); unsigned eb = g.w(v[0]) / 8; uint64_t al = g.imm(A1(st ? 2 : 1));
		for (size_t i = 0; i < v.size(); ++i) { if (g.isC(mk[i], 0)) { out.push_back(v[i]); continue; } PC s = pcs.back(); bool d = false; pcAdd(pcs.back(), mk[i], d); if (!d) { Id q = g.gep(p, g.c(64, i * eb)); uint64_t a = i ? std::min<uint64_t>(al, (i * eb) & -(i * eb)) : al; Id old = load(m, q, eb, a); if (st) store(m, q, g.ite(mk[i], v[i], old), a); else out.push_back(g.ite(mk[i], old, v[i])); } else out.push_back(v[i]); pcs.back() = s; } if (st) out.clear(); return true; }
	if (!n.starts_with("x86.")) return false;
	StringRef x = n.drop_front(4); auto ends = [&](const char *e) { return x.ends_with(e); }; auto has = [&](const char *e) { return x.contains(e); };
	Type *rt = C.getType(); unsigned rw = rt->isVoidTy() ? 0 : bw(rt->getScalarType());
	// shifts
	for (int k = 0; k < 3; ++k) { const char *p[3] = {"psll", "psrl", "psra"}; size_t pos = x.find(p[k]); if (pos == StringRef::npos) continue; StringRef rest = x.drop_front(pos + 4); auto sh = [&](Id a, Id c) { c = g.w(c) < g.w(a) ? g.zext(c, g.w(a)) : c; if (g.isC(c)) return k == 0 ? g.shl(a, g.c(g.w(a), std::min<uint64_t>(g.imm(c), 255))) : k == 1 ? g.lshr(a, g.c(g.w(a), std::min<uint64_t>(g.imm(c), 255))) : g.ashr(a, g.c(g.w(a), std::min<uint64_t>(g.imm(c), g.w(a) - 1)));
				unsigned w = g.w(a); Id big = g.bnot(g.ult(c, g.c(g.w(c), w))); Id ct = g.w(c) > w ? g.trunc(c, w) : c; Id s = k == 0 ? g.shl(a, ct) : k == 1 ? g.lshr(a, ct) : g.ashr(a, ct); Id fill = k == 2 ? g.sext(S.sign(a), w) : g.c(w, 0); return g.ite(big, fill, s); };
		Val a = A(0), b = A(1);
		if (rest.starts_with("i.") ) { for (Id v : a) out.push_back(sh(v, b[0])); return true; }
		if (rest.starts_with("v")) { for (size_t i = 0; i < a.size(); ++i) out.push_back(sh(a[i], b[i])); return true; }
		Id cnt = S.cat(b, 64)[0]; for (Id v : a) out.push_back(sh(v, cnt)); return true; }
	if (has("blendv") || has("pblendvb")) return map3([&](Id a, Id b, Id c) { return g.ite(S.sign(c), b, a); });
	if (has("movmsk")) { Val a = A(0); Id r = 0; for (Id v : a) { Id s = S.sign(v); r = r ? g.concat(s, r) : s; } out = {g.zext(r, rw)}; if (g.w(r) < rw) out = {g.concat(g.c(rw - g.w(r), 0), r)}; return true; }
	if (has("ptestz") || has("ptestc") || has("ptestnzc") || has("vtest")) { Val a = A(0), b = A(1); Id z = g.bit(1), c = g.bit(1); bool v = has("vtest"); for (size_t i = 0; i < a.size(); ++i) { Id p = v ? S.sign(a[i]) : a[i], q = v ? S.sign(b[i]) : b[i]; Id zz = g.band(p, q), cc = g.band(g.bnot(p), q); z = g.band(z, g.eq(zz, g.c(g.w(zz), 0))); c = g.band(c, g.eq(cc, g.c(g.w(cc), 0))); } Id r = ends("nzc") || has("testnzc") ? g.band(g.bnot(z), g.bnot(c)) : has("testz") ? z : c; out = {g.zext(r, 32)}; return true; }
	if (has("cvttps2dq") || has("cvtt.ps2dq")) return map1([&](Id a) { return S.cvtt(a, 32); });
	if (has("cvtps2dq") || has("cvt.ps2dq")) return map1([&](Id a) { return S.cvt(a, 32); });
	if (has("cvttpd2dq") || has("cvtt.pd2dq")) { for (Id a : A(0)) out.push_back(S.cvtt(a, 32)); while (out.size() < flat(rt)) out.push_back(g.c(32, 0)); return true; }
	if (has("cvtpd2dq") || has("cvt.pd2dq")) { for (Id a : A(0)) out.push_back(S.cvt(a, 32)); while (out.size() < flat(rt)) out.push_back(g.c(32, 0)); return true; }
	if (has("cvttpd2qq") || has("cvtpd2qq")) {  // AVX-512DQ, masked form with every lane selected
		Id m = A1(2); unsigned k = flat(rt);
		if (!g.isC(m) || (g.imm(m) & ((1u << k) - 1)) != (1u << k) - 1) return false;
		bool t = has("cvttpd2qq"); return map1([&](Id a) { return t ? S.cvtt(a, 64) : S.cvt(a, 64); });
	}
	if (has("cvtpd2ps") || has("cvt.pd2.ps")) { for (Id a : A(0)) out.push_back(g.fptrunc(a)); while (out.size() < flat(rt)) out.push_back(g.c(32, 0)); return true; }
	if (has("cvttss2si") || has("cvttsd2si")) { out = {S.cvtt(A(0)[0], rw)}; return true; } if (has("cvtss2si") || has("cvtsd2si")) { out = {S.cvt(A(0)[0], rw)}; return true; }
	if (has("cvtsd2ss")) { out = A(0); out[0] = g.fptrunc(A(1)[0]); return true; }
	if (has("round.ps") || has("round.pd")) { unsigned imm = g.imm(A1(1)); unsigned md = (imm & 4) ? 0 : imm & 3; return map1([&](Id a) { return g.fround(a, md); }); }
	if (has("min.ps") || has("min.pd")) return map2([&](Id a, Id b) { return g.ite(g.folt(a, b), a, b); }); if (has("max.ps") || has("max.pd")) return map2([&](Id a, Id b) { return g.ite(g.folt(b, a), a, b); });
	if (has("sqrt.p")) return map1([&](Id a) { return g.fsqrt(a); });
	if (has("rcp.ps") || has("rsqrt.ps")) { std::string q = has("rsqrt") ? "x86rsqrt" : "x86rcp"; return map1([&](Id a) { return g.uf(q, 32, {a}); }); }
	if (has("cmp.ps") || has("cmp.pd")) { unsigned imm = g.imm(A1(2)) & 31; static const unsigned pr[16] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD, CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE}; return map2([&](Id a, Id b) { return g.sext(S.fcmp(pr[imm & 15], a, b), g.w(a)); }); }
	if (has("pshuf.b")) { Val a = A(0), b = A(1); for (size_t i = 0; i < a.size(); ++i) { size_t base = i / 16 * 16; Id c = b[i]; Id r; if (g.isC(c)) r = (g.imm(c) & 0x80) ? g.c(8, 0) : a[base + (g.imm(c) & 15)]; else { r = a[base + 15]; Id lo = g.extract(c, 0, 4); for (int k = 14; k >= 0; --k) r = g.ite(g.eq(lo, g.c(4, k)), a[base + k], r); r = g.ite(S.sign(c), g.c(8, 0), r); } out.push_back(r); } return true; }
	if (has("vpermilvar.ps") || has("vpermilvar.pd")) { Val a = A(0), b = A(1); unsigned per = has(".ps") ? 4 : 2; for (size_t i = 0; i < a.size(); ++i) { size_t base = i / per * per; Id sel = per == 4 ? g.extract(b[i], 0, 2) : g.extract(b[i], 1, 1); Id r = a[base + per - 1]; for (int k = per - 2; k >= 0; --k) r = g.ite(g.eq(sel, g.c(g.w(sel), k)), a[base + k], r); out.push_back(r); } return true; }
	if (has("permd") || has("permps")) { Val a = A(0), b = A(1); for (size_t i = 0; i < a.size(); ++i) { Id sel = g.extract(b[i], 0, 3); Id r = a[7]; for (int k = 6; k >= 0; --k) r = g.ite(g.eq(sel, g.c(3, k)), a[k], r); out.push_back(r); } return true; }
	if (has("packss") || has("packus")) { bool sg = has("packss"); Val a = A(0), b = A(1); size_t per = 128 / g.w(a[0]); for (size_t blk = 0; blk < a.size() / per; ++blk) { for (size_t i = 0; i < per; ++i) out.push_back(S.satTo(a[blk * per + i], rw, sg)); for (size_t i = 0; i < per; ++i) out.push_back(S.satTo(b[blk * per + i], rw, sg)); } return true; }
	if (has("phadd.") || has("phsub.") || has("hadd.p") || has("hsub.p")) { bool fp = has("hadd.p") || has("hsub.p"); if (has("phadd.") || has("phsub.")) fp = false; bool sub = has("hsub"); Val a = A(0), b = A(1); size_t per = 128 / g.w(a[0]); for (size_t blk = 0; blk < a.size() / per; ++blk) for (int s = 0; s < 2; ++s) { Val &v = s ? b : a; for (size_t i = 0; i < per; i += 2) { Id p = v[blk * per + i], q = v[blk * per + i + 1]; out.push_back(fp ? (sub ? g.fsub(p, q) : g.fbin(FADD, p, q)) : (sub ? g.sub(p, q) : g.add(p, q))); } } return true; }
	if (has("addsub.p")) { Val a = A(0), b = A(1); for (size_t i = 0; i < a.size(); ++i) out.push_back(i & 1 ? g.fbin(FADD, a[i], b[i]) : g.fsub(a[i], b[i])); return true; }
	if (has("pmulh.w") || has("pmulhu.w")) { bool u = has("pmulhu"); return map2([&](Id a, Id b) { Id p = u ? g.arith(MUL, g.zext(a, 32), g.zext(b, 32)) : g.arith(MUL, g.sext(a, 32), g.sext(b, 32)); return g.extract(p, 16, 16); }); }
	if (has("pmulu.dq") || has("pmul.dq") || has("pmuldq")) { bool u = has("pmulu"); Val a = S.cat(A(0), 64), b = S.cat(A(1), 64); for (size_t i = 0; i < a.size(); ++i) { Id p = g.extract(a[i], 0, 32), q = g.extract(b[i], 0, 32); out.push_back(u ? g.arith(MUL, g.zext(p, 64), g.zext(q, 64)) : g.arith(MUL, g.sext(p, 64), g.sext(q, 64))); } return true; }
	if (has("pmadd.wd")) { Val a = A(0), b = A(1); for (size_t i = 0; i < a.size(); i += 2) out.push_back(g.add(g.arith(MUL, g.sext(a[i], 32), g.sext(b[i], 32)), g.arith(MUL, g.sext(a[i + 1], 32), g.sext(b[i + 1], 32)))); return true; }
	if (has("psad.bw")) { Val a = A(0), b = A(1); for (size_t blk = 0; blk < a.size() / 8; ++blk) { Id r = g.c(16, 0); for (int i = 0; i < 8; ++i) { Id p = a[blk * 8 + i], q = b[blk * 8 + i]; Id d = g.ite(g.ult(p, q), g.sub(q, p), g.sub(p, q)); r = g.add(r, g.zext(d, 16)); } out.push_back(g.zext(r, 64)); } return true; }
	if (has("psign.")) return map2([&](Id a, Id b) { unsigned w = g.w(a); return g.ite(S.sign(b), g.neg(a), g.ite(g.eq(b, g.c(w, 0)), g.c(w, 0), a)); });
	if (has("insertps")) { Val a = A(0), b = A(1); unsigned im = g.imm(A1(2)); a[(im >> 4) & 3] = b[im >> 6]; for (int i = 0; i < 4; ++i) if (im >> i & 1) a[i] = g.c(32, 0); out = a; return true; }
	if (has("gather.")) { Val src = A(0); Id base = A1(1); Val idx = A(2), mk = A(3); uint64_t sc = g.imm(A1(4)); for (size_t i = 0; i < src.size(); ++i) { Id c = S.sign(mk[i]); if (g.isC(c, 0) || i >= idx.size()) { out.push_back(src[i]); continue; } PC s = pcs.back(); bool d = false; pcAdd(pcs.back(), c, d); if (d) { out.push_back(src[i]); pcs.back() = s; continue; } Id off = g.arith(MUL, g.sext(idx[i], 64), g.c(64, sc)); Id v = load(m, g.gep(base, off), g.w(src[i]) / 8, 1); pcs.back() = s; out.push_back(g.ite(c, v, src[i])); } return true; }
	if (has("maskload") || has("maskstore")) { bool st = has("maskstore"); Id p = A1(0); Val mk = A(1); unsigned w = g.w(mk[0]); for (size_t i = 0; i < mk.size(); ++i) { Id c = S.sign(mk[i]); Id q = g.gep(p, g.c(64, i * w / 8)); PC s = pcs.back(); bool d = false; pcAdd(pcs.back(), c, d); if (d) { if (!st) out.push_back(g.c(w, 0)); pcs.back() = s; continue; } Id old = load(m, q, w / 8, 1); if (st) store(m, q, g.ite(c, A(2)[i], old), 1); else out.push_back(g.ite(c, old, g.c(w, 0))); pcs.back() = s; } return true; }
	if (has("maskmov.dqu")) { Val d = A(0), mk = A(1); Id p = A1(2); for (size_t i = 0; i < d.size(); ++i) { Id c = S.sign(mk[i]); PC s = pcs.back(); bool dd = false; pcAdd(pcs.back(), c, dd); if (!dd) { Id q = g.gep(p, g.c(64, i)); Id old = load(m, q, 1, 1); store(m, q, g.ite(c, d[i], old), 1); } pcs.back() = s; } return true; }
	if (has("ldu.dq")) { out = loadT(m, A1(0), rt, 1); return true; }
	if (has("sse.stmxcsr")) { store(m, A1(0), g.uf("mxcsr", 32, {}), 4); return true; }
	if (has("sse.ldmxcsr")) { Id v = load(m, A1(0), 4, 4); event(EV_FPENV, "MXCSR is loaded with a changed value", g.bnot(g.eq(v, g.uf("mxcsr", 32, {})))); return true; }
	if (has("vzeroupper") || has("sse2.pause")) return true;
	if (has("pavg.")) return map2([&](Id a, Id b) { unsigned w = g.w(a); Id s = g.add(g.add(g.zext(a, 2 * w), g.zext(b, 2 * w)), g.c(2 * w, 1)); return g.extract(s, 1, w); });
	return false;
}
