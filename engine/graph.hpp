// Hash-consed value graph (gated value numbering) + ROBDD bit domain.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <set>

typedef uint32_t Id;
struct AnalysisError : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : uint8_t {
	O_NONE, CONST, LEAF, UNDEF, PTR, EXTRACT, CONCAT, NOT, AND, OR, XOR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
	SHL, LSHR, ASHR, ITE, EQ, ULT, SLT, SEXT, FADD, FMUL, FDIV, FREM, FSQRT, FMA, FOEQ, FOLT, FUNO, FPEXT, FPTRUNC,
	FTOSI, FTOUI, SITOF, UITOF, FROUND, UF, TABLE,
	AMINS, AMAXS, AMINU, AMAXU, AMINF, AMAXF, // selections, recognised when re-association is allowed
	N_OPS
};
static const char *opname[] = {"none","const","leaf","undef","ptr","extract","concat","not","and","or","xor","add","sub","mul","udiv","sdiv","urem","srem",
	"shl","lshr","ashr","ite","eq","ult","slt","sext","fadd","fmul","fdiv","frem","fsqrt","fma","foeq","folt","funo","fpext","fptrunc",
	"ftosi","ftoui","sitof","uitof","fround","uf","table","amins","amaxs","aminu","amaxu","aminf","amaxf"};

struct Node { uint64_t imm; uint32_t koff; uint16_t w; uint8_t op; uint8_t nk; uint32_t loc; };

struct LeafInfo { std::string name; unsigned group; unsigned w; int arg, lane; bool undef; };

struct Graph {
	std::vector<Node> n; std::vector<Id> kids; std::vector<LeafInfo> leaves;
	std::vector<std::string> names; std::unordered_map<std::string, uint32_t> nameIdx;
	std::vector<uint32_t> tab; size_t mask; uint32_t curLoc = 0;
	Graph() { n.reserve(1 << 20); tab.assign(1 << 20, 0); mask = tab.size() - 1; n.push_back({}); }
	uint32_t name(const std::string &s) { auto it = nameIdx.find(s); if (it != nameIdx.end()) return it->second; names.push_back(s); return nameIdx[s] = names.size() - 1; }
	static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
	uint64_t hashOf(uint8_t op, unsigned w, uint64_t imm, const Id *k, unsigned nk) { uint64_t h = hmix(op * 1315423911u + w, imm); for (unsigned i = 0; i < nk; ++i) h = hmix(h, k[i]); return h; }
	Id mk(uint8_t op, unsigned w, uint64_t imm, const Id *k, unsigned nk) {
		uint64_t h = hashOf(op, w, imm, k, nk);
		size_t i = h & mask;
		while (tab[i]) {
			const Node &x = n[tab[i]];
			if (x.op == op && x.w == w && x.imm == imm && x.nk == nk && (nk == 0 || !memcmp(&kids[x.koff], k, nk * sizeof(Id)))) return tab[i];
			i = (i + 1) & mask;
		}
		if (n.size() > 60u * 1000 * 1000) throw AnalysisError("value graph too large");
		Id r = n.size(); uint32_t ko = kids.size(); kids.insert(kids.end(), k, k + nk);
		n.push_back({imm, ko, (uint16_t)w, op, (uint8_t)nk, curLoc}); tab[i] = r;
		if (n.size() * 2 > tab.size()) { std::vector<uint32_t> t(tab.size() * 2, 0); mask = t.size() - 1;
			for (Id j = 1; j < n.size(); ++j) { const Node &x = n[j]; size_t q = hashOf(x.op, x.w, x.imm, &kids[x.koff], x.nk) & mask; while (t[q]) q = (q + 1) & mask; t[q] = j; } tab.swap(t); }
		return r;
	}
	Id mk1(uint8_t op, unsigned w, Id a, uint64_t imm = 0) { return mk(op, w, imm, &a, 1); }
	Id mk2(uint8_t op, unsigned w, Id a, Id b, uint64_t imm = 0) { Id k[2] = {a, b}; return mk(op, w, imm, k, 2); }
	Id mk3(uint8_t op, unsigned w, Id a, Id b, Id c, uint64_t imm = 0) { Id k[3] = {a, b, c}; return mk(op, w, imm, k, 3); }
	Id kid(Id x, unsigned i) const { return kids[n[x].koff + i]; }
	Op op(Id x) const { return (Op)n[x].op; }
	unsigned w(Id x) const { return n[x].w; }
	uint64_t imm(Id x) const { return n[x].imm; }
	static uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
	bool isC(Id x) const { return n[x].op == CONST; }
	bool isC(Id x, uint64_t v) const { return n[x].op == CONST && n[x].imm == v; }
	bool ones(Id x) const { return n[x].op == CONST && n[x].imm == msk(n[x].w); }
	Id c(unsigned w, uint64_t v) { if (w <= 64) return mk(CONST, w, v & msk(w), nullptr, 0); Id lo = c(64, v); return concat(c(w - 64, 0), lo); }
	Id bit(bool b) { return c(1, b); }
	Id leaf(unsigned w, const std::string &nm, unsigned group, int arg = -1, int lane = -1, bool undef = false) { leaves.push_back({nm, group, w, arg, lane, undef}); return mk(undef ? UNDEF : LEAF, w, leaves.size() - 1, nullptr, 0); }
	unsigned nundef = 0;
	Id undef(unsigned w) { return leaf(w, "undef#" + std::to_string(nundef++), 3, -1, -1, true); }
	int64_t sx(Id x) const { unsigned ww = n[x].w; uint64_t v = n[x].imm; return ww >= 64 ? (int64_t)v : (int64_t)(v << (64 - ww)) >> (64 - ww); }

	bool isCite(Id x) const { return op(x) == ITE && isC(kid(x, 1)) && isC(kid(x, 2)); }
	// light tree of ITEs with constant leaves
	bool ctree(Id x, int d = 5) const { if (isC(x)) return true; return d && op(x) == ITE && ctree(kid(x, 1), d - 1) && ctree(kid(x, 2), d - 1); }
	Id mapc(Id x, const std::function<Id(Id)> &f) { if (op(x) == ITE && !isC(x)) { Id cnd = kid(x, 0), a = kid(x, 1), b = kid(x, 2); Id fa = mapc(a, f); return ite(cnd, fa, mapc(b, f)); } return f(x); }

	Id extract(Id x, unsigned lo, unsigned ww) {
		if (lo == 0 && ww == w(x)) return x;
		if (lo + ww > w(x)) throw AnalysisError("bad extract");
		switch (op(x)) {
		case CONST: return c(ww, imm(x) >> lo);
		case EXTRACT: return extract(kid(x, 0), lo + imm(x), ww);
		case CONCAT: { Id hi = kid(x, 0), l = kid(x, 1); unsigned lw = w(l); if (lo >= lw) return extract(hi, lo - lw, ww); if (lo + ww <= lw) return extract(l, lo, ww); Id lp = extract(l, lo, lw - lo); return concat(extract(hi, 0, lo + ww - lw), lp); }
		case ITE: { Id cc = kid(x, 0), a = kid(x, 1), b = kid(x, 2); Id ea = extract(a, lo, ww); return ite(cc, ea, extract(b, lo, ww)); }
		case NOT: return bnot(extract(kid(x, 0), lo, ww));
		case AND: case OR: case XOR: { Op o = op(x); Id a = kid(x, 0), b = kid(x, 1); Id ea = extract(a, lo, ww), eb = extract(b, lo, ww); return o == AND ? band(ea, eb) : o == OR ? bor(ea, eb) : bxor(ea, eb); }
		case ADD: case SUB: case MUL: if (lo == 0) { Op o = op(x); Id a = extract(kid(x, 0), 0, ww); Id b = extract(kid(x, 1), 0, ww); return arith(o, a, b); } break;
		case SEXT: { Id a = kid(x, 0); unsigned aw = w(a); if (lo + ww <= aw) return extract(a, lo, ww); if (lo >= aw) { Id s = extract(a, aw - 1, 1); return ite(s, c(ww, ~0ull), c(ww, 0)); } return sext(extract(a, lo, aw - lo), ww); }
		default: break;
		}
		return mk1(EXTRACT, ww, x, lo);
	}
	Id concat(Id hi, Id lo) {
		unsigned hw = w(hi), lw = w(lo), t = hw + lw;
		if (isC(hi) && isC(lo) && t <= 64) return c(t, imm(hi) << lw | imm(lo));
		if (op(hi) == EXTRACT && op(lo) == EXTRACT && kid(hi, 0) == kid(lo, 0) && imm(hi) == imm(lo) + lw) return extract(kid(hi, 0), imm(lo), t);
		auto slice = [&](Id l) { return op(hi) == EXTRACT && imm(hi) >= w(l) && op(kid(hi, 0)) >= ADD && op(kid(hi, 0)) <= MUL && extract(kid(hi, 0), imm(hi) - w(l), w(l)) == l; };
		if (slice(lo)) return extract(kid(hi, 0), imm(hi) - lw, t);
		if (op(lo) == CONCAT && slice(kid(lo, 0))) { Id lh = kid(lo, 0), ll = kid(lo, 1); return concat(extract(kid(hi, 0), imm(hi) - w(lh), hw + w(lh)), ll); }
		if (op(lo) == CONCAT) { Id lh = kid(lo, 0), ll = kid(lo, 1); // keep right-leaning: concat(hi, concat(lh,ll))
			if ((op(hi) == EXTRACT && op(lh) == EXTRACT && kid(hi, 0) == kid(lh, 0) && imm(hi) == imm(lh) + w(lh)) || (isC(hi) && isC(lh) && hw + w(lh) <= 64) || (op(hi)==ITE && op(lh)==ITE && kid(hi,0)==kid(lh,0))) return concat(concat(hi, lh), ll); }
		if (op(hi) == CONCAT) { Id hh = kid(hi, 0), hl = kid(hi, 1); Id nl = concat(hl, lo); return concat(hh, nl); }
		if (op(hi) == ITE && op(lo) == ITE && kid(hi, 0) == kid(lo, 0)) { Id cc = kid(hi, 0); Id a = concat(kid(hi, 1), kid(lo, 1)); Id b = concat(kid(hi, 2), kid(lo, 2)); return ite(cc, a, b); }
		if (op(hi) == NOT && op(lo) == NOT) return bnot(concat(kid(hi, 0), kid(lo, 0)));
		if (op(hi) == op(lo) && (op(hi) == AND || op(hi) == OR || op(hi) == XOR)) { // re-fuse a bitwise op split by bytes
			for (int sw = 0; sw < 2; ++sw) { Id ah = kid(hi, 0), bh = kid(hi, 1), al = kid(lo, sw), bl = kid(lo, 1 - sw);
				auto adj = [&](Id p, Id q) { return (op(p) == EXTRACT && op(q) == EXTRACT && kid(p, 0) == kid(q, 0) && imm(p) == imm(q) + w(q)) || (isC(p) && isC(q) && t <= 64); };
				if (adj(ah, al) && adj(bh, bl)) { Op o = op(hi); Id a = concat(ah, al), b = concat(bh, bl); return o == AND ? band(a, b) : o == OR ? bor(a, b) : bxor(a, b); } }
		}
		return mk2(CONCAT, t, hi, lo);
	}
	Id zext(Id x, unsigned ww) { if (w(x) == ww) return x; if (w(x) == 1) return ite(x, c(ww, 1), c(ww, 0)); if (ctree(x)) return mapc(x, [&](Id k) { return c(ww, imm(k)); }); return concat(c(ww - w(x), 0), x); }
	Id sext(Id x, unsigned ww) {
		if (w(x) == ww) return x;
		if (w(x) == 1) return ite(x, c(ww, ~0ull), c(ww, 0));
		if (ctree(x)) return mapc(x, [&](Id k) { return c(ww, (uint64_t)sx(k)); });
		if (op(x) == SEXT) return sext(kid(x, 0), ww);
		if (op(x) == CONCAT && isC(kid(x, 0)) && !(imm(kid(x, 0)) >> (w(kid(x, 0)) - 1))) return concat(c(ww - w(x), 0), x);
		return mk1(SEXT, ww, x);
	}
	Id trunc(Id x, unsigned ww) { return extract(x, 0, ww); }
	Id bnot(Id x) {
		if (isC(x)) return c(w(x), ~imm(x));
		if (op(x) == NOT) return kid(x, 0);
		if (op(x) == ITE && (isC(kid(x, 1)) || isC(kid(x, 2)))) { Id cc = kid(x, 0), a = kid(x, 1), b = kid(x, 2); Id na = bnot(a); return ite(cc, na, bnot(b)); }
		return mk1(NOT, w(x), x);
	}
	bool compl_(Id a, Id b) const { return (op(a) == NOT && kid(a, 0) == b) || (op(b) == NOT && kid(b, 0) == a); }
	// ite(c, k, 0) or ite(c, 0, k) with a constant k
	bool orZero(Id x, Id &cc, Id &k) { if (op(x) != ITE) return false; if (isC(kid(x, 2), 0) && isC(kid(x, 1))) { cc = kid(x, 0); k = kid(x, 1); return true; } if (isC(kid(x, 1), 0) && isC(kid(x, 2))) { Id q = kid(x, 0); k = kid(x, 2); cc = bnot(q); return true; } return false; }
	// conditions that hold whenever the width-1 value x is `val` (conjuncts), and x simplified under such facts
	typedef std::vector<std::pair<Id, bool>> Facts;
	void factsOf(Id x, bool val, Facts &f, unsigned &budget) { if (!budget) return; --budget; Op o = op(x);
		if (o == NOT) { factsOf(kid(x, 0), !val, f, budget); return; }
		if (o == (val ? AND : OR)) { Id a = kid(x, 0), b = kid(x, 1); factsOf(a, val, f, budget); factsOf(b, val, f, budget); return; }
		if (o != CONST) f.push_back({x, val}); }
	Id under(Id x, const Facts &f, unsigned &budget) {
		if (isC(x) || !budget) return x; --budget;
		auto it = std::lower_bound(f.begin(), f.end(), std::pair<Id, bool>(x, false)); if (it != f.end() && it->first == x) return bit(it->second);
		Op o = op(x);
		if (o == NOT) { Id k = kid(x, 0), r = under(k, f, budget); return r == k ? x : bnot(r); }
		if (o == AND || o == OR) { Id a = kid(x, 0), b = kid(x, 1); Id ra = under(a, f, budget); if (isC(ra) && (imm(ra) != 0) == (o == OR)) return ra; Id rb = under(b, f, budget); return ra == a && rb == b ? x : o == AND ? band(ra, rb) : bor(ra, rb); }
		return x; }
	bool compound(Id x) const { Op o = op(x); return o == AND || o == OR || (o == NOT && (op(kid(x, 0)) == AND || op(kid(x, 0)) == OR)); }
	Id assuming(Id x, Id y, bool val) { if (!compound(x)) { if (x == y) return bit(val); if (!compound(y)) return compl_(x, y) ? bit(!val) : x; }
		Facts f; unsigned b1 = 200, b2 = 600; factsOf(y, val, f, b1); std::sort(f.begin(), f.end()); return under(x, f, b2); }
	Id band(Id a, Id b) {
		if (a == b) return a;
		if (isC(a)) std::swap(a, b);
		if (isC(b)) { if (isC(a)) return c(w(a), imm(a) & imm(b)); if (imm(b) == 0) return b; if (ones(b)) return a;
			if (ctree(a)) { return mapc(a, [&](Id k) { return band(k, b); }); }
			if (op(a) == XOR && isC(kid(a, 1))) { Id t = band(kid(a, 0), b); return bxor(t, c(w(a), imm(kid(a, 1)) & imm(b))); }
			if (op(a) == AND) for (unsigned i = 0; i < 2; ++i) if (isC(kid(a, i))) return band(kid(a, 1 - i), c(w(a), imm(kid(a, i)) & imm(b))); }
		if (compl_(a, b)) return c(w(a), 0);
		if (w(a) > 1) { // mask-shaped operand: ite(c,ones,0) & y
			for (int s = 0; s < 2; ++s) { Id m = s ? b : a, y = s ? a : b; if (isCite(m) && ((ones(kid(m, 1)) && isC(kid(m, 2), 0)) || (isC(kid(m, 1), 0) && ones(kid(m, 2))))) { Id cc = kid(m, 0); return ones(kid(m, 1)) ? ite(cc, y, c(w(y), 0)) : ite(cc, c(w(y), 0), y); } }
			{ Id z = c(w(a), 0), ca, ka, cb, kb; if (orZero(a, ca, ka) && orZero(b, cb, kb)) { Id m = band(ca, cb); return ite(m, c(w(a), imm(ka) & imm(kb)), z); } }
			if (op(a)==CONCAT && op(b)==CONCAT && w(kid(a,1))==w(kid(b,1))) { Id h=band(kid(a,0),kid(b,0)); return concat(h, band(kid(a,1),kid(b,1))); }
			if (isC(b) && op(a)==CONCAT) { unsigned lw=w(kid(a,1)); Id ah=kid(a,0), al=kid(a,1); Id h=band(ah, extract(b,lw,w(ah))); return concat(h, band(al, extract(b,0,lw))); }
		} else {
			// absorption
			for (int s = 0; s < 2; ++s) { Id x = s ? b : a, y = s ? a : b; if (op(x) == AND && (kid(x, 0) == y || kid(x, 1) == y)) return x; if (op(x) == AND && (compl_(kid(x, 0), y) || compl_(kid(x, 1), y))) return c(1, 0); if (op(x) == OR && (kid(x, 0) == y || kid(x, 1) == y)) return y;
				if (op(x)==OR) { if (compl_(kid(x,0),y)) return band(kid(x,1),y); if (compl_(kid(x,1),y)) return band(kid(x,0),y);} }
			if (compound(a) || compound(b)) { Id q = assuming(b, a, true); if (q != b) return band(a, q); q = assuming(a, b, true); if (q != a) return band(q, b); }
		}
		if (a > b) std::swap(a, b);
		return mk2(AND, w(a), a, b);
	}
	Id bor(Id a, Id b) {
		if (a == b) return a;
		if (isC(a)) std::swap(a, b);
		if (isC(b)) { if (isC(a)) return c(w(a), imm(a) | imm(b)); if (imm(b) == 0) return a; if (ones(b)) return b;
			if (ctree(a)) return mapc(a, [&](Id k) { return bor(k, b); }); }
		if (compl_(a, b)) return c(w(a), ~0ull);
		if (w(a) > 1) {
			for (int s = 0; s < 2; ++s) { Id m = s ? b : a, y = s ? a : b; if (isCite(m) && ((ones(kid(m, 1)) && isC(kid(m, 2), 0)) || (isC(kid(m, 1), 0) && ones(kid(m, 2))))) { Id cc = kid(m, 0); return ones(kid(m, 1)) ? ite(cc, c(w(y), ~0ull), y) : ite(cc, y, c(w(y), ~0ull)); } }
			{ Id ca, ka, cb, kb; if (orZero(a, ca, ka) && orZero(b, cb, kb) && ka == kb) { Id m = bor(ca, cb); return ite(m, ka, c(w(a), 0)); } }
			if (op(a) == ITE && op(b) == ITE && kid(a, 0) == kid(b, 0)) { Id cc = kid(a, 0); Id x = bor(kid(a, 1), kid(b, 1)); Id y = bor(kid(a, 2), kid(b, 2)); return ite(cc, x, y); }
			if (op(a)==CONCAT && op(b)==CONCAT && w(kid(a,1))==w(kid(b,1))) { Id h=bor(kid(a,0),kid(b,0)); return concat(h, bor(kid(a,1),kid(b,1))); }
		} else {
			for (int s = 0; s < 2; ++s) { Id x = s ? b : a, y = s ? a : b; if (op(x) == OR && (kid(x, 0) == y || kid(x, 1) == y)) return x; if (op(x) == OR && (compl_(kid(x, 0), y) || compl_(kid(x, 1), y))) return c(1, 1); if (op(x) == AND && (kid(x, 0) == y || kid(x, 1) == y)) return y;
				if (op(x)==AND) { if (compl_(kid(x,0),y)) return bor(kid(x,1),y); if (compl_(kid(x,1),y)) return bor(kid(x,0),y);} }
			if (op(a) == AND && op(b) == AND) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (kid(a, i) == kid(b, j)) { Id p = kid(a, 1 - i), q = kid(b, 1 - j); Id f = kid(a, i); Id o = bor(p, q); return band(f, o); }
			if (compound(a) || compound(b)) { Id q = assuming(b, a, false); if (q != b) return bor(a, q); q = assuming(a, b, false); if (q != a) return bor(q, b); }
		}
		if (a > b) std::swap(a, b);
		return mk2(OR, w(a), a, b);
	}
	Id bxor(Id a, Id b) {
		if (a == b) return c(w(a), 0);
		if (isC(a)) std::swap(a, b);
		if (isC(b)) { if (isC(a)) return c(w(a), imm(a) ^ imm(b)); if (imm(b) == 0) return a; if (ones(b)) return bnot(a);
			if (op(a) == XOR && isC(kid(a, 1))) return bxor(kid(a, 0), c(w(a), imm(b) ^ imm(kid(a, 1))));
			if (ctree(a)) return mapc(a, [&](Id k) { return bxor(k, b); }); }
		if (compl_(a, b)) return c(w(a), ~0ull);
		if (op(a) == ITE && op(b) == ITE && kid(a, 0) == kid(b, 0) && (isCite(a) || isCite(b))) { Id cc = kid(a, 0); Id x = bxor(kid(a, 1), kid(b, 1)); Id y = bxor(kid(a, 2), kid(b, 2)); return ite(cc, x, y); }
		if (isC(b)) return mk2(XOR, w(a), a, b);
		for (int s = 0; s < 2; ++s) { Id x = s ? b : a, y = s ? a : b; // constants outside; x ^ (x & m) == x & ~m
			if (op(x) == XOR && isC(kid(x, 1))) { Id k = kid(x, 1), t = bxor(kid(x, 0), y); return bxor(t, k); }
			if (op(y) == AND) for (unsigned i = 0; i < 2; ++i) if (kid(y, i) == x && isC(kid(y, 1 - i))) return band(x, bnot(kid(y, 1 - i))); }
		for (int s = 0; s < 2; ++s) { Id x = s ? b : a, y = s ? a : b; // x ^ (mask & (x ^ y)): a selection
			auto has = [&](Id t) { return op(t) == XOR && (kid(t, 0) == x || kid(t, 1) == x); };
			if (op(y) == ITE && isC(kid(y, 2)) && imm(kid(y, 2)) == 0 && has(kid(y, 1))) return ite(kid(y, 0), bxor(x, kid(y, 1)), x);
			if (op(y) == ITE && isC(kid(y, 1)) && imm(kid(y, 1)) == 0 && has(kid(y, 2))) return ite(kid(y, 0), x, bxor(x, kid(y, 2)));
			if (has(y)) return kid(y, 0) == x ? kid(y, 1) : kid(y, 0);
			if (op(y) == AND) for (unsigned i = 0; i < 2; ++i) if (op(kid(y, i)) == SEXT && w(kid(kid(y, i), 0)) == 1 && has(kid(y, 1 - i))) return ite(kid(kid(y, i), 0), bxor(x, kid(y, 1 - i)), x); }
		if (a > b) std::swap(a, b);
		return mk2(XOR, w(a), a, b);
	}
	// re-association: operands of an associative-commutative operation as a sorted list
	bool ac = false;
	void acList(uint8_t o, uint64_t im, Id x, std::vector<Id> &l) { std::vector<Id> st{x}; while (!st.empty()) { Id y = st.back(); st.pop_back(); if (n[y].op == o && n[y].imm == im && n[y].nk == 2) { st.push_back(kid(y, 0)); st.push_back(kid(y, 1)); } else l.push_back(y); } }
	bool acUnit(uint8_t o, Id x) const { if (!isC(x)) return false; unsigned ww = w(x); uint64_t v = imm(x), top = 1ull << (ww - 1), inf = ww == 32 ? 0x7f800000u : ww == 64 ? 0x7ff0000000000000ull : 0;
		switch (o) { case ADD: return v == 0; case MUL: return v == 1; case FADD: return (v & ~top) == 0; case FMUL: return v == (ww == 32 ? 0x3f800000u : 0x3ff0000000000000ull);
		case AMINS: return v == top - 1; case AMAXS: return v == top; case AMINU: return v == msk(ww); case AMAXU: return v == 0; case AMINF: return v == inf; case AMAXF: return v == (inf | top); default: return false; } }
	Id acOp(uint8_t o, Id a, Id b, uint64_t im = 0) {
		std::vector<Id> l; acList(o, im, a, l); acList(o, im, b, l); unsigned ww = w(a);
		std::sort(l.begin(), l.end()); if (o >= AMINS && o <= AMAXF) l.erase(std::unique(l.begin(), l.end()), l.end());
		std::vector<Id> r; for (Id x : l) if (!acUnit(o, x)) r.push_back(x); if (r.empty()) return l[0];
		if (o == ADD || o == MUL) { uint64_t k = o == MUL; std::vector<Id> q; for (Id x : r) if (isC(x)) k = o == ADD ? k + imm(x) : k * imm(x); else q.push_back(x); if (q.size() != r.size()) { Id kc = c(ww, k); if (o == MUL && isC(kc, 0)) return kc; if (q.empty()) return kc; if (!acUnit(o, kc)) q.push_back(kc); } r.swap(q); }
		Id x = r[0]; for (size_t i = 1; i < r.size(); ++i) x = mk2(o, ww, x, r[i], im); return x; }
	Id arith(Op o, Id a, Id b) {
		unsigned ww = w(a);
		if (ac && (o == ADD || o == MUL) && op(a) != PTR && op(b) != PTR && !(isC(a) && isC(b))) return acOp(o, a, b);
		if (isC(a) && isC(b)) return c(ww, o == ADD ? imm(a) + imm(b) : o == SUB ? imm(a) - imm(b) : imm(a) * imm(b));
		if (o != SUB && isC(a)) std::swap(a, b);
		if (isC(b)) {
			if (imm(b) == 0) return o == MUL ? b : a;
			if (o == MUL && imm(b) == 1) return a;
			if (o == MUL && !(imm(b) & (imm(b) - 1))) return shl(a, c(ww, __builtin_ctzll(imm(b))));
			if (o == SUB) return arith(ADD, a, c(ww, -imm(b)));
			if (o == ADD && op(a) == ADD && isC(kid(a, 1))) return arith(ADD, kid(a, 0), c(ww, imm(kid(a, 1)) + imm(b)));
			if (ctree(a)) return mapc(a, [&](Id k) { return arith(o, k, b); });
		}
		if (o == SUB) { if (a == b) return c(ww, 0);
			if (op(a) == PTR && op(b) == PTR && imm(a) == imm(b)) return arith(SUB, kid(a, 0), kid(b, 0));
			if (isC(a) && ctree(b)) return mapc(b, [&](Id k) { return arith(SUB, a, k); }); }
		if (o == ADD) { if (op(a) == PTR) return gep(a, b); if (op(b) == PTR) return gep(b, a); }
		if (o != SUB && !isC(b) && a > b) std::swap(a, b);
		return mk2(o, ww, a, b);
	}
	Id gep(Id p, Id off) { if (isC(off, 0)) return p;
		if (op(p) == PTR) return mk1(PTR, 64, arith(ADD, kid(p, 0), off), imm(p));
		if (op(p) == ITE) { Id cc = kid(p, 0), a = kid(p, 1), b = kid(p, 2); Id x = gep(a, off); return ite(cc, x, gep(b, off)); }
		return arith(ADD, p, off); }
	Id add(Id a, Id b) { return arith(ADD, a, b); }
	Id sub(Id a, Id b) { return arith(SUB, a, b); }
	Id neg(Id a) { return sub(c(w(a), 0), a); }
	Id div(Op o, Id a, Id b) {
		unsigned ww = w(a);
		if (isC(a) && isC(b) && imm(b)) { if (o == UDIV) return c(ww, imm(a) / imm(b)); if (o == UREM) return c(ww, imm(a) % imm(b)); int64_t x = sx(a), y = sx(b); if (y == -1) return o == SDIV ? c(ww, -(uint64_t)x) : c(ww, 0); return c(ww, o == SDIV ? x / y : x % y); }
		if (isC(b) && imm(b) == 1) return (o == UDIV || o == SDIV) ? a : c(ww, 0);
		if ((o == UDIV || o == UREM) && isC(b) && imm(b) && !(imm(b) & (imm(b) - 1))) return o == UDIV ? lshr(a, c(ww, __builtin_ctzll(imm(b)))) : band(a, c(ww, imm(b) - 1));
		if ((o == SDIV || o == SREM) && isC(b) && imm(b) && !(imm(b) & (imm(b) - 1)) && !(imm(b) >> (ww - 1))) { // round toward zero by a power of two
			unsigned k = __builtin_ctzll(imm(b)); Id s = ashr(a, c(ww, ww - 1)); Id bias = lshr(s, c(ww, ww - k)); Id t = add(a, bias); Id q = ashr(t, c(ww, k)); return o == SDIV ? q : sub(a, shl(q, c(ww, k))); }
		if (o == UDIV || o == UREM) { // division of zero-extended operands, narrow
			auto zw = [&](Id x) -> unsigned { if (isC(x)) return imm(x) ? 64 - __builtin_clzll(imm(x)) : 1; if (op(x) == CONCAT && isC(kid(x, 0), 0)) return w(kid(x, 1)); return ww; };
			unsigned m = std::max(zw(a), zw(b)); for (unsigned k : {8u, 16u, 32u}) if (m <= k && k < ww) return zext(div(o, trunc(a, k), trunc(b, k)), ww);
		}
		return mk2(o, ww, a, b);
	}
	// leaves that only select (shift counts) go above the data they select in the variable order
	void hoist(Id a, Id b) {
		std::vector<Id> st{b}; std::set<uint32_t> found; unsigned steps = 0;
		while (!st.empty()) { Id x = st.back(); st.pop_back(); if (++steps > 200) return; if (op(x) == LEAF) { found.insert(n[x].imm); continue; } if (op(x) == CONST) continue; if (op(x) != EXTRACT && op(x) != CONCAT && op(x) != ITE && op(x) != AND && op(x) != SEXT && op(x) != ULT && op(x) != EQ && op(x) != NOT) return; for (unsigned i = 0; i < n[x].nk; ++i) st.push_back(kid(x, i)); }
		std::set<Id> seen; st = {a}; while (!st.empty()) { Id x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (seen.size() > 2000) return; if (op(x) == LEAF && found.count(n[x].imm)) return; for (unsigned i = 0; i < n[x].nk; ++i) st.push_back(kid(x, i)); }
		for (uint32_t l : found) leaves[l].group = 0;
	}
	Id shl(Id a, Id b) { unsigned ww = w(a); if (isC(b)) { if (imm(b) >= ww) return c(ww, 0); if (!imm(b)) return a; unsigned s = imm(b); return concat(extract(a, 0, ww - s), c(s, 0)); } if (ctree(b)) return mapc(b, [&](Id k) { return shl(a, k); }); hoist(a, b); return mk2(SHL, ww, a, b); }
	Id lshr(Id a, Id b) { unsigned ww = w(a); if (isC(b)) { if (imm(b) >= ww) return c(ww, 0); if (!imm(b)) return a; unsigned s = imm(b); return zext(extract(a, s, ww - s), ww); } if (ctree(b)) return mapc(b, [&](Id k) { return lshr(a, k); }); hoist(a, b); return mk2(LSHR, ww, a, b); }
	Id ashr(Id a, Id b) { unsigned ww = w(a); if (isC(b)) { unsigned s = std::min<uint64_t>(imm(b), ww - 1); if (!s) return a; return sext(extract(a, s, ww - s), ww); } if (ctree(b)) return mapc(b, [&](Id k) { return ashr(a, k); }); hoist(a, b); return mk2(ASHR, ww, a, b); }
	Id ite(Id cc, Id a, Id b) {
		if (isC(cc)) return imm(cc) ? a : b;
		if (a == b) return a;
		if (op(cc) == NOT) { cc = kid(cc, 0); std::swap(a, b); }
		if (w(a) == 1) { if (isC(a) && isC(b)) return imm(a) ? cc : bnot(cc); if (isC(a)) return imm(a) ? bor(cc, b) : band(bnot(cc), b); if (isC(b)) return imm(b) ? bor(bnot(cc), a) : band(cc, a); if (a == cc) return bor(cc, b); if (b == cc) return band(cc, a); }
		if (op(a) == ITE && kid(a, 0) == cc) a = kid(a, 1);
		if (op(b) == ITE && kid(b, 0) == cc) b = kid(b, 2);
		if (a == b) return a;
		if (ac && w(a) > 1) { Id q = cc; if (op(q) == OR) { Id p0 = kid(q, 0), p1 = kid(q, 1); if (op(p0) == FOEQ) std::swap(p0, p1); if (op(p0) == FOLT && op(p1) == FOEQ) { Id e0 = kid(p1, 0), e1 = kid(p1, 1), x = kid(p0, 0), y = kid(p0, 1); if ((e0 == x && e1 == y) || (e0 == y && e1 == x)) q = p0; } }
			if (op(q) == SLT || op(q) == ULT || op(q) == FOLT) { Id x = kid(q, 0), y = kid(q, 1); int k = op(q) == SLT ? 0 : op(q) == ULT ? 2 : 4; if (a == x && b == y) return acOp(AMINS + k, x, y); if (a == y && b == x) return acOp(AMAXS + k, x, y); } }
		if (op(b) == ITE && kid(b, 1) == a) { return ite(bor(cc, kid(b, 0)), a, kid(b, 2)); }
		if (op(a) == ITE && kid(a, 2) == b) { return ite(band(cc, kid(a, 0)), kid(a, 1), b); }
		if (op(a) == ITE && kid(a, 1) == b) { return ite(band(cc, bnot(kid(a, 0))), kid(a, 2), b); }
		if (op(b) == ITE && kid(b, 2) == a) { return ite(band(bnot(cc), kid(b, 0)), kid(b, 1), a); }
		if (w(a) > 1) { // inner conditions decided by the outer one
			if (op(a) == ITE) { Id d = kid(a, 0), q = assuming(d, cc, true); if (q != d) { Id x = kid(a, 1), y = kid(a, 2); Id r = ite(q, x, y); return ite(cc, r, b); } }
			if (op(b) == ITE) { Id d = kid(b, 0), q = assuming(d, cc, false); if (q != d) { Id x = kid(b, 1), y = kid(b, 2); Id r = ite(q, x, y); return ite(cc, a, r); } }
		}
		if (op(a) == PTR && op(b) == PTR && imm(a) == imm(b)) return mk1(PTR, 64, ite(cc, kid(a, 0), kid(b, 0)), imm(a));
		return mk3(ITE, w(a), cc, a, b);
	}
	Id eq(Id a, Id b) {
		if (a == b) return bit(1);
		if (isC(a)) std::swap(a, b);
		if (isC(a)) return bit(imm(a) == imm(b));
		if (w(a) == 1) { return bnot(bxor(a, b)); }
		if (isC(b)) { if (ctree(a)) return mapc(a, [&](Id k) { return bit(imm(k) == imm(b)); });
			if (op(a) == CONCAT) { Id h = kid(a, 0), l = kid(a, 1); unsigned lw = w(l); Id eh = eq(h, extract(b, lw, w(h))); if (isC(eh, 0)) return eh; return band(eh, eq(l, extract(b, 0, lw))); }
			if (op(a) == PTR) { if (imm(b) == 0) return bit(0); }
			if (op(a) == ITE) { Id cc = kid(a, 0), x = kid(a, 1), y = kid(a, 2); if (isC(x) || isC(y) || op(x)==PTR) { Id ex = eq(x, b); return ite(cc, ex, eq(y, b)); } } }
		if (op(a) == PTR && op(b) == PTR) { if (imm(a) == imm(b)) return eq(kid(a, 0), kid(b, 0)); return bit(0); }
		if (a > b && !isC(b)) std::swap(a, b);
		return mk2(EQ, 1, a, b);
	}
	Id ult(Id a, Id b) {
		if (a == b) return bit(0);
		if (isC(a) && isC(b)) return bit(imm(a) < imm(b));
		if (isC(b, 0)) return bit(0);
		if (op(a) == CONCAT && op(b) == CONCAT && isC(kid(a, 0), 0) && isC(kid(b, 0), 0) && w(kid(a, 1)) == w(kid(b, 1))) return ult(kid(a, 1), kid(b, 1));
		if (isC(b) && ctree(a)) return mapc(a, [&](Id k) { return bit(imm(k) < imm(b)); });
		if (isC(a) && ctree(b)) return mapc(b, [&](Id k) { return bit(imm(a) < imm(k)); });
		if (op(a) == PTR && op(b) == PTR && imm(a) == imm(b)) return ult(kid(a, 0), kid(b, 0));
		return mk2(ULT, 1, a, b);
	}
	Id slt(Id a, Id b) {
		if (a == b) return bit(0);
		if (isC(a) && isC(b)) return bit(sx(a) < sx(b));
		if (isC(b, 0)) return extract(a, w(a) - 1, 1);
		if (op(a) == SEXT && op(b) == SEXT && w(kid(a, 0)) == w(kid(b, 0))) return slt(kid(a, 0), kid(b, 0));
		if (op(a) == CONCAT && op(b) == CONCAT && isC(kid(a, 0), 0) && isC(kid(b, 0), 0) && w(kid(a, 1)) == w(kid(b, 1))) return ult(kid(a, 1), kid(b, 1));
		if (isC(b) && ctree(a)) return mapc(a, [&](Id k) { return bit(sx(k) < sx(b)); });
		if (isC(a) && ctree(b)) return mapc(b, [&](Id k) { return bit(sx(a) < sx(k)); });
		return mk2(SLT, 1, a, b);
	}
	// floating point
	static float f32(uint64_t v) { uint32_t u = v; float f; memcpy(&f, &u, 4); return f; }
	static double f64(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
	static uint64_t b32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
	static uint64_t b64(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
	Id fbin(Op o, Id a, Id b) {
		unsigned ww = w(a);
		if (isC(a) && isC(b)) {
			if (ww == 32) { float x = f32(imm(a)), y = f32(imm(b)), r = o == FADD ? x + y : o == FMUL ? x * y : o == FDIV ? x / y : std::fmod(x, y); return c(32, b32(r)); }
			if (ww == 64) { double x = f64(imm(a)), y = f64(imm(b)), r = o == FADD ? x + y : o == FMUL ? x * y : o == FDIV ? x / y : std::fmod(x, y); return c(64, b64(r)); }
		}
		if (ac && (o == FADD || o == FMUL)) return acOp(o, a, b);
		if (o == FADD || o == FMUL) { if (isC(a)) std::swap(a, b);
			if (isC(b) && (o == FADD ? !(imm(b) & (msk(ww) >> 1)) : (imm(b) & (msk(ww) >> 1)) == (ww == 32 ? 0x3f800000u : 0x3ff0000000000000ull)) && (ww == 32 || ww == 64)) {
				bool sg = imm(b) >> (ww - 1); Id q = bor(a, c(ww, 1ull << (ww == 32 ? 22 : 51))), r = o == FMUL ? (sg ? bxor(a, sgn(ww)) : a) : sg ? a : ite(eq(a, sgn(ww)), c(ww, 0), a); return ite(isnan_(a), q, r); } }
		if ((o == FADD || o == FMUL) && a > b) std::swap(a, b);
		return mk2(o, ww, a, b);
	}
	Id sgn(unsigned ww) { return c(ww, 1ull << (ww - 1)); }
	Id fneg(Id a) { return bxor(a, sgn(w(a))); }
	Id fsub(Id a, Id b) { return fbin(FADD, a, fneg(b)); }
	Id fabs_(Id a) { unsigned ww = w(a); return concat(c(1, 0), extract(a, 0, ww - 1)); }
	Id fma_(Id a, Id b, Id cc) {
		if (isC(a) && isC(b) && isC(cc)) return w(a) == 32 ? c(32, b32(fmaf(f32(imm(a)), f32(imm(b)), f32(imm(cc))))) : c(64, b64(fma(f64(imm(a)), f64(imm(b)), f64(imm(cc)))));
		if (a > b) std::swap(a, b);
		return mk3(FMA, w(a), a, b, cc);
	}
	Id fsqrt(Id a) { if (isC(a)) return w(a) == 32 ? c(32, b32(std::sqrt(f32(imm(a))))) : c(64, b64(std::sqrt(f64(imm(a))))); return mk1(FSQRT, w(a), a); }
	double dv(Id a) const { return w(a) == 32 ? f32(imm(a)) : f64(imm(a)); }
	bool isNaNc(Id a) const { return std::isnan(dv(a)); }
	Id foeq(Id a, Id b) { if (isC(a) && isC(b)) return bit(dv(a) == dv(b)); if ((isC(a) && isNaNc(a)) || (isC(b) && isNaNc(b))) return bit(0); if (a > b) std::swap(a, b); return mk2(FOEQ, 1, a, b); }
	Id folt(Id a, Id b) { if (isC(a) && isC(b)) return bit(dv(a) < dv(b)); if ((isC(a) && isNaNc(a)) || (isC(b) && isNaNc(b))) return bit(0); if (a == b) return bit(0); return mk2(FOLT, 1, a, b); }
	Id isnan_(Id a) { if (isC(a)) return bit(isNaNc(a)); return mk1(FUNO, 1, a); }
	Id funo(Id a, Id b) { Id x = isnan_(a); return bor(x, isnan_(b)); }
	Id fole(Id a, Id b) { Id x = folt(a, b); return bor(x, foeq(a, b)); }
	Id fpext(Id a) { if (isC(a)) return c(64, b64((double)f32(imm(a)))); return mk1(FPEXT, 64, a); }
	Id fptrunc(Id a) { if (isC(a)) return c(32, b32((float)f64(imm(a)))); return mk1(FPTRUNC, 32, a); }
	// fp->int without range handling (callers add the range ITE)
	Id ftoi(Op o, Id a, unsigned ww) { if (isC(a)) { double d = dv(a); if (o == FTOSI ? (d > -9.3e18 && d < 9.2e18) : (d > -1 && d < 1.8e19)) return c(ww, o == FTOSI ? (uint64_t)(int64_t)d : (uint64_t)d); } return mk1(o, ww, a); }
	Id itof(Op o, Id a, unsigned ww) { if (isC(a)) { if (ww == 32) return c(32, b32(o == SITOF ? (float)sx(a) : (float)imm(a))); return c(64, b64(o == SITOF ? (double)sx(a) : (double)imm(a))); }
		if (o == UITOF && op(a) == CONCAT && isC(kid(a, 0), 0)) return itof(UITOF, kid(a, 1), ww);
		if (o == SITOF && op(a) == SEXT) return itof(SITOF, kid(a, 0), ww);
		if (o == SITOF && op(a) == CONCAT && isC(kid(a, 0), 0)) return itof(UITOF, kid(a, 1), ww);
		if (o==UITOF && w(a) < 64) { return mk1(SITOF, ww, zext(a, w(a) * 2 > 64 ? 64 : w(a) * 2)); }
		return mk1(o, ww, a); }
	// rounding mode: 0 nearest-even 1 floor 2 ceil 3 trunc 5 half-away
	Id fround(Id a, unsigned mode) { if (isC(a)) { double d = dv(a), r = mode == 0 ? std::nearbyint(d) : mode == 1 ? std::floor(d) : mode == 2 ? std::ceil(d) : mode == 3 ? std::trunc(d) : std::round(d); return w(a) == 32 ? c(32, b32((float)r)) : c(64, b64(r)); } return mk1(FROUND, w(a), a, mode); }
	Id uf(const std::string &nm, unsigned ww, const std::vector<Id> &a) { if (ac && a.size() == 2 && nm.compare(0, 5, "vp_ac") == 0) return acOp(UF, a[0], a[1], name(nm)); return mk(UF, ww, name(nm), a.data(), a.size()); }
	Id table(uint32_t obj, Id off, unsigned ww) { return mk1(TABLE, ww, off, obj); }
	std::string str(Id x, int d = 4) const {
		const Node &q = n[x]; char b[64];
		switch (q.op) {
		case CONST: snprintf(b, 64, "%u'0x%llx", q.w, (unsigned long long)q.imm); return b;
		case LEAF: case UNDEF: return leaves[q.imm].name;
		}
		std::string s = opname[q.op]; if (q.op == UF) s = names[q.imm]; else if (q.op == EXTRACT) { snprintf(b, 64, "[%u+%u]", (unsigned)q.imm, q.w); s += b; } else if (q.op == PTR || q.op == TABLE || q.op == FROUND) { snprintf(b, 64, "#%u", (unsigned)q.imm); s += b; }
		if (!d) return s + "(..)";
		s += "("; for (unsigned i = 0; i < q.nk; ++i) { if (i) s += ","; s += str(kids[q.koff + i], d - 1); } return s + ")";
	}
	void reset() { n.clear(); kids.clear(); leaves.clear(); names.clear(); nameIdx.clear(); std::fill(tab.begin(), tab.end(), 0); n.push_back({}); nundef = 0; curLoc = 0; }
};

// ---------------- ROBDD with complement edges ----------------
typedef uint32_t Edge; // (index<<1)|complement ; index 0 = TRUE terminal
struct Bdd {
	struct BN { uint32_t var; Edge hi, lo; uint32_t next; };
	std::vector<BN> n; std::vector<uint32_t> tab; size_t mask;
	struct CE { Edge f, g, h, r; }; std::vector<CE> cache; size_t cmask;
	size_t cap = 8u * 1000 * 1000;
	static constexpr Edge T = 0, F = 1;
	Bdd() { tab.assign(1 << 16, 0); mask = tab.size() - 1; cache.assign(1 << 18, CE{~0u, 0, 0, 0}); cmask = cache.size() - 1; n.push_back({~0u, 0, 0, 0}); }
	void reset() { n.resize(1); if (tab.size() > (1 << 20)) tab.assign(1 << 16, 0); else std::fill(tab.begin(), tab.end(), 0); mask = tab.size() - 1; std::fill(cache.begin(), cache.end(), CE{~0u, 0, 0, 0}); }
	static Edge neg(Edge e) { return e ^ 1; }
	uint32_t var(Edge e) const { return n[e >> 1].var; }
	static size_t h3(uint64_t a, uint64_t b, uint64_t c) { uint64_t h = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15) * 0xc2b2ae3d27d4eb4full ^ (c + 0x1234567) * 0x165667b19e3779f9ull; return h ^ (h >> 31); }
	Edge mk(uint32_t v, Edge hi, Edge lo) {
		if (hi == lo) return hi;
		bool cpl = hi & 1; if (cpl) { hi ^= 1; lo ^= 1; }
		size_t i = h3(v, hi, lo) & mask;
		for (uint32_t j = tab[i]; j; j = n[j].next) if (n[j].var == v && n[j].hi == hi && n[j].lo == lo) return (j << 1) | cpl;
		if (n.size() > cap) throw AnalysisError("bit domain too large");
		uint32_t r = n.size(); n.push_back({v, hi, lo, tab[i]}); tab[i] = r;
		if (n.size() > tab.size() * 2) { std::vector<uint32_t> t(tab.size() * 4, 0); mask = t.size() - 1; for (uint32_t j = 1; j < n.size(); ++j) { size_t q = h3(n[j].var, n[j].hi, n[j].lo) & mask; n[j].next = t[q]; t[q] = j; } tab.swap(t);
			if (cache.size() < n.size() && cache.size() < (1u << 24)) { cache.assign(cache.size() * 4, CE{~0u, 0, 0, 0}); cmask = cache.size() - 1; } }
		return (r << 1) | cpl;
	}
	Edge v(uint32_t k) { return mk(k, T, F); }
	Edge hiE(Edge e, uint32_t v) const { const BN &x = n[e >> 1]; return x.var == v ? x.hi ^ (e & 1) : e; }
	Edge loE(Edge e, uint32_t v) const { const BN &x = n[e >> 1]; return x.var == v ? x.lo ^ (e & 1) : e; }
	Edge ite(Edge f, Edge g, Edge h) {
		if (f == T) return g; if (f == F) return h; if (g == h) return g;
		if (g == f) g = T; else if (g == neg(f)) g = F; if (h == f) h = F; else if (h == neg(f)) h = T;
		if (g == T && h == F) return f; if (g == F && h == T) return neg(f); if (g == h) return g;
		if (f & 1) { f ^= 1; std::swap(g, h); }
		// canonicalise commutative forms
		if (g == T) { if (h > 1 && (h >> 1) < (f >> 1)) { std::swap(f, h); if (f & 1) { f ^= 1; Edge t = g; g = h; h = t; return ite(f, g, h); } } }
		else if (h == F) { if (g > 1 && (g >> 1) < (f >> 1)) { std::swap(f, g); if (f & 1) return ite(f ^ 1, F, g); } }
		bool cpl = false; if (g & 1) { cpl = true; g ^= 1; h ^= 1; }
		CE &ce = cache[h3(f, g, h) & cmask]; if (ce.f == f && ce.g == g && ce.h == h) return ce.r ^ cpl;
		uint32_t v = std::min(var(f), std::min(var(g), var(h)));
		Edge a = ite(hiE(f, v), hiE(g, v), hiE(h, v)); Edge b = ite(loE(f, v), loE(g, v), loE(h, v));
		Edge r = mk(v, a, b);
		CE &c2 = cache[h3(f, g, h) & cmask]; c2 = {f, g, h, r};
		return r ^ cpl;
	}
	Edge and_(Edge a, Edge b) { return ite(a, b, F); }
	Edge or_(Edge a, Edge b) { return ite(a, T, b); }
	Edge xor_(Edge a, Edge b) { return ite(a, neg(b), b); }
	Edge xnor_(Edge a, Edge b) { return ite(a, b, neg(b)); }
};

// ---------------- lowering nodes to bits ----------------
struct Bits {
	Graph &g; Bdd &b; std::unordered_map<Id, std::vector<Edge>> memo;
	std::function<std::vector<uint64_t>(uint32_t obj, unsigned w)> tableEntries; // provided by the memory model
	std::map<std::vector<uint32_t>, uint32_t> ufs; uint32_t nextLeaf = 1; std::unordered_map<Id, uint32_t> leafNo;
	struct VarLeaf { std::string name; unsigned w; bool undef; Id node; }; std::vector<VarLeaf> vleaf{{}};
	std::map<uint64_t, std::pair<uint64_t, uint64_t>> cube; // leaf -> fixed bits, free bits: the cell of the partitioned domain
	bool exact = false;
	const std::unordered_set<Id> *cut = nullptr; // shared floating-point results treated as free values: what is equal for all of them is equal
	bool special = false; // IEEE 754 results for NaN, infinite, zero operands; other results are opaque, of class finite, infinity or zero
	Bits(Graph &g, Bdd &b) : g(g), b(b) {}
	typedef std::vector<Edge> V;
	// variable order: group, significance, leaf; with the EXACT flag lane by lane, since conditions over all lanes are then sums instead of products
	uint32_t key(unsigned group, unsigned pos, uint32_t leaf, unsigned bit, unsigned lane = 63) {
		uint32_t k; if (exact) { if (leaf >= (1u << 18)) throw AnalysisError("too many leaves"); k = (std::min(lane, 63u) << 26) | (group << 24) | (pos << 18) | leaf; } else k = (group << 30) | (pos << 24) | leaf;
		varInfo[k] = {leaf, bit}; return k; }
	std::unordered_map<uint32_t, std::pair<uint32_t, unsigned>> varInfo; // variable -> leaf, bit
	uint32_t newLeaf(const std::string &nm, unsigned w, bool undef, Id node) { if (nextLeaf >= (1u << 24)) throw AnalysisError("too many leaves"); vleaf.push_back({nm, w, undef, node}); return nextLeaf++; }
	V fresh(const std::string &nm, unsigned w, bool undef, Id node, unsigned group, unsigned lane) { if (w > 64) throw AnalysisError("wide leaf"); uint32_t l = newLeaf(nm, w, undef, node); V r(w); unsigned J = group == 4 ? 8 : 11; // groups 4 and 5: integers added to exponents, interleaved with the exponent bits
		for (unsigned i = 0; i < w; ++i) r[i] = b.v(group < 4 ? key(group, w == 1 ? 63 : std::min(63u, w - 1 - i), l, i, lane) : i <= J ? key(1, J - i, l, i, lane) : key(0, std::min(63u, w - 1 - i), l, i, lane)); return r; }
	V cst(unsigned w, uint64_t v) { V r(w); for (unsigned i = 0; i < w; ++i) r[i] = (i < 64 && (v >> i & 1)) ? Bdd::T : Bdd::F; return r; }
	V iteV(Edge c, const V &x, const V &y) { V r(x.size()); for (size_t i = 0; i < x.size(); ++i) r[i] = b.ite(c, x[i], y[i]); return r; }
	V addV(const V &x, const V &y, Edge cin) { V r(x.size()); Edge c = cin; for (size_t i = 0; i < x.size(); ++i) { Edge p = b.xor_(x[i], y[i]); r[i] = b.xor_(p, c); c = b.ite(p, c, x[i]); } return r; }
	V notV(const V &x) { V r(x); for (auto &e : r) e ^= 1; return r; }
	Edge eqV(const V &x, const V &y) { Edge r = Bdd::T; for (size_t i = x.size(); i-- > 0;) { r = b.and_(b.xnor_(x[i], y[i]), r); if (r == Bdd::F) break; } return r; }
	Edge ultV(const V &x, const V &y) { Edge r = Bdd::F; for (size_t i = 0; i < x.size(); ++i) r = b.ite(b.xor_(x[i], y[i]), y[i], r); return r; }
	Edge sltV(const V &x, const V &y) { V p = x, q = y; p.back() ^= 1; q.back() ^= 1; return ultV(p, q); }
	Edge orV(const V &x, size_t lo, size_t hi) { Edge r = Bdd::F; for (size_t i = lo; i < hi; ++i) r = b.or_(r, x[i]); return r; }
	Edge andV(const V &x, size_t lo, size_t hi) { Edge r = Bdd::T; for (size_t i = lo; i < hi; ++i) r = b.and_(r, x[i]); return r; }
	Edge nanV(const V &x) { size_t mb = x.size() == 32 ? 23 : 52; return b.and_(andV(x, mb, x.size() - 1), orV(x, 0, mb)); }
	Edge zeroV(const V &x) { return b.neg(orV(x, 0, x.size() - 1)); }
	Edge foltV(const V &x, const V &y) {
		V mx(x.begin(), x.end() - 1), my(y.begin(), y.end() - 1);
		Edge sx = x.back(), sy = y.back(); Edge lt = ultV(mx, my), gt = ultV(my, mx);
		Edge bothz = b.and_(zeroV(x), zeroV(y));
		Edge r = b.ite(sx, b.ite(sy, gt, b.neg(bothz)), b.ite(sy, Bdd::F, lt));
		return b.and_(r, b.neg(b.or_(nanV(x), nanV(y))));
	}
	Edge foeqV(const V &x, const V &y) { Edge e = b.or_(eqV(x, y), b.and_(zeroV(x), zeroV(y))); return b.and_(e, b.neg(b.or_(nanV(x), nanV(y)))); }
	V shiftV(Op o, const V &x, const V &amt) {
		V r = x; size_t w = x.size(); Edge fill = o == ASHR ? x.back() : Bdd::F; unsigned k = 0;
		for (; (1ull << k) < w; ++k) { if (k >= amt.size()) break; V s(w); size_t sh = 1ull << k; for (size_t i = 0; i < w; ++i) s[i] = o == SHL ? (i >= sh ? r[i - sh] : Bdd::F) : (i + sh < w ? r[i + sh] : fill); r = iteV(amt[k], s, r); }
		Edge big = orV(amt, std::min<size_t>(k, amt.size()), amt.size()); V f(w, fill); return iteV(big, f, r);
	}
	V ufV(const std::string &nm, unsigned w, std::vector<V> args, bool comm, Id node) {
		if (comm && args.size() >= 2 && args[1] < args[0]) std::swap(args[0], args[1]);
		std::vector<uint32_t> k; k.push_back(g.name(nm)); k.push_back(w); for (auto &a : args) { k.push_back(a.size()); k.insert(k.end(), a.begin(), a.end()); }
		auto it = ufs.find(k); uint32_t l; if (it == ufs.end()) { l = newLeaf(nm, w, false, node); ufs[k] = l; } else l = it->second;
		V r(w); for (unsigned i = 0; i < w; ++i) r[i] = b.v(key(2, w == 1 ? 0 : w - 1 - i, l, i)); return r;
	}
	// ---- IEEE 754 special operands (probes with the SPECIAL flag) ----
	Edge care = Bdd::T; // only arguments in this set matter
	Edge sim(Edge e) { if (care == Bdd::T || e == Bdd::T || e == Bdd::F) return e; return b.and_(care, e) == Bdd::F ? Bdd::F : b.and_(care, b.neg(e)) == Bdd::F ? Bdd::T : e; }
	struct Cls { Edge s, z, i, n; };
	Cls clsOf(const V &x) { Cls c = clsOf0(x); return {c.s, sim(c.z), sim(c.i), sim(c.n)}; }
	Cls clsOf0(const V &x) { size_t w = x.size(), mb = w == 32 ? 23 : 52; Edge e1 = andV(x, mb, w - 1), m = orV(x, 0, mb); return {x.back(), e1 == Bdd::F ? zeroV(x) : b.neg(orV(x, 0, w - 1)), b.and_(e1, b.neg(m)), b.and_(e1, m)}; }
	Edge clsVar(const std::string &nm, const std::vector<V> &a, bool comm, Id node) { return ufV(nm, 1, a, comm, node)[0]; }
	V infV(unsigned w, Edge s) { V r(w == 32 ? 23 : 52, Bdd::F); r.resize(w - 1, Bdd::T); r.push_back(s); return r; }
	V zeroS(unsigned w, Edge s) { V r(w, Bdd::F); r.back() = s; return r; }
	V qnan(unsigned w) { V r = infV(w, Bdd::F); r[w == 32 ? 22 : 51] = Bdd::T; return r; }
	// an unknown finite non-zero number: never all ones in the exponent, never all zeroes
	V finV(V r, Edge s) { size_t w = r.size(), mb = w == 32 ? 23 : 52; r.back() = s; r[mb] = b.and_(r[mb], b.neg(andV(r, mb + 1, w - 1))); r[0] = b.or_(r[0], b.neg(orV(r, 1, w - 1))); return r; }
	// opaque finite, possibly over- or underflowed result
	V opq(const std::string &nm, unsigned w, const std::vector<V> &a, bool comm, Id node, Edge s, Edge mayInf, Edge mayZero) {
		V r = finV(ufV(nm, w, a, comm, node), s); if (mayZero != Bdd::F) r = iteV(b.and_(mayZero, clsVar(nm + "=0", a, comm, node)), zeroS(w, s), r); if (mayInf != Bdd::F) r = iteV(b.and_(mayInf, clsVar(nm + "=inf", a, comm, node)), infV(w, s), r); return r; }
	bool allC(std::initializer_list<const V *> l) { uint64_t t; for (auto *v : l) if (!constV(*v, t)) return false; return true; }
	V faddS(V x, V y, Id node) { unsigned w = x.size(); if (y < x) std::swap(x, y); Cls p = clsOf(x), q = clsOf(y); Edge df = b.xor_(p.s, q.s); std::vector<V> a{x, y};
		V ny = y; ny.back() ^= 1; bool cancel = ny == x; Edge sgn = b.ite(df, clsVar("fadd-sign" + std::to_string(w), a, true, node), p.s);
		V r = cancel ? zeroS(w, Bdd::F) : opq("fadd" + std::to_string(w), w, a, true, node, sgn, b.neg(df), df);
		r = iteV(q.z, x, r); r = iteV(p.z, y, r); r = iteV(b.and_(p.z, q.z), zeroS(w, b.and_(p.s, q.s)), r);
		r = iteV(b.or_(p.i, q.i), infV(w, b.ite(p.i, p.s, q.s)), r); return iteV(b.or_(b.or_(p.n, q.n), b.and_(b.and_(p.i, q.i), df)), qnan(w), r); }
	V fmulS(bool div, V x, V y, Id node) { unsigned w = x.size(); std::string nm = (div ? "fdiv" : "fmul") + std::to_string(w); Cls p = clsOf(x), q = clsOf(y); Edge s = b.xor_(p.s, q.s); x.back() = y.back() = Bdd::F; if (!div && y < x) std::swap(x, y);
		V r = opq(nm, w, {x, y}, !div, node, s, Bdd::T, Bdd::T); r = iteV(div ? b.or_(p.z, q.i) : b.or_(p.z, q.z), zeroS(w, s), r); r = iteV(div ? b.or_(p.i, q.z) : b.or_(p.i, q.i), infV(w, s), r);
		return iteV(b.or_(b.or_(p.n, q.n), div ? b.or_(b.and_(p.z, q.z), b.and_(p.i, q.i)) : b.or_(b.and_(p.z, q.i), b.and_(p.i, q.z))), qnan(w), r); }
	V fsqrtS(const V &x, Id node) { unsigned w = x.size(); Cls p = clsOf(x); V r = opq("fsqrt" + std::to_string(w), w, {x}, false, node, Bdd::F, Bdd::F, Bdd::F); r = iteV(p.i, infV(w, Bdd::F), r); r = iteV(p.z, x, iteV(p.s, qnan(w), r)); return iteV(p.n, qnan(w), r); }
	V fmaS(V x, V y, const V &z, Id node) { unsigned w = x.size(); Cls p = clsOf(x), q = clsOf(y), c = clsOf(z); Edge s = b.xor_(p.s, q.s), df = b.xor_(s, c.s); x.back() = y.back() = Bdd::F; if (y < x) std::swap(x, y); V xs = x; xs.back() = s; std::vector<V> a{xs, y, z}; std::string nm = "fma" + std::to_string(w);
		V r = opq(nm, w, a, false, node, b.ite(df, clsVar(nm + "-sign", a, false, node), s), Bdd::T, df); V one(w, Bdd::F), cc; // x*y+0 rounds the product
		{ V m = opq("fmul" + std::to_string(w), w, {x, y}, true, node, s, Bdd::T, Bdd::T); if (c.z != Bdd::F) { Edge mz = zeroV(m); m = iteV(mz, zeroS(w, b.ite(df, s, c.s)), m); r = iteV(c.z, m, r); } }
		Edge pz = b.or_(p.z, q.z), pi = b.or_(p.i, q.i); r = iteV(pz, iteV(c.z, zeroS(w, b.and_(s, c.s)), z), r); r = iteV(b.or_(pi, c.i), infV(w, b.ite(pi, s, c.s)), r);
		Edge bad = b.or_(b.or_(b.or_(p.n, q.n), c.n), b.or_(b.or_(b.and_(p.z, q.i), b.and_(p.i, q.z)), b.and_(b.and_(pi, c.i), df))); return iteV(bad, qnan(w), r); }
	V ftruncS(const V &x, Id node) { Cls p = clsOf(x); V r = opq("fptrunc", 32, {x}, false, node, p.s, Bdd::T, Bdd::T); r = iteV(p.z, zeroS(32, p.s), r); r = iteV(p.i, infV(32, p.s), r); return iteV(p.n, qnan(32), r); }
	// constants are folded
	bool foldS(Op o, const V &x, const V &y, const V *z, V &r) { uint64_t p, q = 0, t = 0; if (!constV(x, p) || !constV(y, q) || (z && !constV(*z, t))) return false; unsigned w = x.size(); Id a = g.c(w, p), d = g.c(w, q); Id k = o == FMA ? g.fma_(a, d, g.c(w, t)) : o == FSQRT ? g.fsqrt(a) : g.fbin(o, a, d); if (!g.isC(k)) return false; r = cst(w, g.imm(k)); if (g.isNaNc(k)) r = qnan(w); return true; }
	bool libS(const std::string &nm, unsigned w, const std::vector<V> &a, Id node, V &r) {
		static const std::set<std::string> one = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "erf", "erfc", "tgamma", "lgamma", "atan2", "fmod", "remainder"};
		if (nm.size() < 3 || (w != 32 && w != 64) || !one.count(nm.substr(0, nm.size() - 2))) return false; Edge n = Bdd::F; for (auto &v : a) { if (v.size() != w) return false; n = b.or_(n, nanV(v)); }
		uint64_t k; if (a.size() == 1 && constV(a[0], k)) if (double (*f)(double) = hostFn(nm.substr(0, nm.size() - 2))) { float sf = 0; double sd = 0; if (w == 32) { uint32_t k32 = k; std::memcpy(&sf, &k32, 4); sf = f(sf); std::memcpy(&k32, &sf, 4); k = k32; } else { std::memcpy(&sd, &k, 8); sd = f(sd); std::memcpy(&k, &sd, 8); } r = cst(w, k); if (nanV(r) == Bdd::T) r = qnan(w); return true; }
		r = ufV(nm, w, a, false, node); r = iteV(nanV(r), qnan(w), r); r = iteV(n, qnan(w), r); return true; }
	// odd (-1) and even (1) functions of the C library, and RCPPS
	static int parity(const std::string &s) { static const std::set<std::string> o = {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "cbrt", "erf"}, e = {"cos", "cosh"}; if (s == "x86rcp") return -1; if (s.size() < 3 || (s.substr(s.size() - 2) != "32" && s.substr(s.size() - 2) != "64")) return 0; std::string n = s.substr(0, s.size() - 2); return o.count(n) ? -1 : e.count(n) ? 1 : 0; }
	static double (*hostFn(const std::string &s))(double) { if (s == "sin") return std::sin; if (s == "cos") return std::cos; if (s == "tan") return std::tan; return nullptr; }
	// RCPPS, RSQRTPS: documented results for special operands
	V rcpS(bool rsq, const V &x, Id node) { Cls p = clsOf(x); Edge sub = b.neg(orV(x, 23, 31)); V r = opq(rsq ? "rsqrt" : "rcp", 32, {x}, false, node, p.s, Bdd::F, rsq ? Bdd::F : Bdd::T); if (rsq) r = iteV(p.s, qnan(32), r); r = iteV(p.i, rsq ? iteV(p.s, qnan(32), zeroS(32, Bdd::F)) : zeroS(32, p.s), r); r = iteV(sub, infV(32, p.s), r); return iteV(p.n, qnan(32), r); }
	const V &get(Id x) {
		// iterative post-order: graphs can be deep
		auto it = memo.find(x); if (it != memo.end()) return it->second;
		std::vector<std::pair<Id, unsigned>> st{{x, 0}};
		while (!st.empty()) { auto &[y, i] = st.back(); if (memo.count(y)) { st.pop_back(); continue; } const Node &q = g.n[y];
			if (cut && i == 0 && cut->count(y)) { unsigned w = q.w; V r(w); uint32_t l = newLeaf("cut", w, false, y); for (unsigned j = 0; j < w; ++j) r[j] = b.v(key(1, std::min(63u, w - 1 - j), l, j)); if (q.op != UF && (w == 32 || w == 64)) { unsigned mb = w == 32 ? 23 : 52; r[mb - 1] = b.or_(r[mb - 1], nanV(r)); } memo[y] = std::move(r); st.pop_back(); continue; }
			if (q.op == ITE && i == 1) { // skip dead arms
				const V &cv = memo[g.kid(y, 0)]; if (cv[0] == Bdd::T || cv[0] == Bdd::F) { Id arm = g.kid(y, cv[0] == Bdd::T ? 1 : 2); auto m = memo.find(arm); if (m == memo.end()) { st.push_back({arm, 0}); continue; } V tmp = m->second; memo[y] = tmp; st.pop_back(); continue; } }
			if (i < q.nk) { Id k = g.kid(y, i++); if (!memo.count(k)) st.push_back({k, 0}); continue; }
			V r = calc(y); if (special && q.w == 1) r[0] = sim(r[0]); if (r.size() != q.w) throw AnalysisError(std::string("width mismatch in ") + opname[q.op]); memo[y] = std::move(r); st.pop_back(); }
		return memo[x];
	}
	const V &K(Id x, unsigned i) { return memo.at(g.kid(x, i)); }
	V calc(Id x) {
		const Node q = g.n[x]; unsigned w = q.w;
		auto nm = [&]() { return std::string(opname[q.op]) + std::to_string(w); };
		switch ((Op)q.op) {
		case CONST: return cst(w, q.imm);
		case LEAF: case UNDEF: { auto &li = g.leaves[q.imm]; unsigned gr = w == 1 ? 0 : li.group >= 4 ? li.group : std::min(li.group, 1u); V r = fresh(li.name, w, li.undef, x, gr, li.lane < 0 ? 63 : li.lane); auto cu = cube.find(q.imm); if (cu != cube.end()) for (unsigned i = 0; i < w && i < 64; ++i) if (!(cu->second.second >> i & 1)) r[i] = cu->second.first >> i & 1 ? Bdd::T : Bdd::F; return r; }
		case PTR: { std::vector<V> a{K(x, 0)}; V base = ufV("addr#" + std::to_string(q.imm), 64, {}, false, x); return addV(base, K(x, 0), Bdd::F); }
		case EXTRACT: { const V &k = K(x, 0); return V(k.begin() + q.imm, k.begin() + q.imm + w); }
		case CONCAT: { V r = K(x, 1); const V &h = K(x, 0); r.insert(r.end(), h.begin(), h.end()); return r; }
		case NOT: return notV(K(x, 0));
		case AND: { V r(w); const V &p = K(x, 0), &s = K(x, 1); for (unsigned i = 0; i < w; ++i) r[i] = b.and_(p[i], s[i]); return r; }
		case OR: { V r(w); const V &p = K(x, 0), &s = K(x, 1); for (unsigned i = 0; i < w; ++i) r[i] = b.or_(p[i], s[i]); return r; }
		case XOR: { V r(w); const V &p = K(x, 0), &s = K(x, 1); for (unsigned i = 0; i < w; ++i) r[i] = b.xor_(p[i], s[i]); return r; }
		case ADD: return addV(K(x, 0), K(x, 1), Bdd::F);
		case SUB: return addV(K(x, 0), notV(K(x, 1)), Bdd::T);
		case MUL: { // constants: shift-add, otherwise uninterpreted
			auto isc = [&](const V &v, uint64_t &val) { val = 0; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == Bdd::T) val |= 1ull << i; else if (v[i] != Bdd::F) return false; } return true; };
			uint64_t cv; for (int s = 0; s < 2; ++s) if (w <= 64 && isc(K(x, s), cv)) { const V &o = K(x, 1 - s); V r = cst(w, 0); for (unsigned i = 0; i < w; ++i) if (cv >> i & 1) { V sh(w, Bdd::F); for (unsigned j = i; j < w; ++j) sh[j] = o[j - i]; r = addV(r, sh, Bdd::F); } return r; }
			return ufV(nm(), w, {K(x, 0), K(x, 1)}, true, x); }
		case UDIV: case SDIV: case UREM: case SREM: case FREM: return ufV(nm(), w, {K(x, 0), K(x, 1)}, false, x);
		case SHL: case LSHR: case ASHR: return shiftV((Op)q.op, K(x, 0), K(x, 1));
		case ITE: return iteV(K(x, 0)[0], K(x, 1), K(x, 2));
		case EQ: return {eqV(K(x, 0), K(x, 1))};
		case ULT: return {ultV(K(x, 0), K(x, 1))};
		case SLT: return {sltV(K(x, 0), K(x, 1))};
		case SEXT: { V r = K(x, 0); Edge s = r.back(); r.resize(w, s); return r; }
		case FADD: { if (special && (w == 32 || w == 64)) { V r; if (foldS(FADD, K(x, 0), K(x, 1), nullptr, r)) return r; return faddS(K(x, 0), K(x, 1), x); } if (exact && (w == 32 || w == 64) && oneLeaf(K(x, 0), K(x, 1))) return faddX(K(x, 0), K(x, 1)); if (w == 32 || w == 64) { FX f = fxSum(fxOf(g.kid(x, 0)), fxOf(g.kid(x, 1))); if (f.ok) return rndV(f, w, x); }
			if (negsym) { V p = K(x, 0), s = K(x, 1), p0 = p, s0 = s; p0.back() = s0.back() = Bdd::F; if (s0 < p0) std::swap(p, s); Edge sg = p.back(); p.back() = Bdd::F; s.back() = b.xor_(s.back(), sg); V r = ufV(nm(), w, {p, s}, false, x); r.back() = b.xor_(r.back(), sg); return r; }
			return ufV(nm(), w, {K(x, 0), K(x, 1)}, true, x); }
		case FMUL: case FDIV: { if (special && (w == 32 || w == 64)) { V r; if (foldS((Op)q.op, K(x, 0), K(x, 1), nullptr, r)) return r; return fmulS(q.op == FDIV, K(x, 0), K(x, 1), x); } if (exact && (w == 32 || w == 64)) return muldivX(q.op == FDIV, K(x, 0), K(x, 1), nm(), x); if (q.op == FMUL && (w == 32 || w == 64)) { FX f = fxCalc(x); if (f.ok) return rndV(f, w, x); } V p = K(x, 0), s = K(x, 1); Edge sg = b.xor_(p.back(), s.back()); p.back() = s.back() = Bdd::F; V r = ufV(nm(), w, {p, s}, q.op == FMUL, x); r.back() = b.xor_(r.back(), sg); return r; }
		case FSQRT: if (special) { V r; if (foldS(FSQRT, K(x, 0), K(x, 0), nullptr, r)) return r; return fsqrtS(K(x, 0), x); } return ufV(nm(), w, {K(x, 0)}, false, x);
		case FMA: { if (special && (w == 32 || w == 64)) { V r; if (foldS(FMA, K(x, 0), K(x, 1), &K(x, 2), r)) return r; return fmaS(K(x, 0), K(x, 1), K(x, 2), x); } V p = K(x, 0), s = K(x, 1); Edge sg = b.xor_(p.back(), s.back()); p.back() = sg; s.back() = Bdd::F; if (true) { V p0 = p, s0 = s; p0.back() = Bdd::F; if (s0 < p0) { std::swap(p0, s0); } p0.back() = sg; return ufV(nm(), w, {p0, s0, K(x, 2)}, false, x); } }
		case AMINS: return iteV(sltV(K(x, 1), K(x, 0)), K(x, 1), K(x, 0)); case AMAXS: return iteV(sltV(K(x, 0), K(x, 1)), K(x, 1), K(x, 0));
		case AMINU: return iteV(ultV(K(x, 1), K(x, 0)), K(x, 1), K(x, 0)); case AMAXU: return iteV(ultV(K(x, 0), K(x, 1)), K(x, 1), K(x, 0));
		case AMINF: case AMAXF: return ufV(nm(), w, {K(x, 0), K(x, 1)}, true, x);
		case FOEQ: return {foeqV(K(x, 0), K(x, 1))};
		case FOLT: return {foltV(K(x, 0), K(x, 1))};
		case FUNO: return {nanV(K(x, 0))};
		case FPEXT: return fpextV(K(x, 0));
		case FPTRUNC: case FTOSI: case FTOUI: case SITOF: case UITOF: { if (special && q.op == FPTRUNC && w == 32 && g.w(g.kid(x, 0)) == 64) return ftruncS(K(x, 0), x); if (q.op == FTOSI) return ftosiV(K(x, 0), w, x); if (q.op == SITOF || q.op == UITOF) return rndV(fxInt(x), w, x); return ufV(nm() + "_" + std::to_string(g.w(g.kid(x, 0))), w, {K(x, 0)}, false, x); }
		case FROUND: return froundV(K(x, 0), q.imm, x);
		case UF: { std::vector<V> a; for (unsigned i = 0; i < q.nk; ++i) a.push_back(K(x, i)); if (exact) { V r; if (libX(g.names[q.imm], w, a, r)) return r; } if (q.nk == 1 && a[0].size() == w) { int pr = parity(g.names[q.imm]); if (pr && a[0].back() != Bdd::F) { Edge sg = a[0].back(); a[0].back() = Bdd::F; V r; if (special && g.names[q.imm] == "x86rcp") r = rcpS(false, a[0], x); else if (!(special && libS(g.names[q.imm], w, a, x, r))) r = ufV(g.names[q.imm], w, a, false, x); if (pr < 0) { if (!special || nanV(r) != Bdd::T) { Edge n = special ? nanV(r) : Bdd::F; r.back() = b.ite(n, r.back(), b.xor_(r.back(), sg)); } } return r; } }
			if (special && q.nk == 1 && w == 32 && (g.names[q.imm] == "x86rcp" || g.names[q.imm] == "x86rsqrt")) return rcpS(g.names[q.imm] == "x86rsqrt", a[0], x); if (special) { V r; if (libS(g.names[q.imm], w, a, x, r)) return r; } return ufV(g.names[q.imm], w, a, false, x); }
		case TABLE: { auto ent = tableEntries(q.imm, w); const V &off = K(x, 0); unsigned st = w / 8; unsigned sb = __builtin_ctz(st); // entry index = off >> sb
			unsigned nb = 1; while ((1u << nb) < ent.size()) ++nb; V und = ufV("oob#" + std::to_string(q.imm), w, {off}, false, x);
			std::vector<V> lv(1u << nb); for (size_t i = 0; i < lv.size(); ++i) lv[i] = i < ent.size() ? cst(w, ent[i]) : und;
			for (unsigned k = 0; k < nb; ++k) { std::vector<V> nx(lv.size() / 2); for (size_t i = 0; i < nx.size(); ++i) nx[i] = iteV(off[sb + k], lv[2 * i + 1], lv[2 * i]); lv.swap(nx); }
			Edge bad = b.or_(orV(off, 0, sb), orV(off, sb + nb, off.size())); return iteV(bad, und, lv[0]); }
		default: throw AnalysisError("unsupported node in bit domain");
		}
	}
	V fpextV(const V &x) { // float -> double, exact; denormals normalised by position
		V m(x.begin(), x.begin() + 23), e(x.begin() + 23, x.begin() + 31);
		Edge e0 = b.neg(orV(e, 0, 8)), e1 = andV(e, 0, 8), mz = b.neg(orV(m, 0, 23));
		V E(11, Bdd::F); V e11(e); e11.resize(11, Bdd::F); E = addV(e11, cst(11, 896), Bdd::F); V M(52, Bdd::F); for (int i = 0; i < 23; ++i) M[i + 29] = m[i];
		V rE = iteV(e1, cst(11, 2047), E), rM = M; // quieting of NaN below
		Edge isn = b.and_(e1, b.neg(mz)); rM[51] = b.or_(rM[51], isn);
		// denormal: highest set bit k -> exponent 896+1-(23-k), mantissa = m << (23-k) without the leading one
		V dE(11, Bdd::F), dM(52, Bdd::F); // zero
		for (int k = 0; k < 23; ++k) { // later (higher) k wins
			V mm(52, Bdd::F); for (int i = 0; i < k; ++i) mm[52 - k + i] = m[i]; dE = iteV(m[k], cst(11, 897 - (23 - k)), dE); dM = iteV(m[k], mm, dM); }
		rE = iteV(e0, dE, rE); rM = iteV(e0, dM, rM); V r = rM; r.insert(r.end(), rE.begin(), rE.end()); r.push_back(x[31]); return r;
	}
	// value of the float truncated to a signed/absolute integer, modulo 2^w (only meaningful in range)
	V ftosiV(const V &x, unsigned w, Id node) {
		unsigned W = x.size(), mb = W == 32 ? 23 : 52, eb = W - 1 - mb, bias = (1u << (eb - 1)) - 1;
		V e(x.begin() + mb, x.begin() + W - 1); V m(x.begin(), x.begin() + mb); m.push_back(Bdd::T);
		V acc = cst(w, 0); // |x| trunc: case split on exponent value
		for (unsigned k = 0; k < w; ++k) { Edge is = eqV(e, cst(eb, bias + k)); if (is == Bdd::F) continue; V sh(w, Bdd::F); for (unsigned i = 0; i < w; ++i) { int src = (int)i + (int)mb - (int)k; if (src >= 0 && src <= (int)mb) sh[i] = m[src]; } acc = iteV(is, sh, acc); }
		V ng = addV(notV(acc), cst(w, 0), Bdd::T); (void)node; return iteV(x.back(), ng, acc);
	}
	V froundV(const V &x, unsigned mode, Id node) { (void)node;
		unsigned W = x.size(), mb = W == 32 ? 23 : 52, eb = W - 1 - mb, bias = (1u << (eb - 1)) - 1; Edge s = x.back();
		V mag(x.begin(), x.end() - 1); V e(x.begin() + mb, x.begin() + W - 1);
		// |x|<1 : 0 or 1 ; exponent bias+k (0<=k<mb): clear mb-k low bits, maybe add ulp ; otherwise x
		V r = x; Edge isn = nanV(x); r[mb - 1] = b.or_(r[mb - 1], isn);
		V one(W - 1, Bdd::F); { V ob = cst(eb, bias); for (unsigned i = 0; i < eb; ++i) one[mb + i] = ob[i]; }
		Edge lt1 = ultV(e, cst(eb, bias)); Edge nz = orV(mag, 0, W - 1); Edge eh = eqV(e, cst(eb, bias - 1)); Edge mz = b.neg(orV(x, 0, mb));
		Edge up; switch (mode) { case 0: up = b.and_(eh, b.neg(mz)); break; case 1: up = b.and_(s, nz); break; case 2: up = b.and_(b.neg(s), nz); break; case 3: up = Bdd::F; break; default: up = eh; }
		V sm = iteV(up, one, V(W - 1, Bdd::F)); V smv = sm; smv.push_back(s); r = iteV(lt1, smv, r);
		for (unsigned k = 0; k < mb; ++k) { Edge is = eqV(e, cst(eb, bias + k)); unsigned fb = mb - k; // fraction bits
			Edge half = x[fb - 1], rest = orV(x, 0, fb - 1), fr = b.or_(half, rest); Edge lsb = k == 0 ? Bdd::T : x[fb]; Edge u;
			switch (mode) { case 0: u = b.and_(half, b.or_(rest, lsb)); break; case 1: u = b.and_(s, fr); break; case 2: u = b.and_(b.neg(s), fr); break; case 3: u = Bdd::F; break; default: u = half; }
			V t(mag); for (unsigned i = 0; i < fb; ++i) t[i] = Bdd::F; V hi(t.begin() + fb, t.end()); V inc = addV(hi, V(hi.size(), Bdd::F), u); for (size_t i = 0; i < inc.size(); ++i) t[fb + i] = inc[i]; t.push_back(s); r = iteV(is, t, r); }
		return r;
	}
	// ---- exact scaled integers: floating-point values known to equal S * 2^sc exactly ----
	bool negsym = false; // FADD(-x,-y) = -FADD(x,y): holds up to the signs of zero and NaN, which such probes ignore
	struct FX { V s; int sc = 0; bool ok = false, nz = false; }; // s: two's complement; nz: may be -0
	std::unordered_map<Id, FX> fxm;
	static void fxNorm(FX &f) { while (f.s.size() > 1 && f.s[0] == Bdd::F) { f.s.erase(f.s.begin()); ++f.sc; } while (f.s.size() > 1 && f.s[f.s.size() - 1] == f.s[f.s.size() - 2]) f.s.pop_back(); if (f.s.size() == 1 && f.s[0] == Bdd::F) f.sc = 0; }
	bool fxFits(const FX &f, unsigned w) { int mb = w == 32 ? 23 : 52, emax = w == 32 ? 120 : 1000; return (int)f.s.size() - 1 <= mb + 1 && f.sc > -emax && f.sc + (int)f.s.size() < emax; }
	FX fxSum(const FX &x, const FX &y) { FX r; if (!x.ok || !y.ok || (x.nz && y.nz)) return r; int sc = std::min(x.sc, y.sc); int top = std::max(x.sc + (int)x.s.size(), y.sc + (int)y.s.size()) + 1 - sc; if (top > 160) return r;
		auto ext = [&](const FX &f) { V v(f.sc - sc, Bdd::F); v.insert(v.end(), f.s.begin(), f.s.end()); v.resize(top, f.s.back()); return v; }; r.s = addV(ext(x), ext(y), Bdd::F); r.sc = sc; r.ok = true; fxNorm(r); return r; }
	FX fxInt(Id x) { const Node &q = g.n[x]; FX f; f.s = K(x, 0); if (q.op == UITOF) f.s.push_back(Bdd::F); f.ok = true; fxNorm(f); return f; }
	FX fxOf(Id x) { auto it = fxm.find(x); if (it != fxm.end()) return it->second; FX f = fxCalc(x); if (f.ok && !fxFits(f, g.w(x))) f = FX(); return fxm[x] = f; }
	FX fxCalc(Id x) { const Node q = g.n[x]; FX f; unsigned w = q.w; if (w != 32 && w != 64) return f;
		if (!cut || !cut->count(x)) switch ((Op)q.op) {
		case SITOF: case UITOF: return fxInt(x);
		case FADD: return fxSum(fxOf(g.kid(x, 0)), fxOf(g.kid(x, 1)));
		case FPEXT: return fxOf(g.kid(x, 0));
		case XOR: if (g.isC(g.kid(x, 1)) && g.imm(g.kid(x, 1)) == 1ull << (w - 1)) { FX k = fxOf(g.kid(x, 0)); if (k.ok && !k.nz) { f.s = k.s; f.s.push_back(k.s.back()); f.s = addV(notV(f.s), V(f.s.size(), Bdd::F), Bdd::T); f.sc = k.sc; f.ok = f.nz = true; fxNorm(f); return f; } } break;
		case FMUL: for (int i = 0; i < 2; ++i) { FX k = fxOf(g.kid(x, i)), m = fxOf(g.kid(x, 1 - i)); if (k.ok && !k.nz && m.ok && m.s.size() == 2 && m.s[0] == Bdd::T && m.s[1] == Bdd::F) { k.sc += m.sc; return k; } } return f;
		default: break; }
		auto it = memo.find(x); if (it == memo.end()) return f; const V &v = it->second; int mb = w == 32 ? 23 : 52, eb = w - 1 - mb, bias = (1 << (eb - 1)) - 1;
		int e = 0; for (int i = 0; i < eb + 1; ++i) { Edge t = v[mb + i]; if (t != Bdd::T && t != Bdd::F) return f; if (i < eb && t == Bdd::T) e |= 1 << i; }
		if (e == (1 << eb) - 1) return f; bool sg = v[w - 1] == Bdd::T;
		if (!e) { for (int i = 0; i < mb; ++i) if (v[i] != Bdd::F) return f; f.s = {Bdd::F}; f.ok = true; f.nz = sg; return f; }
		f.s.assign(v.begin(), v.begin() + mb); f.s.push_back(Bdd::T); f.s.push_back(Bdd::F); if (sg) f.s = addV(notV(f.s), V(f.s.size(), Bdd::F), Bdd::T); f.sc = e - bias - mb; f.ok = true; fxNorm(f); return f; }
	// ---- exact arithmetic on one symbolic operand (probes with the EXACT flag) ----
	bool oneLeaf(const V &x, const V &y) { std::unordered_set<uint32_t> seen; std::vector<uint32_t> st; uint32_t leaf = 0; for (Edge e : x) st.push_back(e >> 1); for (Edge e : y) st.push_back(e >> 1);
		while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); if (!i || !seen.insert(i).second) continue; uint32_t l = varInfo[b.n[i].var].first; if (leaf && leaf != l) return false; leaf = l; st.push_back(b.n[i].hi >> 1); st.push_back(b.n[i].lo >> 1); } return true; }
	// the floating-point number nearest (ties to even) to (-1)^s * M * 2^(e - bias - (|M|-1)), where e (two's complement) is the biased exponent of M's top bit
	V packV(Edge s, V M, V e, unsigned w) {
		unsigned mb = w == 32 ? 23 : 52, eb = w - 1 - mb, n = M.size(), ew = std::max<size_t>(e.size() + 1, eb + 3); e.resize(ew, e.back());
		Edge z = b.neg(orV(M, 0, n)); unsigned k = 0; while ((2u << k) < n) ++k;
		for (int j = k; j >= 0; --j) { unsigned sh = 1u << j; if (sh >= n) continue; Edge c = b.neg(orV(M, n - sh, n)); if (c == Bdd::F) continue; V t(n, Bdd::F); for (unsigned i = sh; i < n; ++i) t[i] = M[i - sh]; M = iteV(c, t, M); e = iteV(c, addV(e, cst(ew, -(uint64_t)sh), Bdd::F), e); }
		while (M.size() < mb + 3) M.insert(M.begin(), Bdd::F); n = M.size();
		// subnormal results: shift right by 1 - e, keeping a sticky bit
		Edge sub = b.or_(e.back(), b.neg(orV(e, 0, ew))); Edge st = Bdd::F;
		if (sub != Bdd::F) { V amt = addV(notV(e), cst(ew, 2), Bdd::F); /* 1 - e */ Edge big = Bdd::F; for (unsigned j = 0; j < ew; ++j) { unsigned sh = j < 16 ? 1u << j : 1u << 16; Edge c = b.and_(sub, amt[j]); if (c == Bdd::F) continue; if (sh >= n) { big = b.or_(big, c); continue; } st = b.or_(st, b.and_(c, orV(M, 0, sh))); V t(n, Bdd::F); for (unsigned i = 0; i + sh < n; ++i) t[i] = M[i + sh]; M = iteV(c, t, M); } if (big != Bdd::F) { st = b.or_(st, b.and_(big, orV(M, 0, n))); M = iteV(big, V(n, Bdd::F), M); } }
		unsigned lo = n - 1 - mb; Edge G = M[lo - 1], S = b.or_(st, orV(M, 0, lo - 1)), up = b.and_(G, b.or_(S, M[lo]));
		V f(M.begin() + lo, M.begin() + lo + mb); Edge ovf = b.and_(b.neg(e.back()), b.neg(ultV(e, cst(ew, (1u << eb) - 1)))); V ef = iteV(sub, V(ew, Bdd::F), e); f.insert(f.end(), ef.begin(), ef.begin() + eb); f = addV(f, V(f.size(), Bdd::F), up);
		V inf(mb, Bdd::F); inf.resize(w - 1, Bdd::T); f = iteV(ovf, inf, f); f = iteV(z, V(w - 1, Bdd::F), f); f.push_back(s); return f; }
	void unpackV(const V &x, V &M, V &e, Edge &inf, Edge &nan) { unsigned w = x.size(), mb = w == 32 ? 23 : 52, eb = w - 1 - mb; M.assign(x.begin(), x.begin() + mb); e.assign(x.begin() + mb, x.begin() + mb + eb); Edge h = orV(e, 0, eb), top = andV(e, 0, eb); M.push_back(h); e[0] = b.or_(e[0], b.neg(h)); e.push_back(Bdd::F); nan = nanV(x); inf = b.and_(top, b.neg(nan)); }
	V specials(V r, Edge s, Edge inf, Edge nan) { unsigned w = r.size(), mb = w == 32 ? 23 : 52; V i(mb, Bdd::F); i.resize(w - 1, Bdd::T); i.push_back(s); V q = i; q[mb - 1] = Bdd::T; q.back() = Bdd::F; return iteV(nan, q, iteV(inf, i, r)); }
	V faddX(const V &x, const V &y) {
		unsigned w = x.size(), mb = w == 32 ? 23 : 52, eb = w - 1 - mb; V mx(x.begin(), x.end() - 1), my(y.begin(), y.end() - 1); Edge lt = ultV(mx, my); V A = iteV(lt, y, x), B = iteV(lt, x, y), MA, MB, ea, eb_; Edge ia, ib, na, nb; unpackV(A, MA, ea, ia, na); unpackV(B, MB, eb_, ib, nb);
		V d = addV(ea, notV(eb_), Bdd::T); unsigned n = mb + 4; auto widen = [&](V &m) { m.insert(m.begin(), 3, Bdd::F); }; widen(MA); widen(MB);
		for (unsigned j = 0; j < eb; ++j) { unsigned sh = 1u << j; if (d[j] == Bdd::F) continue; V t(n, Bdd::F); if (sh < n) { for (unsigned i = 0; i + sh < n; ++i) t[i] = MB[i + sh]; t[0] = b.or_(t[0], orV(MB, 0, sh)); } else t[0] = orV(MB, 0, n); MB = iteV(d[j], t, MB); }
		Edge df = b.xor_(A.back(), B.back()); MA.push_back(Bdd::F); MB.push_back(Bdd::F); for (auto &q : MB) q = b.xor_(q, df); V S = addV(MA, MB, df);
		Edge z = b.neg(orV(S, 0, S.size())); Edge s = b.ite(z, b.and_(A.back(), B.back()), A.back());
		V r = packV(s, S, addV(ea, cst(ea.size(), 1), Bdd::F), w); return specials(r, A.back(), b.or_(ia, ib), b.or_(b.or_(na, nb), b.and_(b.and_(ia, ib), df))); }
	bool constV(const V &v, uint64_t &val) { val = 0; for (size_t i = 0; i < v.size(); ++i) { if (v[i] == Bdd::T) val |= 1ull << i; else if (v[i] != Bdd::F) return false; } return true; }
	// x * +-2^k; false unless the other operand is such a constant
	bool fscaleX(const V &x, const V &y, V &r) { unsigned w = x.size(), mb = w == 32 ? 23 : 52, eb = w - 1 - mb; uint64_t c; if (!constV(y, c) || (c & ((1ull << mb) - 1))) return false; int e = c >> mb & ((1u << eb) - 1); if (!e || e == (1 << eb) - 1) return false; int k = e - ((1 << (eb - 1)) - 1);
		V M, ex; Edge inf, nan; unpackV(x, M, ex, inf, nan); ex.resize(eb + 3, Bdd::F); Edge s = b.xor_(x.back(), y.back()); r = specials(packV(s, M, addV(ex, cst(eb + 3, (uint64_t)(int64_t)k), Bdd::F), w), s, inf, nan); return true; }
	// products and quotients: operands taking few values are folded, zeros, infinities and NaN follow IEEE 754, anything else is opaque
	bool fewX(bool div, const V &x, const V &y, V &r, int &budget) {
		uint32_t top = ~0u; for (auto *v : {&x, &y}) for (Edge e : *v) if (e >> 1) top = std::min<uint32_t>(top, b.n[e >> 1].var);
		unsigned w = x.size();
		if (top == ~0u) { if (budget-- <= 0) return false; uint64_t p, q, o; constV(x, p); constV(y, q); if (w == 32) { float d = std::bit_cast<float>((uint32_t)p), e = std::bit_cast<float>((uint32_t)q), z = div ? d / e : d * e; o = std::bit_cast<uint32_t>(z); if (z != z) o = 0x7fc00000; } else { double d = std::bit_cast<double>(p), e = std::bit_cast<double>(q), z = div ? d / e : d * e; o = std::bit_cast<uint64_t>(z); if (z != z) o = 0x7ff8ull << 48; } r = cst(w, o); return true; }
		if (budget <= 0) return false;
		V h, l; auto cof = [&](const V &v, bool hi) { V o(v); for (auto &e : o) if (e >> 1 && b.n[e >> 1].var == top) e = (hi ? b.n[e >> 1].hi : b.n[e >> 1].lo) ^ (e & 1); return o; };
		if (!fewX(div, cof(x, true), cof(y, true), h, budget) || !fewX(div, cof(x, false), cof(y, false), l, budget)) return false;
		r = iteV(b.v(top), h, l); return true; }
	V muldivX(bool div, const V &x, const V &y, const std::string &nm, Id node) {
		V r; if (!div && (fscaleX(x, y, r) || fscaleX(y, x, r))) return r; int budget = 8; if (fewX(div, x, y, r, budget)) return r;
		unsigned w = x.size(), mb = w == 32 ? 23 : 52; V p = x, s = y; Edge sg = b.xor_(p.back(), s.back()); p.back() = s.back() = Bdd::F; r = ufV(nm, w, {p, s}, !div, node); r.back() = sg;
		Edge zx = zeroV(x), zy = zeroV(y), nx = nanV(x), ny = nanV(y), ix = b.and_(andV(x, mb, w - 1), b.neg(nx)), iy = b.and_(andV(y, mb, w - 1), b.neg(ny));
		Edge bad = b.or_(b.or_(nx, ny), div ? b.or_(b.and_(zx, zy), b.and_(ix, iy)) : b.or_(b.and_(zx, iy), b.and_(ix, zy)));
		Edge inf = div ? b.or_(ix, zy) : b.or_(ix, iy), z = div ? b.or_(zx, iy) : b.or_(zx, zy); V zero(w, Bdd::F); zero.back() = sg; r = iteV(z, zero, r);
		return specials(r, sg, inf, bad); }
	V frndX(const FX &f, unsigned w) { V m = f.s; Edge s = m.back(); m.push_back(s); for (auto &q : m) q = b.xor_(q, s); m = addV(m, V(m.size(), Bdd::F), s); unsigned mb = w == 32 ? 23 : 52, eb = w - 1 - mb; int bias = (1 << (eb - 1)) - 1; return packV(s, m, cst(20, (uint64_t)(int64_t)(bias + f.sc + (int)m.size() - 1)), w); }
	// the C library's floating-point manipulation functions
	bool libX(const std::string &nm, unsigned w, const std::vector<V> &a, V &r) {
		static const std::set<std::string> known = {"frexp_m", "frexp_e", "modf_i", "modf_f", "ldexp", "scalbn", "scalbln", "ilogb", "logb", "nextafter"};
		if (nm.size() < 3 || a.empty()) return false; std::string f = nm.substr(0, nm.size() - 2), t = nm.substr(nm.size() - 2); if (f == "frexp_e" || f == "ilogb") ; if (!known.count(f) || (t != "32" && t != "64")) return false;
		const V &x = a[0]; unsigned W = x.size(), mb = W == 32 ? 23 : 52, eb = W - 1 - mb; int bias = (1 << (eb - 1)) - 1; if (W != 32 && W != 64) return false;
		V M, e; Edge inf, nan; unpackV(x, M, e, inf, nan); Edge zero = zeroV(x), s = x.back(), fin = b.neg(b.or_(inf, nan)), spec = b.or_(zero, b.neg(fin)); e.resize(eb + 3, Bdd::F); (void)bias;
		auto norm = [&]() { unsigned n = mb + 1; for (int j = 5; j >= 0; --j) { unsigned sh = 1u << j; if (sh >= n) continue; Edge c = b.neg(orV(M, n - sh, n)); V u(n, Bdd::F); for (unsigned i = sh; i < n; ++i) u[i] = M[i - sh]; M = iteV(c, u, M); e = iteV(c, addV(e, cst(eb + 3, -(uint64_t)sh), Bdd::F), e); } };
		auto qn = x; qn[mb - 1] = b.or_(qn[mb - 1], nan);
		if (f == "frexp_m") { norm(); r.assign(M.begin(), M.begin() + mb); V eo = cst(eb, bias - 1); r.insert(r.end(), eo.begin(), eo.end()); r.push_back(s); r = iteV(spec, qn, r); return true; }
		if (f == "frexp_e") { norm(); V d = addV(e, cst(eb + 3, (uint64_t)(int64_t)(1 - bias)), Bdd::F); d.resize(32, d.back()); r = iteV(spec, cst(32, 0), d); return true; }
		if (f == "ilogb") { norm(); V d = addV(e, cst(eb + 3, (uint64_t)(int64_t)-bias), Bdd::F); d.resize(32, d.back()); r = iteV(inf, cst(32, 0x7fffffff), iteV(b.or_(zero, nan), cst(32, 0x80000000u), d)); r.resize(w, r.back()); return true; }
		if (f == "logb") { norm(); FX k; k.s = addV(e, cst(eb + 3, (uint64_t)(int64_t)-bias), Bdd::F); k.ok = true; k.sc = 0; r = frndX(k, W); V i(mb, Bdd::F); i.resize(W - 1, Bdd::T); V ni = i; i.push_back(Bdd::F); ni.push_back(Bdd::T); r = iteV(zero, ni, iteV(inf, i, iteV(nan, qn, r))); return true; }
		if (f == "modf_i") { r = froundV(x, 3, 0); return true; }
		if (f == "modf_f") { V i = froundV(x, 3, 0), ni = i; ni.back() ^= 1; r = faddX(x, ni); r.back() = s; V z(W - 1, Bdd::F); z.push_back(s); r = iteV(inf, z, iteV(nan, qn, r)); return true; }
		if (f == "ldexp" || f == "scalbn" || f == "scalbln") { V n = a[1]; unsigned nw = n.size(); // beyond +-4096 every result has over- or underflowed
			V lim = cst(nw, 4095), nlim = cst(nw, (uint64_t)(int64_t)-4096); n = iteV(sltV(lim, n), lim, iteV(sltV(n, nlim), nlim, n)); n.resize(14, Bdd::F); V ee(e); ee.resize(15, Bdd::F); V nn(n.begin(), n.begin() + 13); nn.resize(15, nn.back()); norm(); ee = e; ee.resize(15, e.back());
			r = specials(packV(s, M, addV(ee, nn, Bdd::F), W), s, inf, nan); return true; }
		if (f == "nextafter") { const V &y = a[1]; if (y.size() != W) return false; Edge eq = foeqV(x, y); Edge toward0 = b.xor_(foltV(x, y), b.neg(s)); /* away from zero iff (x<y) == !s */ V up = addV(x, cst(W, 0), Bdd::T), dn = addV(x, cst(W, ~0ull), Bdd::F); V tiny = cst(W, 1); tiny.back() = y.back(); r = iteV(nanV(x), qn, iteV(nanV(y), y, iteV(eq, y, iteV(zero, tiny, iteV(toward0, dn, up))))); return true; }
		return false; }
	V rndV(const FX &f, unsigned w, Id node) { if ((exact || special) && oneLeaf(f.s, {})) return frndX(f, w); V r = ufV("rnd" + std::to_string(w) + "*2^" + std::to_string(f.sc), w, {f.s}, false, node); r.back() = f.s.back(); return r; }
	void reset() { memo.clear(); varInfo.clear(); fxm.clear(); ufs.clear(); nextLeaf = 1; vleaf.assign(1, {}); leafNo.clear(); care = Bdd::T; }
};
