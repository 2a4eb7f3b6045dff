// Accuracy of one-argument kernels: abstract interpretation of the value graph over a partition of the argument's range.
// Every piece fixes the leading bits of the argument; on it a floating value is a polynomial in t in [-1,1] plus a bound on
// everything else (truncation and every rounding error), an integer word is a vector of known and unknown bits.
#pragma once
#include "graph.hpp"

struct Acc {
	typedef long double R; static constexpr int N = 9; static constexpr R U = 0x1p-64L;
	struct Split {}; struct Unsup { std::string what; };
	struct TM { R c[N + 1]; R r; };
	struct Val { bool fp = false, point = false, sym = false, bin = false; int sl = -1; int ex = 0; /* sym: the low M bits are those of the argument; sl: the word is a slice of them from bit sl on; bin: the low bits are the significand bits of t, whose exponent field (with sign) is ex */ unsigned w = 0; uint64_t v = 0, unk = 0; double d = 0; TM t; };
	Graph &g; Id root, x; unsigned w, M; uint64_t prefix = 0; std::function<std::vector<uint64_t>(uint32_t, unsigned)> table;
	std::unordered_map<Id, Val> memo;
	Acc(Graph &g, Id root, Id x) : g(g), root(root), x(x), w(g.w(x)) {}

	static R ab(R a) { return a < 0 ? -a : a; }
	static R rad(const TM &a) { R s = a.r; for (int i = 1; i <= N; ++i) s += ab(a.c[i]); return s * (1 + 32 * U); }
	static R mag(const TM &a) { return (ab(a.c[0]) + rad(a)) * (1 + 2 * U); }
	static TM cst(R v) { TM t; for (auto &q : t.c) q = 0; t.c[0] = v; t.r = 0; return t; }
	static TM add(const TM &a, const TM &b) { TM o; R s = 0; for (int i = 0; i <= N; ++i) { o.c[i] = a.c[i] + b.c[i]; s += ab(o.c[i]); } o.r = (a.r + b.r + s * U) * (1 + 4 * U); return o; }
	static bool pow2(R k) { int e; return ab(std::frexp(k, &e)) == 0.5L; }
	static TM scale(const TM &a, R k) { TM o; if (pow2(k)) { for (int i = 0; i <= N; ++i) o.c[i] = a.c[i] * k; o.r = a.r * ab(k); return o; } R s = 0; for (int i = 0; i <= N; ++i) { o.c[i] = a.c[i] * k; s += ab(o.c[i]); } o.r = (a.r * ab(k) + s * U) * (1 + 4 * U); return o; }
	static TM neg(const TM &a) { TM o; for (int i = 0; i <= N; ++i) o.c[i] = -a.c[i]; o.r = a.r; return o; }
	static TM mul(const TM &a, const TM &b) { TM o; R over = 0, sl = 0; int na = N, nb = N; while (na > 0 && a.c[na] == 0) --na; while (nb > 0 && b.c[nb] == 0) --nb; if (!nb && b.r == 0 && b.c[0] != 0) return scale(a, b.c[0]); if (!na && a.r == 0 && a.c[0] != 0) return scale(b, a.c[0]); for (auto &q : o.c) q = 0;
		for (int i = 0; i <= na; ++i) for (int j = 0; j <= nb; ++j) { R p = a.c[i] * b.c[j]; if (i + j <= N) { o.c[i + j] += p; sl += (std::min(i, j) + 2) * ab(p); } else over += ab(p); }
		R A = mag(a), B = mag(b); o.r = (over + sl * U + a.r * B + b.r * A) * (1 + 64 * U); return o; }
	// sum of k[i] (d/b0)^i, |k[i]| <= 1, with b = b0 + d
	template<class F> static TM series(const TM &b, F k) { R b0 = b.c[0]; if (b0 == 0) throw Split(); TM e = b; e.c[0] = 0; e = scale(e, 1 / b0); R rho = rad(e); if (!(rho < 0.25L)) throw Split();
		TM p = cst(1), s = cst(k(0)); for (int i = 1; i <= N; ++i) { p = mul(p, e); s = add(s, scale(p, k(i))); } R tail = 1; for (int i = 0; i <= N; ++i) tail *= rho; s.r += tail / (1 - rho) * 1.01L; return s; }
	static TM inv(const TM &b) { TM s = series(b, [](int i) { return i & 1 ? -1.0L : 1.0L; }); return scale(s, 1 / b.c[0]); }
	static TM sqrt_(const TM &b) { if (!(b.c[0] > 0)) throw Split(); TM s = series(b, [](int i) { R c = 1; for (int k = 0; k < i; ++k) c *= (0.5L - k) / (k + 1); return c; }); return scale(s, std::sqrt(b.c[0])); }

	static double dv(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
	static uint64_t bits(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
	static R ulp1(unsigned w) { return w == 32 ? 0x1p-24L : 0x1p-53L; }
	static R tiny(unsigned w) { return w == 32 ? 0x1p-150L : 0x1p-1075L; }
	static double rnd(R v, unsigned w) { return w == 32 ? (double)(float)v : (double)v; }
	Val word(uint64_t v, uint64_t unk, unsigned ww, bool sym = false) { Val o; o.w = ww; uint64_t m = Graph::msk(ww); o.unk = unk & m; o.v = v & m & ~o.unk; o.sym = sym && o.unk; return o; }
	Val pt(double d, unsigned ww) { Val o; o.fp = o.point = true; o.w = ww; o.d = d; o.v = bits(d, ww); if (std::isfinite(d)) o.t = cst(d); return o; }
	// a value rounded to width ww from an exact value enclosed by t
	Val rounded(TM t, unsigned ww, bool exact = false) { R h = rad(t), lo = t.c[0] - h, hi = t.c[0] + h; lo -= ab(lo) * 2 * U; hi += ab(hi) * 2 * U;
		if (!(ab(lo) < (ww == 32 ? 0x1p127L : 0x1p1023L) && ab(hi) < (ww == 32 ? 0x1p127L : 0x1p1023L))) throw Split();
		if (!exact) { double a = rnd(lo, ww), b = rnd(hi, ww); if (a == b && (a != 0 || lo > 0 || hi < 0)) return pt(a, ww); t.r += (std::max(ab(lo), ab(hi)) * ulp1(ww) + tiny(ww)) * (1 + 4 * U); }
		Val o; o.fp = true; o.w = ww; o.t = t; return o; }
	bool known(const Val &a) { return a.fp ? a.point : !a.unk; }
	void hull(const Val &a, R &lo, R &hi) { if (a.point) { lo = hi = a.d; return; } R h = rad(a.t); lo = a.t.c[0] - h; hi = a.t.c[0] + h; lo -= ab(lo) * 4 * U; hi += ab(hi) * 4 * U; }
	Val toFP(const Val &a) { if (a.fp) return a; unsigned ww = a.w; if (ww != 32 && ww != 64) throw Unsup{"floating width"}; if (!a.unk) return pt(dv(a.v, ww), ww);
		unsigned mb = ww == 32 ? 23 : 52; if (a.unk >> mb) throw Split(); if (a.bin) { int em = ww == 32 ? 0xff : 0x7ff, e = a.v >> mb; if ((e & em) && (e & em) != em) { Val o; o.fp = true; o.w = ww; R k = std::ldexp((R)1, (e & em) - (a.ex & em)); o.t = scale(a.t, (e ^ a.ex) & (em + 1) ? -k : k); return o; } } double lo = dv(a.v, ww), hi = dv(a.v | a.unk, ww); if (!std::isfinite(lo)) throw Split(); R c = ((R)lo + hi) / 2, r = ((R)hi - lo) / 2;
		Val o; o.fp = true; o.w = ww; o.t = cst(c); if (a.sym && a.unk == (1ull << M) - 1) o.t.c[1] = r; else o.t.r = ab(r); return o; }
	Val toWord(const Val &a) { if (!a.fp) return a; if (a.point) return word(a.v, 0, a.w); R lo, hi; hull(a, lo, hi); if (lo <= 0 && hi >= 0) { return word(0, ~0ull, a.w); }
		auto in = [&](R v, bool up) { double d = rnd(v, a.w); if (up ? (R)d < v : (R)d > v) d = a.w == 32 ? (double)std::nextafter((float)d, up ? INFINITY : -INFINITY) : std::nextafter(d, up ? INFINITY : -INFINITY); return d; };
		uint64_t p = bits(in(lo, false), a.w), q = bits(in(hi, true), a.w), df = p ^ q; unsigned k = df ? 64 - __builtin_clzll(df) : 0; uint64_t u = k >= 64 ? ~0ull : (1ull << k) - 1; Val o = word(p, u, a.w); unsigned mb = sb(a.w); int e = p >> mb & (a.w == 32 ? 0xff : 0x7ff); if (o.unk && !(o.unk >> mb) && e && e != (a.w == 32 ? 0xff : 0x7ff)) { o.bin = true; o.ex = p >> mb; o.t = a.t; } return o; }
	static unsigned sb(unsigned ww) { return ww == 32 ? 23 : 52; }
	static Val keep(Val r, const Val &a) { r.bin = true; r.ex = a.ex; r.t = a.t; return r; }
	uint64_t need(const Val &a0) { Val a = toWord(a0); if (a.unk) throw Split(); return a.v; }
	uint64_t umin(const Val &a) { return a.v; } uint64_t umax(const Val &a) { return a.v | a.unk; }
	int64_t sext(uint64_t v, unsigned ww) { return ww >= 64 ? (int64_t)v : (int64_t)(v << (64 - ww)) >> (64 - ww); }
	int64_t smin(const Val &a) { uint64_t s = 1ull << (a.w - 1); return sext(a.v | (a.unk & s), a.w); } int64_t smax(const Val &a) { uint64_t s = 1ull << (a.w - 1); return sext(a.v | (a.unk & ~s), a.w); }
	Val boolean(bool b) { return word(b, 0, 1); }

	Val ev(Id n) { auto it = memo.find(n); if (it != memo.end()) return it->second; Val v = calc(n); return memo[n] = v; }
	Val K(Id n, unsigned i) { return ev(g.kid(n, i)); }
	Val calc(Id n) {
		const Op o = g.op(n); const unsigned ww = g.w(n); const uint64_t mk = Graph::msk(ww);
		if (n == x) return word(prefix << M, M ? (1ull << M) - 1 : 0, w, true);
		switch (o) {
		case CONST: return word(g.imm(n), 0, ww);
		case UNDEF: return word(0, ~0ull, ww);
		case EXTRACT: { Val a = K(n, 0); unsigned lo = g.imm(n); if (a.fp && lo == 0 && a.w == ww) return a; a = toWord(a); Val r = word(a.v >> lo, a.unk >> lo, ww, a.sym && lo == 0 && ww >= M); if (a.sym && lo < M) r.sl = lo; return r; }
		case CONCAT: { Val l = toWord(K(n, 1)), h = toWord(K(n, 0)); if (ww > 64) throw Unsup{"wide word"}; Val r = word(h.v << l.w | l.v, h.unk << l.w | l.unk, ww, (l.sym && l.w >= M && !h.unk) || (l.sl == 0 && h.sl == (int)l.w && ww >= M)); if (!r.sym && l.sl >= 0 && h.sl == l.sl + (int)l.w) r.sl = l.sl; return r; }
		case NOT: { Val a = toWord(K(n, 0)); return word(~a.v, a.unk, ww); }
		case AND: case OR: { Val a = K(n, 0); if (ww == 1) { if (!a.unk && a.v == (o == OR)) return a; }
			Val b = K(n, 1); for (int s = 0; s < 2; ++s, std::swap(a, b)) if (!b.fp && !b.unk) { if (b.v == (o == AND ? 0 : mk)) return b; if (b.v == (o == AND ? mk : 0)) return a;
				if (o == AND && a.fp && b.v == (mk >> 1)) return absv(a); if (o == OR && a.fp && b.v == (mk ^ mk >> 1)) { Val q = absv(a); return negv(q); } }
			bool sa = a.sym, sb = b.sym; a = toWord(a); b = toWord(b); uint64_t a1 = a.v, a0 = ~(a.v | a.unk) & mk, b1 = b.v, b0 = ~(b.v | b.unk) & mk; uint64_t one = o == AND ? a1 & b1 : a1 | b1, zero = o == AND ? a0 | b0 : a0 & b0;
			uint64_t low = M ? (1ull << M) - 1 : 0, pass = o == AND ? b1 : b0, pass2 = o == AND ? a1 : a0, sg = (1ull << Acc::sb(ww)) - 1; Val r = word(one, ~(one | zero), ww, (sa && (pass & low) == low) || (sb && (pass2 & low) == low)); if (a.bin && (pass & sg) == sg) return keep(r, a); if (b.bin && (pass2 & sg) == sg) return keep(r, b); return r; }
		case XOR: { Val a = K(n, 0), b = K(n, 1); for (int s = 0; s < 2; ++s, std::swap(a, b)) if (!b.fp && !b.unk) { if (!b.v) return a; if (a.fp && b.v == (mk ^ mk >> 1)) return negv(a); }
			bool sa = a.sym, sb = b.sym; a = toWord(a); b = toWord(b); uint64_t low = M ? (1ull << M) - 1 : 0; uint64_t sg = (1ull << Acc::sb(ww)) - 1; Val r = word(a.v ^ b.v, a.unk | b.unk, ww, (sa && !((b.v | b.unk) & low)) || (sb && !((a.v | a.unk) & low))); if (a.bin && !((b.v | b.unk) & sg)) return keep(r, a); if (b.bin && !((a.v | a.unk) & sg)) return keep(r, b); return r; }
		case ADD: case SUB: { Val a = K(n, 0), b = K(n, 1); if (o == ADD && b.fp && !a.fp) std::swap(a, b); if (a.fp && !a.point && !b.fp && !b.unk && (ww == 32 || ww == 64) && !(b.v & (1ull << (ww == 32 ? 23 : 52)) - 1)) { // exponent arithmetic: an exact scaling
				R lo, hi; hull(a, lo, hi); double l = rnd(lo, ww), h = rnd(hi, ww); if (l > 0 && std::isfinite(h) && l >= (ww == 32 ? 0x1p-126 : 0x1p-1022)) { auto sh = [&](double d) { uint64_t q = bits(d, ww); return dv((o == ADD ? q + b.v : q - b.v) & mk, ww); }; double l2 = sh(l), h2 = sh(h); if (l2 > 0 && std::isfinite(h2) && l2 >= (ww == 32 ? 0x1p-126 : 0x1p-1022) && (R)l2 / l == (R)h2 / h) return rounded(scale(a.t, (R)l2 / l), ww, true); } }
			a = toWord(a); b = toWord(b); uint64_t low = M ? (1ull << M) - 1 : 0; bool sy = (a.sym && !((b.v | b.unk) & low)) || (o == ADD && b.sym && !((a.v | a.unk) & low));
			uint64_t l1 = a.v, l0 = ~(a.v | a.unk), r1 = b.v, r0 = ~(b.v | b.unk), cy = 0; if (o == SUB) { std::swap(r1, r0); cy = 1; }
			uint64_t pz = ~l0 + ~r0 + cy, po = l1 + r1 + cy, ckz = ~(pz ^ l0 ^ r0), cko = po ^ l1 ^ r1, kn = (l0 | l1) & (r0 | r1) & (ckz | cko); Val r = word(po & kn, ~kn, ww, sy); uint64_t sg = (1ull << sb(ww)) - 1; if (a.bin && !((b.v | b.unk) & sg)) return keep(r, a); if (o == ADD && b.bin && !((a.v | a.unk) & sg)) return keep(r, b); return r; }
		case MUL: return word(need(K(n, 0)) * need(K(n, 1)), 0, ww);
		case UDIV: case UREM: { uint64_t a = need(K(n, 0)), b = need(K(n, 1)); if (!b) throw Unsup{"division by zero"}; return word(o == UDIV ? a / b : a % b, 0, ww); }
		case SHL: case LSHR: case ASHR: { uint64_t s = need(K(n, 1)); Val a = toWord(K(n, 0)); if (s >= ww) return word(o == ASHR ? 0 : 0, o == ASHR ? ~0ull : 0, ww); if (o == SHL) return word(a.v << s, a.unk << s, ww); if (o == LSHR) return word(a.v >> s, a.unk >> s, ww);
			return word((uint64_t)(sext(a.v, ww) >> s), (uint64_t)(sext(a.unk, ww) >> s), ww); }
		case SEXT: { Val a = toWord(K(n, 0)); return word((uint64_t)sext(a.v, a.w), (uint64_t)sext(a.unk, a.w), ww); }
		case ITE: { Val c = K(n, 0); if (c.unk) throw Split(); return K(n, c.v ? 1 : 2); }
		case EQ: { Val a = toWord(K(n, 0)), b = toWord(K(n, 1)); if ((a.v ^ b.v) & ~a.unk & ~b.unk) return boolean(false); if (!a.unk && !b.unk) return boolean(true); throw Split(); }
		case ULT: { Val a = toWord(K(n, 0)), b = toWord(K(n, 1)); if (umax(a) < umin(b)) return boolean(true); if (umin(a) >= umax(b)) return boolean(false); throw Split(); }
		case SLT: { Val a = toWord(K(n, 0)), b = toWord(K(n, 1)); if (smax(a) < smin(b)) return boolean(true); if (smin(a) >= smax(b)) return boolean(false); throw Split(); }
		case FUNO: { Val a = toFP(K(n, 0)); return boolean(a.point && std::isnan(a.d)); }
		case FOEQ: case FOLT: { Val a = toFP(K(n, 0)), b = toFP(K(n, 1)); if (a.point && b.point) return boolean(o == FOEQ ? a.d == b.d : a.d < b.d); if (a.point && !std::isfinite(a.d)) return boolean(o == FOLT && a.d < 0); if (b.point && !std::isfinite(b.d)) return boolean(o == FOLT && b.d > 0);
			R al, ah, bl, bh; hull(a, al, ah); hull(b, bl, bh); if (o == FOEQ) { if (ah < bl || bh < al) return boolean(false); throw Split(); } if (ah < bl) return boolean(true); if (al >= bh) return boolean(false); throw Split(); }
		case FADD: case FMUL: case FDIV: { Val a = toFP(K(n, 0)), b = toFP(K(n, 1)); if (a.point && b.point) { if (ww == 32) { float p = a.d, q = b.d; return pt(o == FADD ? p + q : o == FMUL ? p * q : p / q, 32); } return pt(o == FADD ? a.d + b.d : o == FMUL ? a.d * b.d : a.d / b.d, 64); }
			chk(a); chk(b); if (o == FMUL) for (int s = 0; s < 2; ++s, std::swap(a, b)) if (a.point && a.d == 0) { R lo, hi; hull(b, lo, hi); if (lo > 0) return pt(a.d, ww); if (hi < 0) return pt(-a.d, ww); Val z; z.fp = true; z.w = ww; z.t = cst(0); return z; } if (o == FADD && a.point && a.d == 0) return b; if (o == FADD && b.point && b.d == 0) return a;
			if (o == FADD) return rounded(add(a.t, b.t), ww); if (o == FMUL) { for (int s = 0; s < 2; ++s, std::swap(a, b)) { int e; if (b.point && ab(std::frexp(b.d, &e)) == 0.5L) { TM t = scale(a.t, b.d); R lo = ab(t.c[0]) - rad(t); if (lo > (ww == 32 ? 0x1p-125L : 0x1p-1021L)) return rounded(t, ww, true); } } return rounded(mul(a.t, b.t), ww); }
			return rounded(mul(a.t, inv(b.t)), ww); }
		case FMA: { Val a = toFP(K(n, 0)), b = toFP(K(n, 1)), c = toFP(K(n, 2)); if (a.point && b.point && c.point) return pt(ww == 32 ? (double)std::fma((float)a.d, (float)b.d, (float)c.d) : std::fma(a.d, b.d, c.d), ww); chk(a); chk(b); chk(c); return rounded(add(mul(a.t, b.t), c.t), ww); }
		case FSQRT: { Val a = toFP(K(n, 0)); if (a.point) return pt(ww == 32 ? (double)std::sqrt((float)a.d) : std::sqrt(a.d), ww); return rounded(sqrt_(a.t), ww); }
		case FPEXT: { Val a = toFP(K(n, 0)); if (a.point) return pt(a.d, 64); a.w = 64; return a; }
		case FPTRUNC: { Val a = toFP(K(n, 0)); if (a.point) return pt((float)a.d, 32); return rounded(a.t, 32); }
		case FTOSI: case FTOUI: { Val a = toFP(K(n, 0)); R lo, hi; hull(a, lo, hi); if (!(ab(lo) < 0x1p62L && ab(hi) < 0x1p62L)) throw Split(); int64_t p = (int64_t)lo, q = (int64_t)hi; if (p != q) throw Split(); return word((uint64_t)p, 0, ww); }
		case SITOF: case UITOF: { Val a = toWord(K(n, 0)); if (!a.unk) { R v = o == SITOF ? (R)sext(a.v, a.w) : (R)a.v; return pt(rnd(v, ww), ww); } throw Split(); }
		case FROUND: { Val a = toFP(K(n, 0)); auto f = [&](R v) -> R { switch (g.imm(n)) { case 0: return std::nearbyint(v); case 1: return std::floor(v); case 2: return std::ceil(v); case 3: return std::trunc(v); default: return std::round(v); } }; R lo, hi; hull(a, lo, hi); if (f(lo) != f(hi)) throw Split(); return pt((double)f(lo), ww); }
		case TABLE: { uint64_t off = need(K(n, 0)); auto t = table(g.imm(n), ww); if (off % (ww / 8) || off / (ww / 8) >= t.size()) throw Unsup{"table index"}; return word(t[off / (ww / 8)], 0, ww); }
		default: throw Unsup{opname[o] + std::string(o == UF ? " " + g.names[g.imm(n)] : o == LEAF ? " " + g.leaves[g.imm(n)].name : "")};
		}
	}
	void chk(const Val &a) { if (a.point && !std::isfinite(a.d)) throw Split(); }
	Val negv(Val a) { if (a.point) return pt(-a.d, a.w); a.t = neg(a.t); return a; }
	Val absv(Val a) { if (a.point) return pt(std::fabs(a.d), a.w); R lo, hi; hull(a, lo, hi); if (lo >= 0) return a; if (hi <= 0) return negv(a); throw Split(); }

	// the mathematical function on the piece
	static void rem(TM &t, R b) { t.r = (t.r + b) * (1 + 16 * U); }
	static TM linear(R c, R r) { TM t = cst(c); t.c[1] = r; return t; }
	static TM sincos_(R c, R r, bool cosine) { TM t = cst(0); R s = std::sin(c), k = std::cos(c), f = 1, sum = 0; R d[4] = {cosine ? k : s, cosine ? -s : k, cosine ? -k : -s, cosine ? s : -k}; for (int i = 0; i <= N; ++i) { t.c[i] = d[i & 3] * f; sum += ab(t.c[i]); f *= r / (i + 1); } t.r = ab(f) * 1.01L + sum * (N + 2) * U; return t; }
	static TM integrate(const TM &d, R r, R c0) { TM t = cst(c0); R s = ab(c0); for (int i = 1; i <= N; ++i) { t.c[i] = d.c[i - 1] * r / i; s += ab(t.c[i]); } t.r = (d.r + ab(d.c[N])) * ab(r) * 1.01L + s * 3 * U; return t; }
	static TM log_(R c, R r, R lc) { return integrate(inv(linear(c, r)), r, lc); }
	static TM func(const std::string &f, R c, R r) {
		if (f == "sin") return sincos_(c, r, false); if (f == "cos") return sincos_(c, r, true);
		if (f == "tan") { if (ab(r) > 0.2L) throw Split(); return mul(sincos_(c, r, false), inv(sincos_(c, r, true))); }
		if (f == "log") return log_(c, r, std::log(c));
		if (f == "log2") return scale(log_(c, r, std::log(c)), 1.44269504088896340735992468100189214L);
		if (f == "log10") return scale(log_(c, r, std::log(c)), 0.434294481903251827651128918916605082L);
		if (f == "log1p") { TM t = integrate(inv(linear(1 + c, r)), r, std::log1p(c)); rem(t, ab(r) * 8 * U / ab(1 + c)); return t; }
		if (f == "sqrt") return sqrt_(linear(c, r));
		if (f == "rsqrt") return inv(sqrt_(linear(c, r)));
		if (f == "rcp") return inv(linear(c, r));
		TM l = linear(c, r), q = mul(l, l);
		if (f == "atan") { TM d = ab(c) > 1 ? mul(inv(l), mul(inv(l), inv(add(cst(1), inv(q))))) : inv(add(cst(1), q)); return integrate(d, r, std::atan(c)); }
		if (f == "asin" || f == "acos") { if (r == 0) return cst(f == "asin" ? std::asin(c) : std::acos(c)); TM d = inv(sqrt_(mul(linear(1 - c, -r), linear(1 + c, r)))); return f == "asin" ? integrate(d, r, std::asin(c)) : integrate(neg(d), r, std::acos(c)); }
		if (f.substr(0, 5) == "hypot" && c < 0) l = neg(l); if (f.substr(0, 5) == "hypot") { R b = std::strtold(f.c_str() + 5, nullptr); if (ab(c) > b) { TM i = scale(inv(l), b); return mul(l, sqrt_(add(cst(1), mul(i, i)))); } TM i = scale(l, 1 / b); return scale(sqrt_(add(cst(1), mul(i, i))), b); }
		throw Unsup{"function " + f};
	}
	// permitted error where the argument has magnitude xm at most (xl at least) and the function fm at most (fl at least)
	static R allow(const std::string &f, R k, R u, R xl, R, R fl, R) {
		R a;
		if (f == "sin") a = std::min((R)1, xl) * std::max((R)1, xl);
		else if (f == "cos") a = std::max((R)1, xl);
		else if (f == "tan") a = (std::min((R)1, xl) + fl * fl) * std::max((R)1, xl);
		else if (f.substr(0, 3) == "log") a = std::max((R)1, fl);
		else a = fl;
		return a * k * u;
	}
	struct Result { uint64_t pieces = 0, points = 0; R worst = 0; std::string bad, open; double at = 0; };
	// one piece; 0: shown, 1: violated, 2: to be divided
	int piece(const std::string &f, R k, Result &res, std::string &why, R &score) {
		memo.clear(); double lo = dv(prefix << M, w), hi = dv(prefix << M | (M ? (1ull << M) - 1 : 0), w); R c = ((R)lo + hi) / 2, r = ((R)hi - lo) / 2; score = 0;
		try {
			TM t = func(f, c, r); R ft = rad(t), fm = ab(t.c[0]) + ft, fl = std::max((R)0, ab(t.c[0]) - ft); R xl = std::min(ab((R)lo), ab((R)hi)), xm = std::max(ab((R)lo), ab((R)hi)); R al = allow(f, k, ulp1(w), xl, xm, fl, fm) + 4 * tiny(w);
			Val y = toFP(ev(root)); char b[200];
			if (y.point && !std::isfinite(y.d)) { snprintf(b, 200, "%s(x) is %g for every x in [%.17g, %.17g]", f.c_str(), y.d, lo, hi); why = b; return 1; }
			TM e = add(y.t, neg(t)); R m = mag(e), least = ab(e.c[0]) - rad(e); score = m / al; if (m <= al) { if (score > res.worst) { res.worst = score; res.at = lo; } return 0; }
			R most = allow(f, k, ulp1(w), xm, xm, fm, fm) + 4 * tiny(w); if (least > most) { snprintf(b, 200, "%s(x) for x in [%.17g, %.17g] is off by at least %.3Lg, %.3Lg allowed", f.c_str(), lo, hi, least, most); why = b; return 1; }
			why = "error bound"; return 2;
		} catch (Split &) { why = "split"; return 2; }
	}
	void range(const std::string &f, R k, uint64_t p, unsigned m, unsigned depth, Result &res, uint64_t budget) {
		if (!res.bad.empty()) return; if (++res.pieces > budget) { if (res.open.empty()) { char b[100]; snprintf(b, 100, "piece budget exceeded near %.9g", dv(p << m, w)); res.open = b; } return; }
		prefix = p; M = m; std::string why; R sc; int q = piece(f, k, res, why, sc); if (q == 0) { if (!m) ++res.points; return; } if (q == 1) { res.bad = why; return; }
		if (!m) { char b[100]; snprintf(b, 100, " at %.17g", dv(p, w)); res.open = why + b; return; }
		range(f, k, p << 1, m - 1, depth + 1, res, budget); range(f, k, p << 1 | 1, m - 1, depth + 1, res, budget);
	}
};
