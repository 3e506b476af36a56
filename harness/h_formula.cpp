// C06: formulas
#include "pbt.hpp"
#include "common/GFormulaParserT.hpp"
using namespace pbt;
namespace gc = Gem::Common;
using ld = long double;

// ---- a reference with error bounds --------------------------------------------------------------
struct MathErr { std::string what; };
struct Unsure {};
struct V { ld v; ld e; };
struct Num { ld eps, lit, big; };          // rounding of one operation, of one literal, largest magnitude looked at
static const Num ND{1e-15L, 2e-14L, 1e280L}, NF{3e-7L, 1e-6L, 1e30L};

static bool whole(ld x, Num const &n) { return x == floorl(x) && fabsl(x) < (n.eps < 1e-10L ? 9e15L : 1.6e7L); }
static V fin(V a, Num const &n, bool exact_in) {
	if (std::isnan((double)a.v)) return a;
	if (fabsl(a.v) > n.big) throw Unsure();
	if (a.v != 0 && fabsl(a.v) < 1.L / n.big) throw Unsure();
	if (!(exact_in && a.e == 0 && whole(a.v, n))) a.e += n.eps * fabsl(a.v);
	if (a.e > 1e-3L * (1.L + fabsl(a.v))) throw Unsure();
	return a;
}
static V lit(ld x, Num const &n) { V r{x, whole(x, n) ? 0.L : fabsl(x) * n.lit}; return r; }
static V binop(char o, V a, V b, Num const &n) {
	bool ex = a.e == 0 && b.e == 0;
	if (std::isnan((double)a.v) || std::isnan((double)b.v)) { if (o == '/' && b.v == 0) throw MathErr{"div0"}; return {NAN, 0}; }
	switch (o) {
		case '+': return fin({a.v + b.v, a.e + b.e}, n, ex);
		case '-': return fin({a.v - b.v, a.e + b.e}, n, ex);
		case '*': return fin({a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e}, n, ex);
		default:
			if (b.e == 0 && b.v == 0) throw MathErr{"div0"};
			if (fabsl(b.v) <= 2 * b.e) throw Unsure();
			V r{a.v / b.v, a.e / fabsl(b.v) + fabsl(a.v) * b.e / (b.v * b.v) * 2};
			return fin(r, n, ex);
	}
}
static V fn1(std::string const &f, V a, Num const &n) {
	bool ex = a.e == 0;
	ld x = a.v, e = a.e;
	if (std::isnan((double)x)) return a;
	if (f == "acos" || f == "asin") {
		if (x - e > 1 || x + e < -1) throw MathErr{f};
		if (e > 0 && 1 - fabsl(x) < 2 * e) throw Unsure();
		ld d = e > 0 ? e / sqrtl(1 - (fabsl(x) + e) * (fabsl(x) + e)) : 0;
		return fin({f == "acos" ? acosl(x) : asinl(x), 2 * d + n.eps}, n, false);
	}
	if (f == "atan") return fin({atanl(x), e}, n, false);
	if (f == "ceil" || f == "floor") {
		ld lo = f == "ceil" ? ceill(x - e) : floorl(x - e), hi = f == "ceil" ? ceill(x + e) : floorl(x + e);
		if (lo != hi) throw Unsure();
		return fin({lo, 0}, n, true);
	}
	if (f == "sin" || f == "cos") return fin({f == "sin" ? sinl(x) : cosl(x), e + n.eps}, n, false);
	if (f == "tan") { ld t = tanl(x); if (fabsl(t) > 1e4L) throw Unsure(); return fin({t, 2 * (1 + t * t) * e + n.eps}, n, false); }
	if (f == "sinh" || f == "cosh" || f == "exp") {
		if (fabsl(x) > 60) throw Unsure();
		ld r = f == "sinh" ? sinhl(x) : f == "cosh" ? coshl(x) : expl(x);
		return fin({r, 2 * e * (coshl(x) + 1) + n.eps * fabsl(r)}, n, false);
	}
	if (f == "tanh") return fin({tanhl(x), e + n.eps}, n, false);
	if (f == "fabs") return {fabsl(x), e};
	if (f == "log" || f == "log10") {
		if (x + e <= 0) throw MathErr{f};
		if (x - 2 * e <= 0) throw Unsure();
		return fin({f == "log" ? logl(x) : log10l(x), 2 * e / x + n.eps}, n, false);
	}
	if (f == "sqrt") {
		if (x + e < 0) throw MathErr{f};
		if (e > 0 && x - 2 * e <= 0) throw Unsure();
		return fin({sqrtl(x), e > 0 ? e / sqrtl(x) : 0}, n, ex);
	}
	abort();
}
static V fn2(std::string const &f, V a, V b, Num const &n) {
	bool ex = a.e == 0 && b.e == 0;
	if (std::isnan((double)a.v) || std::isnan((double)b.v)) throw Unsure();
	if (f == "min") return {std::min(a.v, b.v), std::max(a.e, b.e)};
	if (f == "max") return {std::max(a.v, b.v), std::max(a.e, b.e)};
	if (f == "hypot") return fin({hypotl(a.v, b.v), a.e + b.e}, n, ex);
	// pow
	if (fabsl(b.v) > 60 || fabsl(a.v) > 1e6L) throw Unsure();
	if (!ex && a.v - 2 * a.e <= 0) throw Unsure();
	if (a.v == 0 && b.v < 0) throw Unsure(); // infinity
	ld r = powl(a.v, b.v);
	if (std::isnan((double)r)) return {NAN, 0};
	ld e = 0;
	if (!ex) e = 2 * (fabsl(b.v * powl(a.v, b.v - 1)) * a.e + fabsl(logl(a.v) * r) * b.e);
	return fin({r, e + n.eps * fabsl(r)}, n, false);
}
static const std::vector<std::string> F1{"acos", "asin", "atan", "ceil", "cosh", "cos", "exp", "fabs", "floor", "log10", "log", "sinh", "sin", "sqrt", "tanh", "tan"};
static const std::vector<std::string> F2{"min", "max", "pow", "hypot"};

// ---- generated expressions ----------------------------------------------------------------------
struct Env {
	std::map<std::string, double> consts;              // user constants
	std::map<std::string, std::vector<double>> params; // placeholders
};
struct Tok { std::string s; };
struct Node { // kinds: n literal, c constant, p placeholder, - + unary, b binary, 1, 2 functions, ( redundant parentheses
	char k; std::string s; int idx = -1; std::vector<Node> ch;
};
static std::string lit_text(Ctx &c) {
	switch (c.weighted({4, 3, 2, 1, 1})) {
		case 0: return std::to_string(c.range(0, 12));
		case 1: { char b[40]; std::snprintf(b, 40, "%.*f", (int)c.range(1, 6), c.real(0., 5.)); return b; }
		case 2: { char b[40]; std::snprintf(b, 40, "%.*e", (int)c.range(0, 9), c.real(0.1, 10.) * std::pow(10., (double)c.range(-4, 4))); return b; }
		case 3: return "." + std::to_string(c.range(1, 999));
		default: return std::to_string(c.range(0, 99)) + (c.flip() ? "." : ".50") + (c.flip() ? "" : "E-1");
	}
}
static Node gen(Ctx &c, Env const &env, int depth) {
	std::size_t k = depth <= 0 ? c.weighted({3, 1, 2}) : c.weighted({3, 1, 2, 2, 8, 4, 2, 2});
	switch (k) {
		case 0: return {'n', lit_text(c)};
		case 1: {
			std::vector<std::string> names{"pi", "e"};
			for (auto &x: env.consts) names.push_back(x.first);
			return {'c', c.pick(names)};
		}
		case 2: {
			if (env.params.empty()) return {'n', lit_text(c)};
			auto it = env.params.begin();
			std::advance(it, c.raw(env.params.size()));
			Node n{'p', it->first};
			if (it->second.size() > 1) n.idx = (int)c.raw(it->second.size());
			return n;
		}
		case 3: return {c.flip() ? '-' : '+', "", -1, {gen(c, env, depth - 1)}};
		case 4: return {'b', std::string(1, c.pick({'+', '-', '*', '/'})), -1, {gen(c, env, depth - 1), gen(c, env, depth - 1)}};
		case 5: return {'1', c.pick(F1), -1, {gen(c, env, depth - 1)}};
		case 6: return {'2', c.pick(F2), -1, {gen(c, env, depth - 1), gen(c, env, depth - 1)}};
		default: return {'(', "", -1, {gen(c, env, depth - 1)}};
	}
}
static int prec(Node const &n) { return n.k == 'b' ? (n.s == "+" || n.s == "-" ? 1 : 2) : 3; }
static void render(Node const &n, std::vector<std::string> &t) {
	auto par = [&](Node const &x, bool p) { if (p) t.push_back("("); render(x, t); if (p) t.push_back(")"); };
	switch (n.k) {
		case 'n': case 'c': t.push_back(n.s); break;
		case 'p': t.push_back("{{" + n.s + (n.idx >= 0 ? "[" + std::to_string(n.idx) + "]" : "") + "}}"); break;
		case '-': case '+': t.push_back(std::string(1, n.k)); par(n.ch[0], prec(n.ch[0]) < 3); break;
		case 'b': par(n.ch[0], prec(n.ch[0]) < prec(n)); t.push_back(n.s); par(n.ch[1], prec(n.ch[1]) <= prec(n)); break;
		case '1': t.push_back(n.s); t.push_back("("); render(n.ch[0], t); t.push_back(")"); break;
		case '2': t.push_back(n.s); t.push_back("("); render(n.ch[0], t); t.push_back(","); render(n.ch[1], t); t.push_back(")"); break;
		default: t.push_back("("); render(n.ch[0], t); t.push_back(")");
	}
}
template<typename T> static V eval(Node const &n, Env const &env, Num const &m) {
	switch (n.k) {
		case 'n': return lit(std::is_same<T, float>::value ? (ld)std::stod(n.s) : strtold(n.s.c_str(), nullptr), m);
		case 'c': if (n.s == "pi") return {M_PIl, (ld)m.eps * 4}; if (n.s == "e") return {M_El, (ld)m.eps * 3}; return {(ld)(T)env.consts.at(n.s), 0};
		case 'p': { auto const &v = env.params.at(n.s); T x = (T)v[n.idx < 0 ? 0 : n.idx]; V r{(ld)x, 0}; if (!whole(r.v, m)) r.e = fabsl(r.v) * m.lit; return r; }
		case '-': { V a = eval<T>(n.ch[0], env, m); return {-a.v, a.e}; }
		case '+': case '(': return eval<T>(n.ch[0], env, m);
		case 'b': { V a = eval<T>(n.ch[0], env, m); V b = eval<T>(n.ch[1], env, m); return binop(n.s[0], a, b, m); }
		case '1': return fn1(n.s, eval<T>(n.ch[0], env, m), m);
		default: { V a = eval<T>(n.ch[0], env, m); V b = eval<T>(n.ch[1], env, m); return fn2(n.s, a, b, m); }
	}
}
static std::string join(Ctx &c, std::vector<std::string> const &t, bool ws) {
	std::string r;
	auto sp = [&]() { if (ws && c.chance(1, 4)) r += c.pick({" ", "  ", "\t", "\n", " \n "}); };
	for (auto &x: t) { sp(); r += x; }
	sp();
	return r;
}
static Env gen_env(Ctx &c) {
	Env env;
	static const std::vector<std::string> CN{"a", "k1", "zeta", "Q", "ab", "pip", "ee", "pi2"}, PN{"x", "y", "xx", "par_1", "x1", "cos", "pi"};
	for (std::size_t i = 0, n = c.size(0, 3); i < n; i++) env.consts[c.pick(CN)] = c.chance(1, 8) ? 0. : c.nice_double();
	for (std::size_t i = 0, n = c.size(0, 3); i < n; i++) {
		std::vector<double> v;
		std::size_t len = c.chance(1, 3) ? c.size(2, 12) : 1;
		for (std::size_t k = 0; k < len; k++) v.push_back(c.chance(1, 6) ? 0. : c.nice_double());
		env.params[c.pick(PN)] = v;
	}
	return env;
}
static const char *kind(std::exception const &e) {
	if (dynamic_cast<gc::division_by_0 const *>(&e)) return "div0";
	if (dynamic_cast<gc::math_logic_error const *>(&e)) return "math";
	return "other";
}
template<typename T> static std::map<std::string, std::vector<T>> pm(Env const &env) {
	std::map<std::string, std::vector<T>> r;
	for (auto &p: env.params) for (auto x: p.second) r[p.first].push_back((T)x);
	return r;
}
template<typename T> static void one_formula(Ctx &c, Num const &m) {
	Env env = gen_env(c);
	Node n = gen(c, env, (int)c.range(0, 5));
	std::vector<std::string> t;
	render(n, t);
	std::string f = join(c, t, c.flip());
	c.note("formula '", f, "'");
	for (auto &p: env.params) for (auto x: p.second) c.note(p.first, "=", (T)x);
	for (auto &p: env.consts) c.note("const ", p.first, "=", (T)p.second);
	std::map<std::string, T> uc;
	for (auto &p: env.consts) uc[p.first] = (T)p.second;
	gc::GFormulaParserT<T> parser(f, uc);
	std::size_t rounds = c.size(1, 3);
	for (std::size_t r = 0; r < rounds; r++) {
		if (r > 0) for (auto &p: env.params) for (auto &x: p.second) { x = c.chance(1, 5) ? 0. : c.nice_double(); c.note("round ", r, " ", p.first, "=", (T)x); }
		V want{0, 0};
		std::string err;
		bool unsure = false;
		try { want = eval<T>(n, env, m); } catch (MathErr const &e) { err = e.what; } catch (Unsure const &) { unsure = true; }
		T got = 0;
		std::string gerr;
		try { got = c.flip() ? parser.evaluate(pm<T>(env)) : parser(pm<T>(env)); } catch (std::exception const &e) { gerr = kind(e); if (gerr == std::string("other")) gerr += e.what(); }
		if (unsure) { c.label("undecided"); REQ(gerr.substr(0, 5) != "other", "valid formula refused: ", gerr); continue; }
		if (!err.empty()) {
			c.label("domain error");
			REQ(!gerr.empty(), "no error for ", err, ", but value ", got);
			REQ(gerr == (err == "div0" ? "div0" : "math"), "error reported as ", gerr, " expected ", err);
			c.nontrivial();
			continue;
		}
		REQ(gerr.empty(), "valid formula refused: ", gerr, " expected value ", (double)want.v);
		c.label("value");
		if (t.size() > 3) c.nontrivial();
		if (std::isnan((double)want.v)) { REQ(std::isnan(got), "got ", got, " expected nan"); continue; }
		REQ(fabsl((ld)got - want.v) <= want.e * 4 + m.eps * 4 * fabsl(want.v), "got ", got, " expected ", (double)want.v, " +- ", (double)want.e);
	}
}
PROP("C06", formula_double, 150000, 1500000, 8, "one formula of random shape (all operators, functions, constants, placeholders, redundant parentheses, random white space), evaluated 1-3 times with different values, against a long double evaluation of the tree with error bounds; non-trivial: more than three tokens and a decided value, or a domain error") { one_formula<double>(c, ND); }
PROP("C06", formula_float, 40000, 300000, 4, "the same in single precision") { one_formula<float>(c, NF); }

// ---- text that may or may not be a formula: a recursive-descent reference --------------------------
struct Ref {
	std::string const &s; std::size_t p = 0; std::map<std::string, double> const &consts; Num const &m;
	struct Bad {};
	bool unsure = false, odd_literal = false; std::string err; // first arithmetic outcome, kept apart from the syntax
	Ref(std::string const &s_, std::map<std::string, double> const &c_, Num const &m_) : s(s_), consts(c_), m(m_) {}
	void ws() { while (p < s.size() && std::isspace((unsigned char)s[p])) p++; }
	bool eat(char ch) { ws(); if (p < s.size() && s[p] == ch) { p++; return true; } return false; }
	template<typename F> V arith(F f) { if (unsure || !err.empty()) return {1, 0}; try { return f(); } catch (MathErr const &e) { err = e.what; } catch (Unsure const &) { unsure = true; } return {1, 0}; }
	bool number(V &v) {
		ws();
		std::size_t q = p;
		if (q < s.size() && (s[q] == '-' || s[q] == '+')) q++;
		std::size_t d = 0;
		while (q < s.size() && std::isdigit((unsigned char)s[q])) { q++; d++; }
		if (q < s.size() && s[q] == '.') { std::size_t q2 = q + 1, d2 = 0; while (q2 < s.size() && std::isdigit((unsigned char)s[q2])) { q2++; d2++; } if (d + d2 > 0) { q = q2; d += d2; } }
		if (d == 0) return false;
		if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) {
			std::size_t q2 = q + 1;
			if (q2 < s.size() && (s[q2] == '-' || s[q2] == '+')) q2++;
			std::size_t d2 = 0;
			while (q2 < s.size() && std::isdigit((unsigned char)s[q2])) { q2++; d2++; }
			if (d2 > 0) { q = q2; if (d2 > 2) odd_literal = true; }
		}
		v = lit(strtold(s.substr(p, q - p).c_str(), nullptr), m);
		if (q - p > 17) odd_literal = true;
		p = q;
		return true;
	}
	V factor() {
		V v{0, 0};
		if (number(v)) return v;
		if (eat('(')) { v = expr(); if (!eat(')')) throw Bad(); return v; }
		if (eat('-')) { v = factor(); return {-v.v, v.e}; }
		if (eat('+')) return factor();
		ws();
		for (auto &f: F1) if (s.compare(p, f.size(), f) == 0) { p += f.size(); if (!eat('(')) throw Bad(); V a = expr(); if (!eat(')')) throw Bad(); return arith([&] { return fn1(f, a, m); }); }
		for (auto &f: F2) if (s.compare(p, f.size(), f) == 0) { p += f.size(); if (!eat('(')) throw Bad(); V a = expr(); if (!eat(',')) throw Bad(); V b = expr(); if (!eat(')')) throw Bad(); return arith([&] { return fn2(f, a, b, m); }); }
		std::string best;
		for (auto &k: consts) if (s.compare(p, k.first.size(), k.first) == 0 && k.first.size() > best.size()) best = k.first;
		if (best.empty()) throw Bad();
		p += best.size();
		if (best == "pi") return {M_PIl, (ld)m.eps * 4};
		if (best == "e") return {M_El, (ld)m.eps * 3};
		return {consts.at(best), 0};
	}
	V term() { V a = factor(); for (;;) { if (eat('*')) { V b = factor(); a = arith([&] { return binop('*', a, b, m); }); } else if (eat('/')) { V b = factor(); a = arith([&] { return binop('/', a, b, m); }); } else return a; } }
	V expr() { V a = term(); for (;;) { if (eat('+')) { V b = term(); a = arith([&] { return binop('+', a, b, m); }); } else if (eat('-')) { V b = term(); a = arith([&] { return binop('-', a, b, m); }); } else return a; } }
};
PROP("C06", formula_text, 150000, 1500000, 8, "texts made from valid formulas by deleting, duplicating, replacing or inserting tokens and characters, and random token strings: rejected or evaluated exactly as a recursive-descent reference of the documented grammar does; non-trivial: rejected, or accepted with more than three tokens") {
	Env env;
	std::vector<std::string> t;
	static const std::vector<std::string> T{"(", ")", "+", "-", "*", "/", ",", "1", "2.5", "0", "3e1", "pi", "e", "sin", "cos", "log", "log10", "pow", "max", "hypot", "sqrt", ".", "^", "x", "{{y}}", "%", "a", "=", "$", "1.2.3", "5e", "cosinus"};
	if (c.flip()) {
		render(gen(c, env, (int)c.range(0, 4)), t);
		for (std::size_t i = 0, n = c.size(0, 2); i < n && !t.empty(); i++) {
			std::size_t k = c.raw(t.size());
			switch (c.raw(5)) {
				case 0: t.erase(t.begin() + k); break;
				case 1: { auto x = t[k]; t.insert(t.begin() + k, x); break; }
				case 2: t[k] = c.pick(T); break;
				case 3: t.insert(t.begin() + k, c.pick(T)); break;
				default: { std::size_t q = c.raw(t[k].size()); if (c.flip()) t[k].erase(q, 1); else t[k].insert(q, 1, c.pick({'0', '.', '(', ')', 'e', ' ', ',', '-'})); if (t[k].empty()) t.erase(t.begin() + k); }
			}
		}
	} else for (std::size_t i = 0, n = c.size(0, 8); i < n; i++) t.push_back(c.pick(T));
	std::string f = join(c, t, c.chance(1, 3));
	c.note("text '", f, "'");
	std::map<std::string, double> consts{{"pi", 0}, {"e", 0}, {"a", 0.75}};
	Ref ref(f, consts, ND);
	bool ok = true;
	V want{0, 0};
	try { want = ref.expr(); ref.ws(); ok = ref.p == f.size(); } catch (Ref::Bad const &) { ok = false; }
	gc::GFormulaParserT<double> parser(f, {{"a", 0.75}});
	double got = 0;
	std::string gerr;
	try { got = parser.evaluate(); } catch (std::exception const &e) { gerr = kind(e); }
	if (ref.odd_literal) { c.label("undecided"); return; } // more digits than any number needs: left open
	if (!ok) { c.label("rejected"); REQ(!gerr.empty(), "text is not a formula, but evaluates to ", got); REQ(gerr == "other", "a syntax error is reported as an arithmetic one: ", gerr); c.nontrivial(); return; }
	REQ(gerr != "other", "a valid formula was rejected");
	if (ref.unsure) { c.label("undecided"); return; }
	if (!ref.err.empty()) { c.label("domain error"); REQ(gerr == (ref.err == "div0" ? "div0" : "math"), "expected error ", ref.err, " got '", gerr, "' ", got); c.nontrivial(); return; }
	c.label("value");
	if (t.size() > 3) c.nontrivial();
	REQ(gerr.empty(), "error ", gerr, " instead of ", (double)want.v);
	if (std::isnan((double)want.v)) { REQ(std::isnan(got), "got ", got); return; }
	REQ(fabsl((ld)got - want.v) <= want.e * 4 + 4e-15L * fabsl(want.v), "got ", got, " expected ", (double)want.v);
}
PBT_MAIN
