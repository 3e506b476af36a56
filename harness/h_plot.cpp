// C35: what a plot file contains
#include "pbt.hpp"
#include "common/GPlotDesigner.hpp"
#include "plotfile.hpp"
#include <set>
#include <cstring>
using namespace pbt;
namespace gc = Gem::Common;

static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
enum Kind { G2, G2E, G3, G4, H1, H1I, H2, F1, F2, NKIND };
static char const *KN[] = {"GGraph2D", "GGraph2ED", "GGraph3D", "GGraph4D", "GHistogram1D", "GHistogram1I", "GHistogram2D", "GFunctionPlotter1D", "GFunctionPlotter2D"};
static int width(int k) { return k == G2 || k == H2 ? 2 : k == G2E || k == G4 ? 4 : k == G3 ? 3 : k == H1 || k == H1I ? 1 : 0; }

struct PM { // model of one plotter
	int kind = 0;
	std::vector<Row> rows;
	std::string lab, x, y, fn;
	bool ranged = true;
	double lo = 0, hi = 1, lo2 = 0, hi2 = 1;
	std::size_t bins = 10, bins2 = 10, best = 0;
	bool small = true, arrows = false;
	std::vector<PM> sec;
	std::shared_ptr<gc::GBasePlotter> p;
};

template<class P> static void put(P &p, std::vector<Row> const &r, int kind, int how) {
	(void)p; (void)r; (void)kind; (void)how;
}
static void fill(PM &m, Ctx &c) {
	int how = (int)c.raw(3); // one by one with add(), one by one with operator&, all at once
	auto one = [&](auto &q, auto get) {
		using T = decltype(get(m.rows[0]));
		if (how == 2) { std::vector<T> v; for (auto &r: m.rows) v.push_back(get(r)); q & v; }
		else for (auto &r: m.rows) q & get(r);
	};
	auto t2 = [](Row const &r) { return std::make_tuple(r[0], r[1]); };
	auto t3 = [](Row const &r) { return std::make_tuple(r[0], r[1], r[2]); };
	auto t4 = [](Row const &r) { return std::make_tuple(r[0], r[1], r[2], r[3]); };
	auto P = [&](auto *x) { return static_cast<std::remove_pointer_t<decltype(x)> *>(m.p.get()); };
	switch (m.kind) {
		case G2: { auto &q = *P((gc::GGraph2D *)nullptr); if (how == 0) for (auto &r: m.rows) q.add(r[0], r[1]); else one(q, t2); } break;
		case H2: { auto &q = *P((gc::GHistogram2D *)nullptr); if (how == 0) for (auto &r: m.rows) q.add(r[0], r[1]); else one(q, t2); } break;
		case G2E: { auto &q = *P((gc::GGraph2ED *)nullptr); one(q, t4); } break;
		case G3: { auto &q = *P((gc::GGraph3D *)nullptr); if (how == 0) for (auto &r: m.rows) q.add(t3(r)); else one(q, t3); } break;
		case G4: { auto &q = *P((gc::GGraph4D *)nullptr); if (how == 0) for (auto &r: m.rows) q.add(t4(r)); else one(q, t4); } break;
		case H1: { auto &q = *P((gc::GHistogram1D *)nullptr); if (how == 0) for (auto &r: m.rows) q.add(r[0]); else one(q, [](Row const &r) { return r[0]; }); } break;
		case H1I: { auto &q = *P((gc::GHistogram1I *)nullptr); if (how == 0) for (auto &r: m.rows) q.add((std::int32_t)r[0]); else one(q, [](Row const &r) { return (std::int32_t)r[0]; }); } break;
	}
}
static double val(Ctx &c, int cls) {
	switch (cls) {
		case 0: return (double)c.range(-20, 20);
		case 1: return (double)c.range(-1000000, 1000000) / 1000.;
		case 2: return c.nice_double();
		default: return (double)c.range(0, 2);
	}
}
static PM gen(Ctx &c, int kind, bool top) {
	PM m; m.kind = kind;
	std::size_t n = c.weighted({1, 3, 6}) ; n = n == 0 ? 0 : n == 1 ? 1 : c.size(2, 12);
	int cls = (int)c.raw(4);
	int w = width(kind);
	if (w) for (std::size_t k = 0; k < n; k++) {
		Row r;
		for (int j = 0; j < w; j++) {
			double v = kind == H1I ? (double)c.range(-50, 50) : val(c, cls);
			if (std::fabs(v) > 1e100) v = 1e100;
			r.push_back(v);
		}
		m.rows.push_back(r);
	}
	m.lab = c.flip() ? "" : "plot " + std::to_string(c.raw(1000));
	m.x = "x " + std::to_string(c.raw(1000)); m.y = "y " + std::to_string(c.raw(1000));
	m.lo = (double)c.range(-20, 20); m.hi = m.lo + (double)c.range(1, 20);
	m.lo2 = (double)c.range(-20, 20); m.hi2 = m.lo2 + (double)c.range(1, 20);
	m.bins = c.size(1, 50); m.bins2 = c.size(1, 50);
	switch (kind) {
		case G2: {
			auto p = std::make_shared<gc::GGraph2D>(); m.p = p;
			p->setPlotMode(c.flip() ? gc::graphPlotMode::CURVE : gc::graphPlotMode::SCATTER);
			if (c.chance(1, 4)) { p->setDrawArrows(true); m.arrows = true; }
		} break;
		case G2E: { auto p = std::make_shared<gc::GGraph2ED>(); m.p = p; } break;
		case G3: { auto p = std::make_shared<gc::GGraph3D>(); m.p = p; if (c.flip()) p->setDrawLines(true); } break;
		case G4: {
			auto p = std::make_shared<gc::GGraph4D>(); m.p = p;
			m.small = c.flip(); p->setSmallWLargeMarker(m.small);
			m.best = c.chance(1, 3) ? c.size(1, 6) : 0; p->setNBest(m.best);
		} break;
		case H1: {
			m.ranged = c.flip();
			if (m.ranged) m.p = std::make_shared<gc::GHistogram1D>(m.bins, m.lo, m.hi); else m.p = std::make_shared<gc::GHistogram1D>(m.bins);
		} break;
		case H1I: m.p = std::make_shared<gc::GHistogram1I>(m.bins, m.lo, m.hi); break;
		case H2: {
			m.ranged = c.flip();
			if (m.ranged) m.p = std::make_shared<gc::GHistogram2D>(m.bins, m.bins2, m.lo, m.hi, m.lo2, m.hi2); else m.p = std::make_shared<gc::GHistogram2D>(m.bins, m.bins2);
		} break;
		case F1: m.fn = "sin(x)+" + std::to_string(c.raw(1000)); m.p = std::make_shared<gc::GFunctionPlotter1D>(m.fn, std::make_tuple(m.lo, m.hi)); break;
		case F2: m.fn = "x*y+" + std::to_string(c.raw(1000)); m.p = std::make_shared<gc::GFunctionPlotter2D>(m.fn, std::make_tuple(m.lo, m.hi), std::make_tuple(m.lo2, m.hi2)); break;
	}
	m.p->setPlotLabel(m.lab); m.p->setXAxisLabel(m.x); m.p->setYAxisLabel(m.y);
	if (c.chance(1, 5)) m.p->setDataStructureMarker("marker " + std::to_string(c.raw(100)));
	fill(m, c);
	if (kind == G2 && c.chance(1, 4)) {
		static_cast<gc::GGraph2D *>(m.p.get())->sortX();
		// equal x values may come in any order: keep the data unambiguous
		std::set<double> s; bool eq = false;
		for (auto &r: m.rows) if (not s.insert(r[0]).second) eq = true;
		if (eq) c.discard();
		std::sort(m.rows.begin(), m.rows.end());
	}
	if (top && kind != G4 && c.chance(1, 3)) {
		std::size_t ns = c.size(1, 3);
		for (std::size_t k = 0; k < ns; k++) { m.sec.push_back(gen(c, kind, false)); m.p->registerSecondaryPlotter(m.sec.back().p); }
	}
	return m;
}

static std::string str(Row const &r) { std::string s; for (auto x: r) s += (s.empty() ? "" : ", ") + num(x); return "(" + s + ")"; }

static void check(Ctx &c, std::vector<PM> const &pl, std::size_t maxp, std::string const &t) {
	Parsed P = parse(t);
	std::vector<PM const *> shown;
	std::size_t np = std::min(maxp, pl.size());
	std::vector<Row> want4; std::vector<std::size_t> n4;
	std::size_t h = 0, f = 0;
	for (std::size_t k = 0; k < np; k++) { shown.push_back(&pl[k]); for (auto &s: pl[k].sec) shown.push_back(&s); }
	{
		std::vector<long> w; for (std::size_t k = 1; k <= np; k++) w.push_back((long)k);
		REQ(P.pads == w, "the pads used are not 1 to " + std::to_string(np));
	}
	std::set<std::string> names;
	for (auto &n: P.objs) REQ(names.insert(n).second, "two objects in the same file are called " + n);
	std::size_t b = 0, q4 = 0;
	for (auto *m: shown) {
		std::string w = std::string(KN[m->kind]) + " with " + std::to_string(m->rows.size()) + " points";
		if (m->kind == G4 && m->rows.empty()) continue;
		if (not m->lab.empty() && m->kind != G4) REQ(t.find("\"" + m->lab + "\"") != std::string::npos, "no label \"" + m->lab + "\" of a " + w);
		REQ(t.find("\"" + m->x + "\"") != std::string::npos, "no x axis label of a " + w);
		REQ(t.find("\"" + m->y + "\"") != std::string::npos, "no y axis label of a " + w);
		if (m->kind == F1 || m->kind == F2) {
			REQ(f < P.funcs.size(), "a function is missing");
			auto &v = P.funcs[f++];
			REQ(v.size() >= 5 && v[2] == m->fn && near(D(v[3]), m->lo) && near(D(v[4]), m->hi), "function " + m->fn + " drawn with other parameters");
			if (m->kind == F2) REQ(v.size() >= 7 && near(D(v[5]), m->lo2) && near(D(v[6]), m->hi2), "2D function " + m->fn + " drawn with another y range");
			continue;
		}
		if (m->kind == G4) {
			auto rows = m->rows;
			std::stable_sort(rows.begin(), rows.end(), [&](Row const &x, Row const &y) { return m->small ? x[3] < y[3] : x[3] > y[3]; });
			std::size_t n = m->best ? std::min(m->best, rows.size()) : rows.size();
			REQ(q4 + n <= P.pts4.size(), "a GGraph4D shows too few points");
			std::vector<Row> got(P.pts4.begin() + q4, P.pts4.begin() + q4 + n);
			q4 += n;
			std::vector<bool> used(rows.size());
			for (std::size_t k = 0; k < n; k++) {
				REQ(near(got[k][3], rows[k][3]), "point " + std::to_string(k) + " of a GGraph4D is " + str(got[k]) + ", expected the value " + num(rows[k][3]));
				bool ok = false;
				for (std::size_t j = 0; j < rows.size() && not ok; j++) if (not used[j]) {
					bool same = true;
					for (int d = 0; d < 4; d++) same = same && near(got[k][d], rows[j][d]);
					if (same) { used[j] = true; ok = true; }
				}
				REQ(ok, "point " + str(got[k]) + " of a GGraph4D was never added");
			}
			continue;
		}
		if (m->kind == H1 || m->kind == H1I || m->kind == H2) {
			REQ(h < P.hist.size(), "a histogram is missing");
			auto &v = P.hist[h++];
			REQ(v.size() >= (m->kind == H2 ? 9u : 6u), "a histogram with too few parameters");
			REQ(D(v[3]) == (double)m->bins, "a histogram with another number of bins");
			double lo = m->lo, hi = m->hi, lo2 = m->lo2, hi2 = m->hi2;
			if (not m->ranged && not m->rows.empty()) {
				lo = hi = m->rows[0][0]; if (m->kind == H2) lo2 = hi2 = m->rows[0][1];
				for (auto &r: m->rows) { lo = std::min(lo, r[0]); hi = std::max(hi, r[0]); if (m->kind == H2) { lo2 = std::min(lo2, r[1]); hi2 = std::max(hi2, r[1]); } }
			}
			if (m->ranged || not m->rows.empty()) {
				REQ(near(D(v[4]), lo) && near(D(v[5]), hi), "the x range of a " + w + " is " + v[4] + " to " + v[5] + ", expected " + num(lo) + " to " + num(hi));
				if (m->kind == H2) REQ(D(v[6]) == (double)m->bins2 && near(D(v[7]), lo2) && near(D(v[8]), hi2), "the y axis of a " + w + " is " + v[6] + ", " + v[7] + " to " + v[8]);
			}
		}
		if (m->rows.empty()) continue;
		bool arr = m->kind == G2 || m->kind == G2E || m->kind == G3;
		std::size_t nb = arr ? (std::size_t)width(m->kind) : 1;
		REQ(b + nb <= P.blocks.size(), "the data of a " + w + " are missing");
		Parsed::Block B = P.blocks[b];
		for (std::size_t j = 0; j < nb; j++) {
			auto &x = P.blocks[b + j];
			REQ(x.rows.size() == m->rows.size(), "a " + w + " is drawn with " + std::to_string(x.rows.size()));
			if (arr) REQ(P.decl.count(x.name) && P.decl[x.name] == (long)m->rows.size(), "the array " + x.name + " is declared with another size");
			if (j) for (std::size_t k = 0; k < x.rows.size(); k++) B.rows[k].push_back(x.rows[k][0]);
		}
		b += nb;
		for (std::size_t k = 0; k < B.rows.size(); k++) {
			bool ok = B.rows[k].size() == m->rows[k].size();
			auto want = m->rows[k];
			for (std::size_t j = 0; ok && j < want.size(); j++) ok = near(B.rows[k][j], want[j]);
			if (not ok && m->kind == G2E && B.rows[k].size() == 4) { // the order in which values and errors are listed is free
				auto x = B.rows[k]; std::swap(x[1], x[2]); ok = true;
				for (std::size_t j = 0; j < 4; j++) ok = ok && near(x[j], want[j]);
			}
			REQ(ok, "point " + std::to_string(k) + " of a " + w + " is " + str(B.rows[k]) + ", expected " + str(want));
		}
	}
	REQ(b == P.blocks.size(), "there are data which nobody added");
	REQ(q4 == P.pts4.size(), "there are points which nobody added");
	REQ(h == P.hist.size() && f == P.funcs.size(), "there are plots which nobody added");
	{
		std::istringstream in(t); std::string l; int depth = 0;
		while (std::getline(in, l)) {
			auto has = [&](char const *s) { auto p = l.find(s); if (p == std::string::npos) return false; char n = p + strlen(s) < l.size() ? l[p + strlen(s)] : ' '; char v = p ? l[p - 1] : ' '; return not std::isalpha((unsigned char)n) && not std::isalpha((unsigned char)v); };
			REQ(not has("nan") && not has("inf"), "not a number is written: " + l);
			auto d = l.find("->Draw(");
			if (d != std::string::npos) REQ(l[d + 7] == ')' || l[d + 7] == '"', "arguments of a drawing command are not quoted: " + l);
			for (char ch: l) depth += ch == '{' ? 1 : ch == '}' ? -1 : 0;
		}
		REQ(depth == 0, "braces do not match");
	}
}

PROP("C35", drawn, 300, 20000, 6, "at least two plotters, one of them with at least two points") {
	std::size_t nx = c.size(1, 3), ny = c.size(1, 3), n = c.size(0, 7);
	std::vector<PM> pl;
	gc::GPlotDesigner d("canvas", nx, ny);
	bool two = false;
	std::set<int> kinds;
	for (std::size_t k = 0; k < n; k++) {
		pl.push_back(gen(c, (int)c.raw(NKIND), true));
		d.registerPlotter(pl.back().p);
		c.label(KN[pl.back().kind]);
		if (pl.back().rows.size() > 1) two = true;
		if (pl.back().rows.empty() && width(pl.back().kind)) c.label("empty");
		if (not pl.back().sec.empty()) c.label("secondary");
	}
	if (n > nx * ny) c.label("more plots than pads");
	if (n >= 2 && two) c.nontrivial();
	if (c.chance(1, 3)) { d.setCanvasDimensions((std::uint32_t)c.range(100, 2000), (std::uint32_t)c.range(100, 2000)); }
	std::string t;
	t = d.plot("x.C");
	check(c, pl, nx * ny, t);
	REQ(d.plot("x.C") == t, "a second call gives another text");
	// copies draw the same
	gc::GPlotDesigner e("other", 1, 1);
	int how = (int)c.raw(3);
	if (how == 0) { gc::GPlotDesigner f(d); REQ(f.plot("x.C") == t, "a copy draws something else"); }
	else if (how == 1) { if (c.flip()) e.registerPlotter(std::make_shared<gc::GGraph2D>()); e = d; REQ(e.plot("x.C") == t, "an assigned object draws something else"); }
	else { auto p = d.clone(); REQ(p->plot("x.C") == t, "a clone draws something else"); }
	// data added later appear as well, and only there
	if (n && c.flip()) {
		auto &m = pl[c.raw((std::int64_t)n)];
		if (m.kind == G2 || m.kind == H1) {
			gc::GPlotDesigner f(d);
			Row r = m.kind == G2 ? Row{1e6, 2.} : Row{7.};
			if (m.kind == G2) static_cast<gc::GGraph2D *>(m.p.get())->add(r[0], r[1]); else static_cast<gc::GHistogram1D *>(m.p.get())->add(r[0]);
			m.rows.push_back(r);
			check(c, pl, nx * ny, d.plot("x.C"));
			REQ(f.plot("x.C") == t, "adding to the original changed a copy");
		}
	}
	d.resetPlotters();
	check(c, {}, nx * ny, d.plot("x.C"));
}

PROP("C35", projected, 120, 8000, 2, "at least two points") {
	int kind = c.pick<int>({G2, H2, G3, G4});
	PM m = gen(c, kind, false);
	if (m.rows.empty()) c.discard();
	if (m.rows.size() > 1) c.nontrivial();
	c.label(KN[kind]);
	int ax = (int)c.raw(width(kind));
	bool own = c.flip();
	double lo = (double)c.range(-30, -1), hi = (double)c.range(1, 30);
	std::tuple<double, double> r; if (own) r = std::make_tuple(lo, hi);
	std::shared_ptr<gc::GDataCollector1T<double>> q;
	auto pr = [&](auto *x) {
		auto &p = *static_cast<std::remove_pointer_t<decltype(x)> *>(m.p.get());
		if (ax == 0) q = p.projectX(m.bins, r);
		if (ax == 1) q = p.projectY(m.bins, r);
		if constexpr (std::is_same<decltype(x), gc::GGraph3D *>::value || std::is_same<decltype(x), gc::GGraph4D *>::value) if (ax == 2) q = p.projectZ(m.bins, r);
		if constexpr (std::is_same<decltype(x), gc::GGraph4D *>::value) if (ax == 3) q = p.projectW(m.bins, r);
	};
	if (kind == G2) pr((gc::GGraph2D *)nullptr);
	if (kind == H2) pr((gc::GHistogram2D *)nullptr);
	if (kind == G3) pr((gc::GGraph3D *)nullptr);
	if (kind == G4) pr((gc::GGraph4D *)nullptr);
	REQ(q, "no projection");
	auto hp = std::dynamic_pointer_cast<gc::GHistogram1D>(q);
	REQ(hp, "the projection is not a histogram");
	PM w; w.kind = H1; w.bins = m.bins; w.p = hp; w.ranged = own; w.lo = lo; w.hi = hi;
	for (auto &x: m.rows) w.rows.push_back({x[ax]});
	w.lab = hp->plotLabel(); w.x = hp->xAxisLabel(); w.y = hp->yAxisLabel();
	if (ax == 0) REQ(w.x == m.x, "the axis label was not taken over");
	if (ax == 1) REQ(w.x == m.y, "the axis label was not taken over");
	REQ(hp->currentSize() == m.rows.size(), "another number of points");
	gc::GPlotDesigner d("canvas", 1, 1);
	d.registerPlotter(hp);
	check(c, {w}, 1, d.plot("x.C"));
}
PBT_MAIN
