// C34: what optimisation monitors write
#define INDIV_IMPL
#include "algorun.hpp"
#include "plotfile.hpp"
#include <deque>
using namespace pbt;
using namespace H;


template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; };
static void small(Ctx &c, OA &a, int kind) {
	switch (kind) {
		case 0: { std::size_t np = c.size(1, 3), nc = np + c.size(0, 4); dynamic_cast<EA &>(a).setPopulationSizes(np + nc, np); } break;
		case 1: { std::size_t np = c.size(1, 3), nc = np + c.size(0, 3); dynamic_cast<SA &>(a).setPopulationSizes(np + nc, np); } break;
		case 2: dynamic_cast<SW &>(a).setSwarmSizes(c.size(1, 3), c.size(2, 4)); break;
		case 3: dynamic_cast<GD &>(a).setNStartingPoints(c.size(1, 3)); break;
		default: { auto &e = static_cast<Pop<PS> &>(dynamic_cast<PS &>(a)); e.setDefaultPopulationSize(c.size(1, 4)); e.setNSimpleScans(1000); }
	}
}

// what is known about an individual when the monitors are called
struct Fact {
	std::vector<double> d, i, b, raw, tr; // b: 0 or 1
	bool done = false, valid = false;
	double nad = 0.;
	std::vector<double> times, sigma;
};
static Fact fact(PSP const &p) {
	Fact f; Item t = item(p);
	f.d = t.e.d; for (auto x: t.e.i) f.i.push_back((double)x); for (bool x: t.e.b) f.b.push_back(x ? 1. : 0.);
	f.raw = t.raw; f.tr = t.tr; f.done = t.done; f.valid = t.valid;
	f.nad = (double)p->getNAdaptions();
	if (f.done) { auto q = p->getProcessingTimes(); f.times = {std::get<0>(q), std::get<1>(q), std::get<2>(q)}; }
	std::vector<boost::any> a; p->queryAdaptor("GDoubleGaussAdaptor", "sigma", a);
	for (auto &x: a) f.sigma.push_back(boost::any_cast<double>(x));
	return f;
}
struct Step { gg::infoMode im; std::uint32_t it = 0; std::vector<Fact> pop; Fact best; std::vector<double> gb, ib; };
using Run = std::vector<Step>;

struct Lines { std::vector<std::string> com, txt; };
static Lines lines(fs::path const &f) {
	Lines r; std::ifstream in(f); std::string l;
	while (std::getline(in, l)) { if (not l.empty() && l[0] == '#') r.com.push_back(l); else r.txt.push_back(l); }
	return r;
}
static std::string all(fs::path const &f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::vector<std::string> tok(std::string const &l) {
	std::vector<std::string> v; std::string x;
	for (char ch: l + " ") if (ch == ',' || ch == ' ' || ch == '\t') { if (not x.empty()) v.push_back(x); x.clear(); } else x += ch;
	return v;
}
static bool numeric(std::string const &s, double &v) { char *e = nullptr; v = std::strtod(s.c_str(), &e); return e && *e == 0 && not s.empty(); }
static std::string join(std::vector<std::string> const &v) { std::string s; for (auto &x: v) s += x + " "; return s; }
static std::string join(Row const &v) { std::string s; for (auto &x: v) s += num(x) + " "; return s; }

// ---- one generated monitor with its expectation -----------------------------------------------------
struct Mon {
	std::shared_ptr<gg::GBasePluggableOM> p;
	std::string name;
	std::function<void(Run const &, std::string const &)> check; // run, where
};
static void rows(Ctx &c, std::vector<Row> const &want, Parsed::Block const *b, std::string const &where) {
	if (want.empty()) { REQ(not b || b->rows.empty(), where, ": there are data which were never seen"); return; }
	REQ(b, where, ": the data are missing");
	REQ(b->rows.size() == want.size(), where, ": there are ", b->rows.size(), " entries, expected ", want.size());
	for (std::size_t k = 0; k < want.size(); k++) {
		REQ(b->rows[k].size() == want[k].size(), where, ": entry ", k, " has ", b->rows[k].size(), " values");
		for (std::size_t j = 0; j < want[k].size(); j++) REQ(near(b->rows[k][j], want[k][j]), where, ": entry ", k, " is ", join(b->rows[k]), ", expected ", join(want[k]));
	}
}
// the next block(s) of a plot file, if any
struct Reader {
	Parsed P; std::size_t at = 0;
	explicit Reader(std::string const &t) : P(parse(t)) {}
	// arrays of a graph are put together
	Parsed::Block const *next(std::size_t w, bool arrays, bool any) {
		if (not any) return nullptr;
		if (at + (arrays ? w : 1) > P.blocks.size()) return nullptr;
		static std::deque<Parsed::Block> keep;
		if (keep.size() > 100) keep.clear();
		keep.push_back(P.blocks[at++]);
		if (arrays) for (std::size_t j = 1; j < w; j++) {
			auto &x = P.blocks[at++];
			if (x.rows.size() != keep.back().rows.size()) return nullptr;
			for (std::size_t k = 0; k < x.rows.size(); k++) keep.back().rows[k].push_back(x.rows[k][0]);
		}
		return &keep.back();
	}
	bool end() const { return at == P.blocks.size(); }
};

// removes the entry closest to a point; numbers are shortened in files
template<typename G> static bool take(G &g, Row const &x) {
	std::size_t best = g.size(); double bd = 0;
	for (std::size_t j = 0; j < g.size(); j++) {
		bool ok = true; double d = 0;
		for (std::size_t k = 0; k < x.size(); k++) { ok = ok && near(x[k], g[j][k]); d += std::fabs(x[k] - g[j][k]); }
		if (ok && (best == g.size() || d < bd)) { best = j; bd = d; }
	}
	if (best == g.size()) return false;
	g.erase(g.begin() + (long)best);
	return true;
}
static Mon all_solutions(Ctx &c, std::string const &f, Prob const &p) {
	Mon m; m.name = "GAllSolutionFileLogger";
	std::shared_ptr<gg::GAllSolutionFileLogger> l;
	bool bound = c.chance(1, 3), head = c.flip(), com = c.flip(), raw = c.flip(), val = c.flip(), init = not bound && c.chance(1, 3), itb = c.flip();
	std::vector<double> lim;
	for (std::size_t k = 0; k < p.ncrit; k++) lim.push_back(c.pick<double>({0., 1., 5., 20., 100.}) * (p.maxi ? -1. : 1.));
	if (bound && c.flip()) l = std::make_shared<gg::GAllSolutionFileLogger>(f, lim);
	else { l = std::make_shared<gg::GAllSolutionFileLogger>(f); if (bound) l->setBoundaries(lim); else if (c.chance(1, 4)) { l->setBoundaries(lim); l->setBoundariesInactive(); } }
	l->setPrintWithNameAndType(head); l->setPrintWithCommas(com); l->setUseTrueFitness(raw); l->setShowValidity(val); l->setPrintInitial(init); l->setShowIterationBoundaries(itb);
	c.note(" all solutions", bound ? " limits " + join(lim) : "", head ? " head" : "", com ? " commas" : "", raw ? " raw" : "", val ? " validity" : "", init ? " initial" : "", itb ? " iterations" : "");
	m.p = l;
	m.check = [=, &c](Run const &r, std::string const &where) {
		std::vector<std::pair<Fact, std::uint32_t>> want;
		std::size_t nper = 0;
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING || (s.im == gg::infoMode::INFOINIT && init)) {
			nper++;
			for (auto &x: s.pop) {
				bool ok = true;
				if (bound) for (std::size_t k = 0; k < x.raw.size(); k++) if (p.maxi ? x.raw[k] < lim[k] : x.raw[k] > lim[k]) ok = false;
				if (ok) want.push_back({x, s.it});
			}
		}
		Lines L = lines(f);
		std::size_t at = 0, ncol = p.nd + p.ni + p.nb + p.ncrit + (val ? 1 : 0);
		if (bound && want.size()) c.label("filtered");
		if (head && want.size()) {
			REQ(L.txt.size() >= 2, where, ": no header");
			auto n = tok(L.txt[0]), t = tok(L.txt[1]);
			REQ(n.size() == ncol && t.size() == ncol, where, ": the header is ", L.txt[0], " / ", L.txt[1]);
			for (std::size_t k = 0; k < ncol; k++) {
				std::string ty = k < p.nd ? "double" : k < p.nd + p.ni ? "int32" : k < p.nd + p.ni + p.nb ? "bool" : k < p.nd + p.ni + p.nb + p.ncrit ? "double" : "bool";
				REQ(t[k] == ty, where, ": column ", k, " is called ", n[k], " of type ", t[k], ", expected ", ty);
				if (k < p.nd + p.ni + p.nb) REQ(n[k].find("p" + std::to_string(k)) != std::string::npos, where, ": column ", k, " is called ", n[k]);
			}
			at = 2;
		}
		REQ(L.txt.size() == at + want.size(), where, ": there are ", L.txt.size(), " lines (", head ? "with" : "without", " header), expected ", want.size(), " solutions");
		for (std::size_t k = 0; k < want.size(); k++) {
			auto &l = L.txt[at + k]; auto v = tok(l); auto &x = want[k].first;
			REQ(v.size() == ncol, where, ": line ", k, " is ", l);
			if (com) REQ((std::size_t)std::count(l.begin(), l.end(), ',') == ncol - 1, where, ": commas in ", l); else REQ(l.find(',') == std::string::npos, where, ": commas in ", l);
			std::vector<double> w = x.d; w.insert(w.end(), x.i.begin(), x.i.end()); w.insert(w.end(), x.b.begin(), x.b.end());
			for (std::size_t j = 0; j < ncol; j++) {
				double y = 0; bool is = numeric(v[j], y);
				if (j < w.size()) REQ(is && y == w[j], where, ": solution ", k, " is ", l, ", parameter ", j, " should be ", num(w[j]));
				else if (j < w.size() + p.ncrit) {
					if (x.done) { double e = (raw ? x.raw : x.tr)[j - w.size()]; REQ(is && y == e, where, ": solution ", k, " is ", l, ", its fitness should be ", num(e)); }
					else REQ(not is, where, ": solution ", k, " was not evaluated, but is listed as ", l);
				} else REQ(is && (y != 0) == x.valid, where, ": solution ", k, " is ", l, ", but it is ", x.valid ? "valid" : "invalid");
			}
		}
		if (not itb) REQ(L.com.empty(), where, ": there are comments");
		else for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) {
			std::size_t n = 0; static const std::regex num_re("[0-9]+"); for (auto &q: L.com) for (std::sregex_iterator x(q.begin(), q.end(), num_re), e; x != e; ++x) if (x->str() == std::to_string(s.it)) n++;
			REQ(n == 1, where, ": iteration ", s.it, " is announced ", n, " times");
		}
	};
	return m;
}
static Mon iter_results(Ctx &c, std::string const &f, Prob const &p) {
	Mon m; m.name = "GIterationResultsFileLogger";
	auto l = std::make_shared<gg::GIterationResultsFileLogger>(f);
	bool com = c.flip(), raw = c.flip();
	l->setPrintWithCommas(com); l->setUseTrueFitness(raw);
	c.note(" iteration results", com ? " commas" : "", raw ? " raw" : "");
	m.p = l;
	m.check = [=, &c](Run const &r, std::string const &where) {
		Lines L = lines(f);
		std::size_t k = 0;
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) {
			REQ(k < L.txt.size(), where, ": nothing about iteration ", s.it);
			auto &l = L.txt[k]; auto v = tok(l);
			std::vector<double> w; for (auto &x: s.pop) for (auto y: raw ? x.raw : x.tr) w.push_back(y);
			REQ(v.size() == w.size(), where, ": ", v.size(), " values in iteration ", s.it, ", expected ", w.size());
			for (std::size_t j = 0; j < w.size(); j++) { double y = 0; REQ(numeric(v[j], y) && near(y, w[j]), where, ": value ", j, " of iteration ", s.it, " is ", v[j], ", expected ", num(w[j])); }
			auto n = (std::size_t)std::count(l.begin(), l.end(), ',');
			REQ(n == (com ? w.size() - 1 : 0), where, ": ", n, " commas in the line of iteration ", s.it);
			k++;
		}
		REQ(k == L.txt.size(), where, ": there are more lines than iterations");
	};
	return m;
}
static Mon nadaptions(Ctx &c, std::string const &f) {
	Mon m; m.name = "GNAdpationsLogger";
	auto l = std::make_shared<gg::GNAdpationsLogger>(f);
	bool best = c.flip(); l->setMonitorBestOnly(best);
	c.note(" adaptions", best ? " of the best" : "");
	m.p = l;
	m.check = [=, &c](Run const &r, std::string const &where) {
		std::vector<Row> a, b;
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) {
			b.push_back({(double)s.it, s.best.raw.at(0)});
			if (best) a.push_back({(double)s.it, s.best.nad}); else for (auto &x: s.pop) a.push_back({(double)s.it, x.nad});
		}
		REQ(fs::exists(f), where, ": no file");
		Reader R(all(f));
		rows(c, a, R.next(2, best, a.size()), where + ", adaptions");
		rows(c, b, R.next(2, true, b.size()), where + ", fitness");
		REQ(R.end(), where, ": there are more data");
	};
	return m;
}
static Mon adaptor(Ctx &c, std::string const &f) {
	Mon m; m.name = "GAdaptorPropertyLogger";
	bool known = not c.chance(1, 6);
	auto l = std::make_shared<gg::GAdaptorPropertyLogger<double>>(f, known ? "GDoubleGaussAdaptor" : "GDoubleBiGaussAdaptor", "sigma");
	bool best = c.flip(); l->setMonitorBestOnly(best);
	c.note(" sigma", best ? " of the best" : "", known ? "" : " of a missing adaptor");
	m.p = l;
	m.check = [=, &c](Run const &r, std::string const &where) {
		std::vector<Row> a, b;
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) {
			b.push_back({(double)s.it, s.best.raw.at(0)});
			if (known) { if (best) for (auto y: s.best.sigma) a.push_back({(double)s.it, y}); else for (auto &x: s.pop) for (auto y: x.sigma) a.push_back({(double)s.it, y}); }
		}
		REQ(fs::exists(f), where, ": no file");
		Reader R(all(f));
		rows(c, a, R.next(2, false, a.size()), where + ", property");
		rows(c, b, R.next(2, true, b.size()), where + ", fitness");
		REQ(R.end(), where, ": there are more data");
	};
	return m;
}
static Mon times(Ctx &c, std::string const &f) {
	Mon m; m.name = "GProcessingTimesLogger";
	std::size_t bx = c.size(1, 30), by = c.size(1, 30);
	auto l = std::make_shared<gg::GProcessingTimesLogger>(f + ".h", f + ".h2", f + ".txt", bx, by);
	c.note(" processing times");
	m.p = l;
	m.check = [=, &c](Run const &r, std::string const &where) {
		Lines L = lines(f + ".txt");
		Reader A(all(f + ".h")), B(all(f + ".h2"));
		std::size_t k = 0;
		std::vector<Row> h[4], h2[4];
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) for (auto &x: s.pop) {
			REQ(k < L.txt.size(), where, ": an individual of iteration ", s.it, " is missing");
			auto v = tok(L.txt[k]); double y = 0;
			REQ(v.size() == 4 && numeric(v[0], y) && y == (double)s.it, where, ": line ", k, " is ", L.txt[k], ", expected iteration ", s.it);
			double sum = x.times[0] + x.times[1] + x.times[2];
			for (std::size_t j = 0; j < 3; j++) REQ(numeric(v[j + 1], y) && near(y, x.times[j]), where, ": line ", k, " is ", L.txt[k], ", expected the times ", join(x.times));
			for (std::size_t j = 0; j < 4; j++) { double t = j < 3 ? x.times[j] : sum; h[j].push_back({t}); h2[j].push_back({(double)s.it, t}); }
			k++;
		}
		REQ(k == L.txt.size(), where, ": ", L.txt.size(), " lines, expected ", k);
		for (int j = 0; j < 4; j++) { rows(c, h[j], A.next(1, false, h[j].size()), where + ", histogram " + std::to_string(j)); rows(c, h2[j], B.next(2, false, h2[j].size()), where + ", 2D histogram " + std::to_string(j)); }
		REQ(A.end() && B.end() && A.P.hist.size() == 4 && B.P.hist.size() == 4, where, ": there are ", A.P.hist.size(), " and ", B.P.hist.size(), " histograms");
		for (auto &x: A.P.hist) REQ(std::stoul(x.at(3)) == bx, where, ": a histogram has ", x.at(3), " bins");
		for (auto &x: B.P.hist) REQ(std::stoul(x.at(3)) == bx && std::stoul(x.at(6)) == by, where, ": a histogram has ", x.at(3), " and ", x.at(6), " bins");
	};
	return m;
}
static Mon progress(Ctx &c, std::string const &f, Prob const &p) {
	Mon m; m.name = "GProgressPlotter";
	bool best = c.flip(), valid = c.flip(), obs = c.flip(), raw = c.flip();
	std::size_t n = c.size(1, std::min<std::size_t>(3, p.nd));
	std::vector<std::size_t> which; std::string spec;
	std::vector<double> lo, hi;
	for (std::size_t k = 0; k < n; k++) {
		std::size_t v; do v = (std::size_t)c.raw((std::int64_t)p.nd); while (std::count(which.begin(), which.end(), v) && c.raw(8));
		which.push_back(v);
		lo.push_back(p.lo + (p.hi - p.lo) * c.pick<double>({-1., 0., 0.3})); hi.push_back(p.lo + (p.hi - p.lo) * c.pick<double>({2., 1., 0.8}));
		std::ostringstream o; o << (k ? ", " : "") << "d(";
		switch (c.raw(3)) { case 0: o << v; break; case 1: o << "p" << v; break; default: o << "p" << v << "[0]"; }
		o << ", " << std::setprecision(10) << lo.back() << ", " << hi.back() << ", 100)";
		spec += o.str();
	}
	auto l = c.flip() ? std::make_shared<gg::GProgressPlotter>(best, valid) : std::make_shared<gg::GProgressPlotter>();
	l->setMonitorBestOnly(best); l->setMonitorValidOnly(valid); l->setObserveBoundaries(obs); l->setUseRawEvaluation(raw);
	l->setFileName(f); l->setProfileSpec(spec);
	c.note(" progress ", spec, best ? " best" : "", valid ? " valid" : "", obs ? " limits" : "", raw ? " raw" : "");
	m.p = l;
	m.check = [=, &c](Run const &r, std::string const &where) {
		std::vector<Row> a;
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) {
			auto one = [&](Fact const &x) {
				if (valid && not x.valid) return;
				Row q;
				for (std::size_t k = 0; k < n; k++) { q.push_back(x.d[which[k]]); if (obs && (q.back() < lo[k] || q.back() > hi[k])) return; }
				q.push_back(raw ? x.raw[0] : x.tr[0]);
				a.push_back(q);
			};
			if (best) one(s.best); else for (auto &x: s.pop) one(x);
		}
		if (a.empty()) c.label("nothing to plot");
		REQ(fs::exists(f), where, ": no file");
		Reader R(all(f));
		if (n == 3) {
			REQ(R.end() && R.P.pts4.size() == a.size(), where, ": ", R.P.pts4.size(), " points, expected ", a.size());
			auto g = R.P.pts4;
			for (auto &x: a) {
				REQ(take(g, x), where, ": point ", join(x), " is missing");
			}
			return;
		}
		auto *b = R.next(n + 1, true, a.size());
		if (n == 1 && b) {
			auto s = *b;
			for (std::size_t k = 1; k < s.rows.size(); k++) REQ(s.rows[k][0] >= s.rows[k - 1][0], where, ": points are not sorted");
			// equal values may come in any order, and numbers are shortened
			REQ(s.rows.size() == a.size(), where, ": ", s.rows.size(), " points, expected ", a.size());
			auto g = s.rows;
			for (auto &x: a) {
				REQ(take(g, x), where, ": point ", join(x), " is missing");
			}
		} else rows(c, a, b, where);
		REQ(R.end(), where, ": there are more data");
	};
	return m;
}
static Mon fitness(Ctx &c, std::string const &f) {
	Mon m; m.name = "GFitnessMonitor";
	auto l = std::make_shared<gg::GFitnessMonitor>();
	std::size_t n = c.size(0, 4);
	l->setNMonitorIndividuals(n); l->setResultFileName(f);
	if (n == 0) { n = l->getNMonitorIndividuals(); REQ(n == gg::GFitnessMonitor().getNMonitorIndividuals() && n > 0, "the default number of monitored individuals is ", n); }
	c.note(" fitness of ", n);
	m.p = l;
	auto past = std::make_shared<Run>();
	m.check = [=, &c](Run const &now_, std::string const &where) {
		for (auto &s: now_) past->push_back(s); // runs are put together
		Run const &r = *past;
		// as many curves as there are individuals in the first iteration; only one, if there are fewer later on
		std::size_t k = 0; bool first = true;
		std::size_t now = n;
		for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) {
			std::size_t have = std::min(s.gb.size(), s.ib.size());
			if (first) { now = std::min(n, have); first = false; } else if (now > have) now = 1;
			k++;
		}
		if (not k) return;
		REQ(fs::exists(f), where, ": no file");
		Reader R(all(f));
		for (std::size_t q = 0; q < now; q++) {
			std::vector<Row> g, i;
			for (auto &s: r) if (s.im == gg::infoMode::INFOPROCESSING) { g.push_back({(double)s.it, s.gb.at(q)}); i.push_back({(double)s.it, s.ib.at(q)}); }
			rows(c, g, R.next(2, true, g.size()), where + ", best individual " + std::to_string(q));
			rows(c, i, R.next(2, true, i.size()), where + ", best individual of the iteration " + std::to_string(q));
		}
		REQ(R.end(), where, ": there are more curves than ", now);
	};
	return m;
}

static std::shared_ptr<gg::GBasePluggableOM> fresh(std::string const &n) {
	if (n == "GAllSolutionFileLogger") return std::make_shared<gg::GAllSolutionFileLogger>();
	if (n == "GIterationResultsFileLogger") return std::make_shared<gg::GIterationResultsFileLogger>();
	if (n == "GNAdpationsLogger") return std::make_shared<gg::GNAdpationsLogger>();
	if (n == "GAdaptorPropertyLogger") return std::make_shared<gg::GAdaptorPropertyLogger<double>>();
	if (n == "GProcessingTimesLogger") return std::make_shared<gg::GProcessingTimesLogger>();
	if (n == "GProgressPlotter") return std::make_shared<gg::GProgressPlotter>();
	return std::make_shared<gg::GFitnessMonitor>();
}
PROP("C34", recorded, 600, 20000, 6, "one or two runs of any algorithm with one to five monitors, registered alone or as part of collective monitors; non-trivial: at least two iterations were reported") {
	int kind = (int)c.raw(5);
	OAP a = make_alg(kind);
	small(c, *a, kind);
	static_cast<Pop<OA> &>(*a).setNRecordBestIndividuals(c.size(1, 5));
	Prob p = gen_prob(c, 2, kind != 3);
	bool con = c.chance(1, 3) && p.pol != gg::evaluationPolicy::USEWORSTCASEFORINVALID;
	double lim = p.lo + (p.hi - p.lo) * c.pick<double>({0.5, 0.25, 0.9});
	std::uint32_t iters = (std::uint32_t)c.range(1, c.thorough() ? 12 : 5), rep = c.chance(1, 3) ? (std::uint32_t)c.range(2, 3) : 1;
	a->setMaxIteration(iters); a->setMaxStallIteration(0); a->setReportIteration(rep);
	std::size_t runs = c.chance(1, 3) ? 2 : 1;
	c.note(alg_name(kind), " iterations ", iters, " reported every ", rep, " runs ", runs, con ? " constrained" : "", "; ", p.str(), ";");
	c.label(alg_name(kind)); if (con) c.label("constrained"); if (runs > 1) c.label("two runs");
	if (fs::exists("mon")) fs::remove_all("mon");
	fs::create_directories("mon");
	std::vector<Mon> ms;
	std::size_t n = c.size(1, 5);
	for (std::size_t k = 0; k < n; k++) {
		std::string f = "mon/f" + std::to_string(k);
		switch (c.raw(7)) {
			case 0: ms.push_back(all_solutions(c, f, p)); break;
			case 1: ms.push_back(iter_results(c, f, p)); break;
			case 2: ms.push_back(nadaptions(c, f)); break;
			case 3: ms.push_back(adaptor(c, f)); break;
			case 4: ms.push_back(times(c, f)); break;
			case 5: ms.push_back(progress(c, f, p)); break;
			default: ms.push_back(fitness(c, f));
		}
		c.label(ms.back().name);
		if (c.chance(1, 6)) { // a copy has the same settings
			auto &o = ms.back();
			if (o.name != "GProgressPlotter" && c.flip()) o.p->setUseRawEvaluation(c.flip());
			std::shared_ptr<gg::GBasePluggableOM> q;
			if (c.flip()) { q = std::dynamic_pointer_cast<gg::GBasePluggableOM>(o.p->gg::GObject::clone()); c.label("clone"); }
			else { q = fresh(o.name); static_cast<gg::GObject &>(*q).load(static_cast<gg::GObject const &>(*o.p)); c.label("loaded"); }
			REQ(q->getUseRawEvaluation() == o.p->getUseRawEvaluation(), "a copy of a ", o.name, " uses other evaluations than the original");
			o.p = q;
		}
	}
	// registered alone or in (nested) groups
	std::vector<std::shared_ptr<gg::GBasePluggableOM>> reg;
	for (auto &m: ms) {
		auto q = m.p;
		for (int d = c.chance(1, 3) ? (int)c.size(1, 2) : 0; d > 0; d--) {
			auto g = std::make_shared<gg::GCollectiveMonitor>();
			REQ(not g->hasOptimizationMonitors(), "an empty collective monitor claims to have monitors");
			g->registerPluggableOM(q); q = g; c.label("collective");
		}
		if (not reg.empty() && c.chance(1, 4)) if (auto g = std::dynamic_pointer_cast<gg::GCollectiveMonitor>(reg.back())) { g->registerPluggableOM(q); continue; }
		reg.push_back(q);
	}
	for (std::size_t run = 0; run < runs; run++) {
		auto s = gen_start(c, p);
		if (con) s->registerConstraint(std::make_shared<Limit>(lim));
		a->clear(); a->push_back(s);
		Run R;
		auto w = std::make_shared<Watch>();
		w->more = [&](OA const &o, Snap &x) {
			Step t; t.im = x.im; t.it = x.it;
			OAVec const &v = o;
			for (auto const &q: v) t.pop.push_back(fact(q));
			if (x.im == gg::infoMode::INFOPROCESSING) {
				auto &b = const_cast<OA &>(o);
				t.best = fact(b.template getBestGlobalIndividual<gg::GParameterSet>());
				for (auto &q: x.gb) t.gb.push_back(q.raw.at(0));
				for (auto &q: x.ib) t.ib.push_back(q.raw.at(0));
			}
			R.push_back(t);
		};
		executor(*a);
		a->resetPluggableOM();
		bool first = c.flip();
		if (first) a->registerPluggableOM(w);
		for (auto &q: reg) a->registerPluggableOM(q);
		if (not first) a->registerPluggableOM(w);
		a->optimize(0);
		a->resetPluggableOM();
		std::size_t np = 0; for (auto &x: R) if (x.im == gg::infoMode::INFOPROCESSING) np++;
		if (np >= 2) c.nontrivial();
		for (auto &m: ms) m.check(R, m.name + (run ? " in the second run" : ""));
	}
	// nothing of the first run is lost: loggers of text move their files away
	if (runs == 2) for (std::size_t k = 0; k < n; k++) if (ms[k].name == "GAllSolutionFileLogger" || ms[k].name == "GIterationResultsFileLogger") {
		std::size_t nb = 0;
		for (auto &e: fs::directory_iterator("mon")) if (e.path().filename().string().rfind("f" + std::to_string(k) + ".bak", 0) == 0) nb++;
		if (fs::exists("mon/f" + std::to_string(k))) REQ(nb <= 1, ms[k].name, ": there are ", nb, " backup files");
	}
	fs::remove_all("mon");
}
PBT_MAIN
