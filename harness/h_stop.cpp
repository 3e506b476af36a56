// C28: when an optimisation run ends, and what is reported
#define INDIV_IMPL
#include "algorun.hpp"
using namespace pbt;
using namespace H;
using Clk = std::chrono::system_clock;

static std::function<bool(OA const &)> &custom() { static std::function<bool(OA const &)> f; return f; }
template<typename A> struct Halting : A {
	Halting() = default;
	Halting(Halting const &o) : A(o) {}
protected:
	gg::GObject *clone_() const override { return new Halting(*this); }
private:
	bool customHalt_() const override { return custom() && custom()(*this); }
};
static OAP make_halting(int k) {
	switch (k) {
		case 0: return std::make_shared<Halting<EA>>();
		case 1: return std::make_shared<Halting<SA>>();
		case 2: return std::make_shared<Halting<SW>>();
		default: return std::make_shared<Halting<GD>>();
	}
}
template<typename A> struct Pop : A { using A::setDefaultPopulationSize; };
static void small(Ctx &c, OA &a, int kind) {
	switch (kind) {
		case 0: { auto &e = dynamic_cast<EA &>(a); std::size_t np = c.size(1, 3); e.setPopulationSizes(np + np + c.size(0, 3), np);
			e.setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL})); break; }
		case 1: { auto &e = dynamic_cast<SA &>(a); std::size_t np = c.size(1, 3); e.setPopulationSizes(np + np + c.size(0, 3), np); break; }
		case 2: dynamic_cast<SW &>(a).setSwarmSizes(c.size(1, 3), c.size(2, 3)); break;
		case 3: dynamic_cast<GD &>(a).setNStartingPoints(c.size(1, 2)); break;
		default: { auto &e = static_cast<Pop<PS> &>(dynamic_cast<PS &>(a)); e.setDefaultPopulationSize(c.size(1, 3)); }
	}
}
static bool better(bool maxi, double a, double b) { return maxi ? a > b : a < b; }

PROP("C28", stop, 2500, 25000, 6, "an optimisation with any algorithm, landscape, direction and offset and with any mixture of the number of iterations, stalls, a threshold, a maximum and a minimum duration, a minimum number of iterations, a condition of a derived class and a request file; after every iteration the model says whether the run must or may end there; non-trivial: the run was ended by another criterion than the number of iterations, or a criterion was met earlier than the minimum") {
	int kind = (int)c.raw(5);
	bool usecustom = kind < 4 && c.chance(1, 4);
	OAP a = usecustom ? make_halting(kind) : make_alg(kind);
	small(c, *a, kind);
	Prob p = gen_prob(c, 1, kind != 3);
	gen_limit(c, p); if (kind == 3 && p.limited) p.pol = gg::evaluationPolicy::USESIGMOID; // (there is no gradient towards the worst case)
	std::uint32_t off = c.chance(1, 3) ? (std::uint32_t)c.range(1, 40) : 0;
	std::uint32_t cap = off + (std::uint32_t)c.range(15, 30);  // a fallback
	std::uint32_t maxit = c.chance(1, 3) ? off + (std::uint32_t)c.range(1, 12) : c.chance(1, 2) ? cap : 0;
	std::uint32_t minit = c.chance(1, 3) ? off + (std::uint32_t)c.range(0, 8) : 0;
	if (maxit && maxit <= minit) minit = maxit - 1;
	std::uint32_t stall = c.chance(1, 3) ? (std::uint32_t)c.range(1, 5) : 0;
	bool qual = c.chance(1, 3);
	double q = 0.;
	Eval best; // a threshold near values that do occur
	{
		best.d.assign(p.nd, c.pick<double>({0., 0.5, 1., 2.5})); best.i.assign(p.ni, 0); best.b.assign(p.nb, false);
		q = p.f(best) + c.pick<double>({0., 0., 0.1, -1.});
	}
	double maxt = c.chance(1, 6) ? c.pick<double>({0.004, 0.01, 0.02}) : 0., mint = c.chance(1, 6) ? c.pick<double>({0.003, 0.008, 0.015}) : 0.;
	if (maxt > 0. && maxt < mint) mint = maxt;
	bool file = c.chance(1, 6), filearmed = file || c.chance(1, 6);
	std::uint32_t touchat = file ? off + (std::uint32_t)c.range(0, 6) : 0;
	bool touching = file && c.chance(3, 4), old = filearmed && c.flip(), fileon = !file || c.chance(3, 4);
	std::uint32_t cat = usecustom ? off + (std::uint32_t)c.range(1, 10) : 0;
	if (!maxit) cap = off + 200;
	std::remove("term"); std::remove("geneva_file_startTime");
	if (old) { std::ofstream("term") << "x"; fs::last_write_time("term", fs::last_write_time("term") - std::chrono::seconds(3)); }
	a->setReportIteration(1);
	bool viafile = false;
	a->setMaxIteration(0);
	a->setMinIteration(minit); a->setMaxIteration(maxit); a->setMaxStallIteration(stall);
	a->setQualityThreshold(q, qual);
	a->setMaxTime(std::chrono::duration<double>(0.)); a->setMinTime(std::chrono::duration<double>(mint)); a->setMaxTime(std::chrono::duration<double>(maxt));
	if (filearmed) a->setTerminationFile("term", fileon);
	a->setStallCounterThreshold(c.chance(1, 3) ? (std::uint32_t)c.range(0, 3) : 0);
	(void)viafile;
	if (kind == 4) dynamic_cast<PS &>(*a).setNSimpleScans(1000);
	a->push_back(gen_start(c, p));
	c.note(alg_name(kind), " offset ", off, " max ", maxit, " min ", minit, " stall ", stall, qual ? " threshold " : "", qual ? num(q) : "", " maxt ", maxt, " mint ", mint, filearmed ? (fileon ? " file" : " file off") : "", touching ? " touched at " : "", touching ? std::to_string(touchat) : "", old ? " old file" : "", usecustom ? " custom at " : "", usecustom ? std::to_string(cat) : "", "; ", p.str());
	c.label(alg_name(kind));
	custom() = usecustom ? std::function<bool(OA const &)>([cat](OA const &x) { return x.getIteration() >= cat; }) : std::function<bool(OA const &)>();
	struct Enough {};
	std::vector<Clk::time_point> t;
	bool slow = maxt > 0. || mint > 0.;
	auto look = [&](OA const &x, Snap &s) {
		if (s.im == gg::infoMode::INFOPROCESSING) {
			if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(1));
			if (touching && s.it == touchat) { std::this_thread::sleep_for(std::chrono::milliseconds(15)); std::ofstream("term", std::ios::app) << "y"; }
		}
		t.push_back(Clk::now());
		if (s.im == gg::infoMode::INFOPROCESSING && s.it >= cap + 5) throw Enough();
	};
	std::vector<Snap> s;
	std::shared_ptr<Watch> w = std::make_shared<Watch>();
	w->more = look;
	bool stopped = true;
	executor(*a);
	a->resetPluggableOM(); a->registerPluggableOM(w);
	evlog().start();
	try { a->optimize(off); } catch (Enough &) { stopped = false; } catch (...) { evlog().stop(); custom() = nullptr; throw; }
	evlog().stop();
	custom() = nullptr;
	s = w->s;
	// (an inspector that gives up does so before the snapshot is stored)
	REQ(s.size() >= 2 && s[0].im == gg::infoMode::INFOINIT, "the first notification is not the start of the run");
	std::size_t n = s.size() - (stopped ? 2 : 1);
	if (stopped) REQ(s.back().im == gg::infoMode::INFOEND, "the last notification is not the end of the run");
	auto sec = [&](Clk::time_point x, Clk::time_point y) { return std::chrono::duration<double>(y - x).count(); };
	double bk = p.maxi ? -HIGHEST_D : HIGHEST_D, bkraw = bk;
	std::uint32_t st = 0;
	bool other = false, early = false;
	for (std::size_t k = 1; k <= n; k++) {
		auto &x = s[k];
		std::uint32_t it = off + (std::uint32_t)k - 1;
		REQ(x.im == gg::infoMode::INFOPROCESSING, "notification ", k, " is not of an iteration");
		REQ(x.it == it, "the iteration reported in place ", k, " of a run with offset ", off, " is ", x.it);
		double cur = std::get<gg::G_TRANSFORMED_FITNESS>(x.bc);
		// the best of the iteration: the first parent, or the best of all individuals or of the points of the gradient descent
		double top = x.pop.at(0).tr.at(0); std::size_t npt = kind <= 1 ? 1 : kind == 3 ? dynamic_cast<GD &>(*a).getNStartingPoints() : x.pop.size();
		for (std::size_t q = 1; q < npt; q++) if (better(p.maxi, x.pop[q].tr.at(0), top)) top = x.pop[q].tr[0];
		bool same = false;
		for (std::size_t q = 0; q < npt; q++) same = same || (x.pop[q].tr[0] == top && x.pop[q].raw.at(0) == std::get<gg::G_RAW_FITNESS>(x.bc)) || (top == (p.maxi ? -HIGHEST_D : HIGHEST_D) && std::get<gg::G_RAW_FITNESS>(x.bc) == top);
		REQ(cur == top && same, "iteration ", it, ": the best fitness of the iteration is reported as ", cur, ", it is ", top);
		if (better(p.maxi, cur, bk)) { bk = cur; bkraw = std::get<gg::G_RAW_FITNESS>(x.bc); st = 0; } else st++;
		REQ(x.stall == st, "iteration ", it, " counts ", x.stall, " iterations without improvement, there were ", st);
		double rep = std::get<gg::G_TRANSFORMED_FITNESS>(x.bk);
		REQ(kind == 1 || kind == 3 ? !better(p.maxi, bk, rep) : rep == bk, // (a gradient descent counts its points only, but remembers the differences, too; simulated annealing remembers the start)
			 "iteration ", it, ": the best known fitness is ", std::get<gg::G_TRANSFORMED_FITNESS>(x.bk), ", the best so far is ", bk);
		bool last = stopped && k == n;
		double lo = sec(t[1], t[k]), hi = last || k < n ? sec(t[0], t[k + 1]) : 1e9;
		bool req = filearmed && fileon && touching && it >= touchat;
		bool minmust = it + 1 > minit && lo > mint, minmay = it + 1 > minit && hi > mint;
		bool sure = (maxit && it + 1 >= maxit) || (stall && st > stall) || (qual && better(p.maxi, bkraw, q)) || (usecustom && it + 1 >= cat);
		bool must = req || (minmust && (sure || (maxt > 0. && lo >= maxt))), may = req || (minmay && (sure || (maxt > 0. && hi >= maxt)));
		std::ostringstream why;
		why << "iterations " << it + 1 << ", stalls " << st << ", best " << bkraw << ", duration between " << lo << " and " << hi << (req ? ", request file touched" : "");
		if (last) {
			REQ(may, "the run ended after iteration ", it, " though no criterion was met: ", why.str());
			other |= !(maxit && it + 1 >= maxit);
			if (req) c.label("ended by file");
			if (stall && st > stall) c.label("ended by stalls");
			if (qual && better(p.maxi, bkraw, q)) c.label("ended by threshold");
			if (!sure && !req) c.label("ended by time");
			if (usecustom && it + 1 >= cat) c.label("ended by custom");
			REQ(s.back().it == it + 1, "at the end the iteration is ", s.back().it, " after iteration ", it);
		} else {
			REQ(!must || (!stopped && k == n), "the run did not end after iteration ", it, " though a criterion was met: ", why.str());
			early |= sure && !must;
		}
	}
	if (early) c.label("waited for the minimum");
	if (other || early) c.nontrivial();
	REQ(stopped || !maxit, "the run did not end at iteration ", cap + 5, ", the maximum is ", maxit);
}

PROP("C28", reports, 1500, 6000, 2, "a run of a fixed number of iterations with any algorithm, report interval (also none) and offset; the notifications must be the start, every iteration that is a multiple of the interval, and the end; non-trivial: the interval is larger than 1 and some iteration was reported") {
	int kind = (int)c.raw(5);
	OAP a = make_alg(kind);
	small(c, *a, kind);
	Prob p = gen_prob(c, 1, kind != 3);
	std::uint32_t off = c.chance(1, 2) ? (std::uint32_t)c.range(1, 40) : 0, n = (std::uint32_t)c.range(1, 12), r = (std::uint32_t)c.range(0, 6);
	a->setReportIteration(r); a->setMaxIteration(off + n); a->setMaxStallIteration(0);
	if (kind == 4) dynamic_cast<PS &>(*a).setNSimpleScans(1000);
	a->push_back(gen_start(c, p));
	c.note(alg_name(kind), " offset ", off, " iterations ", n, " interval ", r);
	auto s = run_alg(*a, off);
	std::vector<std::uint32_t> want, got;
	if (r) for (std::uint32_t k = off; k < off + n; k++) if (k % r == 0) want.push_back(k);
	for (std::size_t k = 0; k < s.size(); k++) {
		REQ((s[k].im == gg::infoMode::INFOINIT) == (k == 0) && (s[k].im == gg::infoMode::INFOEND) == (k + 1 == s.size()), "notification ", k, " of ", s.size(), " is of the wrong kind");
		if (s[k].im == gg::infoMode::INFOPROCESSING) got.push_back(s[k].it);
	}
	std::ostringstream w, g;
	for (auto x: want) w << x << " ";
	for (auto x: got) g << x << " ";
	REQ(s.size() == (r ? want.size() + 2 : 0) && want == got, "there were ", s.size(), " notifications, iterations reported: ", g.str(), ", to be reported: ", w.str());
	REQ(a->getIteration() == off + n, "the iteration is ", a->getIteration(), " after ", n, " iterations from ", off);
	REQ(a->getMaxIteration() == off + n && a->getReportIteration() == r && a->getStartIteration() == off, "the settings have changed");
	if (r > 1 && want.size()) c.nontrivial();
}

PROP("C28", stop_settings, 800, 20000, 2, "sequences of changes of the settings of all stop criteria of any algorithm, valid and invalid; each must be accepted exactly if the minimum stays compatible with the maximum, and the values are as set last; non-trivial: some change was refused and one accepted") {
	int kind = (int)c.raw(5);
	OAP a = make_alg(kind);
	std::uint32_t maxi = a->getMaxIteration(), mini = a->getMinIteration(), st = a->getMaxStallIteration(), sct = a->getStallCounterThreshold(), rep = a->getReportIteration();
	double maxt = a->getMaxTime().count(), mint = a->getMinTime().count(), q;
	bool hq, tf;
	q = a->getQualityThreshold(hq);
	std::string f = a->getTerminationFile(tf);
	std::size_t n = c.size(1, 12);
	bool acc = false, ref = false;
	for (std::size_t k = 0; k < n; k++) {
		bool ok = true, threw = false;
		std::ostringstream what;
		auto doit = [&](auto fn) { try { fn(); } catch (gemfony_exception &) { threw = true; } };
		switch (c.raw(8)) {
			case 0: { auto v = (std::uint32_t)c.range(0, 10); ok = v == 0 || v > mini; what << "setMaxIteration " << v; doit([&]() { a->setMaxIteration(v); }); if (ok) maxi = v; break; }
			case 1: { auto v = (std::uint32_t)c.range(0, 10); ok = maxi == 0 || maxi > v; what << "setMinIteration " << v; doit([&]() { a->setMinIteration(v); }); if (ok) mini = v; break; }
			case 2: { double v = (double)c.range(0, 6); ok = v == 0. || v >= mint; what << "setMaxTime " << v; doit([&]() { a->setMaxTime(std::chrono::duration<double>(v)); }); if (ok) maxt = v; break; }
			case 3: { double v = (double)c.range(0, 6); ok = maxt == 0. || maxt >= v; what << "setMinTime " << v; doit([&]() { a->setMinTime(std::chrono::duration<double>(v)); }); if (ok) mint = v; break; }
			case 4: st = (std::uint32_t)c.range(0, 9); what << "setMaxStallIteration"; doit([&]() { a->setMaxStallIteration(st); }); break;
			case 5: q = c.nice_double(); hq = c.flip(); what << "setQualityThreshold"; doit([&]() { if (hq || c.flip()) a->setQualityThreshold(q, hq); else { a->setQualityThreshold(q, true); a->resetQualityThreshold(); } }); break;
			case 6: f = c.pick<std::string>({"x", "y"}); tf = c.flip(); what << "setTerminationFile"; doit([&]() { a->setTerminationFile(f, tf); }); break;
			default: sct = (std::uint32_t)c.range(0, 9); rep = (std::uint32_t)c.range(0, 9); what << "setReportIteration"; doit([&]() { a->setStallCounterThreshold(sct); a->setReportIteration(rep); });
		}
		c.note(what.str(), threw ? " refused; " : "; ");
		REQ(threw == !ok, what.str(), threw ? " was refused" : " was accepted", ", maximum ", maxi, " minimum ", mini, ", times ", maxt, " ", mint);
		(ok ? acc : ref) = true;
		bool hq2, tf2;
		double q2 = a->getQualityThreshold(hq2);
		std::string f2 = a->getTerminationFile(tf2);
		REQ(a->getMaxIteration() == maxi && a->getMinIteration() == mini && a->getMaxTime().count() == maxt && a->getMinTime().count() == mint && a->getMaxStallIteration() == st && a->getStallCounterThreshold() == sct && a->getReportIteration() == rep && hq2 == hq && (!hq || q2 == q) && f2 == f && tf2 == tf && a->hasQualityThreshold() == hq,
			"after ", what.str(), " a setting is not what was set");
	}
	if (acc && ref) c.nontrivial();
}
PBT_MAIN
