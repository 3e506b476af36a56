// C30: the best solutions that are reported
#define INDIV_IMPL
#include "algorun.hpp"
using namespace pbt;
using namespace H;


template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; using A::getNRecordBestIndividuals; };
static std::size_t small(Ctx &c, OA &a, int kind) {
	switch (kind) {
		case 0: { auto &e = dynamic_cast<EA &>(a); std::size_t np = c.size(1, 4), nc = np + c.size(0, 5); e.setPopulationSizes(np + nc, np);
			e.setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL}));
			if (c.chance(1, 4)) e.setPopulationGrowth(c.size(1, 3), np + nc + c.size(0, 8));
			return np + nc; }
		case 1: { auto &e = dynamic_cast<SA &>(a); std::size_t np = c.size(1, 3), nc = np + c.size(0, 4); e.setPopulationSizes(np + nc, np); return np + nc; }
		case 2: dynamic_cast<SW &>(a).setSwarmSizes(c.size(1, 3), c.size(2, 4)); return 1;
		case 3: { std::size_t n = c.size(1, 3); dynamic_cast<GD &>(a).setNStartingPoints(n); return n; }
		default: { auto &e = static_cast<Pop<PS> &>(dynamic_cast<PS &>(a)); std::size_t n = c.size(1, 4); e.setDefaultPopulationSize(n); e.setNSimpleScans(1000); return 1; }
	}
}
static std::string show(std::vector<double> const &v) { std::ostringstream o; o << std::setprecision(17); for (auto x: v) o << x << " "; return o.str(); }

PROP("C30", best_known, 4000, 25000, 6, "one to three runs of an optimisation with any algorithm, settings, landscape, direction, evaluation policy, number of recorded individuals, constraint and evaluated start individuals; after each iteration the reported best individuals are compared with the best of all evaluations so far, and of the individuals of the iteration; non-trivial: the best solutions of the run are not all from its last iteration") {
	int kind = (int)c.raw(5);
	OAP a = make_alg(kind);
	std::size_t room = small(c, *a, kind), rec = c.size(1, 6);
	static_cast<Pop<OA> &>(*a).setNRecordBestIndividuals(rec);
	REQ(static_cast<Pop<OA> &>(*a).getNRecordBestIndividuals() == rec, "the number of recorded individuals is ", static_cast<Pop<OA> &>(*a).getNRecordBestIndividuals(), " after being set to ", rec);
	Prob p = gen_prob(c, 2, kind != 3);
	bool constrained = c.chance(1, 4) && !(kind == 3 && p.pol == gg::evaluationPolicy::USEWORSTCASEFORINVALID); // (there is no gradient towards the worst case)
	double lim = p.lo + (p.hi - p.lo) * c.pick<double>({0.5, 0.25, 0.9, 0.05});
	std::uint32_t iters = (std::uint32_t)c.range(1, c.thorough() ? 20 : 8);
	a->setMaxIteration(iters); a->setMaxStallIteration(0); a->setReportIteration(1);
	std::size_t runs = c.chance(1, 4) ? c.size(2, 3) : 1;
	c.note(alg_name(kind), " best ", rec, " iterations ", iters, " runs ", runs, constrained ? " constrained " : "", constrained ? num(lim) : "", "; ", p.str());
	c.label(alg_name(kind)); if (constrained) c.label("constrained");
	auto b = [&](double x, double y) { return p.maxi ? x > y : x < y; };
	bool alone = false;
	for (std::size_t r = 0; r < runs; r++) {
		std::vector<double> all; // of all evaluations that count
		std::size_t nstart = c.size(1, std::min<std::size_t>(room, 3));
		std::vector<PSP> start;
		for (std::size_t k = 0; k < nstart; k++) {
			auto x = gen_start(c, p);
			if (constrained) x->registerConstraint(std::make_shared<Limit>(lim));
			start.push_back(x);
		}
		for (auto &x: start) {
			if (c.chance(1, 4)) { x->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS); x->process(); if (x->is_processed() && (!constrained || x->isValid() || p.pol == gg::evaluationPolicy::USESIMPLEEVALUATION)) { all.push_back(item(x).raw.at(0)); c.label("evaluated start"); } }
			a->push_back(x);
		}
		auto s = run_alg(*a);
		REQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
		double last = p.maxi ? -HIGHEST_D : HIGHEST_D;
		for (std::size_t k = 1; k < s.size(); k++) {
			auto &x = s[k];
			bool end = x.im == gg::infoMode::INFOEND;
			std::string where = end ? "at the end" : "after iteration " + std::to_string(x.it);
			for (auto &e: x.ev) if (!constrained || p.pol == gg::evaluationPolicy::USESIMPLEEVALUATION || e.d.at(0) <= lim) all.push_back(p.f(e));
			std::sort(all.begin(), all.end(), b);
			// each reported one: a true fitness
			std::vector<double> got;
			bool inv = false;
			for (auto &i: x.gb) {
				REQ(i.done, where, " one of the best solutions is not evaluated");
				bool ok = !constrained || i.e.d.at(0) <= lim;
				REQ(i.valid == ok, where, " a best solution is called ", i.valid ? "valid" : "invalid", ": ", i.k);
				bool counts = ok || p.pol == gg::evaluationPolicy::USESIMPLEEVALUATION;
				if (!counts) { inv = true; continue; }
				REQ(!inv, where, " an invalid solution is ranked before a valid one");
				for (std::size_t q = 0; q < p.ncrit; q++) REQ(i.raw.at(q) == p.f(i.e, q), where, " the fitness reported for ", i.k, " is ", i.raw.at(q), ", it is ", p.f(i.e, q));
				got.push_back(i.raw.at(0));
			}
			std::vector<double> want(all.begin(), all.begin() + (std::ptrdiff_t)std::min(rec, all.size()));
			REQ(got == want, where, " the best solutions have the values ", show(got), "the best ones evaluated are ", show(want));
			REQ(x.gb.size() <= rec, where, " there are ", x.gb.size(), " best solutions, ", rec, " were requested");
			for (std::size_t u = 0; u < x.gb.size(); u++) for (std::size_t w = 0; w < u; w++) REQ(x.gb[u].id != x.gb[w].id, where, " a best solution is listed twice");
			if (!want.empty()) {
				REQ(!b(last, want[0]), where, " the best fitness is worse than before");
				last = want[0];
				REQ(std::get<gg::G_RAW_FITNESS>(x.bk) == want[0], where, " the best known fitness is ", std::get<gg::G_RAW_FITNESS>(x.bk), " instead of ", want[0]);
				auto one = a->getBestGlobalIndividual<gg::GParameterSet>();
				(void)one;
			}
			if (end) {
				auto one = item(a->getBestGlobalIndividual<gg::GParameterSet>());
				REQ(x.gb.size() && one.id == x.gb[0].id && one.k == x.gb[0].k, "the single best solution is not the first of the list");
				auto oneit = item(a->getBestIterationIndividual<gg::GParameterSet>());
				REQ(x.ib.size() && oneit.id == x.ib[0].id && oneit.k == x.ib[0].k, "the single best solution of the iteration is not the first of the list");
				for (auto &i: x.gb) { bool found = false; for (auto &j: s[s.size() - 2].ib) found |= j.id == i.id; alone |= !found; }
				continue; // (the population may have been rearranged)
			}
			// of the iteration
			std::map<std::string, Item const *> ids;
			for (auto &i: x.pop) if (i.done) ids[i.id] = &i;
			std::vector<double> v, g;
			std::size_t ninv = 0;
			for (auto &q: ids) { auto &i = *q.second; if (!constrained || p.pol == gg::evaluationPolicy::USESIMPLEEVALUATION || i.e.d.at(0) <= lim) v.push_back(p.f(i.e)); else ninv++; }
			std::sort(v.begin(), v.end(), b);
			for (auto &i: x.ib) if (!constrained || p.pol == gg::evaluationPolicy::USESIMPLEEVALUATION || i.e.d.at(0) <= lim) { g.push_back(i.raw.at(0)); REQ(i.raw.at(0) == p.f(i.e), where, " the fitness reported for the iteration's ", i.k, " is ", i.raw.at(0)); }
			REQ(g == v, where, " the best solutions of the iteration have the values ", show(g), "the best of the population are ", show(v));
			REQ(x.ib.size() == v.size() + ninv, where, " there are ", x.ib.size(), " best solutions of the iteration");
		}
		if (alone) c.nontrivial();
		a->resetToOptimizationStart();
	}
}

PROP("C30", mirror, 1500, 8000, 3, "a gradient descent or a scan of a grid, maximising a function and minimising its negative, from the same start; all populations, bests and counters must be mirror images; non-trivial: there was an improvement after the first iteration") {
	int kind = c.chance(1, 3) ? 4 : 3;
	Prob p = gen_prob(c, 2, false);
	p.maxi = false;
	std::uint32_t iters = (std::uint32_t)c.range(1, 10);
	std::size_t n = c.size(1, 3), rec = c.size(1, 5);
	double fs = c.pick<double>({0.001, 0.01, 0.1}), ss = c.pick<double>({0.1, 0.5, 0.01});
	std::vector<std::shared_ptr<HInd>> st;
	for (std::size_t k = 0; k < (kind == 3 ? n : 1); k++) { st.push_back(gen_start(c, p)); st.back()->setEvaluationPolicy(gg::evaluationPolicy::USESIMPLEEVALUATION); }
	std::ostringstream spec;
	if (kind == 4) { spec << "d(0, " << p.lo << ", " << p.hi - 0.01 << ", " << c.range(2, 12) << ")"; }
	std::vector<std::vector<Snap>> s;
	for (int m = 0; m < 2; m++) {
		OAP a = make_alg(kind);
		static_cast<Pop<OA> &>(*a).setNRecordBestIndividuals(rec);
		if (kind == 3) { auto &g = dynamic_cast<GD &>(*a); g.setNStartingPoints(n); g.setFiniteStep(fs); g.setStepSize(ss); }
		else { auto &g = static_cast<Pop<PS> &>(dynamic_cast<PS &>(*a)); g.setDefaultPopulationSize(n); g.setScanRandomly(false); g.setParameterSpecs(spec.str()); }
		a->setMaxIteration(iters); a->setMaxStallIteration(3); a->setReportIteration(1);
		for (auto &x: st) {
			auto y = x->clone<HInd>();
			if (m) { y->m_fn = x->m_fn + 100; y->setMaxMode(gg::maxMode::MAXIMIZE); }
			a->push_back(y);
		}
		s.push_back(run_alg(*a));
	}
	c.note(alg_name(kind), " ", spec.str(), " starts ", n, " iterations ", iters, " steps ", fs, " ", ss, "; ", p.str());
	c.label(alg_name(kind));
	REQ(s[0].size() == s[1].size(), "minimising took ", s[0].size(), " iterations, maximising ", s[1].size());
	for (std::size_t k = 1; k < s[0].size(); k++) {
		auto &x = s[0][k], &y = s[1][k];
		REQ(x.stall == y.stall && x.it == y.it, "iteration ", x.it, " has ", x.stall, " stalls, and ", y.stall, " for the mirror image");
		REQ(std::get<1>(x.bk) == -std::get<1>(y.bk) && std::get<1>(x.bc) == -std::get<1>(y.bc) && std::get<0>(x.bk) == -std::get<0>(y.bk), "iteration ", x.it, ": best fitness ", std::get<1>(x.bk), " and ", std::get<1>(y.bk));
		auto cmp = [&](std::vector<Item> const &u, std::vector<Item> const &w, const char *what, bool keys) {
			REQ(u.size() == w.size(), what, " of iteration ", x.it, " have sizes ", u.size(), " and ", w.size());
			for (std::size_t q = 0; q < u.size(); q++) {
				REQ(!keys || u[q].k == w[q].k, what, " ", q, " of iteration ", x.it, " is ", u[q].k, " and ", w[q].k, " for the mirror image");
				REQ(u[q].raw.size() == w[q].raw.size() && (u[q].raw.empty() || (u[q].raw[0] == -w[q].raw[0] && u[q].tr[0] == -w[q].tr[0])), what, " ", q, " of iteration ", x.it, " has values that are not mirror images");
			}
		};
		cmp(x.pop, y.pop, "individual", true); cmp(x.gb, y.gb, "best", false); cmp(x.ib, y.ib, "best of the iteration", false);
		if (k > 1 && x.stall == 0) c.nontrivial();
	}
}
PBT_MAIN
