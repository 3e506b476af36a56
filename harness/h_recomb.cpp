// C38: children descend from the parents as configured
#define INDIV_IMPL
#include "algorun.hpp"
using namespace pbt;
using namespace H;

// the probability of a deviation of this size is at most exp(-this)
static double surprise(std::size_t n, std::size_t k, double p) {
	if (p >= 1.) return k == n ? 0. : 1e9;
	if (p <= 0.) return k == 0 ? 0. : 1e9;
	double q = (double)k / (double)n, r = 0.;
	if (q > 0.) r += q * std::log(q / p);
	if (q < 1.) r += (1. - q) * std::log((1. - q) / (1. - p));
	return (double)n * r;
}

PROP("C38", descent, 400, 8000, 6, "an evolutionary algorithm or simulated annealing whose parents can be recognised in all children, with a generated number of parents, recombination scheme and share of amalgamations; non-trivial: at least two different parents in at least two iterations") {
	int kind = (int)c.raw(2);
	OAP a = make_alg(kind);
	auto pc = std::dynamic_pointer_cast<gg::G_OptimizationAlgorithm_ParChild>(a);
	std::size_t np = c.chance(1, 8) ? 1 : c.size(2, 6), nc = c.size(150, 500), nd = c.size(1, 5), nb = c.size(1, 2);
	pc->setPopulationSizes(np + nc, np);
	if (kind == 0) dynamic_cast<EA &>(*a).setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL}));
	auto scheme = c.pick<gg::duplicationScheme>({gg::duplicationScheme::VALUEDUPLICATIONSCHEME, gg::duplicationScheme::RANDOMDUPLICATIONSCHEME, gg::duplicationScheme::DEFAULTDUPLICATIONSCHEME});
	pc->setRecombinationMethod(scheme);
	double am = c.pick<double>({0., 0., 1., 0.5, 0.1, 0.9});
	pc->setAmalgamationLikelihood(am);
	std::size_t grow = c.chance(1, 4) ? c.size(1, 40) : 0, maxsize = np + nc + c.size(0, 60);
	if (grow) pc->setPopulationGrowth(grow, maxsize);
	std::uint32_t iters = (std::uint32_t)c.range(2, 4);
	a->setMaxIteration(iters); a->setMaxStallIteration(0); a->setReportIteration(1);
	bool maxi = c.chance(1, 3), adapted = true;
	int fn = c.pick<int>({0, 1, 4, 3});
	std::size_t added = c.chance(1, 5) ? c.size(1, np) : np;
	c.note(alg_name(kind), " parents ", np, " children ", nc, " scheme ", (int)scheme, " amalgamation ", am, " d", nd, " b", nb, " iterations ", iters, " growth ", grow, "/", maxsize, " added ", added, adapted ? " adapted" : " unchanged", maxi ? " max" : " min", " f", fn);
	c.label(alg_name(kind)); c.label(am > 0. ? "amalgamation" : "no amalgamation");
	for (std::size_t j = 0; j < added; j++) {
		auto r = std::make_shared<HInd>(1);
		r->m_fn = fn; if (maxi) r->setMaxMode(gg::maxMode::MAXIMIZE);
		r->setMaxUnsuccessfulAdaptions(1);
		for (std::size_t k = 0; k < nd; k++) {
			auto o = std::make_shared<gg::GDoubleObject>((double)(1 + c.raw(3)) * 0.25 + (double)(j * nd + k), 0., 100.);
			auto ad = std::make_shared<gg::GDoubleGaussAdaptor>(0.5, 0.1, 0.001, 1., 0.); ad->setAdaptAdProb(0.); ad->setAdaptionMode(gg::adaptionMode::NEVER);
			o->addAdaptor(ad); r->push_back(o);
		}
		for (std::size_t k = 0; k < nb; k++) {
			auto o = std::make_shared<gg::GBooleanObject>(c.flip());
			auto ad = std::make_shared<gg::GBooleanAdaptor>(1.); ad->setAdaptAdProb(0.); ad->setAdaptionMode(adapted ? gg::adaptionMode::ALWAYS : gg::adaptionMode::NEVER);
			o->addAdaptor(ad); r->push_back(o);
		}
		a->push_back(r);
	}
	// an amalgamation of best and j-th parent with the given cuts
	auto mix = [](Eval x, Eval const &y, std::size_t cd, std::size_t cb) {
		for (std::size_t k = cd; k < x.d.size(); k++) x.d[k] = y.d[k];
		for (std::size_t k = cb; k < x.b.size(); k++) x.b[k] = y.b[k];
		return x;
	};
	auto finish = [&](Eval x) { if (adapted) for (std::size_t k = 0; k < x.b.size(); k++) x.b[k] = not x.b[k]; return key(x); };
	std::vector<Item> before; std::size_t size = 0, diverse = 0;
	auto more = [&](OA const &o, Snap &x) {
		std::vector<Item> now;
		OAVec const &v = o;
		if (x.im != gg::infoMode::INFOPROCESSING) { if (x.im == gg::infoMode::INFOINIT) { for (auto const &p: v) before.push_back(item(p)); size = v.size(); } return; }
		std::string where = "iteration " + std::to_string(x.it);
		if (before.size() > np) before.resize(np);
		REQ(before.size() == np, where, ": ", before.size(), " parents");
		bool first = x.it == 0;
		if (not first && grow && size + grow <= maxsize) size += grow;
		REQ(v.size() == size, where, ": the population has ", v.size(), " individuals, expected ", size);
		std::size_t n = size - np;
		// unchanged children of evaluated parents do not have to be evaluated again
		std::map<std::string, std::size_t> seen;
		if (adapted) {
			for (auto &e: x.ev) { Eval y = e; seen[key(y)]++; }
			if (first && x.ev.size() == n + np) for (auto &p: before) { auto s = seen.find(p.k); REQ(s != seen.end() && s->second, where, ": a parent was not evaluated"); if (not --s->second) seen.erase(s); }
			else REQ(x.ev.size() == n, where, ": ", x.ev.size(), " evaluations of ", n, " children");
		}
		// what we expect
		std::map<std::string, double> want; std::set<std::string> kinds;
		for (auto &p: before) kinds.insert(p.k);
		double A = np > 1 ? am : 0., sum = 0.;
		bool value = scheme == gg::duplicationScheme::VALUEDUPLICATIONSCHEME && not first;
		for (std::size_t j = 0; j < np; j++) sum += value ? 1. / ((double)j + 2.) : 1.;
		for (std::size_t j = 0; j < np; j++) want[finish(before[j].e)] += (1. - A) * (value ? 1. / ((double)j + 2.) : 1.) / sum;
		if (A > 0.) for (std::size_t j = 1; j < np; j++) {
			std::size_t dc = nd > 1 ? nd - 1 : 1, bc = nb > 1 ? nb - 1 : 1;
			for (std::size_t q = 0; q < dc; q++) for (std::size_t s = 0; s < bc; s++)
				want[finish(mix(before[0].e, before[j].e, nd > 1 ? q + 1 : nd, nb > 1 ? s + 1 : nb))] += A / (double)((np - 1) * dc * bc);
		}
		if (adapted) {
			for (auto &s: seen) REQ(want.count(s.first) && want[s.first] > 0., where, ": a child ", s.first, " does not descend from the parents");
			for (auto &w: want) {
				std::size_t k = seen.count(w.first) ? seen[w.first] : 0;
				double p = std::min(1., w.second); if (p > 1. - 1e-9) p = 1.;
				REQ(surprise(n, k, p) < 26., where, ": ", k, " of ", n, " children are ", w.first, ", expected a share of ", num(p));
			}
			if (kinds.size() > 1) diverse++;
		}
		// parents that were recorded
		std::set<std::string> old; for (auto &p: before) if (p.done) old.insert(p.id);
		std::size_t k = 0;
		for (auto const &p: v) {
			Item q = item(p);
			auto t = std::dynamic_pointer_cast<gg::GBaseParChildPersonalityTraits>(p->getPersonalityTraits());
			REQ(t, where, ": individual ", k, " has no traits");
			REQ(k >= np || t->isParent(), where, ": individual ", k, " does not know that it is a parent");
			if (am == 0. && adapted && seen.count(q.k) && not old.count(q.id) && not first) {
				REQ(t->parentIdSet() && t->getParentId() < np, where, ": individual ", k, " does not know its parent");
				REQ(finish(before[t->getParentId()].e) == q.k, where, ": individual ", k, " believes to be a child of parent ", t->getParentId(), ", but has other parameters");
			}
			now.push_back(q); k++;
		}
		before = now;
	};
	run_alg(*a, 0, more);
	if (diverse >= 2) c.nontrivial();
}
PBT_MAIN
