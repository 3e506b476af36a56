// C37: evaluations that fail in the course of an optimisation
#define INDIV_IMPL
#include "algorun.hpp"
using namespace pbt;
using namespace H;

template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; using A::getDefaultPopulationSize; };
static std::size_t small(Ctx &c, OA &a, int kind) {
	switch (kind) {
		case 0: { auto &e = dynamic_cast<EA &>(a); std::size_t np = c.size(1, 4), nc = np + c.size(0, 5); e.setPopulationSizes(np + nc, np);
			e.setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL}));
			return np + nc; }
		case 1: { auto &e = dynamic_cast<SA &>(a); std::size_t np = c.size(1, 3), nc = np + c.size(0, 4); e.setPopulationSizes(np + nc, np); return np + nc; }
		case 2: { std::size_t n = c.size(1, 3), m = c.size(2, 4); dynamic_cast<SW &>(a).setSwarmSizes(n, m); return n * m; }
		case 3: { std::size_t n = c.size(1, 3); dynamic_cast<GD &>(a).setNStartingPoints(n); return n; }
		default: { auto &e = static_cast<Pop<PS> &>(dynamic_cast<PS &>(a)); std::size_t n = c.size(1, 4); e.setDefaultPopulationSize(n); e.setNSimpleScans(1000); return n; }
	}
}
static std::uint64_t mix(std::uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }

PROP("C37", survived, 4000, 60000, 6, "an optimisation with any algorithm whose evaluations fail at generated points or times, by exceptions of several kinds or by flagged errors, serially or by threads; non-trivial: there were failures and at least two iterations") {
	int kind = (int)c.raw(5);
	OAP a = make_alg(kind);
	std::size_t size = small(c, *a, kind), rec = c.size(1, 6);
	static_cast<Pop<OA> &>(*a).setNRecordBestIndividuals(rec);
	Prob p = gen_prob(c, 2, kind != 3);
	p.pol = gg::evaluationPolicy::USESIMPLEEVALUATION;
	std::uint32_t iters = (std::uint32_t)c.range(2, c.thorough() ? 20 : 8);
	a->setMaxIteration(iters); a->setMaxStallIteration(0); a->setReportIteration(1);
	double rate = c.pick<double>({0.05, 0.2, 0.5, 0.9});
	int type = (int)c.raw(4); // 0: any
	bool content = c.flip();
	std::uint64_t salt = (std::uint64_t)c.raw(1000000);
	auto mode = c.flip() ? gg::execMode::SERIAL : gg::execMode::MULTITHREADED;
	std::size_t from = c.flip() ? 0 : c.size(1, 20); // failures start after so many evaluations
	auto start = gen_start(c, p);
	c.note(alg_name(kind), " size ", size, " iterations ", iters, " rate ", num(rate), content ? " by content" : " by time", " from ", from, " kind ", type, mode == gg::execMode::SERIAL ? " serial" : " threads", "; ", p.str());
	c.label(alg_name(kind));
	std::atomic<std::uint64_t> n{0}, bad{0};
	fault() = [&](Eval const &e) -> int {
		std::uint64_t k = n++, h = content ? mix(std::hash<std::string>()(key(e)) ^ salt) : mix(k + salt);
		if (k < from || (double)(h >> 11) / 9007199254740992. >= rate) return 0;
		bad++;
		return type ? type : 1 + (int)(mix(h) % 3);
	};
	struct Off { ~Off() { fault() = nullptr; } } off;
	auto b = [&](double x, double y) { return p.maxi ? x > y : x < y; };
	std::vector<double> all;
	std::size_t iterations = 0; bool dirty = false;
	auto w = std::make_shared<Watch>();
	w->more = [&](OA const &o, Snap &x) {
		if (x.im != gg::infoMode::INFOPROCESSING) return;
		OAVec const &v = o;
		std::string where = "iteration " + std::to_string(x.it);
		if (kind == 3) { if (not iterations) size *= 1 + (std::size_t)o.at(0)->countParameters<double>(Gem::Geneva::activityMode::ACTIVEONLY); }
		REQ(v.size() == size, where, ": the population has ", v.size(), " individuals, expected ", size);
		for (auto &e: x.ev) all.push_back(e.f[0]);
		for (std::size_t k = 0; k < v.size(); k++) {
			auto q = std::dynamic_pointer_cast<HInd>(v[k]);
			REQ(not q->has_errors(), where, ": individual ", k, " has errors");
			if (kind == 2 && bad && q->is_due_for_processing()) { dirty = true; continue; } // new random individuals are evaluated in the next iteration
			REQ(q->is_processed(), where, ": individual ", k, " was not evaluated");
			for (std::size_t j = 0; j < p.ncrit; j++) REQ(q->raw_fitness(j) == q->expected(j), where, ": individual ", k, " has the fitness ", num(q->raw_fitness(j)), ", but that of its parameters is ", num(q->expected(j)));
		}
		if (kind != 2) REQ(not all.empty(), where, ": nothing was evaluated");
		for (auto const *l: {&x.gb, &x.ib}) for (auto &q: *l) {
			REQ(q.done, where, ": a best individual was not evaluated");
			REQ(q.raw[0] == p.f(q.e), where, ": a best individual has a wrong fitness ", num(q.raw[0]));
		}
		if (all.size()) {
			double best = all[0]; for (double y: all) if (b(y, best)) best = y;
			REQ(not x.gb.empty(), where, ": there is no best individual");
			REQ(x.gb[0].raw[0] == best, where, ": the best individual has the fitness ", num(x.gb[0].raw[0]), ", but ", num(best), " was found");
		}
		iterations++;
	};
	evlog().start();
	executor(*a, mode);
	a->resetPluggableOM(); a->registerPluggableOM(w);
	a->push_back(start);
	bool thrown = false; std::string what;
	try { a->optimize(0); } catch (gemfony_exception &e) { thrown = true; what = e.what(); }
	evlog().stop();
	a->resetPluggableOM();
	std::size_t good = evlog().size();
	if (bad) c.label("failures"); if (thrown) c.label(std::string("stopped: ") + alg_name(kind)); if (dirty) c.label("new individuals");
	if (bad && iterations >= 2) c.nontrivial();
	if (thrown) {
		REQ(bad > 0, "the optimisation was stopped without a failure: ", what);
		if (kind == 0 || kind == 1) REQ(good == 0, "the optimisation was stopped by failures although there were good individuals: ", what);
		if (kind == 2) REQ(good == all.size(), "the swarm was stopped by failures although there were good individuals in the iteration: ", what);
	} else {
		REQ(iterations == iters + 0u || kind >= 3, "there were ", iterations, " iterations, expected ", iters);
		if (kind >= 3) REQ(bad == 0, "failures went unnoticed");
	}
	// the algorithm can be used again
	fault() = nullptr;
	w->more = Inspect(); w->s.clear();
	a->clear(); a->resetToOptimizationStart(); a->push_back(gen_start(c, p)); executor(*a, mode);
	a->optimize(0);
	for (auto &x: *a) REQ(x->is_processed() && not x->has_errors(), "an individual of a later run has errors");
}
PBT_MAIN
