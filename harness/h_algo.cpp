// C23, C25: selection in evolutionary algorithms and simulated annealing
#define INDIV_IMPL
#include "algorun.hpp"
#include <set>
using namespace pbt;
using namespace H;

static double key_fit(Prob const &p, Item const &i, std::size_t k = 0) { return p.maxi ? -i.tr[k] : i.tr[k]; }

using MS = std::map<std::string, int>;
static MS ms(std::vector<Item> const &v, std::size_t from = 0, std::size_t to = (std::size_t)-1) { MS m; for (std::size_t i = from; i < std::min(to, v.size()); i++) m[v[i].k]++; return m; }
static bool inside(MS const &a, MS const &b) { for (auto &x: a) { auto it = b.find(x.first); if (it == b.end() || it->second < x.second) return false; } return true; }
static std::string show(Prob const &p, std::vector<Item> const &v) { std::ostringstream o; for (auto &i: v) { o << (i.parent ? "P" : "c") << "("; for (std::size_t k = 0; k < i.tr.size(); k++) o << (k ? "," : "") << key_fit(p, i, k); o << ") "; } return o.str(); }
static bool dominates(Prob const &p, Item const &a, Item const &b) {
	bool better = false;
	for (std::size_t k = 0; k < a.tr.size(); k++) { double x = key_fit(p, a, k), y = key_fit(p, b, k); if (x > y) return false; if (x < y) better = true; }
	return better;
}
// the individuals of b that are not in a (multisets, by content)
static std::vector<Item> without(std::vector<Item> const &b, std::vector<Item> const &a) {
	MS m = ms(a);
	std::vector<Item> r;
	for (auto &x: b) { auto it = m.find(x.k); if (it != m.end() && it->second > 0) it->second--; else r.push_back(x); }
	return r;
}
static std::vector<double> fits(Prob const &p, std::vector<Item> const &v, std::size_t n = (std::size_t)-1) {
	std::vector<double> f;
	for (auto &x: v) f.push_back(key_fit(p, x));
	std::sort(f.begin(), f.end());
	if (f.size() > n) f.resize(n);
	return f;
}
static const char *MODE[] = {"plus", "comma", "retain", "plus pareto", "comma pareto"};

template<typename A> struct Open : A { using A::setNRecordBestIndividuals; using A::getNRecordBestIndividuals; };
PROP("C23", ea_selection, 6000, 40000, 6, "an evolutionary algorithm with 1 to 5 parents, up to 20 children, any sorting scheme, recombination scheme, population growth, landscape (with ties and several criteria) and direction, over up to 12 iterations; the new parents are compared with those the scheme has to select from the individuals before and those evaluated; non-trivial: some iteration replaced some but not all parents") {
	const gg::sortingMode SM[] = {gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL, gg::sortingMode::MUPLUSNU_PARETO, gg::sortingMode::MUCOMMANU_PARETO};
	int mode = (int)c.raw(5);
	Prob p = gen_prob(c, mode >= 3 ? 3 : 1); gen_limit(c, p);
	std::size_t np = c.size(1, 5), nc = np + c.size(0, 12);
	if (mode == 0 || mode == 3 || mode == 4) { if (c.chance(1, 4)) nc = c.size(1, 4); }
	if (mode == 4 && nc < np) nc = np;
	Open<EA> a;
	a.setPopulationSizes(np + nc, np);
	a.setSortingScheme(SM[mode]);
	std::size_t iters = c.size(1, c.thorough() ? 25 : 12);
	a.setMaxIteration((std::uint32_t)iters); a.setMaxStallIteration(0); a.setReportIteration(1);
	a.setRecombinationMethod(c.pick<gg::duplicationScheme>({gg::duplicationScheme::DEFAULTDUPLICATIONSCHEME, gg::duplicationScheme::RANDOMDUPLICATIONSCHEME, gg::duplicationScheme::VALUEDUPLICATIONSCHEME}));
	std::size_t growth = c.chance(1, 4) ? c.size(1, 3) : 0, maxpop = np + nc + c.size(0, 8);
	if (growth) a.setPopulationGrowth(growth, maxpop);
	if (c.chance(1, 4)) a.setAmalgamationLikelihood(c.unit());
	a.setNThreads((std::uint16_t)c.range(1, 4));
	std::size_t nstart = c.size(1, np + nc), rec = c.size(1, 6);
	a.setNRecordBestIndividuals(rec);
	for (std::size_t k = 0; k < nstart; k++) a.push_back(gen_start(c, p));
	c.note(MODE[mode], " ", np, "+", nc, " start ", nstart, " iterations ", iters, growth ? " growing" : "", "; ", p.str());
	c.label(MODE[mode]);
	auto s = run_alg(a);
	REQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
	bool some = false, pareto = mode >= 3 && p.ncrit > 1;
	int m = mode >= 3 && p.ncrit == 1 ? mode - 3 : mode;
	double best = HIGHEST_D;
	std::size_t want = np + nc;
	for (std::size_t t = 0; t < iters; t++) {
		auto &x = s[t + 1], &w = s[t];
		if (t && growth && want + growth <= maxpop) want += growth;
		std::string at = "iteration " + std::to_string(t) + ": " + show(p, x.pop) + "-- ";
		REQ(x.pop.size() == want, at, "there are ", x.pop.size(), " individuals instead of ", want);
		for (std::size_t i = 0; i < x.pop.size(); i++) {
			REQ(x.pop[i].done, at, "individual ", i, " is not evaluated");
			REQ(x.pop[i].raw[0] == p.raw(x.pop[i].e), at, "individual ", i, " has the fitness ", x.pop[i].raw[0], " instead of ", p.raw(x.pop[i].e));
			if (i < np) REQ(x.pop[i].parent, at, "individual ", i, " is not marked as a parent");
		}
		std::vector<Item> par(x.pop.begin(), x.pop.begin() + (long)np), rest(x.pop.begin() + (long)np, x.pop.end()), old;
		if (t) old.assign(w.pop.begin(), w.pop.begin() + (long)np);
		for (std::size_t i = 1; i < np; i++) REQ(key_fit(p, par[i - 1]) <= key_fit(p, par[i]), at, "the parents are not sorted");
		// nobody is lost
		MS em; for (auto &e: x.ev) em[key(e)]++;
		std::size_t ninv = 0;
		for (auto &k: without(x.pop, old)) if (not p.evaluated(k.e)) { em[k.k]++; ninv++; } // invalid ones are not evaluated
		if (ninv) c.label("invalid");
		REQ(x.ev.size() + ninv == (t ? want - np : want), at, x.ev.size(), " individuals were evaluated, ", ninv, " were invalid");
		REQ(inside(em, ms(x.pop)), at, "an evaluated individual is missing from the population");
		REQ(inside(ms(old), ms(x.pop)), at, "a former parent is missing from the population");
		auto kids = without(x.pop, old);
		REQ(inside(ms(kids), em) || t == 0, at, "the population holds an individual that is neither a parent nor was evaluated");
		auto kept = without(par, kids); // (ties by content do not matter)
		if (!kept.empty() && kept.size() < np) some = true;
		int mm = t == 0 && (m == 1 || m == 2) ? 0 : m; // the first iteration selects from all
		if (!pareto) {
			if (mm == 2 && np == 1) mm = 0;
			if (mm == 0) REQ(fits(p, par) == fits(p, x.pop, np), at, "the parents are not the best of all");
			if (mm == 1) REQ(fits(p, par) == fits(p, kids, np) && inside(ms(par), ms(kids)), at, "the parents are not the best of the children");
			if (mm == 2) {
				double bo = fits(p, old)[0], bk = fits(p, kids)[0];
				auto k = fits(p, kids, np);
				if (bk < bo) REQ(fits(p, par) == k && inside(ms(par), ms(kids)), at, "the parents are not the best of the children, the best of which is better than any former parent");
				else {
					k.pop_back(); k.push_back(bo); std::sort(k.begin(), k.end());
					REQ(fits(p, par) == k, at, "the parents are not the best former parent and the best children");
				}
			}
			if (m != 1) { // the best one never gets worse
				double b = key_fit(p, par[0]);
				REQ(b <= best, at, "the best fitness went from ", best, " to ", b);
				best = b;
			}
		} else {
			bool comma = mode == 4 && t > 0;
			auto const &set = comma ? kids : x.pop;
			std::vector<Item> front;
			for (auto &i: set) { bool d = false; for (auto &j: set) d = d || dominates(p, j, i); if (!d) front.push_back(i); }
			if (front.size() >= np) REQ(inside(ms(par), ms(front)), at, "a parent is dominated, although ", front.size(), " individuals are not");
			else {
				REQ(inside(ms(front), ms(par)), at, "an individual that is not dominated by any other is not a parent");
				// the other places go to the best according to the first criterion
				auto others = without(x.pop, front), fill = without(par, front);
				REQ(fits(p, fill) == fits(p, others, fill.size()), at, "the remaining parents are not the best of the others");
			}
			c.label(front.size() > np ? "front larger" : front.size() < np ? "front smaller" : "front as large");
		}
	}
	if (some) c.nontrivial();
}

PROP("C25", sa_selection, 1500, 40000, 6, "simulated annealing with 1 to 4 parents, up to 16 children, any start temperature, cooling factor, landscape (with ties) and direction, over up to 12 iterations; every parent is the former one or the child of its rank, the better child always, the worse one never if its probability is below 1e-15, and the temperature follows the geometric series; non-trivial: some worse child could be accepted or rejected") {
	Prob p = gen_prob(c); gen_limit(c, p);
	std::size_t np = c.size(1, 4), nc = np + c.size(0, 12), iters = c.size(1, c.thorough() ? 30 : 12);
	double t0 = c.pick<double>({1e-12, 1e-6, 0.01, 1., 10., 1000., 1e8}), al = c.pick<double>({0.95, 0.5, 1., 0.1, 0.999, 1.25});
	SA a;
	a.setPopulationSizes(np + nc, np);
	a.setT0(t0); a.setTDegradationStrength(al);
	a.setMaxIteration((std::uint32_t)iters); a.setMaxStallIteration(0); a.setReportIteration(1);
	a.setRecombinationMethod(c.pick<gg::duplicationScheme>({gg::duplicationScheme::DEFAULTDUPLICATIONSCHEME, gg::duplicationScheme::RANDOMDUPLICATIONSCHEME, gg::duplicationScheme::VALUEDUPLICATIONSCHEME}));
	std::size_t growth = c.chance(1, 5) ? c.size(1, 3) : 0, maxpop = np + nc + c.size(0, 8);
	if (growth) a.setPopulationGrowth(growth, maxpop);
	if (c.chance(1, 4)) a.setAmalgamationLikelihood(c.unit());
	a.setNThreads((std::uint16_t)c.range(1, 4));
	std::size_t nstart = c.size(1, np + nc);
	for (std::size_t k = 0; k < nstart; k++) a.push_back(gen_start(c, p));
	c.note(np, "+", nc, " start ", nstart, " T0 ", t0, " alpha ", al, " iterations ", iters, growth ? " growing" : "", "; ", p.str());
	REQ(a.getT0() == t0 && a.getTDegradationStrength() == al, "the settings were not taken");
	auto s = run_alg(a, 0, [](OA const &o, Snap &x) { x.T = dynamic_cast<SA const &>(o).getT(); });
	REQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
	bool open = false;
	std::size_t want = np + nc;
	double T = t0;
	REQ(s[0].T == t0, "the run begins with a temperature of ", s[0].T, " instead of ", t0);
	for (std::size_t t = 0; t < iters; t++) {
		auto &x = s[t + 1], &w = s[t];
		if (t && growth && want + growth <= maxpop) want += growth;
		std::string at = "iteration " + std::to_string(t) + ": " + show(p, x.pop) + "-- ";
		REQ(x.pop.size() == want, at, "there are ", x.pop.size(), " individuals instead of ", want);
		for (std::size_t i = 0; i < x.pop.size(); i++) {
			REQ(x.pop[i].done && x.pop[i].raw[0] == p.raw(x.pop[i].e), at, "individual ", i, " is not evaluated or shows a wrong fitness");
			if (i < np) REQ(x.pop[i].parent, at, "individual ", i, " is not marked as a parent");
		}
		std::vector<Item> par(x.pop.begin(), x.pop.begin() + (long)np), kids(x.pop.begin() + (long)np, x.pop.end());
		MS em; for (auto &e: x.ev) em[key(e)]++;
		std::size_t ninv = 0;
		for (auto &k: kids) if (not p.evaluated(k.e)) { em[k.k]++; ninv++; } // invalid ones are not evaluated
		if (ninv) c.label("invalid");
		REQ(t ? x.ev.size() + ninv == want - np : p.limited ? x.ev.size() + ninv <= want : x.ev.size() == want, at, x.ev.size(), " individuals were evaluated, ", ninv, " were invalid");
		if (t) REQ(ms(kids) == em, at, "the children are not those that were evaluated");
		else REQ(inside(ms(kids), em), at, "the children are not among those that were evaluated");
		for (std::size_t i = 1; i < np; i++) REQ(key_fit(p, par[i - 1]) <= key_fit(p, par[i]), at, "the parents are not sorted");
		auto kf = fits(p, kids, np);
		if (t) {
			std::vector<double> of;
			for (std::size_t i = 0; i < np; i++) of.push_back(key_fit(p, w.pop[i]));
			auto nf = fits(p, par);
			bool found = false; // any pairing of the former parents and the best children
			std::sort(of.begin(), of.end());
			do {
				for (unsigned mask = 0; mask < (1u << np) && !found; mask++) {
					std::vector<double> f;
					bool ok = true;
					for (std::size_t i = 0; i < np; i++) {
						bool acc = mask & (1u << i);
						double d = kf[i] - of[i], prob = d <= 0. ? 1. : std::exp(-d / T);
						if (acc ? prob < 1e-15 : d < 0.) ok = false;
						f.push_back(acc ? kf[i] : of[i]);
					}
					std::sort(f.begin(), f.end());
					found = ok && f == nf;
				}
			} while (!found && std::next_permutation(of.begin(), of.end()));
			std::sort(of.begin(), of.end());
			for (std::size_t i = 0; i < np; i++) if (kf[i] > of[i] && std::exp(-(kf[i] - of[i]) / T) > 1e-15) open = true;
			std::ostringstream o;
			for (std::size_t i = 0; i < np; i++) o << of[i] << "/" << kf[i] << " ";
			REQ(found, at, "from the pairs of parents and children ", o.str(), "at the temperature ", T, " these parents cannot be the result");
			REQ(inside(ms(par), [&]() { MS m = ms(w.pop, 0, np); for (auto &e: ms(kids)) m[e.first] += e.second; return m; }()), at, "a parent is neither a former one nor a child");
		}
		T *= al;
		REQ(std::fabs(x.T - T) <= 1e-9 * T, at, "the temperature is ", x.T, " instead of ", T);
	}
	if (open) c.nontrivial();
}

PROP("C25", sa_probability, 300, 3000, 4, "simulated annealing with one parent over many iterations at a constant temperature, where worse children are accepted as often as their probability says, within 6 standard deviations; non-trivial: the expected number of acceptances among the worse children is between 5 and 95 per cent") {
	Prob p = gen_prob(c, 1, false);
	p.fn = c.pick<int>({0, 4, 1}); p.pol = gg::evaluationPolicy::USESIMPLEEVALUATION;
	double T = c.pick<double>({0.1, 1., 3., 10., 0.5});
	std::size_t nc = c.size(1, 3), iters = c.thorough() ? 400 : 150;
	SA a;
	a.setPopulationSizes(1 + nc, 1);
	a.setT0(T); a.setTDegradationStrength(1.);
	a.setMaxIteration((std::uint32_t)iters); a.setMaxStallIteration(0); a.setReportIteration(1);
	a.setNThreads(1);
	a.push_back(gen_start(c, p));
	c.note("1+", nc, " T ", T, "; ", p.str());
	auto s = run_alg(a);
	REQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
	double mean = 0., var = 0., n = 0., got = 0.;
	for (std::size_t t = 1; t < iters; t++) {
		auto &x = s[t + 1], &w = s[t];
		double of = key_fit(p, w.pop[0]), nf = key_fit(p, x.pop[0]);
		std::vector<Item> kids(x.pop.begin() + 1, x.pop.end());
		double kf = fits(p, kids, 1)[0];
		REQ(nf == of || nf == kf, "the parent with ", of, " was followed by one with ", nf, ", the best child has ", kf);
		if (kf <= of) { if (kf < of) REQ(nf == kf, "a better child with ", kf, " did not replace the parent with ", of); continue; }
		double q = std::exp(-(kf - of) / T);
		mean += q; var += q * (1. - q); n += 1.;
		if (nf == kf) got += 1.;
	}
	REQ(std::fabs(got - mean) <= 6. * std::sqrt(var) + 3., got, " of ", n, " worse children were accepted, ", mean, " expected with a standard deviation of ", std::sqrt(var));
	if (n > 20 && mean > 0.05 * n && mean < 0.95 * n) c.nontrivial();
}

PROP("C25", sa_settings, 3000, 30000, 1, "start temperatures, cooling factors and population sizes, valid and invalid; invalid ones are refused and leave the settings alone; non-trivial: something was refused") {
	SA a;
	double t0 = a.getT0(), al = a.getTDegradationStrength();
	bool refused = false;
	std::size_t n = c.size(1, 10);
	for (std::size_t k = 0; k < n; k++) {
		double x = c.pick<double>({0., -0., -1., -1e-300, 1e-300, 0.5, 1., 2., 1000., 1e300});
		bool thrown = false, which = c.flip();
		try { if (which) a.setT0(x); else a.setTDegradationStrength(x); } catch (gemfony_exception &) { thrown = true; }
		c.note(which ? "T0 " : "alpha ", x);
		REQ(thrown == !(x > 0.), x, thrown ? " was refused" : " was accepted");
		if (!thrown) (which ? t0 : al) = x;
		refused = refused || thrown;
		REQ(a.getT0() == t0 && a.getTDegradationStrength() == al && a.getT() == t0, "T0 ", a.getT0(), " alpha ", a.getTDegradationStrength(), " T ", a.getT(), " after setting ", t0, " and ", al);
	}
	if (c.chance(1, 4)) { // too few children
		std::size_t np = c.size(2, 6), pop = c.size(np, 2 * np - 1);
		a.setPopulationSizes(pop, np);
		Prob p = gen_prob(c);
		a.push_back(gen_start(c, p));
		a.setMaxIteration(2);
		bool thrown = false;
		try { run_alg(a); } catch (gemfony_exception &) { thrown = true; }
		c.note("population ", pop, " parents ", np);
		REQ(thrown, "a population of ", pop, " with ", np, " parents was accepted");
		refused = true;
	}
	if (refused) c.nontrivial();
}
PBT_MAIN
