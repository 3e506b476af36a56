// C26, C27: gradient descent and parameter scan
#define INDIV_IMPL
#include "algorun.hpp"
#include "geneva/GDoubleCollection.hpp"
#include <set>
using namespace pbt;
using namespace H;

PROP("C26", gd_steps, 8000, 20000, 6, "a gradient descent with 1 to 4 starting points, 1 to 5 dimensions, any finite step, step size, landscape and direction, bounded and free, active and inactive parameters, over up to 10 iterations; every point and finite difference that is evaluated is compared with those computed from the previous iteration; non-trivial: at least two iterations and a starting point that moved") {
	Prob p = gen_prob(c);
	p.nd = c.size(1, 5);
	std::size_t np = c.size(1, 4), nstart = c.size(1, np + 1), iters = c.size(1, c.thorough() ? 25 : 10);
	double fs = c.pick<double>({0.001, 0.01, 1., 1000., 100.}), st = c.pick<double>({0.1, 1e-3, 1., 10., 1000.});
	if (p.fn == 0 && st > 100.) st = 10.;
	GD a;
	a.setNStartingPoints(np); a.setFiniteStep(fs); a.setStepSize(st);
	REQ(a.getNStartingPoints() == np && a.getFiniteStep() == fs && a.getStepSize() == st, "the settings were not taken");
	a.setMaxIteration((std::uint32_t)iters); a.setMaxStallIteration(0); a.setReportIteration(1);
	std::vector<bool> dead(p.nd, false);
	std::vector<std::size_t> act;
	for (std::size_t k = 0; k < p.nd; k++) { dead[k] = c.chance(1, 6) && (k + 1 < p.nd || !act.empty()); if (!dead[k]) act.push_back(k); }
	std::vector<std::string> start;
	for (std::size_t k = 0; k < nstart; k++) {
		auto i = gen_start(c, p);
		for (std::size_t d = 0; d < p.nd; d++) if (dead[d]) (*i)[d]->setAdaptionsInactive();
		start.push_back(item(i).k);
		a.push_back(i);
	}
	std::size_t nd = act.size(), n = np * (nd + 1);
	c.note(np, " points, ", nstart, " supplied, finite step ", fs, " step ", st, " iterations ", iters, " active ", nd, "; ", p.str());
	auto s = run_alg(a);
	REQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
	double sign = p.maxi ? -1. : 1.;
	bool moved = false;
	auto inside = [&](double x, double slack) { return !p.bounded || (x - slack >= p.lo && x + slack < p.hi); };
	for (std::size_t t = 0; t < iters; t++) {
		auto &x = s[t + 1];
		std::string at = "iteration " + std::to_string(t) + ": ";
		REQ(x.pop.size() == n, at, "there are ", x.pop.size(), " individuals instead of ", n);
		REQ(x.ev.size() == n, at, x.ev.size(), " individuals were evaluated instead of ", n);
		std::map<std::string, int> em;
		for (auto &e: x.ev) em[key(e)]++;
		for (std::size_t i = 0; i < n; i++) {
			auto &v = x.pop[i];
			REQ(v.done && v.raw[0] == p.f(v.e), at, "individual ", i, " is not evaluated or shows a wrong fitness");
			REQ(em[v.k]-- > 0, at, "individual ", i, " is at a place that was not evaluated");
			for (std::size_t k = 0; k < p.nd; k++) if (p.bounded) REQ(v.e.d[k] >= p.lo && v.e.d[k] < p.hi, at, "the parameter ", k, " of individual ", i, " is ", v.e.d[k]);
		}
		if (t == 0) for (std::size_t k = 0; k < std::min(nstart, np); k++) REQ(x.pop[k].k == start[k], at, "the starting point ", k, " is ", x.pop[k].k, " instead of the supplied ", start[k]);
		double best = HIGHEST_D;
		for (std::size_t i = 0; i < np; i++) {
			auto &v = x.pop[i].e;
			best = std::min(best, sign * x.pop[i].tr[0]);
			for (std::size_t j = 0; j < nd; j++) {
				auto &w = x.pop[np + i * nd + j].e;
				REQ(w.i == v.i && w.b == v.b, at, "the finite difference ", j, " of point ", i, " differs in integer or boolean parameters");
				for (std::size_t k = 0; k < p.nd; k++) {
					if (k != act[j]) { REQ(w.d[k] == v.d[k], at, "the finite difference ", j, " of point ", i, " differs from it in the parameter ", k); continue; }
					double d = fs / 1000. * (p.hi - p.lo), eps = 1e-9 * (std::fabs(v.d[k]) + d);
					if (inside(v.d[k] + d, eps)) REQ(std::fabs(w.d[k] - v.d[k] - d) <= eps, at, "the finite difference ", j, " of point ", i, " at ", v.d[k], " is at ", w.d[k], " instead of ", v.d[k] + d);
				}
			}
			if (t) {
				auto &o = s[t].pop[i];
				REQ(o.e.i == v.i && o.e.b == v.b, at, "integer or boolean parameters of point ", i, " changed");
				for (std::size_t k = 0; k < p.nd; k++) if (dead[k]) REQ(o.e.d[k] == v.d[k], at, "the inactive parameter ", k, " of point ", i, " changed");
				for (std::size_t j = 0; j < nd; j++) {
					std::size_t k = act[j];
					double df = sign * (s[t].pop[np + i * nd + j].tr[0] - o.tr[0]), want = o.e.d[k] - st / fs * df;
					double eps = 1e-9 * (std::fabs(o.e.d[k]) + std::fabs(st / fs * df)) + 1e-15 * st / fs * (std::fabs(o.tr[0]));
					if (inside(want, eps)) REQ(std::fabs(v.d[k] - want) <= eps, at, "the parameter ", k, " of point ", i, " went from ", o.e.d[k], " to ", v.d[k], " instead of ", want, ", the finite difference was ", df);
					if (v.d[k] != o.e.d[k]) moved = true;
				}
			}
		}
		REQ(sign * std::get<gg::G_TRANSFORMED_FITNESS>(x.bc) == best, at, "the best fitness of this iteration is ", std::get<gg::G_TRANSFORMED_FITNESS>(x.bc), " instead of ", sign * best);
	}
	if (moved) c.nontrivial();
}

PROP("C26", gd_settings, 2000, 30000, 1, "finite steps, step sizes and numbers of starting points, valid and invalid; invalid ones are refused and leave the settings alone; non-trivial: something was refused") {
	GD a;
	double fs = a.getFiniteStep(), st = a.getStepSize();
	std::size_t np = a.getNStartingPoints(), n = c.size(1, 10);
	bool refused = false;
	for (std::size_t k = 0; k < n; k++) {
		bool thrown = false, bad = false;
		int what = (int)c.raw(3);
		double x = c.pick<double>({0., -0., -1., 1e-300, 0.5, 1., 1000., 1000.0001, 1e300, std::numeric_limits<double>::infinity()});
		std::size_t m = c.raw(4);
		c.note(what, " ", what == 2 ? (double)m : x);
		bad = what == 2 ? m == 0 : !(x > 0. && x <= 1000.);
		try { if (what == 0) a.setFiniteStep(x); else if (what == 1) a.setStepSize(x); else a.setNStartingPoints(m); } catch (gemfony_exception &) { thrown = true; }
		REQ(thrown == bad, "a value was ", thrown ? "refused" : "accepted");
		if (!bad) { if (what == 0) fs = x; else if (what == 1) st = x; else np = m; }
		refused = refused || bad;
		REQ(a.getFiniteStep() == fs && a.getStepSize() == st && a.getNStartingPoints() == np, "the settings are ", a.getFiniteStep(), " ", a.getStepSize(), " ", a.getNStartingPoints(), " instead of ", fs, " ", st, " ", np);
	}
	if (refused) c.nontrivial();
}

// ---- parameter scan ----------------------------------------------------------------------------------
struct Var { char type; std::size_t pos; std::string name; std::size_t idx; double lo, hi; std::size_t n; };
PROP("C27", scan, 5000, 40000, 6, "a scan over up to 4 of the parameters of an individual, floating point, integer and boolean, alone or in collections, addressed by position, name or name and index, on a grid, with random values or with randomly initialised individuals, for any population size, run once or twice; non-trivial: more points than fit into the population") {
	Prob p = gen_prob(c);
	p.nd = c.size(1, 3); p.ni = c.size(0, 2); p.nb = c.size(0, 2);
	auto base = gen_start(c, p);
	std::size_t coll = c.chance(1, 3) ? c.size(1, 3) : 0;
	if (coll) {
		std::vector<double> v;
		auto o = std::make_shared<gg::GDoubleCollection>(coll, p.lo, p.lo, p.hi);
		for (std::size_t k = 0; k < coll; k++) o->at(k) = p.lo + (double)k;
		o->addAdaptor(std::make_shared<gg::GDoubleGaussAdaptor>(0.5, 0.1, 0.001, 1., 1.));
		o->setParameterName("coll");
		base->push_back(o);
	}
	int addr = (int)c.raw(3), kind = (int)c.weighted({4, 2, 2}); // grid, random values, random individuals
	std::vector<Var> all;
	for (std::size_t k = 0; k < p.nd; k++) all.push_back({'d', k, "p" + std::to_string(k), 0, 0., 0., 0});
	for (std::size_t k = 0; k < coll && addr != 2; k++) all.push_back({'d', p.nd + k, "coll", k, 0., 0., 0});
	for (std::size_t k = 0; k < p.ni; k++) all.push_back({'i', k, "p" + std::to_string(p.nd + k), 0, 0., 0., 0});
	for (std::size_t k = 0; k < p.nb; k++) all.push_back({'b', k, "p" + std::to_string(p.nd + p.ni + k), 0, 0., 0., 0});
	std::size_t nv = c.size(1, std::min<std::size_t>(4, all.size())), total = 1;
	std::vector<Var> vars;
	std::ostringstream spec;
	auto sp = [&]() { return c.chance(1, 4) ? " " : ""; };
	for (std::size_t k = 0; k < nv; k++) {
		std::size_t j = c.size(0, all.size() - 1);
		Var v = all[j];
		all.erase(all.begin() + (long)j);
		if (k) spec << sp() << "," << sp();
		spec << v.type << "(" << sp();
		if (addr == 0) spec << v.pos; else if (addr == 1) spec << v.name << "[" << v.idx << "]"; else spec << v.name;
		v.n = c.size(1, 4);
		if (v.type == 'd') {
			std::size_t l = c.size(0, 14), h = c.size(l + 1, 15);
			v.lo = p.lo + (p.hi - p.lo) * (double)l / 16.; v.hi = p.lo + (p.hi - p.lo) * (double)h / 16.;
			if (kind == 0 && v.n < 2) v.n = 2;
			spec << "," << sp() << v.lo << "," << sp() << v.hi << "," << sp() << v.n;
		} else if (v.type == 'i') {
			std::int32_t l = (std::int32_t)c.range(-5, 5), h = l + (std::int32_t)c.raw(4);
			v.lo = l; v.hi = h;
			spec << "," << l << sp() << "," << h;
			bool steps = kind != 0 || c.flip();
			if (steps) spec << "," << v.n;
			if (kind == 0) v.n = (std::size_t)(h - l + 1);
		} else {
			v.lo = 0.; v.hi = 1.;
			bool steps = kind != 0 || c.flip();
			if (steps) spec << ",false,true," << v.n;
			if (kind == 0) v.n = 2;
		}
		spec << ")";
		total *= v.n;
		vars.push_back(v);
	}
	if (kind == 2) { total = c.size(1, 40); spec.str(""); spec << "s(" << total << ")"; if (c.chance(1, 4)) spec << ",d(0,0,1)"; }
	struct Open : PS { using PS::setDefaultPopulationSize; } a;
	std::size_t pop = c.size(1, 20);
	a.setDefaultPopulationSize(pop);
	a.setScanRandomly(kind == 1);
	a.setParameterSpecs(spec.str());
	a.setMaxIteration(1000); a.setMaxStallIteration(0); a.setReportIteration(1);
	Item b0 = item(base);
	auto fresh = base->clone<gg::GParameterSet>();
	a.push_back(base);
	for (std::size_t k = c.chance(1, 5) ? c.size(1, 3) : 0; k > 0; k--) a.push_back(gen_start(c, p)); // are ignored
	std::size_t runs = c.chance(1, 4) ? 2 : 1;
	c.note(spec.str(), kind == 0 ? " grid" : kind == 1 ? " random" : " simple", " population ", pop, " points ", total, " runs ", runs, "; ", p.str());
	c.label(kind == 0 ? "grid" : kind == 1 ? "random values" : "random individuals");
	double sign = p.maxi ? -1. : 1.;
	for (std::size_t r = 0; r < runs; r++) {
		if (r) { a.resetToOptimizationStart(); a.push_back(fresh->clone<gg::GParameterSet>()); }
		auto s = run_alg(a);
		std::vector<Eval> ev;
		for (auto &x: s) ev.insert(ev.end(), x.ev.begin(), x.ev.end());
		REQ(ev.size() == total, "run ", r, ": ", ev.size(), " points were evaluated instead of ", total);
		REQ(s.size() == (total + pop - 1) / pop + 2, "run ", r, ": there were ", s.size(), " notifications for ", total, " points");
		std::set<std::vector<std::size_t>> seen;
		double best = HIGHEST_D;
		std::set<std::string> keys;
		for (auto &e: ev) {
			Eval o = b0.e, q = e;
			std::vector<std::size_t> id;
			for (auto &v: vars) {
				double y = v.type == 'd' ? e.d[v.pos] : v.type == 'i' ? (double)e.i[v.pos] : (double)e.b[v.pos], eps = v.type == 'd' ? 1e-9 * (std::fabs(v.lo) + std::fabs(v.hi)) : 0.;
				if (kind != 2) REQ(y >= v.lo - eps && y <= v.hi + eps, "run ", r, ": the parameter ", v.name, " had the value ", y, " outside of ", v.lo, "..", v.hi);
				if (kind == 0) {
					double step = v.n > 1 ? (v.hi - v.lo) / (double)(v.n - 1) : 1.;
					std::size_t i = (std::size_t)std::llround((y - v.lo) / step);
					REQ(std::fabs(v.lo + step * (double)i - y) <= eps, "run ", r, ": the parameter ", v.name, " had the value ", y, ", which is not on the grid");
					id.push_back(i);
				}
				if (v.type == 'd') q.d[v.pos] = o.d[v.pos]; else if (v.type == 'i') q.i[v.pos] = o.i[v.pos]; else q.b[v.pos] = o.b[v.pos];
			}
			if (kind != 2) REQ(key(q) == b0.k, "run ", r, ": parameters that are not scanned changed from ", b0.k, " to ", key(q));
			else for (std::size_t k = 0; k < e.d.size(); k++) REQ(e.d[k] >= p.lo && e.d[k] <= p.hi, "run ", r, ": the parameter ", k, " had the value ", e.d[k], " outside of ", p.lo, "..", p.hi);
			if (kind == 0) REQ(seen.insert(id).second, "run ", r, ": a point of the grid was visited twice: ", key(e));
			double f = sign * p.f(e);
			best = std::min(best, f);
		}
		auto g = a.getBestGlobalIndividual<gg::GParameterSet>();
		REQ(sign * g->raw_fitness(0) == best && sign * p.f(item(g).e) == best, "run ", r, ": the best point found has the fitness ", g->raw_fitness(0), " instead of ", sign * best);
		bool was = false;
		for (auto &e: ev) was = was || key(e) == item(g).k;
		REQ(was, "run ", r, ": the best point was not visited");
	}
	if (total > pop) c.nontrivial();
}
PBT_MAIN
