// C24: the memory of swarm algorithms
#define INDIV_IMPL
#include "algorun.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp"
#include <set>
using namespace pbt;
using namespace H;
using Traits = gg::GSwarmAlgorithm_PersonalityTraits;

struct Part { gg::GParameterSet *id; std::size_t nb; bool has; Eval pb; double pq; };
struct SwSnap { std::vector<Part> p; std::vector<std::size_t> members; };

PROP("C24", swarm_memory, 3000, 20000, 6, "a swarm of 1 to 4 neighbourhoods of 2 to 6 particles, any number of supplied individuals, update rule, constants, velocity range, repulsion threshold, landscape (with ties, integer and boolean parameters, bounded and free ones, inactive ones) and direction, over up to 12 iterations, compared with a model that remembers all positions; non-trivial: some particle was at a position other than its personal best and the best of some neighbourhood changed") {
	Prob p = gen_prob(c); gen_limit(c, p);
	std::size_t nn = c.size(1, 4), nm = c.size(2, 6), iters = c.size(1, c.thorough() ? 30 : 12);
	SW a;
	a.setSwarmSizes(nn, nm);
	REQ(a.getNNeighborhoods() == nn && a.getDefaultNNeighborhoodMembers() == nm && a.getDefaultPopulationSize() == nn * nm, "the sizes were not taken");
	double cp = c.pick<double>({1.49, 0., 0.5, 2.}), cn = c.pick<double>({1.49, 0., 0.5, 2.}), cg = c.pick<double>({1., 0., 0.5, 2.}), cv = c.chance(2, 3) ? 0. : c.pick<double>({0.72, 0.1, 1.});
	double vr = c.pick<double>({0.15, 0.01, 1., 0.5});
	a.setCPersonal(cp); a.setCNeighborhood(cn); a.setCGlobal(cg); a.setCVelocity(cv); a.setVelocityRangePercentage(vr);
	a.setUpdateRule(c.pick<gg::updateRule>({gg::updateRule::SWARM_UPDATERULE_CLASSIC, gg::updateRule::SWARM_UPDATERULE_LINEAR}));
	std::uint32_t rep = c.chance(1, 4) ? (std::uint32_t)c.range(1, 4) : 0;
	a.setRepulsionThreshold(rep);
	bool rnd = c.flip();
	if (rnd) a.setNeighborhoodsRandomFillUp(true); else a.setNeighborhoodsEqualFillUp();
	a.setMaxIteration((std::uint32_t)iters); a.setMaxStallIteration(0); a.setReportIteration(1);
	std::size_t nstart = c.pick<std::size_t>({(std::size_t)1, nn, nn * nm, c.size(1, nn * nm)});
	std::size_t dead = p.nd > 1 && c.chance(1, 3) ? c.size(0, p.nd - 1) : (std::size_t)-1;
	std::vector<std::string> start;
	for (std::size_t k = 0; k < nstart; k++) {
		auto i = gen_start(c, p);
		if (dead != (std::size_t)-1) (*i)[dead]->setAdaptionsInactive();
		start.push_back(item(i).k);
		a.push_back(i);
	}
	c.note(nn, "x", nm, " start ", nstart, rnd ? " random" : " equal", " constants ", cp, " ", cn, " ", cg, " ", cv, " range ", vr, " repulsion ", rep, " inactive ", (long)dead, " iterations ", iters, "; ", p.str());
	std::vector<SwSnap> w;
	auto s = run_alg(a, 0, [&](OA const &o, Snap &sn) {
		SwSnap x;
		OAVec const &v = o;
		auto const &sw = dynamic_cast<SW const &>(o);
		for (auto const &q: v) {
			Part t{};
			t.id = q.get();
			if (sn.im != gg::infoMode::INFOPROCESSING) { x.p.push_back(t); continue; }
			auto tr = q->getPersonalityTraits<Traits>();
			t.nb = tr->getNeighborhood();
			if (auto b = tr->getPersonalBest()) {
				t.has = true;
				t.pb = item(b).e;
				t.pq = std::get<gg::G_TRANSFORMED_FITNESS>(tr->getPersonalBestQuality());
			}
			x.p.push_back(t);
		}
		for (std::size_t k = 0; k < nn; k++) x.members.push_back(sw.getCurrentNNeighborhoodMembers(k));
		w.push_back(x);
	});
	REQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
	struct Best { double f = HIGHEST_D; std::vector<Eval> at; void add(double g, Eval const &e) { if (g < f) { f = g; at.clear(); } if (g == f) at.push_back(e); } };
	std::map<gg::GParameterSet *, Best> pb;
	std::vector<Best> nb(nn);
	Best gb;
	// velocities of the last step, by place and by particle (a place's velocity may be used by the particle that is sorted into it)
	const double UNKNOWN = HIGHEST_D;
	std::vector<std::vector<double>> vplace(nn * nm, std::vector<double>(p.nd, UNKNOWN));
	std::map<gg::GParameterSet *, std::vector<double>> vpart;
	bool moved = false, improved = false;
	double sign = p.maxi ? -1. : 1.;
	for (std::size_t t = 0; t < iters; t++) {
		auto &x = s[t + 1], &o = s[t];
		auto &q = w[t + 1], &r = w[t];
		std::string at = "iteration " + std::to_string(t) + ": ";
		REQ(x.pop.size() == nn * nm, at, "there are ", x.pop.size(), " particles");
		std::size_t ninv = 0;
		for (auto &v: x.pop) if (not p.evaluated(v.e)) ninv++; // invalid ones are not evaluated
		if (ninv) c.label("invalid");
		REQ(x.ev.size() + ninv == nn * nm, at, x.ev.size(), " particles were evaluated, ", ninv, " were invalid");
		for (std::size_t k = 0; k < nn; k++) REQ(q.members[k] == nm, at, "neighbourhood ", k, " has ", q.members[k], " members");
		std::map<std::string, int> em;
		for (auto &e: x.ev) em[key(e)]++;
		for (auto &v: x.pop) if (not p.evaluated(v.e)) em[v.k]++;
		if (t == 0 && (nstart <= nn || nstart == nn * nm)) {
			auto m = em;
			for (auto &k: start) REQ(m[k]-- > 0, at, "the supplied individual ", k, " was not evaluated");
		}
		// where the particles went, by their positions before the step (serial evaluation works in that order)
		std::map<gg::GParameterSet *, Eval const *> went; // particles keep their identity
		for (std::size_t i = 0; i < nn * nm; i++) went[q.p[i].id] = &x.pop[i].e;
		if (t) for (std::size_t i = 0; i < nn * nm; i++) {
			REQ(went.count(r.p[i].id), at, "particle ", i, " is gone");
			Eval const &from = o.pop[i].e, &to = *went[r.p[i].id];
			if (not ninv) REQ(key(to) == key(x.ev[i]), at, "particle ", i, " is not where it was evaluated");
			std::size_t n = i / nm;
			std::vector<double> v1 = vplace[i], v2 = vpart.count(r.p[i].id) ? vpart[r.p[i].id] : std::vector<double>(p.nd, UNKNOWN), now(p.nd, UNKNOWN);
			bool repel = rep && o.stall >= rep;
			REQ(from.i == to.i && from.b == to.b, at, "integer or boolean parameters of particle ", i, " changed");
			for (std::size_t k = 0; k < p.nd; k++) {
				double step = to.d[k] - from.d[k], vmax = vr * (p.hi - p.lo), eps = 1e-9 * (std::fabs(from.d[k]) + std::fabs(to.d[k]) + vmax);
				if (k == dead) { REQ(step == 0., at, "the inactive parameter ", k, " of particle ", i, " changed"); continue; }
				if (p.bounded) REQ(to.d[k] >= p.lo && to.d[k] < p.hi, at, "the parameter ", k, " of particle ", i, " is ", to.d[k]);
				bool edge = p.bounded && (from.d[k] - vmax - eps < p.lo || from.d[k] + vmax + eps >= p.hi);
				if (edge) continue;
				REQ(std::fabs(step) <= vmax + eps, at, "the parameter ", k, " of particle ", i, " moved by ", step, ", the limit is ", vmax);
				now[k] = repel ? -step : step;
				double lo = 0., hi = 0.;
				for (double v: {v1[k], v2[k]}) { if (v == UNKNOWN) { lo = -cv * vmax; hi = cv * vmax; } else { lo = std::min(lo, cv * v); hi = std::max(hi, cv * v); } }
				auto pull = [&](Best const &b, double f) {
					double l = 0., h = 0.;
					for (auto &e: b.at) { double d = f * (e.d[k] - from.d[k]); l = std::min(l, d); h = std::max(h, d); }
					lo += l; hi += h;
				};
				pull(pb[r.p[i].id], cp); pull(nb[n], cn);
				if (nn > 1) pull(gb, cg);
				if (repel) { std::swap(lo, hi); lo = -lo; hi = -hi; }
				eps *= 1. + cp + cn + cg + cv;
				REQ(step >= lo - eps && step <= hi + eps, at, "the parameter ", k, " of particle ", i, " moved from ", from.d[k], " by ", step, " although its bests and its velocity only move it by ", lo, " to ", hi);
			}
			vplace[i] = vpart[r.p[i].id] = now;
		}
		for (std::size_t i = 0; i < nn * nm; i++) {
			auto &v = x.pop[i];
			REQ(v.done && v.raw[0] == p.raw(v.e), at, "particle ", i, " is not evaluated or shows a wrong fitness");
			REQ(em[v.k]-- > 0, at, "particle ", i, " is at a position that was not evaluated");
			REQ(q.p[i].nb == i / nm, at, "particle ", i, " belongs to neighbourhood ", q.p[i].nb);
			REQ(t == 0 || pb.count(q.p[i].id), at, "particle ", i, " was not there before");
			if (t) { bool same = false; for (std::size_t j = i / nm * nm; j < (i / nm + 1) * nm; j++) same = same || r.p[j].id == q.p[i].id; REQ(same, at, "particle ", i, " changed its neighbourhood"); }
			double f = sign * v.tr[0];
			auto &b = pb[q.p[i].id];
			b.add(f, v.e);
			if (f > b.f) moved = true;
			REQ(q.p[i].has, at, "particle ", i, " has no personal best");
			REQ(sign * q.p[i].pq == b.f, at, "the personal best of particle ", i, " is ", sign * q.p[i].pq, ", its best position had ", b.f, " and the current one has ", f);
			bool was = false;
			for (auto &e: b.at) was = was || key(e) == key(q.p[i].pb);
			REQ(was, at, "the personal best of particle ", i, " is not a position with that fitness it has had");
			double before = nb[i / nm].f;
			nb[i / nm].add(f, v.e);
			if (t && nb[i / nm].f < before) improved = true;
			gb.add(f, v.e);
		}
		REQ(sign * std::get<gg::G_TRANSFORMED_FITNESS>(x.bk) == gb.f, at, "the best known fitness is ", sign * std::get<gg::G_TRANSFORMED_FITNESS>(x.bk), " instead of ", gb.f);
	}
	c.label(cv == 0. ? "without inertia" : "with inertia");
	if (moved && improved) c.nontrivial();
}
PBT_MAIN
