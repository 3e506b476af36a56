// C09 serialisation round trips, C10 clone / load / compare
#define INDIV_IMPL
#include "genalg.hpp"
#include <filesystem>
using namespace H;

// ------------------------------------------------------------------ objects of all kinds, behind one interface
struct Obj {
	std::shared_ptr<gg::GObject> o;
	std::string kind;
	std::function<std::string(gg::GObject const &)> dump;      // everything
	std::function<std::string(gg::GObject const &)> settings;  // what comparison is answerable for
	std::function<std::string(pbt::Ctx &, gg::GObject &)> mutate;
};

static Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMLOCAL> &gr() { static Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMLOCAL> g; return g; }
static std::string scratch() {
	static std::string d;
	if (d.empty()) { char b[] = "/tmp/h_obj_XXXXXX"; d = ::mkdtemp(b); }
	return d;
}
template<typename T> std::string dump_ad(gg::GObject const &o) {
	auto a = std::dynamic_pointer_cast<gg::GAdaptorT<T>>(o.clone());
	return dump_adaptor<T>(a);
}
static std::string dump_ad_d(gg::GObject const &o) {
	auto a = std::dynamic_pointer_cast<gg::GAdaptorT<double>>(o.clone());
	return dump_adaptor<double>(a) + dump_bigauss(a);
}
template<typename A> std::string mut_common(pbt::Ctx &c, A &a) {
	auto r = a.getAdProbRange();
	auto in = [&]() { return std::get<0>(r) + (std::get<1>(r) - std::get<0>(r)) * c.unit(); };
	switch (c.raw(7)) {
		case 0: a.setAdaptionProbability(in()); return "adprob";
		case 1: a.setResetAdaptionProbability(in()); return "resetadprob";
		case 2: a.setAdaptAdaptionProbability(c.unit()); return "adaptadaptionprob";
		case 3: a.setAdaptAdProb(c.real(0., 0.5)); return "adaptadprob";
		case 4: a.setAdaptionThreshold((std::uint32_t)c.range(0, 5)); return "threshold";
		case 5: a.setAdaptionMode(c.pick<gg::adaptionMode>({gg::adaptionMode::WITHPROBABILITY, gg::adaptionMode::ALWAYS, gg::adaptionMode::NEVER})); return "mode";
		default: a.setAdProbRange(std::get<0>(r) * 0.5, std::get<1>(r)); return "adprobrange";
	}
}
template<typename A> std::string mut_gauss(pbt::Ctx &c, A &a) {
	auto r = a.getSigmaRange();
	switch (c.raw(5)) {
		case 0: a.setSigma(std::get<0>(r) + (std::get<1>(r) - std::get<0>(r)) * c.unit()); return "sigma";
		case 1: a.setSigmaAdaptionRate(c.unit()); return "sigmarate";
		case 2: a.setResetSigma(std::get<0>(r) + (std::get<1>(r) - std::get<0>(r)) * c.unit()); return "resetsigma";
		case 3: a.setSigmaRange(std::get<0>(r) * 0.5, std::get<1>(r)); return "sigmarange";
		default: return mut_common(c, a);
	}
}
template<typename T> std::string mut_bigauss(pbt::Ctx &c, gg::GNumBiGaussAdaptorT<T, double> &a) {
	auto r1 = a.getSigma1Range(), r2 = a.getSigma2Range(), rd = a.getDeltaRange();
	auto in = [&](std::tuple<double, double> r) { return std::get<0>(r) + (std::get<1>(r) - std::get<0>(r)) * c.unit(); };
	switch (c.raw(11)) {
		case 0: a.setSigma1(in(r1)); return "sigma1";
		case 1: a.setSigma2(in(r2)); return "sigma2";
		case 2: a.setDelta(in(rd)); return "delta";
		case 3: a.setSigma1AdaptionRate(c.unit()); return "sigma1rate";
		case 4: a.setSigma2AdaptionRate(c.unit()); return "sigma2rate";
		case 5: a.setDeltaAdaptionRate(c.unit()); return "deltarate";
		case 6: a.setSigma1Range(std::get<0>(r1) * 0.5, std::get<1>(r1)); return "sigma1range";
		case 7: a.setSigma2Range(std::get<0>(r2) * 0.5, std::get<1>(r2)); return "sigma2range";
		case 8: a.setDeltaRange(std::get<0>(rd) * 0.5, std::get<1>(rd)); return "deltarange";
		case 9: a.setUseSymmetricSigmas(!a.getUseSymmetricSigmas()); return "symmetric";
		default: return mut_common(c, a);
	}
}
static std::string mut_adaptor(pbt::Ctx &c, gg::GObject &o) {
	if (auto a = dynamic_cast<gg::GDoubleGaussAdaptor *>(&o)) { if (c.chance(1, 4)) { double v = 1.; a->adapt(v, 1., gr()); return "adapt"; } return mut_gauss(c, *a); }
	if (auto a = dynamic_cast<gg::GInt32GaussAdaptor *>(&o)) { if (c.chance(1, 4)) { std::int32_t v = 1; a->adapt(v, 10, gr()); return "adapt"; } return mut_gauss(c, *a); }
	if (auto a = dynamic_cast<gg::GDoubleBiGaussAdaptor *>(&o)) { if (c.chance(1, 4)) { double v = 1.; a->adapt(v, 1., gr()); return "adapt"; } return mut_bigauss<double>(c, *a); }
	if (auto a = dynamic_cast<gg::GInt32FlipAdaptor *>(&o)) { if (c.chance(1, 4)) { std::int32_t v = 1; a->adapt(v, 10, gr()); return "adapt"; } return mut_common(c, *a); }
	if (auto a = dynamic_cast<gg::GBooleanAdaptor *>(&o)) { if (c.chance(1, 4)) { bool v = true; a->adapt(v, true, gr()); return "adapt"; } return mut_common(c, *a); }
	throw std::runtime_error("harness: unknown adaptor");
}
template<typename C> bool mut_child(pbt::Ctx &c, gg::GParameterBase &p, std::string &r);
static std::string mut_param(pbt::Ctx &c, gg::GParameterBase &p) {
	std::string r;
	switch (c.raw(8)) {
		case 0: p.setParameterName("m" + c.text("abcdef", 1, 6)); return "name";
		case 1: if (p.adaptionsActive()) p.setAdaptionsInactive(); else p.setAdaptionsActive(); return "active";
		case 2: if (!p.randomInitializationBlocked()) { p.blockRandomInitialization(); return "block"; } break;
		default: break;
	}
	if (mut_child<gg::GParameterObjectCollection>(c, p, r) || mut_child<gg::GDoubleObjectCollection>(c, p, r) || mut_child<gg::GConstrainedDoubleObjectCollection>(c, p, r)
		|| mut_child<gg::GInt32ObjectCollection>(c, p, r) || mut_child<gg::GConstrainedInt32ObjectCollection>(c, p, r) || mut_child<gg::GBooleanObjectCollection>(c, p, r)) return r;
	auto adapt = [&](auto *q, auto gen) { if (c.chance(1, 4)) { q->addAdaptor(gen(c)); return true; } return false; };
	if (auto q = dynamic_cast<gg::GParameterBaseWithAdaptorsT<double> *>(&p)) { if (adapt(q, gen_d_adaptor)) return "adaptor"; }
	if (auto q = dynamic_cast<gg::GParameterBaseWithAdaptorsT<std::int32_t> *>(&p)) { if (adapt(q, gen_i_adaptor)) return "adaptor"; }
	if (auto q = dynamic_cast<gg::GParameterBaseWithAdaptorsT<bool> *>(&p)) { if (adapt(q, gen_b_adaptor)) return "adaptor"; }
	if (c.chance(1, 5)) { // boundaries only
		double lo = c.real(-10., 10.), hi = lo + c.real(0.5, 5.);
		if (auto q = dynamic_cast<gg::GConstrainedDoubleObject *>(&p)) { q->setBoundaries(-1e9 - c.range(0, 3), 1e9 + c.range(0, 3)); return "boundaries"; }
		if (auto q = dynamic_cast<gg::GConstrainedInt32Object *>(&p)) { q->setBoundaries(-100 - (std::int32_t)c.range(0, 3), 100 + (std::int32_t)c.range(0, 3)); return "boundaries"; }
		if (auto q = dynamic_cast<gg::GDoubleObject *>(&p)) { q->setInitBoundaries(lo, hi); return "boundaries"; }
		if (auto q = dynamic_cast<gg::GInt32Object *>(&p)) { q->setInitBoundaries((std::int32_t)lo, (std::int32_t)lo + 7); return "boundaries"; }
		if (auto q = dynamic_cast<gg::GDoubleCollection *>(&p)) { q->setInitBoundaries(lo, hi); return "boundaries"; }
		if (auto q = dynamic_cast<gg::GInt32Collection *>(&p)) { q->setInitBoundaries((std::int32_t)lo, (std::int32_t)lo + 7); return "boundaries"; }
	}
	if (c.chance(1, 5)) { p.adapt(gr()); return "adapt"; }
	// a value
	std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b;
	p.streamline<double>(d, gg::activityMode::ALLPARAMETERS); p.streamline<std::int32_t>(i, gg::activityMode::ALLPARAMETERS); p.streamline<bool>(b, gg::activityMode::ALLPARAMETERS);
	std::size_t n = d.size() + i.size() + b.size();
	if (n == 0) return "nothing";
	std::size_t k = c.raw(n);
	if (auto q = dynamic_cast<gg::GDoubleObject *>(&p)) q->setValue(c.flip() ? std::nextafter(d[0], 1e300) : c.nice_double());
	else if (auto q = dynamic_cast<gg::GConstrainedDoubleObject *>(&p)) q->setValue(q->getLowerBoundary() + 0.9 * c.unit() * (q->getUpperBoundary() - q->getLowerBoundary()));
	else if (auto q = dynamic_cast<gg::GInt32Object *>(&p)) q->setValue((std::int32_t)c.range(-70, 70));
	else if (auto q = dynamic_cast<gg::GConstrainedInt32Object *>(&p)) q->setValue((std::int32_t)c.range(q->getLowerBoundary(), q->getUpperBoundary()));
	else if (auto q = dynamic_cast<gg::GBooleanObject *>(&p)) q->setValue(!b[0]);
	else if (auto q = dynamic_cast<gg::GDoubleCollection *>(&p)) q->setValue(k, c.flip() ? std::nextafter(d[k], 1e300) : c.nice_double());
	else if (auto q = dynamic_cast<gg::GConstrainedDoubleCollection *>(&p)) q->setValue(k, q->getLowerBoundary() + 0.9 * c.unit() * (q->getUpperBoundary() - q->getLowerBoundary()));
	else if (auto q = dynamic_cast<gg::GInt32Collection *>(&p)) q->setValue(k, (std::int32_t)c.range(-70, 70));
	else if (auto q = dynamic_cast<gg::GBooleanCollection *>(&p)) q->setValue(k, !b[k]);
	else return "nothing";
	return "value";
}
template<typename C> bool mut_child(pbt::Ctx &c, gg::GParameterBase &p, std::string &r) {
	auto q = dynamic_cast<C *>(&p);
	if (!q) return false;
	if (q->size() == 0) { r = "nothing"; return true; }
	std::size_t k = c.raw(q->size());
	if (c.chance(1, 6)) { q->erase(q->begin() + k); r = "erase"; return true; }
	r = "child:" + mut_param(c, *(*q)[k]);
	return true;
}
static std::shared_ptr<gg::GParameterSetConstraint> gen_constraint(pbt::Ctx &c) {
	std::shared_ptr<gg::GParameterSetConstraint> r = std::make_shared<gg::GParameterSetFormulaConstraint>(c.pick<std::string>({"1.5", "0.5", "2*3", "sin(1)", "10"}));
	if (c.flip()) r->setAllowNegative(true);
	return r;
}
static std::shared_ptr<gg::GPreEvaluationValidityCheckT<gg::GParameterSet>> gen_check(pbt::Ctx &c) {
	if (c.flip()) return gen_constraint(c);
	auto q = std::make_shared<gg::GCheckCombinerT<gg::GParameterSet>>();
	q->setCombinerPolicy(c.flip() ? gg::validityCheckCombinerPolicy::ADDINVALID : gg::validityCheckCombinerPolicy::MULTIPLYINVALID);
	std::size_t n = c.size(1, 3);
	for (std::size_t k = 0; k < n; k++) q->addCheck(gen_constraint(c));
	return q;
}
static std::shared_ptr<gg::GPersonalityTraits> gen_traits(pbt::Ctx &c) {
	auto pc = [&](auto q) {
		if (c.flip()) q->setIsParent(); else q->setIsChild();
		q->setPopulationPosition(c.size(0, 9));
		if (c.flip()) q->setParentId(c.size(0, 5));
		return q;
	};
	switch (c.raw(5)) {
		case 0: { auto q = pc(std::make_shared<gg::GEvolutionaryAlgorithm_PersonalityTraits>()); if (c.flip()) q->setIsNotOnParetoFront(); return q; }
		case 1: return pc(std::make_shared<gg::GSimulatedAnnealing_PersonalityTraits>());
		case 2: { auto q = std::make_shared<gg::GSwarmAlgorithm_PersonalityTraits>(); q->setNeighborhood(c.size(0, 5)); if (c.flip()) q->setNoPositionUpdate();
			if (c.flip()) { GenOpt go; go.nested = false; Tree t; auto b = gen_ind(c, go, t, 1, 3); b->mark_as_due_for_processing(); b->process(); q->registerPersonalBest(b); }
			return q; }
		case 3: { auto q = std::make_shared<gg::GGradientDescent_PersonalityTraits>(); q->setPopulationPosition(c.size(0, 9)); return q; }
		default: { auto q = std::make_shared<gg::GParameterScan_PersonalityTraits>(); q->setPopulationPosition(c.size(0, 9)); return q; }
	}
}
static std::string mut_ind(pbt::Ctx &c, gg::GParameterSet &p) {
	PVec &v = p;
	switch (c.raw(18)) {
		case 0: p.setMaxMode(p.getMaxMode() == gg::maxMode::MINIMIZE ? gg::maxMode::MAXIMIZE : gg::maxMode::MINIMIZE); return "maxmode";
		case 1: p.setSteepness(c.real(0.01, 3.)); return "steepness";
		case 2: p.setBarrier(c.real(0.01, 300.)); return "barrier";
		case 3: p.setMaxUnsuccessfulAdaptions(c.size(1, 2000)); return "maxunsucc";
		case 4: p.setMaxRetriesUntilValid(c.size(0, 2000)); return "maxretries";
		case 5: p.setAssignedIteration((std::uint32_t)c.range(0, 999)); return "assignediteration";
		case 6: p.setNStalls((std::uint32_t)c.range(0, 99)); return "nstalls";
		case 7: p.setRandomCrash(true, c.unit()); return "randomcrash";
		case 8: p.setEvaluationPolicy(c.pick<gg::evaluationPolicy>({gg::evaluationPolicy::USESIMPLEEVALUATION, gg::evaluationPolicy::USESIGMOID, gg::evaluationPolicy::USEWORSTCASEFORINVALID})); return "policy";
		case 9: p.setBestKnownPrimaryFitness(std::make_tuple(c.nice_double(), c.nice_double())); return "bestknown";
		case 10: p.setPersonality(gen_traits(c)); return "traits";
		case 11: p.registerConstraint(gen_check(c)); return "constraint";
		case 12: { GenOpt go; Tree t; t.names = (int)c.range(100, 9999); v.push_back(gen_param(c, go, t)); return "push_back"; }
		case 13: if (v.size() > 1) { v.erase(v.begin() + (long)c.raw(v.size())); return "erase"; } return "nothing";
		default: if (v.empty()) return "nothing"; return "param:" + mut_param(c, *v[c.raw(v.size())]);
	}
}
static std::string evaluate(pbt::Ctx &c, HInd &p) {
	p.setRandomCrash(false, 0.);
	p.m_throw_at = (int)c.weighted({5, 1, 1});
	p.mark_as_due_for_processing();
	try { p.process(); } catch (std::exception &) {} catch (...) {}
	return "evaluate";
}
static Obj gen_object(pbt::Ctx &c, bool run_algs) {
	Obj r;
	GenOpt go; go.empty_coll = true;
	switch (c.weighted({5, 4, 6, 6, 2, 2})) {
		case 0: { // parameter object
			Tree t;
			auto p = gen_param(c, go, t);
			r.o = p; r.kind = "parameter:" + p->name();
			r.dump = r.settings = [](gg::GObject const &o) { return dump(dynamic_cast<gg::GParameterBase const &>(o)); };
			r.mutate = [](pbt::Ctx &c, gg::GObject &o) { return mut_param(c, dynamic_cast<gg::GParameterBase &>(o)); };
			break;
		}
		case 1: { // adaptor
			switch (c.raw(3)) {
				case 0: r.o = gen_d_adaptor(c); r.dump = dump_ad_d; break;
				case 1: r.o = gen_i_adaptor(c); r.dump = dump_ad<std::int32_t>; break;
				default: r.o = gen_b_adaptor(c); r.dump = dump_ad<bool>; break;
			}
			r.settings = r.dump; r.mutate = mut_adaptor;
			r.kind = "adaptor:" + r.o->name();
			break;
		}
		case 2: { // individual
			Tree t;
			auto p = gen_ind(c, go, t, 0, 5, c.size(1, 3));
			p->m_fn = (int)c.raw(6);
			std::size_t n = c.size(0, 6);
			for (std::size_t k = 0; k < n; k++) mut_ind(c, *p);
			if (c.flip()) { evaluate(c, *p); c.label("evaluated"); }
			r.o = p; r.kind = "individual";
			r.dump = [](gg::GObject const &o) { return dump(dynamic_cast<gg::GParameterSet const &>(o)); };
			r.settings = [](gg::GObject const &o) { return dump_settings(dynamic_cast<gg::GParameterSet const &>(o)); };
			r.mutate = [](pbt::Ctx &c, gg::GObject &o) { auto &p = dynamic_cast<HInd &>(o); if (c.chance(1, 8)) return evaluate(c, p); return mut_ind(c, p); };
			break;
		}
		case 3: { // algorithm
			int k = (int)c.raw(5);
			auto a = make_alg(k);
			std::size_t n = c.size(0, 8);
			for (std::size_t i = 0; i < n; i++) alg_set_random(c, *a);
			std::size_t m = c.size(0, std::min<std::size_t>(3, a->getDefaultPopulationSize())); // too many individuals are refused
			GenOpt go2; go2.moderate = true;
			Tree t; // one structure for all
			std::shared_ptr<HInd> first;
			for (std::size_t i = 0; i < m; i++) {
				if (!first) { first = std::make_shared<HInd>(1); auto q = std::make_shared<gg::GConstrainedDoubleObject>(0.5, -1., 1.); q->setParameterName("first"); first->push_back(q); for (std::size_t j = 0, s = c.size(0, 3); j < s; j++) first->push_back(gen_param(c, go2, t)); }
				auto p = first->clone<HInd>();
				if (i) { p->randomInit(gg::activityMode::ACTIVEONLY); }
				a->push_back(p);
			}
			c.label(std::string("alg ") + alg_name(k));
			if (m > 0 && run_algs && c.flip()) {
				a->setMinIteration(0); a->setMaxIteration((std::uint32_t)c.range(1, 3)); a->setMinTime(std::chrono::duration<double>(0.)); a->setCheckpointInterval(0);
				a->setQualityThreshold(0., false); a->setMaxTime(std::chrono::duration<double>(1000.)); a->setEmitTerminationReason(false);
				if (auto ps = std::dynamic_pointer_cast<PS>(a)) ps->setParameterSpecs("d(first, -1., 1., 5)");
				a->registerExecutor(gg::execMode::SERIAL, scratch() + "/GSerialExecutor.json");
				a->optimize((std::uint32_t)c.raw(3));
				c.label("run");
			}
			r.o = a; r.kind = std::string("algorithm:") + alg_name(k);
			r.dump = [](gg::GObject const &o) { return H::dump(dynamic_cast<OA const &>(o)); };
			r.settings = [](gg::GObject const &o) { auto const &a = dynamic_cast<OA const &>(o); std::string s = dump_alg_settings(a); OAVec const &v = a; s += "\nn=" + std::to_string(v.size()) + "\n"; for (auto const &x: v) s += dump_settings(*x); return s; };
			r.mutate = [](pbt::Ctx &c, gg::GObject &o) {
				auto &a = dynamic_cast<OA &>(o);
				OAVec &v = a;
				if (!v.empty() && c.chance(1, 4)) return "individual:" + mut_ind(c, *v[c.raw(v.size())]);
				return alg_set_random(c, a);
			};
			break;
		}
		case 4: { // constraints
			auto k = gen_check(c);
			r.o = k; r.kind = "check:" + k->name();
			r.dump = r.settings = [](gg::GObject const &o) {
				auto k = std::dynamic_pointer_cast<gg::GPreEvaluationValidityCheckT<gg::GParameterSet>>(o.clone());
				HInd h; h.push_back(std::make_shared<gg::GDoubleObject>(1.));
				std::ostringstream s;
				s << k->name() << " neg=" << k->getAllowNegative() << " check=" << num(k->check(&h));
				if (auto q = std::dynamic_pointer_cast<gg::GCheckCombinerT<gg::GParameterSet>>(k)) s << " pol=" << (int)q->getCombinerPolicy();
				return s.str();
			};
			r.mutate = [](pbt::Ctx &c, gg::GObject &o) -> std::string {
				if (auto q = dynamic_cast<gg::GCheckCombinerT<gg::GParameterSet> *>(&o)) {
					if (c.flip()) { q->addCheck(gen_constraint(c)); return "addCheck"; }
					q->setCombinerPolicy(q->getCombinerPolicy() == gg::validityCheckCombinerPolicy::ADDINVALID ? gg::validityCheckCombinerPolicy::MULTIPLYINVALID : gg::validityCheckCombinerPolicy::ADDINVALID);
					return "policy";
				}
				auto &k = dynamic_cast<gg::GPreEvaluationValidityCheckT<gg::GParameterSet> &>(o);
				k.setAllowNegative(!k.getAllowNegative());
				return "allowNegative";
			};
			break;
		}
		default: { // personality traits
			auto k = gen_traits(c);
			r.o = k; r.kind = "traits:" + k->name();
			r.dump = r.settings = [](gg::GObject const &o) { return dump_traits(std::dynamic_pointer_cast<gg::GPersonalityTraits>(o.clone())); };
			r.mutate = [](pbt::Ctx &c, gg::GObject &o) -> std::string {
				if (auto q = dynamic_cast<gg::GBaseParChildPersonalityTraits *>(&o)) {
					switch (c.raw(4)) { case 0: q->setIsParent(); return "parent"; case 1: q->setIsChild(); return "child"; case 2: q->setPopulationPosition(c.size(0, 9)); return "pos"; default: q->setParentId(c.size(0, 9)); return "parentid"; }
				}
				if (auto q = dynamic_cast<gg::GSwarmAlgorithm_PersonalityTraits *>(&o)) { q->setNeighborhood(c.size(0, 9)); return "neighborhood"; }
				if (auto q = dynamic_cast<gg::GGradientDescent_PersonalityTraits *>(&o)) { q->setPopulationPosition(c.size(0, 9)); return "pos"; }
				dynamic_cast<gg::GParameterScan_PersonalityTraits &>(o).setPopulationPosition(c.size(0, 9));
				return "pos";
			};
		}
	}
	c.label(r.kind);
	return r;
}
static const std::vector<gc::serializationMode> MODES{gc::serializationMode::TEXT, gc::serializationMode::XML, gc::serializationMode::BINARY};
static const char *MODENAME[] = {"text", "xml", "binary"};

static void transfer(pbt::Ctx &c, gg::GObject const &from, gg::GObject &to, int mode, int route) {
	switch (route) {
		case 0: to.fromString(from.toString(MODES[mode]), MODES[mode]); break;
		case 1: { std::stringstream s; from.toStream(s, MODES[mode]); to.fromStream(s, MODES[mode]); break; }
		default: {
			std::string f = scratch() + "/o" + std::to_string(::getpid());
			if (c.flip()) { std::ofstream g(f); g << std::string(100000, 'x'); } // an older, longer file of the same name
			from.toFile(f, MODES[mode]);
			to.fromFile(f, MODES[mode]);
			std::filesystem::remove(f);
		}
	}
}

PROP("C09", obj_roundtrip, 1500, 40000, 6, "a random object of any kind (parameters, adaptors, individuals, algorithms before and after a run, constraints, traits) through a random format and route into another object of its class; non-trivial: it has content besides its defaults") {
	Obj a = gen_object(c, true);
	int mode = (int)c.raw(3), route = (int)c.raw(3);
	c.note(a.kind, " as ", MODENAME[mode], " via ", route);
	std::string before = a.dump(*a.o);
	c.note("settings ", before.substr(0, 300));
	// the target: of the same class, but with other content
	auto t = a.o->clone();
	std::size_t n = c.size(0, 5);
	for (std::size_t k = 0; k < n; k++) c.note("target mutated: ", a.mutate(c, *t));
	if (before.size() > 150) c.nontrivial();
	transfer(c, *a.o, *t, mode, route);
	REQ(a.dump(*a.o) == before, "writing the object changed it: ", diff(before, a.dump(*a.o)));
	std::string after = a.dump(*t);
	REQ(after == before, "the restored object differs: ", diff(before, after));
	REQ(lib_equal(*a.o, *t) && lib_equal(*t, *a.o), "the restored object does not compare equal to the original");
	REQ(lib_equal(*a.o, *t, gc::expectation::FP_SIMILARITY), "the restored object does not compare similar to the original");
	// once more, in another format
	int mode2 = (int)c.raw(3);
	auto u = a.o->clone();
	transfer(c, *t, *u, mode2, 0);
	REQ(a.dump(*u) == before, "writing and reading the restored object gives another object: ", diff(before, a.dump(*u)));
	REQ(lib_equal(*a.o, *u), "the object read in the second round does not compare equal");
}

PROP("C09", obj_not_finite, 3000, 100000, 4, "an individual with infinite or undefined results is written and read; non-trivial: one of the results is not finite") {
	std::size_t n = c.size(1, 4);
	HInd a(n), b(c.size(1, 3));
	std::vector<gg::parameterset_processing_result> r;
	std::vector<double> v;
	const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
	auto val = [&]() { double x = c.pick<double>({0., 1., -2.5, inf, -inf, nan, std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::denorm_min()}); v.push_back(x); if (!std::isfinite(x)) c.nontrivial(); return x; };
	for (std::size_t k = 0; k < n; k++) { double x = val(), y = val(); r.emplace_back(x, y); }
	a.markAsProcessedWith(r);
	std::ostringstream o; for (auto x: v) o << x << " "; c.note(o.str());
	std::size_t m = c.raw(3);
	switch (c.raw(2)) {
		case 0: b.fromString(a.toString(MODES[m]), MODES[m]); break;
		default: { std::stringstream st; static_cast<gg::GObject &>(a).toStream(st, MODES[m]); static_cast<gg::GObject &>(b).fromStream(st, MODES[m]); }
	}
	REQ(b.is_processed() && b.getNStoredResults() == n, "the copy has the status ", b.getProcessingStatusAsStr(), " and ", b.getNStoredResults(), " results");
	auto eq = [](double x, double y) { return std::isnan(x) ? std::isnan(y) : x == y; };
	for (std::size_t k = 0; k < n; k++) REQ(eq(v[2 * k], b.raw_fitness(k)) && eq(v[2 * k + 1], b.transformed_fitness(k)), "result ", k, " is ", b.raw_fitness(k), ", ", b.transformed_fitness(k), " instead of ", v[2 * k], ", ", v[2 * k + 1]);
}
PROP("C09", obj_damaged, 500, 10000, 4, "a serialised object, truncated, is read into another object: an exception, never a crash; non-trivial: the text was cut") {
	Obj a = gen_object(c, false);
	int mode = (int)c.raw(2); // Boost's binary format is not protected against damage and makes no promise
	std::string s = a.o->toString(MODES[mode]);
	std::size_t cut = c.size(0, s.size() * 3 / 4);
	c.note(a.kind, " as ", MODENAME[mode], " cut at ", cut, " of ", s.size());
	auto t = a.o->clone();
	std::string before = a.dump(*t);
	bool thrown = false;
	try { t->fromString(s.substr(0, cut), MODES[mode]); } catch (std::exception &) { thrown = true; }
	c.nontrivial();
	REQ(thrown, "a truncated text was accepted");
	REQ(a.dump(*t) == before, "a failed read changed the object: ", diff(before, a.dump(*t)));
}

PROP("C10", obj_clone, 1500, 40000, 6, "clone of a random object, random changes to one of the two, comparison and loading back; non-trivial: a change was visible") {
	Obj a = gen_object(c, true);
	c.note(a.kind);
	std::string before = a.dump(*a.o);
	auto b = a.o->clone();
	REQ(typeid(*b) == typeid(*a.o), "clone has another type");
	REQ(a.dump(*b) == before, "clone differs: ", diff(before, a.dump(*b)));
	REQ(lib_equal(*a.o, *b) && lib_equal(*b, *a.o), "clone does not compare equal");
	REQ(!lib_equal(*a.o, *b, gc::expectation::INEQUALITY), "clone also compares unequal");
	std::string sb = a.settings(*b);
	std::size_t n = c.size(1, 4);
	bool mutate_orig = c.flip();
	gg::GObject &m = mutate_orig ? *a.o : *b, &k = mutate_orig ? *b : *a.o;
	std::string all;
	for (std::size_t i = 0; i < n; i++) all += a.mutate(c, m) + " ";
	c.note("mutations ", all);
	REQ(a.dump(k) == before, "changing one object (", all, ") changed its clone: ", diff(before, a.dump(k)));
	std::string sm = a.settings(m);
	if (sm != sb) {
		c.nontrivial();
		REQ(!lib_equal(*a.o, *b) && !lib_equal(*b, *a.o), "the objects differ after ", all, ": ", diff(sb, sm), " but compare equal");
		REQ(lib_equal(*a.o, *b, gc::expectation::INEQUALITY), "the objects differ after ", all, ": ", diff(sb, sm), " but do not compare unequal");
	}
	// load the unchanged into the changed one
	switch (c.raw(2)) {
		case 0: m.load(k); break;
		default: m.load(std::shared_ptr<gg::GObject>(k.clone()));
	}
	std::string dm = a.dump(m);
	REQ(dm == before, "after loading (changed by ", all, "): ", diff(before, dm));
	REQ(lib_equal(*a.o, *b), "after loading the objects do not compare equal (changed by ", all, ")");
	// and they are still independent
	all += "/ " + a.mutate(c, m);
	REQ(a.dump(k) == before, "after loading, changing one object (", all, ") changed the other: ", diff(before, a.dump(k)));
}

PROP("C10", obj_pairs, 1000, 30000, 4, "two independent random objects of the same class: comparison agrees with their observable difference, and loading one into the other makes them equal; non-trivial: they differ") {
	Obj a = gen_object(c, true), b = gen_object(c, false);
	if (typeid(*a.o) != typeid(*b.o)) c.discard();
	c.note(a.kind);
	std::string da = a.dump(*a.o), db = a.dump(*b.o);
	if (a.settings(*a.o) != a.settings(*b.o)) {
		c.nontrivial();
		REQ(!lib_equal(*a.o, *b.o) && !lib_equal(*b.o, *a.o), "objects differ but compare equal: ", diff(da, db));
	}
	b.o->load(*a.o);
	REQ(a.dump(*a.o) == da, "loading from an object changed it");
	REQ(a.dump(*b.o) == da, "loading: ", diff(da, a.dump(*b.o)));
	REQ(lib_equal(*a.o, *b.o), "after loading, the objects do not compare equal");
	for (std::size_t i = 0, n = c.size(1, 3); i < n; i++) a.mutate(c, *b.o);
	REQ(a.dump(*a.o) == da, "after loading, the objects share state: ", diff(da, a.dump(*a.o)));
}
PBT_MAIN
