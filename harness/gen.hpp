// Random parameter objects, adaptors and individuals; a model of what a parameter tree contains;
// and a textual dump of everything that can be observed about an object.
#pragma once
#include "indiv.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent_PersonalityTraits.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan_PersonalityTraits.hpp"

namespace H {
using PB = std::shared_ptr<gg::GParameterBase>;
using PVec = gc::GPtrVectorT<gg::GParameterBase, gg::GObject>;

// A leaf of a parameter tree, as the generator made it
struct Leaf {
	char type;                // d, i, b
	std::string name;
	std::vector<double> v;    // the values
	double lo, hi;            // what boundaries() is to report
	bool constrained;
	bool active;              // the leaf's own flag
	bool adaptable;           // the flags of the leaf and all its ancestors
	bool initable;            // no block of the random initialisation on the way to the leaf
	bool single;              // not a collection
	PB obj;
};

// ------------------------------------------------------------------------------------- adaptors
template<typename A> void gen_adaptor_common(pbt::Ctx &c, A &a) {
	double lo = c.pick<double>({0., 0.001, 0.05, 0.25}), hi = c.pick<double>({1., 0.9, 0.5});
	if (c.flip()) a.setAdProbRange(lo, hi);
	auto r = a.getAdProbRange();
	auto in = [&]() { return std::get<0>(r) + (std::get<1>(r) - std::get<0>(r)) * c.unit(); };
	if (c.flip()) a.setAdaptionProbability(in());
	if (c.flip()) a.setResetAdaptionProbability(in());
	if (c.flip()) a.setAdaptAdaptionProbability(c.unit());
	if (c.flip()) a.setAdaptAdProb(c.real(0., 0.5));
	if (c.flip()) a.setAdaptionThreshold((std::uint32_t)c.range(0, 5));
	if (c.flip()) a.setAdaptionMode(c.pick<gg::adaptionMode>({gg::adaptionMode::WITHPROBABILITY, gg::adaptionMode::ALWAYS, gg::adaptionMode::NEVER}));
}
template<typename A> void gen_gauss(pbt::Ctx &c, A &a) {
	if (c.flip()) {
		double mn = c.pick<double>({0.001, 0.01, 0.05}), mx = c.pick<double>({1., 0.5, 0.1});
		double s = mn + (mx - mn) * c.unit();
		a.setAll(s, c.real(0., 1.), mn, mx);
		if (c.flip()) a.setResetSigma(mn + (mx - mn) * c.unit());
	}
	gen_adaptor_common(c, a);
}
template<typename A> void gen_bigauss(pbt::Ctx &c, A &a) {
	if (c.flip()) {
		auto one = [&](double &mn, double &mx, double &s) { mn = c.pick<double>({0.001, 0.01, 0.05}); mx = c.pick<double>({1., 0.5, 2.}); s = mn + (mx - mn) * c.unit(); };
		double mn, mx, s;
		one(mn, mx, s); a.setAllSigma1(s, c.real(0., 1.), mn, mx);
		one(mn, mx, s); a.setAllSigma2(s, c.real(0., 1.), mn, mx);
		one(mn, mx, s); a.setAllDelta(s, c.real(0., 1.), mn, mx);
		a.setUseSymmetricSigmas(c.flip());
	}
	gen_adaptor_common(c, a);
}
inline std::shared_ptr<gg::GAdaptorT<double>> gen_d_adaptor(pbt::Ctx &c) {
	if (c.flip()) { auto a = std::make_shared<gg::GDoubleBiGaussAdaptor>(); gen_bigauss(c, *a); return a; }
	auto a = std::make_shared<gg::GDoubleGaussAdaptor>(); gen_gauss(c, *a); return a;
}
inline std::shared_ptr<gg::GAdaptorT<std::int32_t>> gen_i_adaptor(pbt::Ctx &c) {
	if (c.flip()) { auto a = std::make_shared<gg::GInt32FlipAdaptor>(); gen_adaptor_common(c, *a); return a; }
	auto a = std::make_shared<gg::GInt32GaussAdaptor>(); gen_gauss(c, *a); return a;
}
inline std::shared_ptr<gg::GAdaptorT<bool>> gen_b_adaptor(pbt::Ctx &c) { auto a = std::make_shared<gg::GBooleanAdaptor>(); gen_adaptor_common(c, *a); return a; }

// ----------------------------------------------------------------------------------- parameters
struct GenOpt {
	bool adaptors = true;   // random adaptors
	bool flags = true;      // inactive and init-blocked parameters
	bool nested = true;
	bool empty_coll = false;
	bool constrained = true;
	bool moderate = false;  // magnitudes stay moderate (so that sums and products stay exact enough)
};
inline double gen_d(pbt::Ctx &c, GenOpt const &o) {
	if (o.moderate) return c.flip() ? (double)c.range(-20, 20) / 4. : c.real(-10., 10.);
	return c.nice_double();
}
inline void gen_bounds(pbt::Ctx &c, GenOpt const &o, double &lo, double &hi) {
	lo = gen_d(c, o);
	double w = o.moderate ? c.pick<double>({1., 0.5, 10.}) * (double)c.range(1, 8) : c.pick<double>({1., 0.01, 10., 1000.}) * (double)c.range(1, 8);
	hi = lo + w;
}
struct Tree {
	std::vector<Leaf> leaves;
	int names = 0;
	std::string fresh(const char *p) { return std::string(p) + std::to_string(names++); }
	std::vector<std::tuple<char, std::string, std::size_t>> structure; // of the containers, for labels
};
inline void flags(pbt::Ctx &c, GenOpt const &o, gg::GParameterBase &p) {
	if (!o.flags) return;
	if (c.chance(1, 4)) p.setAdaptionsInactive();
	if (c.chance(1, 6)) p.blockRandomInitialization();
}
inline PB gen_leaf(pbt::Ctx &c, GenOpt const &o, Tree &t, int kind, bool pact, bool pinit) {
	Leaf l;
	l.lo = l.hi = 0.; l.constrained = false; l.single = true;
	PB p;
	double lo, hi;
	std::int32_t ilo = (std::int32_t)c.range(-50, 50), ihi = ilo + (std::int32_t)c.range(1, 30);
	auto ival = [&]() { return (std::int32_t)c.range(ilo, ihi); };
	std::size_t n = c.size(o.empty_coll ? 0 : 1, 4);
	switch (kind) {
		case 0: { // GDoubleObject
			gen_bounds(c, o, lo, hi);
			double v = gen_d(c, o);
			auto q = std::make_shared<gg::GDoubleObject>(v, lo, hi);
			if (o.adaptors && c.flip()) q->addAdaptor(gen_d_adaptor(c));
			l.type = 'd'; l.v = {v}; l.lo = lo; l.hi = hi; p = q; break;
		}
		case 1: { // GConstrainedDoubleObject
			gen_bounds(c, o, lo, hi);
			double v = c.chance(1, 6) ? lo : std::min(lo + (hi - lo) * c.unit(), std::nextafter(hi, lo));
			auto q = std::make_shared<gg::GConstrainedDoubleObject>(v, lo, hi);
			if (o.adaptors && c.flip()) q->addAdaptor(gen_d_adaptor(c));
			l.type = 'd'; l.v = {v}; l.lo = lo; l.hi = std::nextafter(hi, -HUGE_VAL); l.constrained = true; p = q; break;
		}
		case 2: { // GInt32Object
			auto v = (std::int32_t)c.range(-60, 60);
			auto q = std::make_shared<gg::GInt32Object>(v, ilo, ihi);
			if (o.adaptors && c.flip()) q->addAdaptor(gen_i_adaptor(c));
			l.type = 'i'; l.v = {(double)v}; l.lo = ilo; l.hi = ihi; p = q; break;
		}
		case 3: { // GConstrainedInt32Object
			auto v = ival();
			auto q = std::make_shared<gg::GConstrainedInt32Object>(v, ilo, ihi);
			if (o.adaptors && c.flip()) q->addAdaptor(gen_i_adaptor(c));
			l.type = 'i'; l.v = {(double)v}; l.lo = ilo; l.hi = ihi; l.constrained = true; p = q; break;
		}
		case 4: { // GBooleanObject
			bool v = c.flip();
			auto q = std::make_shared<gg::GBooleanObject>(v);
			if (o.adaptors && c.flip()) q->addAdaptor(gen_b_adaptor(c));
			l.type = 'b'; l.v = {v ? 1. : 0.}; l.lo = 0; l.hi = 1; p = q; break;
		}
		case 5: { // GDoubleCollection
			gen_bounds(c, o, lo, hi);
			auto q = std::make_shared<gg::GDoubleCollection>(n, 0., lo, hi);
			for (std::size_t k = 0; k < n; k++) { double v = gen_d(c, o); q->setValue(k, v); l.v.push_back(v); }
			if (o.adaptors && c.flip()) q->addAdaptor(gen_d_adaptor(c));
			l.type = 'd'; l.lo = lo; l.hi = hi; l.single = false; p = q; break;
		}
		case 6: { // GConstrainedDoubleCollection
			gen_bounds(c, o, lo, hi);
			auto q = std::make_shared<gg::GConstrainedDoubleCollection>(n, lo, lo, hi);
			for (std::size_t k = 0; k < n; k++) { double v = std::min(lo + (hi - lo) * c.unit(), std::nextafter(hi, lo)); q->setValue(k, v); l.v.push_back(v); }
			if (o.adaptors && c.flip()) q->addAdaptor(gen_d_adaptor(c));
			l.type = 'd'; l.lo = lo; l.hi = std::nextafter(hi, -HUGE_VAL); l.constrained = true; l.single = false; p = q; break;
		}
		case 7: { // GInt32Collection
			auto q = std::make_shared<gg::GInt32Collection>(n, 0, ilo, ihi);
			for (std::size_t k = 0; k < n; k++) { auto v = (std::int32_t)c.range(-60, 60); q->setValue(k, v); l.v.push_back(v); }
			if (o.adaptors && c.flip()) q->addAdaptor(gen_i_adaptor(c));
			l.type = 'i'; l.lo = ilo; l.hi = ihi; l.single = false; p = q; break;
		}
		default: { // GBooleanCollection
			auto q = std::make_shared<gg::GBooleanCollection>(n, false);
			for (std::size_t k = 0; k < n; k++) { bool v = c.flip(); q->setValue(k, v); l.v.push_back(v ? 1. : 0.); }
			if (o.adaptors && c.flip()) q->addAdaptor(gen_b_adaptor(c));
			l.type = 'b'; l.lo = 0; l.hi = 1; l.single = false; p = q;
		}
	}
	l.name = t.fresh("p");
	p->setParameterName(l.name);
	flags(c, o, *p);
	l.active = p->adaptionsActive();
	l.adaptable = pact && l.active;
	l.initable = pinit && !p->randomInitializationBlocked();
	l.obj = p;
	t.leaves.push_back(l);
	return p;
}
template<typename C, typename T> PB gen_objcoll(pbt::Ctx &c, GenOpt const &o, Tree &t, int kind, bool pact, bool pinit) {
	auto q = std::make_shared<C>();
	q->setParameterName(t.fresh("c"));
	flags(c, o, *q);
	pact = pact && q->adaptionsActive(); pinit = pinit && !q->randomInitializationBlocked();
	std::size_t n = c.size(o.empty_coll ? 0 : 1, 4);
	for (std::size_t k = 0; k < n; k++) q->push_back(std::dynamic_pointer_cast<T>(gen_leaf(c, o, t, kind, pact, pinit)));
	return q;
}
inline PB gen_param(pbt::Ctx &c, GenOpt const &o, Tree &t, int depth = 0, bool pact = true, bool pinit = true) {
	int which = (int)c.weighted({8, 3, (unsigned)(o.nested && depth < 3 ? 3 : 0)});
	if (which == 0) {
		int kind = (int)c.raw(9);
		if (!o.constrained) { if (kind == 1) kind = 0; if (kind == 3) kind = 2; if (kind == 6) kind = 5; }
		return gen_leaf(c, o, t, kind, pact, pinit);
	}
	if (which == 1) {
		switch (c.raw(5)) {
			case 0: return gen_objcoll<gg::GDoubleObjectCollection, gg::GDoubleObject>(c, o, t, 0, pact, pinit);
			case 1: return gen_objcoll<gg::GBooleanObjectCollection, gg::GBooleanObject>(c, o, t, 4, pact, pinit);
			case 2: return gen_objcoll<gg::GInt32ObjectCollection, gg::GInt32Object>(c, o, t, 2, pact, pinit);
			case 3: if (o.constrained) return gen_objcoll<gg::GConstrainedDoubleObjectCollection, gg::GConstrainedDoubleObject>(c, o, t, 1, pact, pinit);
				return gen_objcoll<gg::GDoubleObjectCollection, gg::GDoubleObject>(c, o, t, 0, pact, pinit);
			default: if (o.constrained) return gen_objcoll<gg::GConstrainedInt32ObjectCollection, gg::GConstrainedInt32Object>(c, o, t, 3, pact, pinit);
				return gen_objcoll<gg::GInt32ObjectCollection, gg::GInt32Object>(c, o, t, 2, pact, pinit);
		}
	}
	auto q = std::make_shared<gg::GParameterObjectCollection>();
	q->setParameterName(t.fresh("c"));
	flags(c, o, *q);
	pact = pact && q->adaptionsActive(); pinit = pinit && !q->randomInitializationBlocked();
	std::size_t n = c.size(o.empty_coll ? 0 : 1, 3);
	for (std::size_t k = 0; k < n; k++) q->push_back(gen_param(c, o, t, depth + 1, pact, pinit));
	c.label("nested");
	return q;
}
inline std::shared_ptr<HInd> gen_ind(pbt::Ctx &c, GenOpt const &o, Tree &t, std::size_t nmin, std::size_t nmax, std::size_t ncrit = 1) {
	auto p = std::make_shared<HInd>(ncrit);
	std::size_t n = c.size(nmin, nmax);
	for (std::size_t k = 0; k < n; k++) p->push_back(gen_param(c, o, t));
	return p;
}

// -------------------------------------------------------------------------------- the dump
inline std::string num(double x) { char b[64]; if (x == 0.) x = 0.; std::snprintf(b, 64, "%.17g", x); return b; }
template<typename T> std::string dump_adaptor(std::shared_ptr<gg::GAdaptorT<T>> a) {
	std::ostringstream o;
	o << " {" << a->name() << " p=" << num(a->getAdaptionProbability()) << " rp=" << num(a->getResetAdaptionProbability()) << " aap=" << num(a->getAdaptAdaptionProbability())
	  << " aad=" << num(a->getAdaptAdProb()) << " cnt=" << a->getAdaptionCounter() << " thr=" << a->getAdaptionThreshold() << " mode=" << (int)a->getAdaptionMode()
	  << " pr=" << num(std::get<0>(a->getAdProbRange())) << "," << num(std::get<1>(a->getAdProbRange()));
	if (auto g = std::dynamic_pointer_cast<gg::GNumGaussAdaptorT<T, double>>(a))
		o << " s=" << num(g->getSigma()) << " rs=" << num(g->getResetSigma()) << " sr=" << num(std::get<0>(g->getSigmaRange())) << "," << num(std::get<1>(g->getSigmaRange())) << " sa=" << num(g->getSigmaAdaptionRate());
	o << "}";
	return o.str();
}
inline std::string dump_bigauss(std::shared_ptr<gg::GAdaptorT<double>> a) {
	std::ostringstream o;
	if (auto g = std::dynamic_pointer_cast<gg::GNumBiGaussAdaptorT<double, double>>(a))
		o << " {sym=" << g->getUseSymmetricSigmas() << " s1=" << num(g->getSigma1()) << "," << num(g->getSigma1AdaptionRate()) << "," << num(std::get<0>(g->getSigma1Range())) << "," << num(std::get<1>(g->getSigma1Range()))
		  << " s2=" << num(g->getSigma2()) << "," << num(g->getSigma2AdaptionRate()) << "," << num(std::get<0>(g->getSigma2Range())) << "," << num(std::get<1>(g->getSigma2Range()))
		  << " de=" << num(g->getDelta()) << "," << num(g->getDeltaAdaptionRate()) << "," << num(std::get<0>(g->getDeltaRange())) << "," << num(std::get<1>(g->getDeltaRange())) << "}";
	return o.str();
}
std::string dump(gg::GParameterBase const &p);
template<typename C> bool dump_children(gg::GParameterBase const &p, std::ostringstream &o) {
	auto q = dynamic_cast<C const *>(&p);
	if (!q) return false;
	o << " [";
	for (auto const &x: *q) o << dump(*x) << "; ";
	o << "]";
	return true;
}
inline std::string dump(gg::GParameterBase const &p) {
	std::ostringstream o;
	o << p.name() << " '" << p.getParameterName() << "' act=" << p.adaptionsActive() << " blk=" << p.randomInitializationBlocked() << " leaf=" << p.isLeaf();
	if (dump_children<gg::GParameterObjectCollection>(p, o) || dump_children<gg::GDoubleObjectCollection>(p, o) || dump_children<gg::GConstrainedDoubleObjectCollection>(p, o)
		|| dump_children<gg::GInt32ObjectCollection>(p, o) || dump_children<gg::GConstrainedInt32ObjectCollection>(p, o) || dump_children<gg::GBooleanObjectCollection>(p, o)) return o.str();
	std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b;
	p.streamline<double>(d, gg::activityMode::ALLPARAMETERS); p.streamline<std::int32_t>(i, gg::activityMode::ALLPARAMETERS); p.streamline<bool>(b, gg::activityMode::ALLPARAMETERS);
	o << " v=";
	for (auto x: d) o << num(x) << ",";
	for (auto x: i) o << x << "i,";
	for (auto x: b) o << (x ? "T," : "F,");
	std::vector<double> l, u; std::vector<std::int32_t> li, ui;
	p.boundaries<double>(l, u, gg::activityMode::ALLPARAMETERS); p.boundaries<std::int32_t>(li, ui, gg::activityMode::ALLPARAMETERS);
	o << " b=";
	for (std::size_t k = 0; k < l.size(); k++) o << num(l[k]) << ":" << num(u[k]) << ",";
	for (std::size_t k = 0; k < li.size(); k++) o << li[k] << ":" << ui[k] << ",";
	if (auto q = dynamic_cast<gg::GNumT<double> const *>(&p)) o << " ib=" << num(q->getLowerInitBoundary()) << ":" << num(q->getUpperInitBoundary());
	if (auto q = dynamic_cast<gg::GNumT<std::int32_t> const *>(&p)) o << " ib=" << q->getLowerInitBoundary() << ":" << q->getUpperInitBoundary();
	if (auto q = dynamic_cast<gg::GNumCollectionT<double> const *>(&p)) o << " ib=" << num(q->getLowerInitBoundary()) << ":" << num(q->getUpperInitBoundary());
	if (auto q = dynamic_cast<gg::GNumCollectionT<std::int32_t> const *>(&p)) o << " ib=" << q->getLowerInitBoundary() << ":" << q->getUpperInitBoundary();
	if (auto q = dynamic_cast<gg::GParameterBaseWithAdaptorsT<double> const *>(&p)) o << dump_adaptor<double>(q->getAdaptor()) << dump_bigauss(q->getAdaptor());
	if (auto q = dynamic_cast<gg::GParameterBaseWithAdaptorsT<std::int32_t> const *>(&p)) o << dump_adaptor<std::int32_t>(q->getAdaptor());
	if (auto q = dynamic_cast<gg::GParameterBaseWithAdaptorsT<bool> const *>(&p)) o << dump_adaptor<bool>(q->getAdaptor());
	return o.str();
}
inline std::string dump_traits(std::shared_ptr<gg::GPersonalityTraits> p) {
	std::ostringstream o;
	if (!p) return "none";
	o << p->name() << "/" << p->getMnemonic();
	if (auto q = std::dynamic_pointer_cast<gg::GBaseParChildPersonalityTraits>(p))
		o << " pc=" << q->getParentCounter() << " pos=" << q->getPopulationPosition() << " par=" << (q->parentIdSet() ? std::to_string(q->getParentId()) : std::string("-"));
	if (auto q = std::dynamic_pointer_cast<gg::GEvolutionaryAlgorithm_PersonalityTraits>(p)) o << " pareto=" << q->isOnParetoFront();
	if (auto q = std::dynamic_pointer_cast<gg::GGradientDescent_PersonalityTraits>(p)) o << " pos=" << q->getPopulationPosition();
	if (auto q = std::dynamic_pointer_cast<gg::GParameterScan_PersonalityTraits>(p)) o << " pos=" << q->getPopulationPosition();
	if (auto q = std::dynamic_pointer_cast<gg::GSwarmAlgorithm_PersonalityTraits>(p)) {
		o << " nb=" << q->getNeighborhood() << " noup=" << q->noPositionUpdate() << " pbq=" << num(std::get<0>(q->getPersonalBestQuality())) << "," << num(std::get<1>(q->getPersonalBestQuality()));
	}
	return o.str();
}
inline std::string dump_params(gg::GParameterSet const &p) {
	std::ostringstream o;
	PVec const &v = p;
	for (auto const &x: v) o << dump(*x) << "\n";
	return o.str();
}
// settings: everything but the evaluation state
inline std::string dump_settings(gg::GParameterSet const &pc) {
	auto &p = const_cast<gg::GParameterSet &>(pc);
	std::ostringstream o;
	o << pc.name() << " max=" << (int)p.getMaxMode() << " st=" << num(p.getSteepness()) << " ba=" << num(p.getBarrier()) << " mua=" << p.getMaxUnsuccessfulAdaptions() << " mru=" << p.getMaxRetriesUntilValid()
	  << " nad=" << p.getNAdaptions() << " it=" << p.getAssignedIteration() << " ns=" << p.getNStalls() << " rc=" << std::get<0>(p.getRandomCrash()) << "," << num(std::get<1>(p.getRandomCrash()))
	  << " pol=" << (int)p.getEvaluationPolicy() << " vl=" << num(p.getValidityLevel()) << " bk=" << num(std::get<0>(p.getBestKnownPrimaryFitness())) << "," << num(std::get<1>(p.getBestKnownPrimaryFitness()));
	o << " pt=" << (p.getPersonality() == "PERSONALITY_NONE" ? std::string("none") : dump_traits(p.getPersonalityTraits()));
	double vl = -1.;
	auto hp = dynamic_cast<HInd const *>(&pc);
	if (hp) { try { bool ok = hp->parameterSetFulfillsConstraints(vl); o << " cons=" << ok << "," << num(vl); } catch (gemfony_exception &) { o << " cons=throws"; } o << " fn=" << hp->m_fn; }
	o << "\n" << dump_params(pc);
	return o.str();
}
inline std::string dump_state(gg::GParameterSet const &p) {
	std::ostringstream o;
	o << p.getProcessingStatusAsStr() << " id=" << p.getCurrentEvaluationID() << " err=" << p.getStoredErrorDescriptions().size() << " n=" << p.getNStoredResults() << " ic=" << p.getIterationCounter()
	  << " rc=" << p.getResubmissionCounter() << " cp=" << p.getCollectionPosition() << " pre=" << p.mayBePreProcessed() << " post=" << p.mayBePostProcessed()
	  << " t=" << num(std::get<0>(p.getProcessingTimes())) << "," << num(std::get<1>(p.getProcessingTimes())) << "," << num(std::get<2>(p.getProcessingTimes()));
	if (p.is_processed()) for (std::size_t k = 0; k < p.getNStoredResults(); k++) o << " f" << k << "=" << num(p.raw_fitness(k)) << "," << num(p.transformed_fitness(k));
	return o.str();
}
inline std::string dump(gg::GParameterSet const &p) { return dump_settings(p) + dump_state(p); }

inline bool lib_equal(gg::GObject const &a, gg::GObject const &b, gc::expectation e = gc::expectation::EQUALITY, double limit = 1e-12) {
	try { a.compare(b, e, limit); } catch (g_expectation_violation &e) { static const bool v = std::getenv("H_VERBOSE"); if (v) std::cerr << "not equal: " << e.what() << std::endl; return false; }
	return true;
}
// the first line in which two dumps differ
inline std::string diff(std::string const &a, std::string const &b) {
	std::istringstream x(a), y(b);
	std::string l, m;
	while (true) {
		bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
		if (!p && !q) return "(no difference)";
		if (!p) l.clear();
		if (!q) m.clear();
		if (l != m) return "<<" + l + ">> versus <<" + m + ">>";
	}
}
} // namespace H
