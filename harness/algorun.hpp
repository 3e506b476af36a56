// Running optimisation algorithms on generated individuals, and a record of what was observable after every iteration.
#pragma once
#include "genalg.hpp"
#include "geneva/GPluggableOptimizationMonitors.hpp"
#include <filesystem>
#include <fstream>

namespace H {
namespace fs = std::filesystem;
using PSP = std::shared_ptr<gg::GParameterSet>;
static const double HIGHEST_D = std::numeric_limits<double>::max();

inline std::string key(Eval const &e) {
	std::string s;
	for (auto x: e.d) s += num(x) + ",";
	s += "|";
	for (auto x: e.i) s += std::to_string(x) + ",";
	s += "|";
	for (bool x: e.b) s += x ? '1' : '0';
	return s;
}
struct Item {
	Eval e;
	std::string k, id;
	std::vector<double> raw, tr;
	bool done = false, valid = false, parent = false;
	std::size_t pos = 0;
	PSP p; // the object itself (may change later)
};
inline Item item(PSP const &p, bool keep = false) {
	Item r;
	p->streamline<double>(r.e.d); p->streamline<std::int32_t>(r.e.i); p->streamline<bool>(r.e.b);
	r.k = key(r.e);
	r.done = p->is_processed();
	if (r.done) r.id = p->getCurrentEvaluationID();
	if (r.done) {
		r.valid = p->isValid();
		for (std::size_t k = 0; k < p->getNStoredResults(); k++) { r.raw.push_back(p->raw_fitness(k)); r.tr.push_back(p->transformed_fitness(k)); }
	}
	if (p->getPersonality() != "PERSONALITY_NONE") if (auto t = std::dynamic_pointer_cast<gg::GBaseParChildPersonalityTraits>(p->getPersonalityTraits())) { r.parent = t->isParent(); }
	if (keep) r.p = p;
	return r;
}
struct Snap {
	gg::infoMode im;
	std::uint32_t it = 0, stall = 0;
	std::vector<Item> pop, gb, ib;
	std::tuple<double, double> bk, bc;
	std::vector<Eval> ev;   // evaluated since the last snap
	bool halted = false;
	double T = 0.;
};
using Inspect = std::function<void(OA const &, Snap &)>;

struct Watch : gg::GBasePluggableOM {
	std::vector<Snap> s;
	Inspect more;
	std::size_t seen = 0;
	Watch() = default;
	Watch(Watch const &o) : gg::GBasePluggableOM(o), more(o.more) {}
	void compare_(gg::GObject const &, gc::expectation const &, double const &) const override {}
	void take(gg::infoMode im, OA const *a) {
		Snap x;
		x.im = im; x.it = a->getIteration(); x.stall = a->getStallCounter(); x.halted = a->halted();
		OAVec const &v = *a;
		for (auto const &p: v) x.pop.push_back(item(p));
		auto &b = const_cast<OA &>(*a);
		if (im != gg::infoMode::INFOINIT) {
			for (auto &p: b.template getBestGlobalIndividuals<gg::GParameterSet>()) x.gb.push_back(item(p));
			for (auto &p: b.template getBestIterationIndividuals<gg::GParameterSet>()) x.ib.push_back(item(p));
			x.bk = a->getBestKnownPrimaryFitness();
			x.bc = a->getBestCurrentPrimaryFitness();
		}
		{
			std::unique_lock<std::mutex> l(evlog().m);
			for (; seen < evlog().v.size(); seen++) x.ev.push_back(evlog().v[seen]);
		}
		if (more) more(*a, x);
		s.push_back(std::move(x));
	}
protected:
	void load_(gg::GObject const *) override {}
	gg::GObject *clone_() const override { return new Watch(*this); }
private:
	friend class boost::serialization::access;
	template<typename Archive> void serialize(Archive &ar, const unsigned int) { ar & boost::serialization::make_nvp("GBasePluggableOM", boost::serialization::base_object<gg::GBasePluggableOM>(*this)); }
	void informationFunction_(gg::infoMode im, OA const * const a) override { take(im, a); }
};

inline void executor(OA &a, gg::execMode m = gg::execMode::SERIAL) {
	fs::create_directories("cfg");
	a.registerExecutor(m, m == gg::execMode::SERIAL ? "cfg/GSerialExecutor.json" : m == gg::execMode::MULTITHREADED ? "cfg/GMTExecutor.json" : "cfg/GBrokerExecutor.json");
}
// runs the algorithm and returns what was seen
inline std::vector<Snap> run_alg(OA &a, std::uint32_t offset = 0, Inspect more = Inspect(), gg::execMode m = gg::execMode::SERIAL, bool reg = true) {
	auto w = std::make_shared<Watch>();
	w->more = more;
	if (reg) executor(a, m);
	a.resetPluggableOM();
	a.registerPluggableOM(w);
	evlog().start();
	try { a.optimize(offset); } catch (...) { evlog().stop(); a.resetPluggableOM(); throw; }
	evlog().stop();
	a.resetPluggableOM();
	return w->s;
}

// a constraint: solutions whose first value is larger than the limit are invalid
struct Limit : gg::GPreEvaluationValidityCheckT<gg::GParameterSet> {
	double a = 0.;
	Limit() = default;
	explicit Limit(double x) : a(x) {}
protected:
	double check_(gg::GParameterSet const *p) const override { std::vector<double> d; p->streamline<double>(d); return d.empty() ? 0. : d[0] > a ? 1.5 + d[0] - a : 0.5; }
	void load_(gg::GObject const *cp) override { gg::GPreEvaluationValidityCheckT<gg::GParameterSet>::load_(cp); a = dynamic_cast<Limit const *>(cp)->a; }
private:
	gg::GObject *clone_() const override { return new Limit(*this); }
	friend class boost::serialization::access;
	template<typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("base", boost::serialization::base_object<gg::GPreEvaluationValidityCheckT<gg::GParameterSet>>(*this)) & boost::serialization::make_nvp("a", a); }
};
// ---- individuals -------------------------------------------------------------------------------------
struct Prob {
	int fn = 0; bool maxi = false; std::size_t ncrit = 1, nd = 1, ni = 0, nb = 0;
	bool bounded = false;
	double lo = -5., hi = 5.;
	gg::evaluationPolicy pol = gg::evaluationPolicy::USESIMPLEEVALUATION;
	bool limited = false; double limit = 0.; // solutions whose first value is larger than this are invalid
	double sigma = 0.5, adprob = 1.;
	std::string str() const {
		std::ostringstream o;
		o << "f" << fn << (maxi ? " max" : " min") << " crit " << ncrit << " d" << nd << " i" << ni << " b" << nb << (bounded ? " bounded " : " free ") << lo << ".." << hi << " pol " << (int)pol << " limit " << limit << " sigma " << sigma << "; ";
		return o.str();
	}
	double f(Eval const &e, std::size_t crit = 0) const { return fit(fn, crit, e.d, e.i, e.b); }
	bool evaluated(Eval const &e) const { return not limited || pol == gg::evaluationPolicy::USESIMPLEEVALUATION || e.d.at(0) <= limit; }
	// the raw fitness these parameters should have
	double raw(Eval const &e, std::size_t crit = 0) const { return evaluated(e) ? f(e, crit) : maxi ? -HIGHEST_D : HIGHEST_D; }
};
inline Prob gen_prob(pbt::Ctx &c, std::size_t maxcrit = 1, bool mixed = true) {
	Prob p;
	p.fn = (int)c.raw(6);
	p.maxi = c.chance(1, 3);
	p.ncrit = maxcrit > 1 ? c.size(1, maxcrit) : 1;
	p.nd = c.size(1, 4);
	if (mixed && c.chance(1, 3)) p.ni = c.size(0, 2);
	if (mixed && c.chance(1, 4)) p.nb = c.size(0, 3);
	p.bounded = c.flip();
	p.lo = c.pick<double>({-5., -1., 0., -10.}); p.hi = p.lo + c.pick<double>({10., 1., 4., 0.5});
	p.sigma = c.pick<double>({0.5, 0.05, 1.});
	if (c.chance(1, 4)) { p.pol = c.pick<gg::evaluationPolicy>({gg::evaluationPolicy::USESIMPLEEVALUATION, gg::evaluationPolicy::USEWORSTCASEFORINVALID, gg::evaluationPolicy::USESIGMOID}); }
	return p;
}
inline void gen_limit(pbt::Ctx &c, Prob &p) {
	if (not c.chance(1, 3)) return;
	p.limited = true; p.limit = p.lo + (p.hi - p.lo) * c.pick<double>({0.5, 0.25, 0.9, 0.05});
	p.pol = c.pick<gg::evaluationPolicy>({gg::evaluationPolicy::USESIGMOID, gg::evaluationPolicy::USEWORSTCASEFORINVALID, gg::evaluationPolicy::USESIMPLEEVALUATION});
}
inline std::shared_ptr<HInd> gen_start(pbt::Ctx &c, Prob const &p, bool init = true) {
	auto r = std::make_shared<HInd>(p.ncrit);
	r->m_fn = p.fn;
	if (p.maxi) r->setMaxMode(gg::maxMode::MAXIMIZE);
	r->setEvaluationPolicy(p.pol);
	if (p.limited) r->registerConstraint(std::make_shared<Limit>(p.limit));
	std::size_t n = 0;
	auto grid = [&]() { return p.lo + (p.hi - p.lo) * (double)c.raw(17) / 16.; };
	auto dad = [&]() { auto a = std::make_shared<gg::GDoubleGaussAdaptor>(p.sigma, 0.1, 0.001, 1., p.adprob); a->setAdaptAdProb(0.); return a; };
	for (std::size_t k = 0; k < p.nd; k++) {
		double v = init ? grid() : p.lo;
		if (p.bounded) {
			auto o = std::make_shared<gg::GConstrainedDoubleObject>(std::min(v, std::nextafter(p.hi, p.lo)), p.lo, p.hi);
			o->addAdaptor(dad()); o->setParameterName("p" + std::to_string(n++)); r->push_back(o);
		} else {
			auto o = std::make_shared<gg::GDoubleObject>(v, p.lo, p.hi);
			o->addAdaptor(dad()); o->setParameterName("p" + std::to_string(n++)); r->push_back(o);
		}
	}
	for (std::size_t k = 0; k < p.ni; k++) {
		auto o = std::make_shared<gg::GInt32Object>((std::int32_t)c.range(-5, 5), -10, 10);
		o->addAdaptor(std::make_shared<gg::GInt32FlipAdaptor>(0.5)); o->setParameterName("p" + std::to_string(n++)); r->push_back(o);
	}
	for (std::size_t k = 0; k < p.nb; k++) {
		auto o = std::make_shared<gg::GBooleanObject>(c.flip());
		o->addAdaptor(std::make_shared<gg::GBooleanAdaptor>(0.3)); o->setParameterName("p" + std::to_string(n++)); r->push_back(o);
	}
	return r;
}
} // namespace H
BOOST_CLASS_EXPORT(H::Limit)
