// A parameter set whose content, evaluation and behaviour the harnesses choose.
#pragma once
#include <thread>
#include "pbt.hpp"
#include "geneva/GParameterSet.hpp"
#include "geneva/GIndividualMultiConstraint.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include "geneva/GDoubleObject.hpp"
#include "geneva/GConstrainedDoubleObject.hpp"
#include "geneva/GDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleCollection.hpp"
#include "geneva/GConstrainedDoubleObjectCollection.hpp"
#include "geneva/GDoubleObjectCollection.hpp"
#include "geneva/GInt32Object.hpp"
#include "geneva/GInt32Collection.hpp"
#include "geneva/GInt32ObjectCollection.hpp"
#include "geneva/GConstrainedInt32Object.hpp"
#include "geneva/GConstrainedInt32ObjectCollection.hpp"
#include "geneva/GBooleanObject.hpp"
#include "geneva/GBooleanCollection.hpp"
#include "geneva/GBooleanObjectCollection.hpp"
#include "geneva/GParameterObjectCollection.hpp"
#include "geneva/GDoubleGaussAdaptor.hpp"
#include "geneva/GDoubleBiGaussAdaptor.hpp"
#include "geneva/GInt32GaussAdaptor.hpp"
#include "geneva/GInt32FlipAdaptor.hpp"
#include "geneva/GBooleanAdaptor.hpp"

namespace H {
namespace gc = Gem::Common;
namespace gg = Gem::Geneva;
namespace gq = Gem::Courtier;

struct Eval { std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b; std::vector<double> f; std::thread::id th; };

// what the process under test evaluated, in the order in which evaluations finished
struct EvalLog {
	std::mutex m;
	std::vector<Eval> v;
	std::atomic<bool> on{false};
	void start() { std::unique_lock<std::mutex> l(m); v.clear(); on = true; }
	void stop() { on = false; }
	std::size_t size() { std::unique_lock<std::mutex> l(m); return v.size(); }
	std::vector<Eval> get() { std::unique_lock<std::mutex> l(m); return v; }
};
inline EvalLog &evlog() { static EvalLog l; return l; }
inline std::atomic<int> &jitter() { static std::atomic<int> j{0}; return j; } // evaluations last up to this many microseconds

// what becomes of an evaluation: 0 it succeeds, 1 it throws, 2 it flags an error, 3 it throws something else
inline std::function<int(Eval const &)> &fault() { static std::function<int(Eval const &)> f; return f; }

inline double fit(int fn, std::size_t crit, std::vector<double> const &d, std::vector<std::int32_t> const &i, std::vector<bool> const &b) {
	if (fn >= 100) return -fit(fn - 100, crit, d, i, b);
	double r = 0.;
	switch (fn) {
		case 1: // noisy parabola
			for (std::size_t k = 0; k < d.size(); k++) r += d[k] * d[k] * (1. + 0.5 * std::cos(3. * d[k] + (double)crit));
			break;
		case 2: // steps: many ties
			for (auto x: d) r += std::floor(std::fabs(x) + (double)crit);
			break;
		case 3: // constant
			r = 1.;
			break;
		case 4: // linear with distinct weights, negative values too
			for (std::size_t k = 0; k < d.size(); k++) r += (double)(k + 1) * d[k] * (crit % 2 ? -1. : 1.);
			break;
		case 5: // conflicting parabolas
			for (auto x: d) r += (x - (double)crit) * (x - (double)crit);
			break;
		default:
			for (auto x: d) r += (x - 0.25 * (double)crit) * (x - 0.25 * (double)crit);
	}
	for (auto x: i) r += (double)x * (double)x * 0.5;
	for (std::size_t k = 0; k < b.size(); k++) if (b[k]) r += 0.125 * (double)(k + 1);
	return r;
}

struct HInd : gg::GParameterSet {
	int m_fn = 0;
	int m_throw_at = 0;     // 1: throw, 2: flag an error, 3: return NaN
	int m_sleep_us = 0;
	HInd() : gg::GParameterSet() {}
	explicit HInd(std::size_t ncrit) : gg::GParameterSet(ncrit) {}
	HInd(HInd const &) = default;
	double expected(std::size_t crit = 0) const {
		std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b;
		this->streamline<double>(d); this->streamline<std::int32_t>(i); this->streamline<bool>(b);
		return fit(m_fn, crit, d, i, b);
	}
	Eval content() const {
		Eval e;
		this->streamline<double>(e.d); this->streamline<std::int32_t>(e.i); this->streamline<bool>(e.b);
		return e;
	}
	using gg::GParameterSet::registerResult;
	using gg::GParameterSet::sumCombiner;
	using gg::GParameterSet::fabsSumCombiner;
	using gg::GParameterSet::squaredSumCombiner;
	using gg::GParameterSet::weighedSquaredSumCombiner;
	using gg::GParameterSet::setFitness_;
	using gg::GParameterSet::parameterSetFulfillsConstraints;
protected:
	double fitnessCalculation() override {
		if (m_sleep_us) std::this_thread::sleep_for(std::chrono::microseconds(m_sleep_us));
		if (int j = jitter()) { static std::atomic<unsigned> n{0}; std::this_thread::sleep_for(std::chrono::microseconds((int)((n++ * 2654435761u >> 8) % (unsigned)j))); }
		if (m_throw_at == 1) throw std::runtime_error("evaluation failed on purpose");
		Eval e = content();
		if (fault()) switch (fault()(e)) {
			case 1: throw std::runtime_error("evaluation failed as planned");
			case 2: this->force_set_error("flagged as planned\n"); return 0.;
			case 3: throw 42;
			default: ;
		}
		for (std::size_t k = 0; k < this->getNStoredResults(); k++) e.f.push_back(fit(m_fn, k, e.d, e.i, e.b));
		if (m_throw_at == 3) e.f[0] = std::numeric_limits<double>::quiet_NaN();
		for (std::size_t k = 1; k < e.f.size(); k++) this->setResult(k, e.f[k]);
		if (m_throw_at == 2) this->force_set_error("flagged on purpose\n");
		if (evlog().on) { e.th = std::this_thread::get_id(); std::unique_lock<std::mutex> l(evlog().m); evlog().v.push_back(e); }
		return e.f[0];
	}
	void load_(const gg::GObject *cp) override {
		const HInd *p = gc::g_convert_and_compare<gg::GObject, HInd>(cp, this);
		gg::GParameterSet::load_(cp);
		m_fn = p->m_fn; m_throw_at = p->m_throw_at; m_sleep_us = p->m_sleep_us;
	}
	gg::GObject *clone_() const override { return new HInd(*this); }
private:
	friend class boost::serialization::access;
	template<typename A> void serialize(A &ar, const unsigned int) {
		ar & boost::serialization::make_nvp("GParameterSet", boost::serialization::base_object<gg::GParameterSet>(*this))
		   & boost::serialization::make_nvp("fn", m_fn) & boost::serialization::make_nvp("thr", m_throw_at) & boost::serialization::make_nvp("sl", m_sleep_us);
	}
};
} // namespace H
BOOST_CLASS_EXPORT_KEY(H::HInd)
#ifdef INDIV_IMPL
BOOST_CLASS_EXPORT_IMPLEMENT(H::HInd)
#endif
