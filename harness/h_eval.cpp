// C16 (evaluation state), C17 (constraints and evaluation policies)
#define INDIV_IMPL
#include "gen.hpp"
#include "geneva/GenevaHelperFunctions.hpp"
#include "common/GSerializableFunctionObjectT.hpp"
using namespace H;
using PS = gq::processingStatus;
using AM = gg::activityMode;
static const AM MODES[] = {AM::ALLPARAMETERS, AM::ACTIVEONLY, AM::INACTIVEONLY};
static const gc::serializationMode SMODES[] = {gc::serializationMode::TEXT, gc::serializationMode::XML, gc::serializationMode::BINARY};
static const double HIGHEST = std::numeric_limits<double>::max();

static std::vector<std::string> &events() { static std::vector<std::string> v; return v; }
// counts its calls
struct HPP : gc::GSerializableFunctionObjectT<gg::GParameterSet> {
	std::string tag;
	int bad = 0;
	HPP() = default;
	HPP(std::string t, int b) : tag(t), bad(b) {}
protected:
	bool process_(gg::GParameterSet &) override { events().push_back(tag); if (bad) throw std::runtime_error("processor failed on purpose"); return true; }
	void load_(gc::GSerializableFunctionObjectT<gg::GParameterSet> const *cp) override { auto q = dynamic_cast<HPP const *>(cp); tag = q->tag; bad = q->bad; }
private:
	gc::GSerializableFunctionObjectT<gg::GParameterSet> *clone_() const override { return new HPP(*this); }
	friend class boost::serialization::access;
	template<typename A> void serialize(A &ar, const unsigned int) {
		ar & boost::serialization::make_nvp("base", boost::serialization::base_object<gc::GSerializableFunctionObjectT<gg::GParameterSet>>(*this)) & boost::serialization::make_nvp("tag", tag) & boost::serialization::make_nvp("bad", bad);
	}
};
BOOST_CLASS_EXPORT(HPP)

// a check whose level is a chosen function of the parameters
struct HCheck : gg::GPreEvaluationValidityCheckT<gg::GParameterSet> {
	int kind = 0;      // 0: a constant, 1: scaled sum of magnitudes, 2: first value, 3: distance from a centre
	double a = 0.;
	HCheck() = default;
	HCheck(int k, double x) : kind(k), a(x) {}
	double level(Eval const &e) const {
		switch (kind) {
			case 1: { double s = 0.; for (auto x: e.d) s += std::fabs(x); for (auto x: e.i) s += std::fabs((double)x); return s * a; }
			case 2: return e.d.empty() ? a : e.d[0] + a;
			case 3: { double s = 0.; for (auto x: e.d) s += (x - a) * (x - a); return s; }
			default: return a;
		}
	}
protected:
	double check_(gg::GParameterSet const *p) const override {
		Eval e;
		p->streamline<double>(e.d); p->streamline<std::int32_t>(e.i); p->streamline<bool>(e.b);
		return level(e);
	}
	void load_(gg::GObject const *cp) override {
		gg::GPreEvaluationValidityCheckT<gg::GParameterSet>::load_(cp);
		auto q = dynamic_cast<HCheck const *>(cp); kind = q->kind; a = q->a;
	}
private:
	gg::GObject *clone_() const override { return new HCheck(*this); }
	friend class boost::serialization::access;
	template<typename A> void serialize(A &ar, const unsigned int) {
		ar & boost::serialization::make_nvp("base", boost::serialization::base_object<gg::GPreEvaluationValidityCheckT<gg::GParameterSet>>(*this)) & boost::serialization::make_nvp("kind", kind) & boost::serialization::make_nvp("a", a);
	}
};
BOOST_CLASS_EXPORT(HCheck)

using Check = gg::GPreEvaluationValidityCheckT<gg::GParameterSet>;
// the model of a tree of checks
struct CT {
	int what = 0;             // 0: HCheck, 1: formula, 2: combiner
	bool neg = false;
	int kind = 0; double a = 0.;
	int form = 0; std::string var; std::size_t idx = 0;
	bool add = false;
	std::vector<CT> sub;
	double raw(HInd const &p, Eval const &e) const {
		switch (what) {
			case 0: return HCheck(kind, a).level(e);
			case 1: {
				std::map<std::string, std::vector<double>> m; p.streamline<double>(m);
				double x = m.at(var).at(idx);
				switch (form) {
					case 0: return x * 2. + 0.25;
					case 1: return std::fabs(x) / 4.;
					case 2: return x == 0. ? HIGHEST : 1. / x;
					default: return x < 0. ? HIGHEST : std::sqrt(x);
				}
			}
			default: {
				double r = add ? 0. : 1.; bool any = false, high = false;
				for (auto &s: sub) { bool ok; double l = s.level(p, e, ok); if (ok) continue; any = true; if (l == HIGHEST || l == -HIGHEST) high = true; if (add) r += l; else r *= l; }
				return !any ? 0. : high ? HIGHEST : r;
			}
		}
	}
	double level(HInd const &p, Eval const &e, bool &ok) const {
		double r = raw(p, e), l;
		if (r >= 0. && r <= 1.) l = 0.;
		else if (r > 1.) l = r;
		else l = neg ? 0. : 1. + std::fabs(r);
		ok = l <= 1.;
		return l;
	}
	std::string str() const {
		std::ostringstream o;
		switch (what) {
			case 0: o << "check(" << kind << "," << a << ")"; break;
			case 1: o << "formula(" << form << " of " << var << "[" << idx << "])"; break;
			default: o << (add ? "sum(" : "product("); for (auto &s: sub) o << s.str() << " "; o << ")";
		}
		if (neg) o << "-";
		return o.str();
	}
};
static std::shared_ptr<Check> gen_tree(pbt::Ctx &c, CT &m, std::vector<Leaf> const &dl, int depth) {
	std::shared_ptr<Check> r;
	m.what = c.weighted({4u, dl.empty() ? 0u : 2u, depth < 3 ? 4u : 0u});
	m.neg = c.chance(1, 3);
	switch (m.what) {
		case 0:
			m.kind = (int)c.raw(4);
			m.a = m.kind == 0 ? c.pick<double>({0., 0.5, 1., std::nextafter(1., 2.), 1.5, -0.25, -3., HIGHEST, 2., std::nextafter(1., 0.)}) : m.kind == 1 ? c.pick<double>({0.01, 0.1, 1.}) : c.real(-3., 3.);
			r = std::make_shared<HCheck>(m.kind, m.a);
			break;
		case 1: {
			auto &l = dl[c.raw(dl.size())];
			m.var = l.name; m.idx = c.raw(l.v.size()); m.form = (int)c.raw(4);
			std::string v = "{{" + m.var + (l.v.size() > 1 ? "[" + std::to_string(m.idx) + "]" : "") + "}}";
			std::string f = m.form == 0 ? v + " * 2 + 0.25" : m.form == 1 ? "fabs(" + v + ") / 4" : m.form == 2 ? "1/" + v : "sqrt(" + v + ")";
			r = std::make_shared<gg::GParameterSetFormulaConstraint>(f);
			break;
		}
		default: {
			m.add = c.flip();
			auto k = std::make_shared<gg::GCheckCombinerT<gg::GParameterSet>>();
			if (m.add || c.flip()) k->setCombinerPolicy(m.add ? gg::validityCheckCombinerPolicy::ADDINVALID : gg::validityCheckCombinerPolicy::MULTIPLYINVALID);
			std::size_t n = c.size(0, 4);
			std::vector<std::shared_ptr<Check>> v;
			for (std::size_t i = 0; i < n; i++) { m.sub.emplace_back(); v.push_back(gen_tree(c, m.sub.back(), dl, depth + 1)); }
			if (c.flip()) { auto pol = k->getCombinerPolicy(); k = std::make_shared<gg::GCheckCombinerT<gg::GParameterSet>>(v); k->setCombinerPolicy(pol); }
			else for (auto &x: v) k->addCheck(x);
			c.label("combiner");
			r = k;
		}
	}
	if (m.neg || c.flip()) r->setAllowNegative(m.neg);
	return r;
}

static double sigm(double v, double b, double s) { return b * v / (s + std::fabs(v)); }
static bool close(double a, double b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (a == b) return true; return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
static double worst(HInd const &p) { return p.getMaxMode() == gg::maxMode::MAXIMIZE ? -HIGHEST : HIGHEST; }

// what the evaluation of p has to deliver
struct Outcome { bool valid = true, run = true; double level = 0.; std::vector<double> raw, tr; };
static Outcome predict(HInd const &p, CT const *ct, std::vector<double> const *given = nullptr) {
	Outcome o;
	Eval e = p.content();
	if (ct) o.level = ct->level(p, e, o.valid);
	o.run = o.valid || p.getEvaluationPolicy() == gg::evaluationPolicy::USESIMPLEEVALUATION;
	for (std::size_t k = 0; k < p.getNStoredResults(); k++) {
		if (o.run) {
			double f = given ? (*given)[k] : fit(p.m_fn, k, e.d, e.i, e.b);
			if (k == 0 && p.m_throw_at == 3 && !given) f = std::numeric_limits<double>::quiet_NaN();
			o.raw.push_back(f);
			o.tr.push_back(p.getEvaluationPolicy() == gg::evaluationPolicy::USESIGMOID ? sigm(f, p.getBarrier(), p.getSteepness()) : f);
		} else {
			o.raw.push_back(worst(p));
			o.tr.push_back(p.getEvaluationPolicy() == gg::evaluationPolicy::USEWORSTCASEFORINVALID || o.level == HIGHEST ? worst(p) : o.level * p.getBarrier() * (p.getMaxMode() == gg::maxMode::MAXIMIZE ? -1. : 1.));
		}
	}
	return o;
}
static void policies(pbt::Ctx &c, HInd &p, std::ostringstream &n) {
	p.setMaxMode(c.flip() ? gg::maxMode::MAXIMIZE : gg::maxMode::MINIMIZE);
	p.setEvaluationPolicy(c.pick<gg::evaluationPolicy>({gg::evaluationPolicy::USESIMPLEEVALUATION, gg::evaluationPolicy::USEWORSTCASEFORINVALID, gg::evaluationPolicy::USESIGMOID}));
	if (c.flip()) { p.setBarrier(c.pick<double>({1., 100., 0.5})); p.setSteepness(c.pick<double>({1., 10., 0.01})); }
	n << (p.getMaxMode() == gg::maxMode::MAXIMIZE ? " max" : " min") << " policy " << (int)p.getEvaluationPolicy() << " barrier " << p.getBarrier() << " steepness " << p.getSteepness();
}
static void refuses(pbt::Ctx &c, const char *what, std::function<void()> f, const char *when) {
	bool thrown = false;
	try { f(); } catch (gemfony_exception &) { thrown = true; }
	REQ(thrown, what, " works ", when);
}
static std::shared_ptr<HInd> round_trip(pbt::Ctx &c, std::shared_ptr<HInd> p) {
	switch (c.raw(3)) {
		case 0: return p->clone<HInd>();
		case 1: { auto q = std::make_shared<HInd>(c.size(1, 3)); q->load(p); return q; }
		default: { auto q = std::make_shared<HInd>(c.size(1, 3)); auto m = SMODES[c.raw(3)]; q->fromString(p->toString(m), m); return q; }
	}
}

// ------------------------------------------------------------------------------------------ C16
struct M {
	PS st = PS::DO_IGNORE;
	std::vector<double> raw, tr;
	bool errors = false;       // descriptions are available
	bool valid = true; double level = 0.;
	std::string id = "empty";
};
static bool same(Eval const &a, Eval const &b) { return a.d == b.d && a.i == b.i && a.b == b.b; }
static void check_state(pbt::Ctx &c, std::shared_ptr<HInd> p, M const &m, const char *op) {
	REQ(p->getProcessingStatus() == m.st, "after ", op, ": the status is ", p->getProcessingStatusAsStr(), " instead of ", gq::psToStr(m.st));
	REQ(p->is_processed() == (m.st == PS::PROCESSED) && p->is_ignored() == (m.st == PS::DO_IGNORE) && p->is_due_for_processing() == (m.st == PS::DO_PROCESS) && p->has_errors() == (m.st == PS::EXCEPTION_CAUGHT || m.st == PS::ERROR_FLAGGED) && p->error_flagged_by_user() == (m.st == PS::ERROR_FLAGGED), "after ", op, ": the predicates disagree with the status ", p->getProcessingStatusAsStr());
	REQ(!m.errors || !p->getStoredErrorDescriptions().empty(), "after ", op, ": no description of the error");
	std::size_t n = p->getNStoredResults();
	if (m.st != PS::PROCESSED) {
		std::size_t k = c.raw(n);
		refuses(c, "raw_fitness()", [&]() { p->raw_fitness(k); }, op);
		refuses(c, "transformed_fitness()", [&]() { p->transformed_fitness(k); }, op);
		refuses(c, "raw_fitness_vec()", [&]() { p->raw_fitness_vec(); }, op);
		refuses(c, "transformed_fitness_vec()", [&]() { p->transformed_fitness_vec(); }, op);
		refuses(c, "getFitnessTuple()", [&]() { p->getFitnessTuple((std::uint32_t)k); }, op);
		refuses(c, "getStoredResult()", [&]() { p->getStoredResult(k); }, op);
		refuses(c, "isGoodEnough()", [&]() { p->isGoodEnough(std::vector<double>(n, 0.)); }, op);
		refuses(c, "sumCombiner()", [&]() { p->sumCombiner(); }, op);
		refuses(c, "minOnly_transformed_fitness()", [&]() { gg::minOnly_transformed_fitness(p, k); }, op);
		if (m.st != PS::DO_IGNORE) refuses(c, "isValid()", [&]() { p->isValid(); }, op);
		return;
	}
	REQ(m.raw.size() == n, "after ", op, ": ", n, " results instead of ", m.raw.size());
	auto rv = p->raw_fitness_vec(), tv = p->transformed_fitness_vec();
	REQ(rv.size() == n && tv.size() == n, "after ", op, ": vectors of ", rv.size(), " and ", tv.size(), " results instead of ", n);
	bool max = p->getMaxMode() == gg::maxMode::MAXIMIZE, good = true;
	double s = 0., fs = 0., sq = 0.;
	for (std::size_t k = 0; k < n; k++) {
		double r = p->raw_fitness(k), t = p->transformed_fitness(k);
		REQ(close(r, m.raw[k]), "after ", op, ": raw fitness ", k, " is ", r, " instead of ", m.raw[k]);
		REQ(close(t, m.tr[k]), "after ", op, ": transformed fitness ", k, " is ", t, " instead of ", m.tr[k]);
		auto tp = p->getFitnessTuple((std::uint32_t)k);
		auto res = p->getStoredResult(k);
		REQ(close(rv[k], r) && close(tv[k], t) && close(std::get<0>(tp), r) && close(std::get<1>(tp), t) && close(res.rawFitness(), r) && close(res.transformedFitness(), t), "after ", op, ": the views of result ", k, " disagree");
		double mo = gg::minOnly_transformed_fitness(p, k), want = max ? (t == HIGHEST ? -HIGHEST : t == -HIGHEST ? HIGHEST : -t) : t;
		REQ(close(mo, want), "after ", op, ": minOnly fitness ", mo, " of ", t, max ? " maximising" : " minimising");
		s += t; fs += std::fabs(t); sq += t * t;
	}
	REQ(close(p->raw_fitness(), rv[0]) && close(p->transformed_fitness(), tv[0]), "after ", op, ": the primary result is another one");
	REQ(p->isValid() == m.valid && p->isInValid() == !m.valid && p->constraintsFulfilled() == m.valid && close(p->getValidityLevel(), m.level), "after ", op, ": valid ", p->isValid(), " level ", p->getValidityLevel(), " instead of ", m.valid, " ", m.level);
	REQ(p->hasMultipleFitnessCriteria() == (n > 1), "after ", op, ": hasMultipleFitnessCriteria()");
	if (fs < 1e100) {
		REQ(std::fabs(p->sumCombiner() - s) <= 1e-9 * (1. + fs), "after ", op, ": sum ", p->sumCombiner(), " instead of ", s);
		REQ(close(p->fabsSumCombiner(), fs), "after ", op, ": sum of magnitudes ", p->fabsSumCombiner(), " instead of ", fs);
		REQ(std::fabs(p->squaredSumCombiner() - std::sqrt(sq)) <= 1e-9 * (1. + std::sqrt(sq)), "after ", op, ": squared sum ", p->squaredSumCombiner(), " instead of ", std::sqrt(sq));
		std::vector<double> w; double ws = 0.;
		for (std::size_t k = 0; k < n; k++) { w.push_back((double)c.range(-2, 3)); ws += w[k] * w[k] * tv[k] * tv[k]; }
		REQ(std::fabs(p->weighedSquaredSumCombiner(w) - std::sqrt(ws)) <= 1e-9 * (1. + std::sqrt(ws)), "after ", op, ": weighted sum differs");
	}
	std::vector<double> th;
	for (std::size_t k = 0; k < n; k++) { th.push_back(c.chance(1, 3) ? rv[k] : rv[k] + (double)c.range(-1, 1)); if (max ? rv[k] < th[k] : rv[k] > th[k]) good = false; }
	bool nan = false; for (auto x: rv) nan = nan || std::isnan(x) || std::fabs(x) > 1e15;
	if (!nan) REQ(p->isGoodEnough(th) == good, "after ", op, ": isGoodEnough() is ", !good);
}

PROP("C16", life_cycle, 20000, 1000000, 7, "the individual was evaluated, then changed and evaluated again") {
	GenOpt o; o.moderate = true;
	Tree t;
	std::size_t ncrit = c.size(1, 3);
	auto p = gen_ind(c, o, t, c.chance(1, 15) ? 0 : 1, 4, ncrit);
	std::ostringstream n;
	p->m_fn = (int)c.raw(6);
	policies(c, *p, n);
	CT ct; bool have = c.chance(1, 2);
	std::vector<Leaf> dl; for (auto &l: t.leaves) if (l.type == 'd') dl.push_back(l);
	if (have) { p->registerConstraint(gen_tree(c, ct, dl, 1)); n << " constraint " << ct.str(); }
	int pre = (int)c.raw(6), post = (int)c.raw(6); // 0,4,5: none, 1: counts, 2: fails, 3: disabled
	if (pre >= 1 && pre <= 3) { p->registerPreProcessor(std::make_shared<HPP>("pre", pre == 2)); p->vetoPreProcessing(pre == 3); }
	if (post >= 1 && post <= 3) { p->registerPostProcessor(std::make_shared<HPP>("post", post == 2)); p->vetoPostProcessing(post == 3); }
	p->setMaxUnsuccessfulAdaptions(c.pick<std::size_t>({1, 3, 10}));
	p->setMaxRetriesUntilValid(c.pick<std::size_t>({0, 1, 4}));
	c.note(n.str() + " pre " + std::to_string(pre) + " post " + std::to_string(post) + " " + dump_params(*p));
	CT *k = have ? &ct : nullptr;
	M m;
	check_state(c, p, m, "construction");
	std::size_t ops = c.size(3, 14);
	int evals = 0; bool changed_between = false;
	for (std::size_t i = 0; i < ops; i++) {
		Eval before = p->content();
		std::string id = p->getCurrentEvaluationID();
		std::string op;
		bool mutator = false;
		switch (c.weighted({10, 5, 2, 3, 4, 2, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1})) {
			case 0: {
				op = "process";
				if (c.chance(2, 3)) { p->mark_as_due_for_processing(); m.st = PS::DO_PROCESS; m.errors = false; }
				events().clear(); evlog().start();
				bool thrown = false, other = false;
				try { p->process(); } catch (gq::g_processing_exception &) { thrown = true; } catch (gemfony_exception &) { other = true; }
				std::size_t runs = evlog().size(); evlog().stop();
				if (m.st != PS::DO_PROCESS) { REQ(other || thrown, "process() works for the status ", gq::psToStr(m.st)); REQ(runs == 0 && events().empty(), "a refused evaluation has run"); break; }
				auto out = predict(*p, k);
				std::vector<std::string> ev;
				bool fail = false, flagged = false;
				if (pre == 1 || pre == 2) ev.push_back("pre");
				if (pre == 2) fail = true;
				else {
					if (out.run && p->m_throw_at == 1) fail = true;
					else {
						REQ(runs == (out.run ? 1u : 0u), "the evaluation function ran ", runs, " times, the individual is ", out.valid ? "valid" : "invalid");
						flagged = out.run && p->m_throw_at == 2;
						if (post == 1 || post == 2) ev.push_back("post");
						fail = post == 2;
					}
				}
				REQ(events() == ev, "pre- and post-processors ran ", events().size(), " times instead of ", ev.size());
				REQ(thrown == (fail || flagged) && !other, "process() ", thrown ? "reports an error" : "reports no error", fail ? " though something threw" : flagged ? " though an error was flagged" : "");
				m.st = fail ? PS::EXCEPTION_CAUGHT : flagged ? PS::ERROR_FLAGGED : PS::PROCESSED;
				m.errors = fail || flagged;
				m.raw = out.raw; m.tr = out.tr; m.valid = out.valid; m.level = out.level;
				REQ(p->getCurrentEvaluationID() != id && p->getCurrentEvaluationID() != "empty", "the evaluation got no new id");
				if (!fail && !flagged) { evals++; if (changed_between && evals > 1) c.nontrivial(); c.label(out.valid ? "evaluated" : out.run ? "evaluated though invalid" : "penalised"); } else c.label("failed evaluation");
				break;
			}
			case 1: op = "mark_as_due"; p->mark_as_due_for_processing(); m.st = PS::DO_PROCESS; m.errors = false; break;
			case 2: op = "mark_as_ignorable"; p->mark_as_ignorable(); m.st = PS::DO_IGNORE; m.errors = false; break;
			case 3: {
				PS to = c.pick<PS>({PS::DO_IGNORE, PS::DO_PROCESS, PS::PROCESSED, PS::EXCEPTION_CAUGHT, PS::ERROR_FLAGGED});
				bool ok = to == m.st || to == PS::DO_IGNORE || to == PS::DO_PROCESS, thrown = false;
				bool clear = c.flip();
				op = clear ? "get_and_clear_exceptions" : "set_processing_status";
				try { if (clear) { auto s = p->get_and_clear_exceptions(to); REQ(!m.errors || !s.empty(), "no stored error is delivered"); } else p->set_processing_status(to); } catch (gemfony_exception &) { thrown = true; }
				REQ(thrown == !ok, "a change from ", gq::psToStr(m.st), " to ", gq::psToStr(to), thrown ? " is refused" : " is accepted");
				if (ok && to != m.st) { m.st = to; m.errors = false; REQ(p->getStoredErrorDescriptions().empty(), "error descriptions survive"); }
				break;
			}
			case 4: {
				op = "adapt"; mutator = true;
				auto r = p->adapt();
				REQ(r == p->getNAdaptions(), "getNAdaptions() disagrees with adapt()");
				if (r > 0) REQ(p->is_due_for_processing(), r, " adaptions, yet the individual is not due for evaluation");
				break;
			}
			case 5: op = "randomInit"; mutator = true; p->randomInit(MODES[c.raw(3)]); break;
			case 6: { op = "assignValueVector"; mutator = true; std::vector<double> v; auto a = MODES[c.raw(3)]; p->streamline<double>(v, a); for (auto &x: v) if (c.flip()) x *= 0.5; if (c.flip()) p->assignValueVector<double>(v, a); else { std::map<std::string, std::vector<double>> q; p->streamline<double>(q, a); for (auto &x: q) for (auto &y: x.second) if (c.flip()) y *= 0.5; p->assignValueVectors<double>(q, a); } break; }
			case 7: op = "fixedValueInit"; mutator = true; if (c.flip()) p->fixedValueInit<std::int32_t>((std::int32_t)c.range(0, 2), MODES[c.raw(3)]); else p->fixedValueInit<bool>(c.flip(), MODES[c.raw(3)]); break;
			case 8: op = "multiplyBy"; mutator = true; p->multiplyBy<double>(c.pick<double>({1., 0.5, 0.}), MODES[c.raw(3)]); break;
			case 9: op = "multiplyByRandom"; mutator = true; if (c.flip()) p->multiplyByRandom<double>(MODES[c.raw(3)]); else p->multiplyByRandom<double>(0.25, 0.75, MODES[c.raw(3)]); break;
			case 10: {
				op = "add or subtract"; mutator = true;
				std::shared_ptr<gg::GParameterSet> q = p->clone<HInd>();
				q->multiplyBy<double>(0.25, AM::ALLPARAMETERS);
				if (c.flip()) p->subtract<double>(q, MODES[c.raw(3)]); else p->add<double>(q, MODES[c.raw(3)]);
				break;
			}
			case 11: {
				op = "crossOverWith";
				std::shared_ptr<gg::GParameterSet> q = p->clone<HInd>();
				q->multiplyBy<double>(0.5, AM::ALLPARAMETERS); q->fixedValueInit<std::int32_t>(1, AM::ALLPARAMETERS); q->fixedValueInit<bool>(true, AM::ALLPARAMETERS);
				auto child = std::dynamic_pointer_cast<HInd>(p->crossOverWith(q));
				REQ(child, "no child");
				if (!same(child->content(), p->content())) REQ(!child->is_processed(), "a child with other parameters has the fitness of its parent");
				break;
			}
			case 12: op = "a copy"; p = round_trip(c, p); break;
			case 13: {
				op = "setFitness_";
				std::vector<double> f; for (std::size_t j = 0; j < ncrit; j++) f.push_back((double)c.range(-9, 9));
				auto out = predict(*p, k, &f);
				p->setFitness_(f);
				m.st = PS::PROCESSED; m.errors = false; m.raw = out.raw; m.tr = out.tr; m.valid = out.valid; m.level = out.level;
				break;
			}
			case 14: {
				op = "markAsProcessedWith";
				std::vector<gg::parameterset_processing_result> v;
				m.raw.clear(); m.tr.clear();
				for (std::size_t j = 0; j < ncrit; j++) { double r = (double)c.range(-9, 9), x = (double)c.range(-9, 9); bool both = c.flip(); if (both) v.emplace_back(r, x); else v.emplace_back(r); m.raw.push_back(r); m.tr.push_back(both ? x : r); }
				bool wrong = c.chance(1, 4), thrown = false;
				M old = m;
				if (wrong) { auto w = v; w.push_back(w[0]); try { p->markAsProcessedWith(w); } catch (gemfony_exception &) { thrown = true; } REQ(thrown, "results of another number are accepted"); }
				p->markAsProcessedWith(v);
				m.st = PS::PROCESSED; m.errors = false; m.level = p->getValidityLevel(); m.valid = m.level <= 1.;
				break;
			}
			case 15: op = "setMaxMode"; if (m.st != PS::PROCESSED) p->setMaxMode(c.flip() ? gg::maxMode::MAXIMIZE : gg::maxMode::MINIMIZE); break;
			case 16: op = "a failing evaluation"; p->m_throw_at = (int)c.raw(4); if (p->m_throw_at == 3 && p->getEvaluationPolicy() == gg::evaluationPolicy::USESIGMOID) p->m_throw_at = 0; break;
			case 17: {
				op = "swap"; mutator = true;
				auto q = std::make_shared<HInd>(*p);
				q->multiplyBy<double>(0.5, AM::ALLPARAMETERS);
				q->mark_as_due_for_processing();
				if (c.flip()) { q->m_throw_at = 0; bool bad = pre == 2 || post == 2; try { q->process(); } catch (gq::g_processing_exception &) { REQ(bad, "evaluation failed"); } }
				auto qc = q->content();
				p->swap(*q);
				REQ(same(p->content(), qc) && same(q->content(), before), "swap does not exchange the parameters");
				REQ(!q->is_processed() || same(qc, before), "after swap the partner has the fitness of other parameters");
				break;
			}
			case 18: {
				op = "cannibalize";
				auto q = std::make_shared<HInd>(*p);
				q->multiplyBy<double>(0.5, AM::ALLPARAMETERS);
				bool can = c.chance(3, 4);
				if (can) { std::vector<double> f(ncrit, 1.); q->setFitness_(f); } else q->mark_as_due_for_processing();
				auto qc = q->content(); auto qr = q->getProcessingStatus() == PS::PROCESSED ? q->raw_fitness_vec() : std::vector<double>();
				bool thrown = false;
				try { p->cannibalize(*q); } catch (gemfony_exception &) { thrown = true; }
				REQ(thrown == !can, "cannibalize() of ", can ? "an evaluated" : "an unevaluated", " individual ", thrown ? "is refused" : "works");
				if (can) { REQ(same(p->content(), qc), "cannibalize() does not take the parameters over"); auto out = predict(*p, k, &qr); m.st = PS::PROCESSED; m.errors = false; m.raw = out.raw; m.tr = out.tr; m.valid = out.valid; m.level = out.level; }
				break;
			}
			default: op = "reading"; p->updateAdaptorsOnStall((std::uint32_t)c.range(1, 3)); p->getVariableNames<double>(); { std::vector<double> a, b; p->boundaries<double>(a, b); double vl; p->parameterSetFulfillsConstraints(vl); } break;
		}
		c.label(op.c_str());
		Eval after = p->content();
		if (mutator) {
			if (!same(before, after)) { REQ(p->is_due_for_processing(), op, " changed parameters, yet the individual is not due for evaluation but ", p->getProcessingStatusAsStr()); changed_between = true; }
			if (p->is_due_for_processing()) { m.st = PS::DO_PROCESS; m.errors = false; }
		} else if (op != "cannibalize") REQ(same(before, after), op, " changed parameters");
		check_state(c, p, m, op.c_str());
	}
}

// ------------------------------------------------------------------------------------------ C17
PROP("C17", validity, 30000, 1500000, 7, "several checks are combined and the individual is invalid") {
	GenOpt o; o.moderate = true; o.adaptors = false;
	Tree t;
	auto p = gen_ind(c, o, t, 1, 4, c.size(1, 3));
	p->m_fn = (int)c.raw(6);
	std::ostringstream n;
	policies(c, *p, n);
	std::vector<Leaf> dl; for (auto &l: t.leaves) if (l.type == 'd') dl.push_back(l);
	CT ct;
	auto chk = gen_tree(c, ct, dl, 0);
	n << " " << ct.str();
	p->registerConstraint(chk);
	chk->setAllowNegative(!ct.neg); // the individual has its own copy
	c.note(n.str() + " " + dump_params(*p));
	for (std::size_t i = 0; i < c.size(1, 4); i++) {
		if (i) { if (c.flip()) p = round_trip(c, p); if (c.flip()) p->multiplyBy<double>(c.pick<double>({0.5, 2., -1., 0.}), AM::ALLPARAMETERS); if (c.chance(1, 4)) policies(c, *p, n); }
		auto out = predict(*p, &ct);
		double l = -1.;
		bool ok = p->parameterSetFulfillsConstraints(l);
		REQ(ok == out.valid && close(l, out.level), "judged ", ok ? "valid" : "invalid", " with level ", l, ", expected ", out.valid ? "valid" : "invalid", " with level ", out.level);
		p->mark_as_due_for_processing();
		evlog().start();
		auto res = p->process();
		auto ev = evlog().get(); evlog().stop();
		REQ(ev.size() == (out.run ? 1u : 0u), "the evaluation function ran ", ev.size(), " times for ", ok ? "a valid" : "an invalid", " individual under policy ", (int)p->getEvaluationPolicy());
		REQ(p->isValid() == out.valid && p->isInValid() == !out.valid && p->constraintsFulfilled() == out.valid && close(p->getValidityLevel(), out.level), "reported ", p->isValid(), " with level ", p->getValidityLevel());
		for (std::size_t k = 0; k < p->getNStoredResults(); k++) {
			REQ(close(p->raw_fitness(k), out.raw[k]), "raw fitness ", k, " is ", p->raw_fitness(k), " instead of ", out.raw[k]);
			REQ(close(p->transformed_fitness(k), out.tr[k]), "transformed fitness ", k, " is ", p->transformed_fitness(k), " instead of ", out.tr[k]);
		}
		REQ(close(res.rawFitness(), out.raw[0]) && close(res.transformedFitness(), out.tr[0]), "process() returns another result");
		c.label(out.valid ? "valid" : "invalid");
		if (!out.valid && ct.what == 2 && ct.sub.size() > 1) c.nontrivial();
	}
}
PROP("C17", preference, 30000, 1500000, 7, "valid and invalid individuals are compared under a policy that penalises invalid ones") {
	GenOpt o; o.moderate = true; o.adaptors = false;
	Tree t;
	auto base = gen_ind(c, o, t, 1, 4, 1);
	base->m_fn = (int)c.raw(6);
	std::ostringstream n;
	policies(c, *base, n);
	bool simple = base->getEvaluationPolicy() == gg::evaluationPolicy::USESIMPLEEVALUATION, sig = base->getEvaluationPolicy() == gg::evaluationPolicy::USESIGMOID;
	CT ct; ct.what = 0; ct.kind = 1 + 2 * (int)c.raw(2); ct.a = ct.kind == 1 ? c.pick<double>({0.05, 0.1, 0.5}) : c.real(-2., 2.);
	base->registerConstraint(std::make_shared<HCheck>(ct.kind, ct.a));
	n << " " << ct.str();
	c.note(n.str() + " " + dump_params(*base));
	std::vector<std::shared_ptr<gg::GParameterSet>> v;
	std::size_t N = c.size(2, 6), nv = 0;
	for (std::size_t i = 0; i < N; i++) {
		auto q = base->clone<HInd>();
		std::vector<double> d; q->streamline<double>(d);
		double s = c.pick<double>({1., 0.5, 0.1, 0.01, 2.});
		q->multiplyBy<double>(s, AM::ALLPARAMETERS);
		if (c.flip()) q->fixedValueInit<std::int32_t>((std::int32_t)c.range(-1, 1), AM::ALLPARAMETERS);
		q->mark_as_due_for_processing(); q->process();
		nv += q->isValid();
		v.push_back(q);
	}
	bool max = base->getMaxMode() == gg::maxMode::MAXIMIZE;
	for (auto &x: v) for (auto &y: v) {
		if (x == y) continue;
		auto hx = std::dynamic_pointer_cast<HInd>(x), hy = std::dynamic_pointer_cast<HInd>(y);
		bool b = gg::isBetter(x, y);
		REQ(!(b && gg::isBetter(y, x)), "each of two individuals is better than the other one");
		REQ(gg::isWorse(x, y) == !b, "isWorse() is not the opposite of isBetter()");
		REQ(gg::isBetter(x->transformed_fitness(), y->transformed_fitness(), x->getMaxMode()) == b, "isBetter() of the values and of the individuals disagree");
		double fx = hx->expected(), fy = hy->expected();
		if ((simple || (x->isValid() && y->isValid())) && std::fabs(fx - fy) > 1e-9 * (std::fabs(fx) + std::fabs(fy))) REQ(b == (max ? fx > fy : fx < fy), "of two valid individuals with ", fx, " and ", fy, " the first is ", b ? "better" : "not better", max ? ", maximising" : ", minimising");
		if (!simple && x->isValid() && !y->isValid()) { REQ(b, "a valid individual with ", x->transformed_fitness(), " is not better than an invalid one with ", y->transformed_fitness()); REQ(!gg::isBetter(y, x), "an invalid individual is better than a valid one"); }
		if (sig && !x->isValid() && !y->isValid() && x->getValidityLevel() < y->getValidityLevel() * (1. - 1e-12)) REQ(b, "of two invalid individuals the one with the smaller violation is not preferred: ", x->transformed_fitness(), " and ", y->transformed_fitness());
	}
	if (!simple && nv && nv < N) c.nontrivial();
	c.label(sig ? "sigmoid" : simple ? "simple" : "worst case");
}
PBT_MAIN
