// C04: priority queues of limited size
#define INDIV_IMPL
#include "indiv.hpp"
#include "common/GFixedSizePriorityQueueT.hpp"
#include "geneva/GParameterSetFixedSizePriorityQueue.hpp"
#include "geneva/GParameterSetMultiConstraint.hpp"
#include <set>
using namespace pbt;
namespace gc = Gem::Common;
namespace gg = Gem::Geneva;

struct QItem : gc::GCommonInterfaceT<QItem> {
	double v = 0.; std::string i = "x";
	QItem() = default;
	QItem(double vv, std::string ii) : v(vv), i(std::move(ii)) {}
	QItem(QItem const &) = default;
	virtual ~QItem() = default;
	void compare_(QItem const &o, gc::expectation const &e, double const &limit) const override {
		if (e == gc::expectation::INEQUALITY ? (v == o.v && i == o.i) : (v != o.v || i != o.i)) throw g_expectation_violation("QItem");
	}
	void load_(QItem const *p) override { v = p->v; i = p->i; }
	QItem *clone_() const override { return new QItem(*this); }
	bool modify_GUnitTests_() override { return false; }
	void specificTestsNoFailureExpected_GUnitTests_() override {}
	void specificTestsFailuresExpected_GUnitTests_() override {}
	template<typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("v", v) & boost::serialization::make_nvp("i", i); }
};
struct Queue : gc::GFixedSizePriorityQueueT<QItem> {
	using B = gc::GFixedSizePriorityQueueT<QItem>;
	explicit Queue(std::size_t m) : B(m) {}
	Queue(std::size_t m, gc::sortOrder s) : B(m, s) {}
	Queue(Queue const &) = default;
	Queue(Queue &&o) noexcept : B(std::move(o)) {}
	Queue &operator=(Queue const &) = default;
	Queue &operator=(Queue &&o) noexcept { B::operator=(std::move(o)); return *this; }
	double evaluation(std::shared_ptr<QItem> const &p) const override { return p->v; }
	std::string id(std::shared_ptr<QItem> const &p) const override { return p->i; }
	B *clone_() const override { return new Queue(*this); }
};

// the reference: the best `max` distinct items, as (evaluation, id); ties make the choice of the id free
struct Model {
	std::size_t max; bool lower;
	std::vector<std::pair<double, std::string>> v;
	bool better(double a, double b) const { return lower ? a < b : a > b; }
	void sort() { std::stable_sort(v.begin(), v.end(), [this](auto &a, auto &b) { return better(a.first, b.first); }); }
	void trim() { sort(); if (max && v.size() > max) v.resize(max); }
	bool has(std::string const &id) const { for (auto &x: v) if (x.second == id) return true; return false; }
	void put(double e, std::string const &id) { if (!has(id)) v.push_back({e, id}); }
};

// agreement up to the choice among items that tie with the last one kept
template<typename Vec, typename EV, typename ID>
static void agree(Ctx &c, Vec const &got, Model &m, std::map<std::string, double> const &known, EV ev, ID id, const char *where) {
	REQ(got.size() == m.v.size(), where, ": holds ", got.size(), " items instead of ", m.v.size());
	std::set<std::string> ids, mids;
	for (std::size_t k = 0; k < got.size(); k++) {
		REQ(ev(got[k]) == m.v[k].first, where, ": entry ", k, " has evaluation ", ev(got[k]), " instead of ", m.v[k].first);
		REQ(ids.insert(id(got[k])).second, where, ": duplicate id ", id(got[k]));
		auto f = known.find(id(got[k]));
		REQ(f != known.end() && f->second == ev(got[k]), where, ": unknown item ", id(got[k]));
	}
	// follow the queue's choice among ties
	for (std::size_t k = 0; k < got.size(); k++) m.v[k].second = id(got[k]);
}

PROP("C04", queue_history, 60000, 1000000, 6, "sequence of up to 40 single/bulk additions (with clones, replacement, duplicates, ties), pops, limit, direction changes and copies on limits 0..8 against a sorted reference; non-trivial: more distinct items were offered than the limit allows, or a bulk addition met a partly filled queue") {
	std::size_t mx = c.size(0, 8);
	bool lower = !c.chance(1, 3);
	auto q = std::make_unique<Queue>(mx, lower ? gc::sortOrder::LOWERISBETTER : gc::sortOrder::HIGHERISBETTER);
	Model m{mx, lower, {}};
	c.note("max", mx, lower ? " lower" : " higher");
	int spread = (int)c.pick({40, 5, 1000});
	std::map<std::string, double> known;
	std::vector<std::shared_ptr<QItem>> offered, outside;
	auto make = [&]() -> std::shared_ptr<QItem> {
		if (!offered.empty() && c.chance(1, 5)) return c.pick(offered);
		double v = c.chance(1, 30) ? c.pick({1e300, -1e300, (double)std::numeric_limits<double>::max(), -(double)std::numeric_limits<double>::max(), 0.}) : (double)c.range(-spread, spread) / 2.;
		auto p = std::make_shared<QItem>(v, "i" + std::to_string(known.size()));
		known[p->i] = v; offered.push_back(p);
		return p;
	};
	std::size_t n = c.size(1, 40);
	for (std::size_t k = 0; k < n; k++) {
		switch (c.weighted({6, 5, 2, 1, 1, 1, 1, 1})) {
			case 0: {
				auto p = make();
				bool cl = c.flip();
				if (mx && m.v.size() >= mx) { c.nontrivial(); c.label("full"); }
				q->add(p, cl);
				c.note("add ", p->v, "/", p->i);
				m.put(p->v, p->i); m.trim();
				break;
			}
			case 1: {
				std::vector<std::shared_ptr<QItem>> v;
				std::size_t cnt = c.size(0, 7);
				bool cl = c.flip(), rep = c.chance(1, 4);
				std::string s;
				for (std::size_t j = 0; j < cnt; j++) { v.push_back(make()); s += std::to_string(v.back()->v) + "/" + v.back()->i + " "; }
				if (!m.v.empty() && (mx == 0 || m.v.size() < mx) && cnt > 1) { c.nontrivial(); c.label("bulk into partly filled"); }
				if (mx && m.v.size() + cnt > mx) c.nontrivial();
				q->add(v, cl, rep);
				c.note(rep ? "replace [" : "bulk [", s, "]");
				if (rep) m.v.clear();
				for (auto &p: v) m.put(p->v, p->i);
				m.trim();
				break;
			}
			case 2: {
				bool thrown = false;
				std::shared_ptr<QItem> p;
				try { p = q->pop(); } catch (gemfony_exception &) { thrown = true; }
				c.note("pop");
				REQ(thrown == m.v.empty(), "pop of a queue with ", m.v.size(), " items: exception=", thrown);
				if (!thrown) {
					REQ(p && p->v == m.v[0].first, "pop returned ", p->v, " instead of the best ", m.v[0].first);
					m.v.erase(m.v.begin());
				}
				break;
			}
			case 3: {
				mx = c.size(0, 8);
				c.note("setMaxSize ", mx);
				q->setMaxSize(mx);
				m.max = mx; m.trim();
				break;
			}
			case 4: {
				lower = !lower;
				c.note("direction ", lower ? "lower" : "higher");
				q->setSortOrder(lower ? gc::sortOrder::LOWERISBETTER : gc::sortOrder::HIGHERISBETTER);
				m.lower = lower; m.sort();
				c.label("direction changed");
				break;
			}
			case 5: { // copies are independent
				auto r = std::make_unique<Queue>(*q);
				auto a = q->toVector(), b = r->toVector();
				REQ(a.size() == b.size(), "a copy has a different size");
				for (std::size_t j = 0; j < a.size(); j++) REQ(a[j].get() != b[j].get() && a[j]->v == b[j]->v && a[j]->i == b[j]->i, "a copy shares or loses items");
				REQ(r->getMaxSize() == q->getMaxSize() && r->getSortOrder() == q->getSortOrder(), "a copy loses limit or direction");
				Queue s(3); s.add(make(), true);
				s = *q;
				auto d = s.toVector();
				REQ(d.size() == a.size(), "an assigned queue has a different size");
				for (std::size_t j = 0; j < a.size(); j++) REQ(a[j].get() != d[j].get() && a[j]->v == d[j]->v && a[j]->i == d[j]->i, "an assigned queue shares or loses items");
				REQ(s.getMaxSize() == q->getMaxSize() && s.getSortOrder() == q->getSortOrder(), "assignment loses limit or direction");
				Queue l(1); l.load(*q);
				REQ(l.toVector().size() == a.size() && l.getMaxSize() == q->getMaxSize() && l.getSortOrder() == q->getSortOrder(), "load loses state");
				bool moved = c.flip();
				if (moved) { Queue t(std::move(*r)); REQ(t.toVector().size() == a.size() && t.getMaxSize() == mx && r->empty(), "moving a queue loses items"); }
				q->clear(); // the copy must not be affected
				REQ(q->empty() && q->size() == 0, "clear");
				if (moved) { *q = std::move(s); } else q = std::move(r);
				c.note("copy");
				break;
			}
			case 6: { // changing the handed-out original of a cloned addition must not change the queue
				auto p = std::make_shared<QItem>((double)c.range(-spread, spread), "i" + std::to_string(known.size()));
				known[p->i] = p->v;
				q->add(p, true);
				m.put(p->v, p->i); m.trim();
				c.note("clone-add ", p->v, " and modify");
				p->v = 1e9; p->i = "modified";
				break;
			}
			default:
				if (c.chance(1, 3)) { q->clear(); m.v.clear(); c.note("clear"); }
		}
		auto v = q->toVector();
		agree(c, v, m, known, [](auto &p) { return p->v; }, [](auto &p) { return p->i; }, "queue");
		REQ(q->size() == m.v.size() && q->empty() == m.v.empty() && q->getMaxSize() == mx, "size/empty/limit disagree with the content");
		if (m.v.empty()) {
			int thrown = 0;
			try { q->best(); } catch (gemfony_exception &) { thrown++; }
			try { q->worst(); } catch (gemfony_exception &) { thrown++; }
			REQ(thrown == 2, "best/worst of an empty queue");
		} else {
			REQ(q->best().get() == v.front().get() && q->worst().get() == v.back().get(), "best/worst disagree with the content");
		}
	}
}

PROP("C04", individual_queue, 8000, 100000, 6, "sequence of up to 15 additions of processed and unprocessed individuals, minimised or maximised, to a queue of individuals of limit 0..6 against a sorted reference; non-trivial: more processed individuals offered than the limit allows") {
	std::size_t mx = c.size(0, 6);
	gg::GParameterSetFixedSizePriorityQueue q(mx);
	Model m{mx, true, {}};
	bool maxi = c.chance(1, 3);
	int pol = (int)c.weighted({3, 1, 2}); // values are transformed, and invalid solutions replaced, according to the policy
	c.note("limit ", mx, maxi ? " maximise" : " minimise", " policy ", pol);
	std::map<std::string, double> known;
	std::vector<std::shared_ptr<gg::GParameterSet>> offered;
	auto make = [&]() -> std::shared_ptr<gg::GParameterSet> {
		if (!offered.empty() && c.chance(1, 5)) return c.pick(offered);
		auto p = std::make_shared<H::HInd>(1);
		double x = (double)c.range(-6, 6);
		auto o = std::make_shared<gg::GDoubleObject>(x);
		o->setParameterName("x");
		p->push_back(o);
		if (pol) p->registerConstraint(std::make_shared<gg::GParameterSetFormulaConstraint>("fabs({{x}}) / 3"));
		p->setEvaluationPolicy(pol == 0 ? gg::evaluationPolicy::USESIMPLEEVALUATION : pol == 1 ? gg::evaluationPolicy::USEWORSTCASEFORINVALID : gg::evaluationPolicy::USESIGMOID);
		p->m_fn = (int)c.pick({0, 4, 2});
		if (maxi) p->setMaxMode(gg::maxMode::MAXIMIZE);
		if (!c.chance(1, 6)) {
			p->mark_as_due_for_processing();
			p->process();
			double e = p->expected();
			if (pol && std::fabs(x) > 3.) { // invalid
				e = pol == 1 ? std::numeric_limits<double>::max() : std::fabs(x) / 3. * p->getBarrier();
				if (maxi) e = -e;
			} else {
				REQ(p->raw_fitness(0) == e, "fitness ", p->raw_fitness(0), " instead of ", e);
				if (pol == 2) e = p->getBarrier() * e / (p->getSteepness() + std::fabs(e));
			}
			REQ(std::fabs(p->transformed_fitness(0) - e) <= 1e-12 * std::fabs(e), "transformed fitness ", p->transformed_fitness(0), " instead of ", e);
			e = p->transformed_fitness(0);
			known[p->getCurrentEvaluationID()] = maxi ? -e : e;
		}
		offered.push_back(p);
		return p;
	};
	std::size_t n = c.size(1, 15), tot = 0;
	for (std::size_t k = 0; k < n; k++) {
		if (c.chance(1, 3)) {
			auto p = make();
			bool cl = c.flip();
			q.add(p, cl);
			if (p->is_processed()) { m.put(known[p->getCurrentEvaluationID()], p->getCurrentEvaluationID()); tot++; }
			m.trim();
			c.note("add ", p->is_processed());
		} else {
			std::vector<std::shared_ptr<gg::GParameterSet>> v;
			std::size_t cnt = c.size(0, 6);
			bool cl = c.flip(), rep = c.chance(1, 5);
			for (std::size_t j = 0; j < cnt; j++) v.push_back(make());
			q.add(v, cl, rep);
			c.note(rep ? "replace " : "bulk ", cnt);
			if (rep) m.v.clear();
			for (auto &p: v) if (p->is_processed()) { m.put(known[p->getCurrentEvaluationID()], p->getCurrentEvaluationID()); tot++; }
			m.trim();
		}
		auto v = q.toVector();
		agree(c, v, m, known, [](auto &p) { return gg::minOnly_transformed_fitness(p); }, [](auto &p) { return p->getCurrentEvaluationID(); }, "individual queue");
		std::size_t pos = 0;
		REQ(q.allClean(pos) && pos == v.size(), "allClean reports an unprocessed individual");
	}
	if (mx && tot > mx) c.nontrivial();
}
PBT_MAIN
