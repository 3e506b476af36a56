// C07: vectors of objects and of plain values
#define INDIV_IMPL
#include "indiv.hpp"
#include "common/GPODVectorT.hpp"
#include <cfenv>
using namespace pbt;
namespace gc = Gem::Common;
namespace gg = Gem::Geneva;

// ---- elements ------------------------------------------------------------------------------------
// what an element is: its kind and its (integer) value
struct Desc { int kind = 0; int val = 0; bool operator==(Desc const &o) const { return kind == o.kind && val == o.val; } };
static std::ostream &operator<<(std::ostream &o, Desc const &d) { return o << "k" << d.kind << ":" << d.val; }
struct Cell { Desc d; };
using CellP = std::shared_ptr<Cell>;

static std::shared_ptr<gg::GParameterBase> mk_par(Desc d) {
	std::shared_ptr<gg::GParameterBase> r;
	switch (d.kind) {
		case 0: r = std::make_shared<gg::GDoubleObject>((double)d.val); break;
		case 1: r = std::make_shared<gg::GInt32Object>(d.val); break;
		case 2: r = std::make_shared<gg::GConstrainedDoubleObject>((double)d.val, -100., 100.); break;
		case 3: r = std::make_shared<gg::GBooleanObject>(bool(d.val & 1)); break;
		default: { auto p = std::make_shared<gg::GDoubleCollection>(); for (int i = 0; i < 2; i++) p->push_back((double)d.val); r = p; }
	}
	r->setParameterName("p");
	return r;
}
static Desc rd_par(gg::GParameterBase const *p) {
	if (auto q = dynamic_cast<gg::GConstrainedDoubleObject const *>(p)) return {2, (int)q->value()};
	if (auto q = dynamic_cast<gg::GDoubleObject const *>(p)) return {0, (int)q->value()};
	if (auto q = dynamic_cast<gg::GInt32Object const *>(p)) return {1, q->value()};
	if (auto q = dynamic_cast<gg::GBooleanObject const *>(p)) return {3, q->value() ? 1 : 0};
	if (auto q = dynamic_cast<gg::GDoubleCollection const *>(p)) return {4, (int)q->at(1)};
	return {99, 0};
}
static void wr_par(gg::GParameterBase *p, int v) {
	if (auto q = dynamic_cast<gg::GConstrainedDoubleObject *>(p)) *q = (double)v;
	else if (auto q = dynamic_cast<gg::GDoubleObject *>(p)) *q = (double)v;
	else if (auto q = dynamic_cast<gg::GInt32Object *>(p)) *q = v;
	else if (auto q = dynamic_cast<gg::GBooleanObject *>(p)) *q = (v & 1) != 0;
	else if (auto q = dynamic_cast<gg::GDoubleCollection *>(p)) { q->at(0) = v; q->at(1) = v; }
}
static Desc norm(Desc d) { if (d.kind == 3) d.val &= 1; return d; }

struct VDouble { // homogeneous
	using Vec = gg::GDoubleObjectCollection; using T = gg::GDoubleObject;
	static const int kinds = 1;
	static std::shared_ptr<T> make(Desc d) { return std::dynamic_pointer_cast<T>(mk_par({0, d.val})); }
	static Desc read(std::shared_ptr<T> const &p) { return rd_par(p.get()); }
	static void write(std::shared_ptr<T> const &p, int v) { wr_par(p.get(), v); }
	static std::shared_ptr<Vec> fresh() { auto r = std::make_shared<Vec>(); r->setParameterName("v"); return r; }
};
struct VInt { // homogeneous, with boundaries
	using Vec = gg::GConstrainedInt32ObjectCollection; using T = gg::GConstrainedInt32Object;
	static const int kinds = 1;
	static std::shared_ptr<T> make(Desc d) { auto p = std::make_shared<T>(d.val, -200, 200); p->setParameterName("p"); return p; }
	static Desc read(std::shared_ptr<T> const &p) { return {0, p->value()}; }
	static void write(std::shared_ptr<T> const &p, int v) { *p = v; }
	static std::shared_ptr<Vec> fresh() { auto r = std::make_shared<Vec>(); r->setParameterName("v"); return r; }
};
struct VMixed {
	using Vec = gg::GParameterObjectCollection; using T = gg::GParameterBase;
	static const int kinds = 5;
	static std::shared_ptr<T> make(Desc d) { return mk_par(d); }
	static Desc read(std::shared_ptr<T> const &p) { return rd_par(p.get()); }
	static void write(std::shared_ptr<T> const &p, int v) { wr_par(p.get(), v); }
	static std::shared_ptr<Vec> fresh() { auto r = std::make_shared<Vec>(); r->setParameterName("v"); return r; }
};
struct VInd {
	using Vec = H::HInd; using T = gg::GParameterBase;
	static const int kinds = 5;
	static std::shared_ptr<T> make(Desc d) { return mk_par(d); }
	static Desc read(std::shared_ptr<T> const &p) { return rd_par(p.get()); }
	static void write(std::shared_ptr<T> const &p, int v) { wr_par(p.get(), v); }
	static std::shared_ptr<Vec> fresh() { return std::make_shared<Vec>(); }
};

template<typename K> struct Machine {
	using Vec = typename K::Vec; using T = typename K::T; using P = std::shared_ptr<T>;
	using GV = gc::GPtrVectorT<T, gg::GObject>;
	struct Two { std::shared_ptr<Vec> v; std::vector<CellP> m; };
	Ctx &c;
	std::vector<Two> vs;
	std::vector<std::pair<P, CellP>> ext; // handles held outside
	explicit Machine(Ctx &c_) : c(c_) {}
	GV &gv(Two &t) { return *t.v; }

	Desc gd() { return norm({(int)c.raw(K::kinds), (int)c.range(-6, 6)}); }
	P mk(Desc d) { return K::make(d); }
	void check(const char *op) {
		std::map<T *, CellP> seen;
		auto look = [&](P const &p, CellP const &m, std::string const &where) {
			REQ(p, "empty pointer ", where, " after ", op);
			Desc d = K::read(p);
			REQ(d == m->d, where, " holds ", d, " expected ", m->d, " after ", op);
			auto r = seen.insert({p.get(), m});
			REQ(r.first->second == m, where, " shares its object with another element after ", op);
		};
		for (std::size_t k = 0; k < vs.size(); k++) {
			Two &t = vs[k];
			GV const &v = *t.v;
			REQ(v.size() == t.m.size(), "vector ", k, " has size ", v.size(), " expected ", t.m.size(), " after ", op);
			REQ(v.empty() == t.m.empty(), "empty() after ", op);
			for (std::size_t i = 0; i < t.m.size(); i++) look(v.at(i), t.m[i], "element " + std::to_string(i) + " of vector " + std::to_string(k));
			if (!t.m.empty()) {
				REQ(v.front().get() == v.at(0).get() && v.back().get() == v.at(t.m.size() - 1).get(), "front/back after ", op);
				REQ(v[t.m.size() / 2].get() == v.at(t.m.size() / 2).get(), "[] after ", op);
			}
			std::size_t i = 0;
			for (auto it = v.begin(); it != v.end(); ++it, ++i) REQ(it->get() == v.at(i).get(), "iteration after ", op);
			for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; REQ(it->get() == v.at(i).get(), "reverse iteration after ", op); }
		}
		for (auto &e: ext) {
			auto it = seen.find(e.first.get());
			if (it != seen.end()) REQ(it->second == e.second, "a vector shares an object with a handle it should be independent of, after ", op);
			REQ(K::read(e.first) == e.second->d, "outside handle holds ", K::read(e.first), " expected ", e.second->d, " after ", op);
		}
		// the same cell must be the same object
		std::map<Cell *, T *> inv;
		for (auto &s: seen) { auto r = inv.insert({s.second.get(), s.first}); REQ(r.first->second == s.first, "an element that was inserted without cloning is a copy, after ", op); }
		for (auto &e: ext) { auto it = inv.find(e.second.get()); if (it != inv.end()) REQ(it->second == e.first.get(), "an item inserted without cloning was cloned, after ", op); }
	}
	static CellP nc(Desc d) { auto r = std::make_shared<Cell>(); r->d = d; return r; }
	CellP clone(CellP const &x) { return nc(x->d); }

	void run() {
		std::size_t nv = c.size(1, 3);
		for (std::size_t i = 0; i < nv; i++) vs.push_back({K::fresh(), {}});
		std::size_t n = c.size(1, c.thorough() ? 40 : 18), refused = 0, grown = 0;
		for (std::size_t s = 0; s < n; s++) {
			Two &t = vs[c.raw(vs.size())];
			GV &v = gv(t);
			std::size_t pos = c.raw(t.m.size() + 1), sz = t.m.size();
			std::size_t amount = c.weighted({3, 3, 2, 1});
			switch (c.weighted({6, 4, 4, 4, 3, 3, 3, 3, 3, 3, 4, 2, 3, 3, 4, 3, 4, 3, 2, 3, 2, 3})) {
				case 0: { Desc d = gd(); P p = mk(d); CellP x = nc(d); c.note("push_back(", d, ")"); bool w = c.flip(); if (w) v.push_back(p); else v.push_back_noclone(p); t.m.push_back(x); ext.push_back({p, x}); check("push_back"); grown++; break; }
				case 1: { Desc d = gd(); P p = mk(d); c.note("push_back_clone(", d, ")"); v.push_back_clone(p); t.m.push_back(nc(d)); ext.push_back({p, nc(d)}); check("push_back_clone"); grown++; break; }
				case 2: { Desc d = gd(); P p = mk(d); CellP x = nc(d); c.note("insert(", pos, ",", d, ")"); auto it = c.flip() ? v.insert(v.begin() + pos, p) : v.insert_noclone(v.begin() + pos, p); t.m.insert(t.m.begin() + pos, x); ext.push_back({p, x}); REQ((std::size_t)(it - v.begin()) == pos, "insert returns position ", it - v.begin()); check("insert"); grown++; break; }
				case 3: { Desc d = gd(); P p = mk(d); c.note("insert_clone(", pos, ",", d, ")"); auto it = v.insert_clone(v.begin() + pos, p); t.m.insert(t.m.begin() + pos, nc(d)); ext.push_back({p, nc(d)}); REQ((std::size_t)(it - v.begin()) == pos, "insert_clone returns position ", it - v.begin()); check("insert_clone"); break; }
				case 4: { Desc d = gd(); P p = mk(d); c.note("insert_clone(", pos, ",", amount, ",", d, ")"); if (c.flip()) v.insert_clone(v.begin() + pos, amount, p); else v.insert(v.begin() + pos, amount, p); std::vector<CellP> x; for (std::size_t i = 0; i < amount; i++) x.push_back(nc(d)); t.m.insert(t.m.begin() + pos, x.begin(), x.end()); ext.push_back({p, nc(d)}); check("insert_clone(amount)"); break; }
				case 5: { Desc d = gd(); P p = mk(d); c.note("insert_noclone(", pos, ",", amount, ",", d, ")"); v.insert_noclone(v.begin() + pos, amount, p); std::vector<CellP> x; for (std::size_t i = 0; i < amount; i++) x.push_back(nc(d)); t.m.insert(t.m.begin() + pos, x.begin(), x.end()); ext.push_back({p, amount ? x[0] : nc(d)});
					// which of the inserted ones is the item itself is not laid down
					if (amount) for (std::size_t i = 0; i < amount; i++) if (v.at(pos + i).get() == p.get()) std::swap(t.m[pos], t.m[pos + i]);
					check("insert_noclone(amount)"); break; }
				case 6: { if (!sz) break; pos = c.raw(sz); c.note("erase(", pos, ")"); auto it = v.erase(v.begin() + pos); t.m.erase(t.m.begin() + pos); REQ((std::size_t)(it - v.begin()) == pos, "erase returns ", it - v.begin()); check("erase"); break; }
				case 7: { std::size_t to = pos + c.raw(sz - pos + 1); c.note("erase(", pos, ",", to, ")"); v.erase(v.begin() + pos, v.begin() + to); t.m.erase(t.m.begin() + pos, t.m.begin() + to); check("erase range"); break; }
				case 8: { if (!sz) break; c.note("pop_back"); v.pop_back(); t.m.pop_back(); check("pop_back"); break; }
				case 9: { std::size_t to = c.raw(sz + 4); c.note("resize(", to, ")"); bool threw = false; try { v.resize(to); } catch (gemfony_exception const &) { threw = true; }
					if (!sz && to) { REQ(threw, "resize of an empty vector without an item to copy is not refused"); refused++; } else { REQ(!threw, "resize(", to, ") of a vector of size ", sz, " refused"); while (t.m.size() > to) t.m.pop_back(); while (t.m.size() < to) t.m.push_back(clone(t.m[0])); }
					check("resize"); break; }
				case 10: { std::size_t to = c.raw(sz + 5); Desc d = gd(); P p = mk(d); CellP x = nc(d); std::size_t how = c.raw(3); c.note("resize(", to, ",", d, ") kind ", how);
					if (how == 0) v.resize(to, p); else if (how == 1) v.resize_clone(to, p); else v.resize_noclone(to, p);
					bool add = to > sz; while (t.m.size() > to) t.m.pop_back(); while (t.m.size() < to) t.m.push_back(nc(d));
					if (how == 2 && add) t.m.back() = x;
					ext.push_back({p, x}); check("resize(n,item)"); break; }
				case 11: { if (!c.chance(1, 3)) break; c.note("clear"); v.clear(); t.m.clear(); check("clear"); break; }
				case 12: { // swap with a standard vector
					std::vector<P> o; std::vector<CellP> om;
					for (std::size_t i = 0, k = c.size(0, 4); i < k; i++) { Desc d = gd(); o.push_back(mk(d)); om.push_back(nc(d)); }
					c.note("swap with vector of ", o.size()); v.swap(o); t.m.swap(om); check("swap");
					REQ(o.size() == om.size(), "swapped-out vector has size ", o.size());
					for (std::size_t i = 0; i < o.size(); i++) REQ(K::read(o[i]) == om[i]->d, "swapped-out element ", i); break; }
				case 13: { // assignment from a standard vector
					std::vector<P> o; std::vector<CellP> om;
					for (std::size_t i = 0, k = c.size(0, 5); i < k; i++) { Desc d = gd(); o.push_back(mk(d)); om.push_back(nc(d)); ext.push_back({o[i], nc(d)}); }
					c.note("assign vector of ", o.size());
					drop_handles(t);
					v = o; t.m = om; check("assignment of a vector"); break; }
				case 14: { if (!sz) break; pos = c.raw(sz); int val = (int)c.range(-6, 6); c.note("[", pos, "]=", val); K::write(v.at(pos), val); t.m[pos]->d.val = val; t.m[pos]->d = norm(t.m[pos]->d); check("change of an element"); break; }
				case 15: { // copy into another vector object (load, clone or copy construction)
					std::size_t o = c.raw(vs.size()); if (&vs[o] == &t) break;
					std::size_t how = c.raw(3); c.note("copy to ", o, " kind ", how);
					Two &u = vs[o];
					if (how == 0) { drop_handles(u); u.v->gg::GObject::load(*t.v); }
					else if (how == 1) u.v = t.v->gg::GObject::template clone<Vec>();
					else u.v = std::shared_ptr<Vec>(new Vec(*t.v));
					u.m.clear(); for (auto &x: t.m) u.m.push_back(clone(x));
					check("copy"); break; }
				case 16: { if (ext.empty()) break; auto &e = ext[c.raw(ext.size())]; int val = (int)c.range(-6, 6); c.note("outside=", val); K::write(e.first, val); e.second->d.val = val; e.second->d = norm(e.second->d); check("change of an outside object"); break; }
				case 17: { // count and find by content
					Desc d = sz && c.flip() ? t.m[c.raw(sz)]->d : gd(); if (K::kinds > 1 && sz) { bool mixed = false; for (auto &x: t.m) if (x->d.kind != d.kind) mixed = true; if (mixed) break; } // content of different types is not comparable
					P p = mk(d); std::size_t want = 0, first = sz;
					for (std::size_t i = 0; i < sz; i++) if (t.m[i]->d == d) { if (!want) first = i; want++; }
					std::size_t n1 = v.template count<T>(p); auto it = v.template find<T>(p);
					c.note("find(", d, ")");
					REQ(n1 == want, "count gives ", n1, " expected ", want); REQ((std::size_t)(it - const_cast<GV const &>(v).begin()) == first, "find gives ", it - const_cast<GV const &>(v).begin(), " expected ", first); break; }
				case 18: { // deep copy of the data
					std::vector<P> o; o.push_back(mk(gd())); v.getDataCopy(o); REQ(o.size() == sz, "getDataCopy: ", o.size());
					for (std::size_t i = 0; i < sz; i++) { REQ(K::read(o[i]) == t.m[i]->d, "getDataCopy element ", i); REQ(o[i].get() != v.at(i).get(), "getDataCopy hands out its own objects"); ext.push_back({o[i], clone(t.m[i])}); }
					if (sz) { pos = c.raw(sz); auto p = v.template clone_at<T>(pos); REQ(K::read(p) == t.m[pos]->d && p.get() != v.at(pos).get(), "clone_at ", pos); ext.push_back({p, clone(t.m[pos])}); }
					check("getDataCopy"); break; }
				case 19: { // exchange of the tails
					std::size_t o = c.raw(vs.size()); if (&vs[o] == &t) break; Two &u = vs[o];
					std::size_t m = std::min(sz, u.m.size()); if (!m) break; pos = c.raw(m);
					c.note("crossOver with ", o, " at ", pos); v.crossOver(gv(u), pos);
					std::vector<CellP> a(t.m.begin(), t.m.begin() + pos), b(u.m.begin(), u.m.begin() + pos);
					a.insert(a.end(), u.m.begin() + pos, u.m.end()); b.insert(b.end(), t.m.begin() + pos, t.m.end()); t.m = a; u.m = b;
					check("crossOver"); break; }
				case 20: { // refused: empty pointers, positions out of range
					c.note("empty pointers"); int threw = 0; P e;
					auto tr = [&](std::function<void()> f) { try { f(); } catch (std::exception const &) { threw++; } };
					tr([&] { v.push_back(e); }); tr([&] { v.push_back_clone(e); }); tr([&] { v.push_back_noclone(e); }); tr([&] { v.insert(v.begin() + pos, e); }); tr([&] { v.insert_clone(v.begin() + pos, e); });
					tr([&] { v.insert_noclone(v.begin() + pos, e); }); tr([&] { v.insert_clone(v.begin() + pos, 2, e); }); tr([&] { v.insert_noclone(v.begin() + pos, 2, e); });
					tr([&] { v.resize(sz + 1 + amount, e); }); tr([&] { v.resize_clone(sz + 1 + amount, e); }); tr([&] { v.resize_noclone(sz + 1 + amount, e); }); tr([&] { v.template count<T>(e); }); tr([&] { v.template find<T>(e); });
					tr([&] { v.at(sz + amount); });
					REQ(threw == 14, "an empty pointer or position out of range was accepted: ", threw, " of 14 refused"); refused++; check("refused operations"); break; }
				case 21: { // comparison by content
					std::size_t o = c.raw(vs.size()); if (&vs[o] == &t) break; Two &u = vs[o];
					bool same = u.m.size() == sz; for (std::size_t i = 0; same && i < sz; i++) same = t.m[i]->d == u.m[i]->d;
					bool got = false; try { got = (*t.v == *u.v); } catch (gemfony_exception const &) { got = false; }
					REQ(got == same, "comparison says ", got, " but contents are ", same ? "equal" : "different"); c.label(same ? "equal" : "different"); break; }
			}
		}
		std::size_t tot = 0; for (auto &t: vs) tot += t.m.size();
		if (grown >= 2 && n >= 5) c.nontrivial();
	}
	// objects of a vector that is assigned to may be re-used for the new content
	void drop_handles(Two &u) {
		std::vector<std::pair<P, CellP>> k;
		for (auto &e: ext) { bool in = false; for (auto &p: *u.v) if (p.get() == e.first.get()) in = true; if (!in) k.push_back(e); }
		ext.swap(k);
		// an object held by two vectors at the same time would change there, too
		for (auto &w: vs) if (&w != &u) for (std::size_t i = 0; i < w.m.size(); i++) for (auto &p: *u.v) if (p.get() == gv(w).at(i).get()) c.discard();
	}
};
PROP("C07", vector_double_objects, 15000, 400000, 4, "history of up to 18 operations on one to three GDoubleObjectCollections and on objects held outside, against a vector of shared cells that knows which elements are the same object; non-trivial: five or more operations, two or more insertions") { Machine<VDouble>(c).run(); }
PROP("C07", vector_int_objects, 8000, 200000, 4, "the same for GConstrainedInt32ObjectCollection") { Machine<VInt>(c).run(); }
PROP("C07", vector_mixed, 15000, 300000, 4, "the same for GParameterObjectCollection with elements of five types") { Machine<VMixed>(c).run(); }
PROP("C07", vector_individual, 12000, 300000, 4, "the same for individuals as vectors of parameter objects") { Machine<VInd>(c).run(); }

// ---- typed views ---------------------------------------------------------------------------------
PROP("C07", vector_views, 12000, 200000, 2, "attachViewTo and conversion_iterator for each element type of a mixed vector deliver exactly the elements of that type in order and refer to the same objects; non-trivial: at least two elements of the type among others") {
	auto v = VMixed::fresh();
	using PV = gc::GPtrVectorT<gg::GParameterBase, gg::GObject>;
	PV &pv = *v;
	std::vector<Desc> m;
	for (std::size_t i = 0, n = c.size(0, 9); i < n; i++) { Desc d = norm({(int)c.raw(5), (int)c.range(-6, 6)}); m.push_back(d); v->push_back(mk_par(d)); c.note(d); }
	auto probe = [&](auto *tag, int kind) {
		using T = std::remove_pointer_t<decltype(tag)>;
		std::vector<std::size_t> want;
		for (std::size_t i = 0; i < m.size(); i++) if (m[i].kind == kind) want.push_back(i);
		std::vector<std::shared_ptr<T>> view;
		bool pre = c.flip();
		if (pre) view.push_back(std::make_shared<T>());
		v->template attachViewTo<T>(view);
		REQ(view.size() == want.size() + pre, "view of kind ", kind, " has ", view.size(), " entries, expected ", want.size() + pre);
		for (std::size_t i = 0; i < want.size(); i++) REQ((void *)view[i + pre].get() == (void *)dynamic_cast<T *>(pv.at(want[i]).get()), "view entry ", i);
		typename PV::template conversion_iterator<T> it(v->end());
		std::size_t i = 0;
		for (it = v->begin(); it != v->end(); ++it, ++i) {
			REQ(i < want.size(), "conversion iterator of kind ", kind, " goes beyond the ", want.size(), " elements");
			REQ((*it).get() == pv.at(want[i]).get(), "conversion iterator entry ", i);
		}
		REQ(i == want.size(), "conversion iterator of kind ", kind, " delivers ", i, " of ", want.size());
		if (want.size() >= 2 && want.size() < m.size()) c.nontrivial();
	};
	probe((gg::GDoubleObject *)nullptr, 0);
	probe((gg::GInt32Object *)nullptr, 1);
	probe((gg::GConstrainedDoubleObject *)nullptr, 2);
	probe((gg::GBooleanObject *)nullptr, 3);
	probe((gg::GDoubleCollection *)nullptr, 4);
}

// ---- plain values --------------------------------------------------------------------------------
template<typename Vec, typename T> static void pod(Ctx &c, std::function<T(Ctx &)> g) {
	std::vector<std::shared_ptr<Vec>> v; std::vector<std::vector<T>> m;
	auto fresh = [&]() { auto p = std::make_shared<Vec>(); p->setParameterName("v"); return p; };
	for (std::size_t i = 0, n = c.size(1, 3); i < n; i++) { v.push_back(fresh()); m.push_back({}); }
	std::size_t n = c.size(1, c.thorough() ? 60 : 25), ins = 0;
	for (std::size_t s = 0; s < n; s++) {
		std::size_t k = c.raw(v.size());
		Vec &x = *v[k]; std::vector<T> &y = m[k];
		gc::GPODVectorT<T> &pv = x;
		std::size_t sz = y.size(), pos = c.raw(sz + 1), amount = c.raw(4);
		const char *op = "";
		switch (c.weighted({5, 4, 3, 3, 3, 3, 3, 3, 2, 3, 3, 4, 3, 4, 3, 3, 2, 3})) {
			case 0: { T t = g(c); op = "push_back"; pv.push_back(t); y.push_back(t); ins++; break; }
			case 1: { T t = g(c); op = "insert"; auto it = pv.insert(pv.begin() + pos, t); y.insert(y.begin() + pos, t); REQ((std::size_t)(it - pv.begin()) == pos, "insert returns ", it - pv.begin()); ins++; break; }
			case 2: { T t = g(c); op = "insert(amount)"; pv.insert(pv.begin() + pos, amount, t); y.insert(y.begin() + pos, amount, t); ins++; break; }
			case 3: { if (!sz) break; pos = c.raw(sz); op = "erase"; auto it = pv.erase(pv.begin() + pos); y.erase(y.begin() + pos); REQ((std::size_t)(it - pv.begin()) == pos, "erase returns"); break; }
			case 4: { std::size_t to = pos + c.raw(sz - pos + 1); op = "erase range"; auto it = pv.erase(pv.begin() + pos, pv.begin() + to); y.erase(y.begin() + pos, y.begin() + to); REQ((std::size_t)(it - pv.begin()) == pos, "erase returns"); break; }
			case 5: { if (!sz) break; op = "pop_back"; pv.pop_back(); y.pop_back(); break; }
			case 6: { std::size_t to = c.raw(sz + 4); op = "resize"; pv.resize(to); y.resize(to); break; }
			case 7: { std::size_t to = c.raw(sz + 4); T t = g(c); op = "resize(n,item)"; pv.resize(to, t); y.resize(to, t); break; }
			case 8: { if (!c.chance(1, 3)) break; op = "clear"; pv.clear(); y.clear(); break; }
			case 9: { std::vector<T> o; for (std::size_t i = 0, q = c.size(0, 5); i < q; i++) o.push_back(g(c)); auto o2 = o; op = "swap"; pv.swap(o); REQ(o == y, "swap delivers other content"); y = o2; break; }
			case 10: { std::vector<T> o; for (std::size_t i = 0, q = c.size(0, 5); i < q; i++) o.push_back(g(c)); op = "assign"; pv = o; y = o; break; }
			case 11: { if (!sz) break; pos = c.raw(sz); T t = g(c); op = "write"; if (c.flip()) pv.at(pos) = t; else pv[pos] = t; y[pos] = t; break; }
			case 12: { T t = sz && c.flip() ? y[c.raw(sz)] : g(c); op = "find"; std::size_t cnt = std::count(y.begin(), y.end(), t), f = std::find(y.begin(), y.end(), t) - y.begin(); REQ(pv.count(t) == cnt, "count ", pv.count(t), " expected ", cnt); auto it = pv.find(t); REQ((std::size_t)(it - const_cast<gc::GPODVectorT<T> const &>(pv).begin()) == f, "find"); break; }
			case 13: { std::size_t o = c.raw(v.size()); if (o == k) break; op = "copy"; std::size_t how = c.raw(3); if (how == 0) v[o]->gg::GObject::load(x); else if (how == 1) v[o] = x.gg::GObject::template clone<Vec>(); else v[o] = std::make_shared<Vec>(x); m[o] = y; break; }
			case 14: { std::size_t o = c.raw(v.size()); if (o == k) break; op = "compare"; bool got = (*v[o] == x); REQ(got == (m[o] == y), "comparison says ", got); c.label(got ? "equal" : "different"); break; }
			case 15: { std::size_t o = c.raw(v.size()); if (o == k) break; std::size_t mm = std::min(sz, m[o].size()); if (!mm) break; pos = c.raw(mm); op = "crossOver"; gc::GPODVectorT<T> &po = *v[o]; pv.crossOver(po, pos); std::vector<T> a(y.begin(), y.begin() + pos), b(m[o].begin(), m[o].begin() + pos); a.insert(a.end(), m[o].begin() + pos, m[o].end()); b.insert(b.end(), y.begin() + pos, y.end()); y = a; m[o] = b; break; }
			case 16: { op = "reserve"; pv.reserve(sz + amount); REQ(pv.capacity() >= sz + amount, "capacity"); break; }
			case 17: { op = "out of range"; bool th = false; try { pv.at(sz + amount); } catch (std::out_of_range const &) { th = true; } REQ(th, "at() beyond the end is accepted"); break; }
		}
		c.note(op, " on ", k, " at ", pos);
		for (std::size_t q = 0; q < v.size(); q++) {
			gc::GPODVectorT<T> const &z = *v[q];
			std::vector<T> cp{T(1)};
			z.getDataCopy(cp);
			REQ(cp == m[q], "vector ", q, " differs from the model after ", op, " (size ", cp.size(), " expected ", m[q].size(), ")");
			REQ(z.size() == m[q].size() && z.empty() == m[q].empty(), "size after ", op);
			for (std::size_t i = 0; i < m[q].size(); i++) REQ(z.at(i) == m[q][i] && z[i] == m[q][i], "element ", i, " after ", op);
			if (!m[q].empty()) REQ(z.front() == m[q].front() && z.back() == m[q].back(), "front/back after ", op);
			REQ(std::equal(z.begin(), z.end(), m[q].begin(), m[q].end()), "iteration after ", op);
			REQ(std::equal(z.rbegin(), z.rend(), m[q].rbegin(), m[q].rend()), "reverse iteration after ", op);
		}
	}
	if (n >= 5 && ins >= 2) c.nontrivial();
}
PROP("C07", vector_pod_double, 15000, 400000, 2, "history of up to 25 operations on one to three GDoubleCollections against std::vector<double>; non-trivial: five or more operations, two or more insertions") { pod<gg::GDoubleCollection, double>(c, [](Ctx &c) { return (double)c.range(-5, 5) / 2; }); }
PROP("C07", vector_pod_int, 12000, 300000, 2, "the same for GInt32Collection") { pod<gg::GInt32Collection, std::int32_t>(c, [](Ctx &c) { return (std::int32_t)c.range(-5, 5); }); }
PBT_MAIN
