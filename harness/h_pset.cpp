// C13 (reading out and writing back), C14 (initialisation and bulk operations), C15 (cross-over)
#define INDIV_IMPL
#include "gen.hpp"
#include <boost/property_tree/ptree.hpp>
using namespace H;
using AM = gg::activityMode;
static const AM MODES[] = {AM::ALLPARAMETERS, AM::ACTIVEONLY, AM::INACTIVEONLY};
static const char *am_name(AM a) { return a == AM::ALLPARAMETERS ? "all" : a == AM::ACTIVEONLY ? "active" : "inactive"; }
static bool selects(AM a, Leaf const &l) { return a == AM::ALLPARAMETERS || (a == AM::ACTIVEONLY) == l.active; }

template<typename T> struct TC;
template<> struct TC<double> { static const char id = 'd'; static const char *name() { return "double"; } };
template<> struct TC<std::int32_t> { static const char id = 'i'; static const char *name() { return "int32"; } };
template<> struct TC<bool> { static const char id = 'b'; static const char *name() { return "bool"; } };

using Ind = std::shared_ptr<HInd>;
template<typename T> std::vector<double> flat(gg::GParameterSet const &p, AM a) { std::vector<T> v; p.streamline<T>(v, a); return std::vector<double>(v.begin(), v.end()); }
static std::vector<double> flat_leaf(Leaf const &l) {
	std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b;
	if (l.type == 'd') { l.obj->streamline<double>(d, AM::ALLPARAMETERS); return d; }
	if (l.type == 'i') { l.obj->streamline<std::int32_t>(i, AM::ALLPARAMETERS); return std::vector<double>(i.begin(), i.end()); }
	l.obj->streamline<bool>(b, AM::ALLPARAMETERS); return std::vector<double>(b.begin(), b.end());
}
// all views of one type and one mode agree with the model
template<typename T> void views(pbt::Ctx &c, HInd &p, Tree const &t, AM a, const char *what) {
	std::vector<double> v, lo, hi;
	std::map<std::string, std::vector<double>> m;
	for (auto &l: t.leaves) {
		if (l.type != TC<T>::id || !selects(a, l)) continue;
		for (auto x: l.v) { v.push_back(x); lo.push_back(l.lo); hi.push_back(l.hi); }
		m[l.name] = l.v;
	}
	std::ostringstream w; w << what << ", " << TC<T>::name() << ", " << am_name(a) << ": ";
	auto f = flat<T>(p, a);
	REQ(f == v, w.str(), "the flat list has ", f.size(), " values, expected ", v.size(), " or another order or other values");
	REQ(p.countParameters<T>(a) == v.size(), w.str(), "counted ", p.countParameters<T>(a), " instead of ", v.size());
	std::map<std::string, std::vector<T>> mm;
	mm["left over"] = {};
	p.streamline<T>(mm, a);
	for (auto &x: mm) { auto q = m.find(x.first); REQ(q != m.end() || x.second.empty(), w.str(), "the map contains ", x.first); if (q != m.end()) REQ(std::vector<double>(x.second.begin(), x.second.end()) == q->second, w.str(), "the map shows other values for ", x.first); }
	for (auto &x: m) REQ(mm.count(x.first) || x.second.empty(), w.str(), "the map lacks ", x.first);
	std::vector<T> l, u;
	l.resize(2); u.resize(1);
	p.boundaries<T>(l, u, a);
	REQ(std::vector<double>(l.begin(), l.end()) == lo, w.str(), "the list of lower boundaries differs (", l.size(), " of ", lo.size(), ")");
	REQ(std::vector<double>(u.begin(), u.end()) == hi, w.str(), "the list of upper boundaries differs (", u.size(), " of ", hi.size(), ")");
	if (a == AM::ALLPARAMETERS) {
		auto names = p.getVariableNames<T>();
		for (auto &n: names) REQ(m.count(n), w.str(), "the list of names contains ", n);
		std::size_t pos = 0;
		for (auto &x: t.leaves) {
			if (x.type != TC<T>::id) continue;
			for (std::size_t k = 0; k < x.v.size(); k++, pos++) {
				REQ((double)p.getVarVal<T>(std::make_tuple(std::size_t(0), std::string(""), pos)) == x.v[k], w.str(), "the value at position ", pos, " is reported as another one");
				REQ((double)p.getVarVal<T>(std::make_tuple(std::size_t(c.flip() ? 1 : 2), x.name, k)) == x.v[k], w.str(), "value ", k, " of ", x.name, " is reported as another one");
			}
		}
	}
}
static void all_views(pbt::Ctx &c, HInd &p, Tree const &t, const char *what) {
	for (auto a: MODES) { views<double>(c, p, t, a, what); views<std::int32_t>(c, p, t, a, what); views<bool>(c, p, t, a, what); REQ(p.countParameters<float>(a) == 0, "there are float parameters"); }
}
static std::string strs(std::vector<double> const &v) { std::ostringstream o; for (auto x: v) o << num(x) << ","; return o.str(); }
static void unchanged(pbt::Ctx &c, Tree const &t, const char *what) {
	for (auto &l: t.leaves) { auto v = flat_leaf(l); REQ(v == l.v, what, ": ", l.name, " shows ", strs(v), " instead of ", strs(l.v)); }
}
// admissible new values
static double new_value(pbt::Ctx &c, Leaf const &l) {
	if (l.type == 'b') return c.flip() ? 1. : 0.;
	if (l.type == 'i') return (double)(l.constrained ? c.range((int64_t)l.lo, (int64_t)l.hi) : c.range(-1000000, 1000000));
	if (!l.constrained) return c.nice_double();
	if (c.chance(1, 6)) return c.flip() ? l.lo : l.hi;
	return std::max(l.lo, std::min(l.hi, l.lo + (l.hi - l.lo) * c.unit()));
}
template<typename T> bool write_round(pbt::Ctx &c, HInd &p, Tree &t, AM a) {
	bool map = c.flip(), fresh = c.flip();
	std::vector<T> v;
	std::map<std::string, std::vector<T>> m;
	if (!fresh) { p.streamline<T>(v, a); p.streamline<T>(m, a); }
	else for (auto &l: t.leaves) {
		if (l.type != TC<T>::id || !selects(a, l)) continue;
		for (auto &x: l.v) { x = new_value(c, l); v.push_back((T)x); m[l.name].push_back((T)x); }
		if (l.v.empty()) m[l.name] = {};
	}
	c.note(map ? "map" : "list", fresh ? " new " : " back ", TC<T>::name(), " ", am_name(a));
	if (map) {
		if (c.chance(1, 3)) m["unrelated"] = {T(1)};
		p.assignValueVectors<T>(m, a);
	} else p.assignValueVector<T>(v, a);
	all_views(c, p, t, map ? "after writing a map" : "after writing a list");
	unchanged(c, t, "after writing");
	return fresh && !v.empty();
}
template<typename T> bool wrong_length(pbt::Ctx &c, HInd &p, Tree &t, AM a) {
	std::vector<T> v;
	p.streamline<T>(v, a);
	for (std::size_t k = 0; k < v.size(); k++) v[k] = T(0);
	bool longer = v.empty() || c.flip();
	std::size_t by = c.size(1, 3);
	if (longer) v.resize(v.size() + by); else v.resize(v.size() - std::min(by, v.size()));
	bool thrown = false;
	try { p.assignValueVector<T>(v, a); } catch (gemfony_exception &) { thrown = true; }
	c.note("list of wrong length ", TC<T>::name());
	REQ(thrown, "a list with ", v.size(), " values was accepted for ", p.countParameters<T>(a), " parameters (", TC<T>::name(), ", ", am_name(a), ")");
	unchanged(c, t, "after a list of wrong length");
	// a map in which one entry is missing or too short
	std::map<std::string, std::vector<T>> m;
	p.streamline<T>(m, a);
	std::vector<std::string> keys;
	for (auto &x: m) if (!x.second.empty()) keys.push_back(x.first);
	if (!keys.empty()) {
		auto k = keys[c.raw(keys.size())];
		if (c.flip()) m.erase(k); else m[k].pop_back();
		thrown = false;
		try { p.assignValueVectors<T>(m, a); } catch (std::exception &) { thrown = true; }
		REQ(thrown, "a map without (all) values of ", k, " was accepted");
		c.label("incomplete map");
		unchanged(c, t, "after an incomplete map"); // the remaining entries are what they were
	}
	return true;
}
static void csv(pbt::Ctx &c, HInd &p, Tree const &t) {
	bool names = c.flip(), commas = c.flip(), validity = c.flip();
	std::istringstream in(p.toCSV(names, commas, true, validity));
	std::vector<std::vector<std::string>> rows;
	std::string line;
	while (std::getline(in, line)) {
		std::vector<std::string> r; std::string cur;
		for (std::size_t k = 0; k < line.size(); k++) { if (line[k] == '\t') { r.push_back(cur); cur.clear(); } else if (line[k] != ',') cur += line[k]; }
		r.push_back(cur);
		rows.push_back(r);
	}
	REQ(rows.size() == (names ? 3u : 1u), "the table has ", rows.size(), " rows");
	std::vector<std::pair<std::string, double>> e;
	std::vector<std::string> ty;
	for (char k: {'d', 'i', 'b'}) {
		std::map<std::string, std::vector<double>> m;
		for (auto &l: t.leaves) if (l.type == k) m[l.name] = l.v;
		for (auto &x: m) for (std::size_t q = 0; q < x.second.size(); q++) { e.push_back({x.first + "_" + std::to_string(q), x.second[q]}); ty.push_back(k == 'd' ? "double" : k == 'i' ? "int32" : "bool"); }
	}
	auto &vals = rows.back();
	REQ(vals.size() == e.size() + p.getNStoredResults() + (validity ? 1 : 0), "the table has ", vals.size(), " columns for ", e.size(), " values");
	for (std::size_t k = 0; k < e.size(); k++) {
		double x = std::atof(vals[k].c_str());
		if (ty[k] == "bool") x = vals[k] == "true" || vals[k] == "1" ? 1. : 0.;
		REQ(std::fabs(x - e[k].second) <= 2e-5 * std::fabs(e[k].second) + 2e-6, "the table shows ", vals[k], " for ", e[k].first, " = ", e[k].second);
		if (names) REQ(rows[0][k] == e[k].first && rows[1][k] == ty[k], "column ", k, " is headed ", rows[0][k], " ", rows[1][k], " instead of ", e[k].first, " ", ty[k]);
	}
	if (p.is_processed()) for (std::size_t k = 0; k < p.getNStoredResults(); k++) { double x = std::atof(vals[e.size() + k].c_str()), f = p.raw_fitness(k); REQ(std::fabs(x - f) <= 2e-5 * std::fabs(f) + 2e-6, "the table shows the fitness ", vals[e.size() + k], " instead of ", f); }
	else for (std::size_t k = 0; k < p.getNStoredResults(); k++) REQ(vals[e.size() + k].find_first_of("0123456789") == std::string::npos, "the table shows a fitness ", vals[e.size() + k], " of an unevaluated individual");
	c.label("table");
}
static void ptree_values(pbt::Ctx &c, boost::property_tree::ptree const &pt, std::vector<double> &out) {
	// the values in the order of the tree
	for (auto &x: pt) {
		if (x.first == "values") for (auto &y: x.second) { if (y.second.size()) { ptree_values(c, y.second, out); continue; } auto s = y.second.get_value<std::string>(); out.push_back(s == "true" ? 1. : s == "false" ? 0. : std::atof(s.c_str())); }
		else ptree_values(c, x.second, out);
	}
}

PROP("C13", readout, 60000, 1500000, 7, "nested or inactive parameters exist and other values were written") {
	GenOpt o;
	o.empty_coll = c.chance(1, 4);
	Tree t;
	std::size_t ncrit = c.size(1, 2);
	auto p = gen_ind(c, o, t, c.chance(1, 20) ? 0 : 1, 5, ncrit);
	bool special = false, wrote = false;
	for (auto &l: t.leaves) special = special || !l.active || !l.single;
	c.note(dump_params(*p));
	all_views(c, *p, t, "as constructed");
	std::size_t rounds = c.size(1, 6);
	for (std::size_t r = 0; r < rounds; r++) {
		AM a = MODES[c.raw(3)];
		switch (c.weighted({6, 2, 1, 1, 1, 1})) {
			case 0: switch (c.raw(3)) { case 0: wrote |= write_round<double>(c, *p, t, a); break; case 1: wrote |= write_round<std::int32_t>(c, *p, t, a); break; default: wrote |= write_round<bool>(c, *p, t, a); } break;
			case 1: switch (c.raw(3)) { case 0: wrong_length<double>(c, *p, t, a); break; case 1: wrong_length<std::int32_t>(c, *p, t, a); break; default: wrong_length<bool>(c, *p, t, a); } break;
			case 2: { // the copy has the same content and is independent
				auto q = p->clone<HInd>();
				all_views(c, *q, t, "copy");
				q->fixedValueInit<double>(0.125, AM::ALLPARAMETERS);
				q->fixedValueInit<bool>(true, AM::ALLPARAMETERS);
				all_views(c, *p, t, "after a change of a copy");
				break;
			}
			case 3: csv(c, *p, t); break;
			case 4: { // evaluation reads the parameters, it does not alter them
				p->mark_as_due_for_processing(); p->process();
				all_views(c, *p, t, "after an evaluation");
				break;
			}
			default: {
				if (t.leaves.empty() || !(p->is_processed() || p->is_due_for_processing())) break;
				bool empty = false;
				std::vector<double> e;
				for (auto &l: t.leaves) { for (auto x: l.v) e.push_back(x); empty = empty || l.v.empty(); }
				if (empty || o.empty_coll) break;
				boost::property_tree::ptree pt;
				p->toPropertyTree(pt);
				std::vector<double> got;
				ptree_values(c, pt, got);
				REQ(got.size() == e.size(), "the property tree shows ", got.size(), " values instead of ", e.size());
				for (std::size_t k = 0; k < e.size(); k++) REQ(std::fabs(got[k] - e[k]) <= 1e-9 * std::fabs(e[k]) + 1e-12, "the property tree shows ", got[k], " instead of ", e[k]);
				c.label("property tree");
			}
		}
	}
	if (special && wrote) c.nontrivial();
}

// ------------------------------------------------------------------------------------------ C14
static double fold(Leaf const &l, double x) {
	if (!l.constrained || (x >= l.lo && x <= l.hi)) return x;
	if (l.type == 'i') {
		long long w = (long long)l.hi - (long long)l.lo + 1, r = ((long long)x - (long long)l.lo) % (2 * w);
		if (r < 0) r += 2 * w;
		return (double)((long long)l.lo + (r < w ? r : 2 * w - 1 - r));
	}
	long double w = (long double)l.hi - (long double)l.lo;
	long double r = fmodl((long double)x - (long double)l.lo, 2.L * w);
	if (r < 0) r += 2.L * w;
	if (r > w) r = 2.L * w - r;
	return (double)((long double)l.lo + r);
}
PROP("C14", bulk_operations, 60000, 1500000, 7, "an operation changed some parameters and left others alone") {
	GenOpt o;
	o.moderate = true;
	Tree t;
	auto p = gen_ind(c, o, t, 1, 4, 1);
	c.note(dump_params(*p));
	auto near = [&](Leaf const &l, double a, double b, double x) { return a == b || (l.type == 'd' && std::fabs(a - b) <= 64. * std::numeric_limits<double>::epsilon() * (std::fabs(x) + std::fabs(l.lo) + std::fabs(l.hi))); };
	bool some = false, others = false;
	std::size_t rounds = c.size(1, 6);
	for (std::size_t r = 0; r < rounds; r++) {
		AM a = MODES[c.raw(3)];
		int ty = (int)c.raw(3);
		char tc = "dib"[ty];
		std::vector<std::vector<double>> before, now, operand;
		for (auto &l: t.leaves) before.push_back(l.v);
		int op = (int)c.weighted({3, 3, 3, 2, 1, 2, 2, 2});
		double f = 0., f2 = 0.;
		std::vector<double> prob; // the probability for true, or -1 for the usual initialisation
		std::shared_ptr<HInd> q;
		if (op >= 1 && op <= 4 && ty != 2) { // keep the numbers in a range in which the model is exact
			for (auto &l: t.leaves) for (auto x: l.v) if (std::fabs(x) > 1e6) op = 0;
		}
		switch (op) {
			case 0: p->randomInit(a); c.note("randomInit ", am_name(a)); break;
			case 1: // fixed values
				f = ty == 0 ? c.real(-20., 20.) : ty == 1 ? (double)c.range(-100, 100) : (double)c.flip();
				if (ty == 0) p->fixedValueInit<double>(f, a); else if (ty == 1) p->fixedValueInit<std::int32_t>((std::int32_t)f, a); else p->fixedValueInit<bool>(f != 0., a);
				c.note("fixed ", tc, " ", f, " ", am_name(a));
				break;
			case 2: // scaling
				if (ty == 2) continue;
				f = ty == 0 ? c.real(-3., 3.) : (double)c.range(-4, 4);
				if (ty == 0) p->multiplyBy<double>(f, a); else p->multiplyBy<std::int32_t>((std::int32_t)f, a);
				c.note("times ", tc, " ", f, " ", am_name(a));
				break;
			case 3: case 4: { // adding and subtracting another individual
				if (ty == 2) continue;
				q = p->clone<HInd>();
				Tree u = t;
				std::vector<double> d; std::vector<std::int32_t> i;
				for (auto &l: u.leaves) { for (auto &x: l.v) { x = l.constrained ? new_value(c, l) : l.type == 'b' ? (double)c.flip() : l.type == 'i' ? (double)c.range(-1000, 1000) : c.real(-10., 10.); if (l.type == 'd') d.push_back(x); else if (l.type == 'i') i.push_back((std::int32_t)x); } operand.push_back(l.v); }
				q->assignValueVector<double>(d, AM::ALLPARAMETERS); q->assignValueVector<std::int32_t>(i, AM::ALLPARAMETERS);
				std::string dq = dump_params(*q);
				if (op == 3) { if (ty == 0) p->add<double>(q, a); else p->add<std::int32_t>(q, a); }
				else { if (ty == 0) p->subtract<double>(q, a); else p->subtract<std::int32_t>(q, a); }
				REQ(dump_params(*q) == dq, "the other individual was changed: ", diff(dq, dump_params(*q)));
				c.note(op == 3 ? "add " : "subtract ", tc, " ", am_name(a));
				break;
			}
			case 5: { // random scaling
				if (ty == 2) continue;
				f = ty == 0 ? c.real(-3., 3.) : (double)c.range(-4, 4); f2 = f + (ty == 0 ? c.real(0.01, 2.) : (double)c.range(0, 3));
				for (auto &l: t.leaves) for (auto x: l.v) if (std::fabs(x) > 1e6) op = 6;
				if (op == 6) continue;
				if (ty == 0 && c.flip()) { f = 0.; f2 = 1.; p->multiplyByRandom<double>(a); }
				else if (ty == 0) p->multiplyByRandom<double>(f, f2, a); else p->multiplyByRandom<std::int32_t>((std::int32_t)f, (std::int32_t)f2, a);
				c.note("times random ", tc, " ", f, "..", f2, " ", am_name(a));
				break;
			}
			case 7: { // the parameter objects one by one, boolean values also with a given probability
				Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMLOCAL> gr;
				c.note("leaves ", am_name(a));
				for (auto &l: t.leaves) {
					prob.push_back(l.type == 'b' ? c.pick<double>({0., 1., 0.5, -1.}) : -1.);
					bool sel = selects(a, l) && !l.obj->randomInitializationBlocked(), res;
					auto o = std::dynamic_pointer_cast<gg::GBooleanObject>(l.obj);
					auto k = std::dynamic_pointer_cast<gg::GBooleanCollection>(l.obj);
					if (prob.back() < 0. || !(o || k)) { prob.back() = -1.; res = l.obj->randomInit(a, gr); }
					else { c.note("p ", prob.back()); res = o ? o->randomInit(prob.back(), a, gr) : k->randomInit(prob.back(), a, gr); }
					if (!sel) REQ(!res, l.name, " says it was initialised, but was not to be");
				}
				break;
			}
			default: { std::size_t n = p->adapt(); c.note("adapt ", n); }
		}
		std::size_t changed = 0;
		for (std::size_t k = 0; k < t.leaves.size(); k++) {
			auto &l = t.leaves[k];
			auto v = flat_leaf(l);
			REQ(v.size() == l.v.size(), "the number of values of ", l.name, " changed");
			bool touched = false;
			for (std::size_t s = 0; s < v.size(); s++) {
				double b = before[k][s], x;
				if (l.constrained) REQ(v[s] >= l.lo && v[s] <= l.hi, l.name, " has the value ", v[s], " outside its range ", l.lo, "..", l.hi);
				switch (op) {
					case 0:
						if (!(l.initable && selects(a, l))) break;
						touched = true;
						REQ(l.type == 'b' || (v[s] >= l.lo && v[s] <= l.hi), l.name, " was initialised with ", v[s], " outside ", l.lo, "..", l.hi);
						if (l.type == 'd') REQ(v[s] != b, l.name, " was not initialised");
						break;
					case 7:
						if (l.obj->randomInitializationBlocked() || !selects(a, l)) break;
						touched = true;
						REQ(l.type == 'b' || (v[s] >= l.lo && v[s] <= l.hi), l.name, " was initialised with ", v[s], " outside ", l.lo, "..", l.hi);
						if (prob[k] == 0. || prob[k] == 1.) REQ(v[s] == prob[k], l.name, " was initialised with a probability of ", prob[k], " and shows ", v[s]);
						break;
					case 1: if (l.type != tc || !selects(a, l)) break; touched = true; REQ(near(l, v[s], fold(l, f), f), l.name, " was to be set to ", f, " and shows ", v[s], ", range ", l.lo, "..", l.hi); break;
					case 2: if (l.type != tc || !selects(a, l)) break; touched = true; x = b * f; REQ(near(l, v[s], fold(l, x), x), l.name, ": ", b, " times ", f, " gives ", v[s]); break;
					case 3: case 4: if (l.type != tc || !selects(a, l)) break; touched = true; x = op == 3 ? b + operand[k][s] : b - operand[k][s]; REQ(near(l, v[s], fold(l, x), x), l.name, ": ", b, op == 3 ? " plus " : " minus ", operand[k][s], " gives ", v[s]); break;
					case 5: {
						if (l.type != tc || !selects(a, l)) break;
						touched = true;
						double e1 = std::min(b * f, b * f2), e2 = std::max(b * f, b * f2), eps = l.type == 'd' ? 1e-12 * (std::fabs(e1) + std::fabs(e2)) : 0.;
						if (!l.constrained || (e1 >= l.lo && e2 <= l.hi)) REQ(v[s] >= e1 - eps && v[s] <= e2 + eps, l.name, ": ", b, " times ", f, "..", f2, " gives ", v[s]);
						break;
					}
					default: touched = l.adaptable;
				}
				if (!touched) REQ(v[s] == b, l.name, " was changed from ", b, " to ", v[s], ", but is not to be touched");
				else if (v[s] != b) changed++;
			}
			if (touched) some = some || changed; else others = true;
			l.v = v;
		}
		all_views(c, *p, t, "after a bulk operation");
	}
	if (some && others) c.nontrivial();
}

// ------------------------------------------------------------------------------------------ C15
template<typename T> void crossed(pbt::Ctx &c, HInd const &a, HInd const &b, HInd const &k, bool &mixed) {
	auto x = flat<T>(a, AM::ALLPARAMETERS), y = flat<T>(b, AM::ALLPARAMETERS), z = flat<T>(k, AM::ALLPARAMETERS);
	REQ(z.size() == x.size(), "the child has ", z.size(), " parameters of type ", TC<T>::name(), ", the parents have ", x.size());
	// some cut
	std::size_t first = 0; // the longest prefix that is the first parent's
	while (first < z.size() && z[first] == x[first]) first++;
	std::size_t from = z.size(); // the longest suffix that is the second parent's
	while (from > 0 && z[from - 1] == y[from - 1]) from--;
	REQ(from <= first, "the child's ", TC<T>::name(), " parameters ", strs(z), " are no combination of ", strs(x), " and ", strs(y));
	if (x != y && z != x && z != y) mixed = true;
}
PROP("C15", crossover, 40000, 900000, 7, "for some type of parameter the child differs from both parents") {
	GenOpt o;
	o.empty_coll = c.chance(1, 4);
	Tree t;
	auto p = gen_ind(c, o, t, c.chance(1, 20) ? 0 : 1, 6, c.size(1, 2));
	auto q = p->clone<HInd>();
	// other values for the second parent, mostly
	Tree u = t;
	auto rewrite = [&](HInd &i, Tree &w) {
		std::vector<double> d; std::vector<std::int32_t> n; std::vector<bool> b;
		for (auto &l: w.leaves) for (auto &x: l.v) { if (!c.chance(1, 8)) x = new_value(c, l); if (l.type == 'd') d.push_back(x); else if (l.type == 'i') n.push_back((std::int32_t)x); else b.push_back(x != 0.); }
		i.assignValueVector<double>(d, AM::ALLPARAMETERS); i.assignValueVector<std::int32_t>(n, AM::ALLPARAMETERS); i.assignValueVector<bool>(b, AM::ALLPARAMETERS);
	};
	rewrite(*q, u);
	bool pe = c.flip(), qe = c.flip();
	if (pe) { p->mark_as_due_for_processing(); p->process(); }
	if (qe) { q->mark_as_due_for_processing(); q->process(); }
	bool mixed = false;
	std::vector<std::shared_ptr<HInd>> parents{p, q};
	std::size_t rounds = c.size(1, 4);
	for (std::size_t r = 0; r < rounds; r++) {
		std::size_t i = c.size(0, parents.size() - 1), j = c.size(0, parents.size() - 1);
		if (i == j) j = (i + 1) % parents.size();
		auto a = parents[i], b = parents[j];
		std::string da = dump(*a), db = dump(*b);
		c.note("first ", dump_params(*a), " second ", dump_params(*b));
		auto k = std::dynamic_pointer_cast<HInd>(a->crossOverWith(b));
		REQ((bool)k, "there is no child of the type of the parents");
		REQ(dump(*a) == da, "the first parent was changed: ", diff(da, dump(*a)));
		REQ(dump(*b) == db, "the second parent was changed: ", diff(db, dump(*b)));
		crossed<double>(c, *a, *b, *k, mixed); crossed<std::int32_t>(c, *a, *b, *k, mixed); crossed<bool>(c, *a, *b, *k, mixed);
		REQ(k->is_due_for_processing() && !k->is_processed(), "the child is ", k->getProcessingStatusAsStr());
		// the same structure: written with the first parent's values the child looks like the first parent
		auto s = k->clone<HInd>();
		{ std::vector<double> d; std::vector<std::int32_t> n; std::vector<bool> bb; a->streamline<double>(d, AM::ALLPARAMETERS); a->streamline<std::int32_t>(n, AM::ALLPARAMETERS); a->streamline<bool>(bb, AM::ALLPARAMETERS); s->assignValueVector<double>(d, AM::ALLPARAMETERS); s->assignValueVector<std::int32_t>(n, AM::ALLPARAMETERS); s->assignValueVector<bool>(bb, AM::ALLPARAMETERS); }
		REQ(dump_params(*s) == dump_params(*a), "the child has another structure: ", diff(dump_params(*a), dump_params(*s)));
		if (c.flip()) { k->process(); REQ(k->is_processed() && k->raw_fitness(0) == k->expected(0), "the evaluated child has the fitness ", k->raw_fitness(0), " instead of ", k->expected(0)); }
		parents.push_back(k);
	}
	if (c.chance(1, 6) && !t.leaves.empty()) { // individuals of different sizes cannot be crossed
		auto w = p->clone<HInd>();
		auto extra = std::make_shared<gg::GDoubleObject>(1., 0., 2.);
		extra->setParameterName("extra");
		w->push_back(extra);
		bool thrown = false;
		try { p->crossOverWith(w); } catch (gemfony_exception &) { thrown = true; }
		REQ(thrown, "individuals with different numbers of parameters were crossed");
		c.label("different sizes");
	}
	if (mixed) c.nontrivial();
}

PBT_MAIN
