// C31: chains of optimisation algorithms, run by Go2
#define INDIV_IMPL
#include "algorun.hpp"
#include "child.hpp"
#include "geneva/Go2.hpp"
#include <set>
BOOST_CLASS_EXPORT(H::Watch)
using namespace pbt;
using namespace H;

template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; };
static std::string keys(std::vector<Item> const &v) { std::string r; for (auto &i: v) r += "(" + i.k + ")" + (i.done ? "" : "?") + " "; return r.empty() ? "none" : r; }
static std::string show(std::vector<double> const &v) { std::ostringstream o; o << std::setprecision(17); for (auto x: v) o << x << " "; return v.empty() ? "none" : o.str(); }
static std::multiset<std::string> bag(std::vector<Item> const &v) { std::multiset<std::string> r; for (auto &i: v) r.insert(i.k); return r; }

struct Stage { int kind; OAP a; std::size_t size = 0, first = 0, nbh = 0, rec = 1; std::uint32_t maxit = 1; std::string str; };
// room: individuals the stage has to take; out: most individuals it hands on if whole populations are handed on
static Stage gen_stage(Ctx &c, std::size_t room, std::uint32_t &it) {
	Stage s;
	s.kind = (int)c.raw(5);
	s.a = make_alg(s.kind);
	s.rec = c.size(1, 5);
	std::ostringstream o;
	o << alg_name(s.kind);
	switch (s.kind) {
		case 0: { auto &e = dynamic_cast<EA &>(*s.a); std::size_t np = c.size(1, 4), nc = np + c.size(0, 5); if (np + nc < room) nc = room - np; e.setPopulationSizes(np + nc, np);
			e.setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL}));
			s.size = np + nc; s.first = np + nc; o << "(" << np << "," << nc << " mode " << (int)e.getSortingScheme() << ")"; break; }
		case 1: { auto &e = dynamic_cast<SA &>(*s.a); std::size_t np = c.size(1, 3), nc = np + c.size(0, 4); if (np + nc < room) nc = room - np; e.setPopulationSizes(np + nc, np); s.size = np + nc; s.first = np + nc; o << "(" << np << "," << nc << ")"; break; }
		case 2: { s.nbh = c.size(1, 3); std::size_t m = c.size(2, 4); while (s.nbh * m < room) m++; dynamic_cast<SW &>(*s.a).setSwarmSizes(s.nbh, m); s.size = s.nbh * m; o << "(" << s.nbh << "x" << m << ")"; break; }
		case 3: { std::size_t n = c.size(1, 3); dynamic_cast<GD &>(*s.a).setNStartingPoints(n); s.first = n; s.size = n; o << "(" << n << ")"; break; }
		default: { auto &e = static_cast<Pop<PS> &>(dynamic_cast<PS &>(*s.a)); std::size_t n = c.size(1, 4); e.setDefaultPopulationSize(n); e.setNSimpleScans(1000); s.size = n; o << "(" << n << ")"; }
	}
	static_cast<Pop<OA> &>(*s.a).setNRecordBestIndividuals(s.rec);
	it += (std::uint32_t)c.range(0, 5);
	s.maxit = it ? it : 1;
	s.a->setMaxIteration(s.maxit); s.a->setMaxStallIteration(0); s.a->setReportIteration(1); s.a->setStallCounterThreshold(0);
	o << " best " << s.rec << " until " << s.maxit;
	s.str = o.str();
	return s;
}
struct Creator : gc::GFactoryT<gg::GParameterSet> {
	std::vector<PSP> v; mutable std::size_t n = 0; bool limited = false;
	std::function<PSP()> f;
	explicit Creator(std::function<PSP()> g) : gc::GFactoryT<gg::GParameterSet>("cfg/creator.json"), f(g) {}
	PSP getObject_(gc::GParserBuilder &, std::size_t const &) override { n++; return f(); }
	void postProcess_(PSP &) override {}
	int dummy = 0;
	void describeLocalOptions_(gc::GParserBuilder &g) override { g.registerFileParameter<int>("dummy", dummy, 0) << "not used"; }
};
struct GoArgs {
	std::vector<std::string> s; std::vector<char *> p;
	explicit GoArgs(std::vector<std::string> const &x) : s(x) { for (auto &y: s) p.push_back(const_cast<char *>(y.c_str())); p.push_back(nullptr); }
	int argc() { return (int)s.size(); }
	char **argv() { return p.data(); }
};
static std::shared_ptr<gg::Go2> make_go(std::vector<std::string> args) {
	fs::create_directories("cfg"); fs::create_directories("config");
	args.insert(args.begin(), "prog");
	static std::vector<std::shared_ptr<GoArgs>> keep;
	keep.push_back(std::make_shared<GoArgs>(args));
	return std::make_shared<gg::Go2>(keep.back()->argc(), keep.back()->argv(), "cfg/Go2.json");
}

// what was seen of one stage: it got the individuals H, and knew the solutions "known" before
static void verify(Watch &w, std::size_t &pos, Stage &s, std::string const &who, std::vector<Item> const &H, std::vector<Item> const &known, std::uint32_t &cur, Prob const &p, bool early) {
	auto b = [&](double x, double y) { return p.maxi ? x > y : x < y; };
	CREQ(pos < w.s.size() && w.s[pos].im == gg::infoMode::INFOINIT, who, " was not started");
	auto &x0 = w.s[pos++];
	CREQ(x0.it == cur, who, " starts at iteration ", x0.it, " instead of ", cur);
	CREQ(x0.ev.empty() || early, who, ": something was evaluated before its start");
	// its start population
	auto same = [&](Item const &a, Item const &z) { return a.k == z.k && a.done == z.done && a.id == z.id; };
	if (s.kind == 4) { for (auto &q: x0.pop) CREQ(same(q, H[0]), who, " begins with ", keys(x0.pop), "instead of copies of ", H[0].k); }
	else if (s.kind != 2) {
		CREQ(x0.pop.size() >= std::min(H.size(), s.first), who, " begins with only ", x0.pop.size(), " individuals");
		for (std::size_t q = 0; q < std::min(H.size(), s.first); q++) CREQ(same(x0.pop[q], H[q]), who, " begins with ", keys(x0.pop), "although it got ", keys(H));
	} else {
		std::size_t n = H.size() < s.size ? std::min(H.size(), s.nbh) : H.size();
		for (std::size_t q = 0; q < n; q++) { bool f = false; for (auto &z: x0.pop) f |= same(z, H[q]); CREQ(f, who, " begins with ", keys(x0.pop), "although it got ", keys(H)); }
	}
	// its iterations
	std::vector<double> all;
	std::set<std::string> ids;
	for (auto &h: known) if (h.done && ids.insert(h.id).second) all.push_back(p.f(h.e));
	for (auto &h: H) if (h.done && ids.insert(h.id).second) all.push_back(p.f(h.e));
	std::size_t n = 0;
	std::uint32_t c0 = cur;
	std::vector<double> got;
	for (;; pos++) {
		CREQ(pos < w.s.size(), who, " did not end");
		auto &x = w.s[pos];
		if (x.im == gg::infoMode::INFOINIT) CREQ(false, who, " did not end before the next one started");
		bool end = x.im == gg::infoMode::INFOEND;
		CREQ(x.it == cur, who, ": iteration ", x.it, " follows on ", cur, end ? " (end)" : "");
		for (auto &e: x.ev) all.push_back(p.f(e));
		std::sort(all.begin(), all.end(), b);
		std::vector<double> want(all.begin(), all.begin() + (std::ptrdiff_t)std::min(s.rec, all.size()));
		got.clear();
		for (auto &i: x.gb) { CREQ(i.done && i.raw.at(0) == p.f(i.e), who, " reports a wrong fitness for ", i.k); got.push_back(i.raw.at(0)); }
		CREQ(got == want, who, " after iteration ", x.it, ": the best solutions have the values ", show(got), ", of all that were handed over or evaluated they are ", show(want));
		if (end) break;
		cur++; n++;
	}
	std::uint32_t exp = std::max<std::uint32_t>(1, s.maxit > c0 ? s.maxit - c0 : 0);
	CREQ(s.kind == 4 ? n >= 1 && n <= exp : n == exp, who, " did ", n, " iterations, from ", c0, " to ", s.maxit);
}

static void chain(Ctx &c, HW::Out &o) {
	Prob p = gen_prob(c, 1, true);
	bool whole = c.chance(1, 3);
	std::size_t ns = c.size(1, 4);
	std::uint32_t off = c.chance(1, 3) ? (std::uint32_t)c.range(1, 15) : 0, it = off;
	bool offarg = c.flip();
	int source = (int)c.weighted({4, 2, 2}); // given to Go2, to the algorithms, made by a creator
	std::size_t n0 = c.size(1, 4), room = n0;
	bool mt = c.chance(1, 4);
	auto go = make_go({"-c", c.pick<std::string>({"sc", "stc"})});
	std::ostringstream note;
	note << (whole ? "whole populations" : "best ones") << " offset " << off << " source " << source << "/" << n0 << (mt ? " broker" : "") << "; ";
	go->setCopyBestIndividualsOnly(!whole);
	if (!offarg) go->setOffset(off);
	std::vector<Stage> st;
	bool dflt = ns == 1 && c.chance(1, 3) && source != 1;
	for (std::size_t k = 0; k < ns; k++) {
		st.push_back(gen_stage(c, room, it));
		note << st.back().str << " ";
		auto &s = st.back();
		// GD stages need a parameter that can be changed
		room = whole ? std::max(s.kind == 3 ? s.size * (p.nd + 1) : s.size, s.size) : s.rec;
		if (!mt) executor(*s.a);
	}
	note << p.str();
	o.obs = note.str();
	std::vector<Item> H; // what the next stage gets
	std::size_t made = 0;
	auto one = [&]() {
		auto x = gen_start(c, p);
		if (c.chance(1, 4)) { x->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS); x->process(); }
		H.push_back(item(x));
		return x;
	};
	std::size_t limit = c.chance(1, 2) ? c.size(1, 3) : 1000000;
	std::shared_ptr<Creator> cr;
	if (source == 0) for (std::size_t k = 0; k < n0; k++) go->push_back(one());
	if (source == 2) { cr = std::make_shared<Creator>([&]() -> PSP { if (made++ >= limit) return PSP(); return one(); }); go->registerContentCreator(cr); }
	for (std::size_t k = 0; k < ns; k++) {
		if (source == 1) { std::size_t n = k == 0 ? 1 : c.size(0, n0 - 1); if (H.size() + n <= n0) for (std::size_t q = 0; q < n; q++) st[k].a->push_back(one()); }
		if (dflt) { go->registerDefaultAlgorithm(st[k].a); o.label("default algorithm"); }
		else if (c.flip()) *go & st[k].a; else go->addAlgorithm(st[k].a);
	}
	CREQ(go->getNAlgorithms() == (dflt ? 0 : ns), "there are ", go->getNAlgorithms(), " algorithms instead of ", ns);
	std::size_t want0 = st[0].a->getDefaultPopulationSize();
	auto w = std::make_shared<Watch>();
	go->registerPluggableOM(w);
	evlog().start();
	if (offarg && off && c.flip()) go->setOffset((std::uint32_t)c.range(0, 20)); // the argument takes precedence
	if (offarg) go->optimize(off); else go->optimize();
	evlog().stop();
	if (source == 2) CREQ(made == std::min(limit + 1, want0), "the creator was asked for ", made, " individuals");
	auto b = [&](double x, double y) { return p.maxi ? x > y : x < y; };
	// what was seen, stage by stage
	std::size_t pos = 0;
	std::uint32_t cur = off;
	bool handed = false;
	double best = p.maxi ? -HIGHEST_D : HIGHEST_D;
	for (std::size_t k = 0; k < ns; k++) {
		auto &s = st[k];
		std::string who = "stage " + std::to_string(k) + " (" + alg_name(s.kind) + ")";
		verify(*w, pos, s, who, H, {}, cur, p, k == 0 && source == 2);
		auto &e = w->s[pos++];
		if (!H.empty() && k) handed = true;
		H = whole ? e.pop : e.gb;
		if (!whole) { CREQ(!H.empty() && !b(best, H[0].raw.at(0)), who, ": the best solution got worse"); best = H[0].raw.at(0); }
		o.label(alg_name(s.kind));
	}
	CREQ(pos == w->s.size(), "there were ", w->s.size() - pos, " further notifications");
	// the result
	CREQ(go->getIteration() == cur, "the iteration counter is ", go->getIteration(), " instead of ", cur);
	std::vector<Item> res;
	for (auto const &q: *go) res.push_back(item(q));
	CREQ(bag(res) == bag(H), "the result is ", keys(res), "instead of ", keys(H));
	for (std::size_t q = 0; q + 1 < res.size(); q++) CREQ(!b(res[q + 1].raw.at(0), res[q].raw.at(0)), "the results are not sorted: ", keys(res));
	auto bi = item(go->getBestGlobalIndividual<gg::GParameterSet>());
	CREQ(bi.k == res[0].k && bi.raw == res[0].raw && bi.id == res[0].id, "the best individual is ", bi.k, " instead of ", res[0].k);
	std::vector<Item> bs;
	for (auto &q: go->getBestGlobalIndividuals<gg::GParameterSet>()) { bs.push_back(item(q)); for (auto const &z: *go) CREQ(z != q, "a result is not a copy"); }
	CREQ(bs.size() == res.size(), "there are ", bs.size(), " best individuals");
	for (std::size_t q = 0; q < bs.size(); q++) CREQ(bs[q].k == res[q].k && bs[q].raw == res[q].raw, "the best individuals are ", keys(bs), "instead of ", keys(res));
	for (auto &s: st) if (!dflt) { CREQ(s.a->empty() && !s.a->hasPluggableOptimizationMonitors(), "an algorithm still has its individuals or monitors"); }
	if (handed) o.label("handed on");
}

PROP("C31", chain, 600, 8000, 6, "a chain of one to four algorithms of any type and settings, with start individuals given to Go2, to an algorithm or by a creator, any offset, executed serially or through the broker, handing on the best solutions or whole populations; the start population, the iterations, the best solutions of each stage and the final result are compared with a model; non-trivial: some stage got its start from another one") {
	auto pre = HW::ahead(c, 300);
	bool thorough = c.thorough();
	HW::in_child(c, 60., [&](HW::Out &o) { Ctx d(0, &pre, nullptr, thorough); chain(d, o); });
	if (c.labelled("handed on")) c.nontrivial();
}
// a run that is continued from one of its checkpoints
static void resume(Ctx &c, HW::Out &o) {
	Prob p = gen_prob(c, 1, true);
	std::uint32_t off = c.chance(1, 3) ? (std::uint32_t)c.range(1, 15) : 0, it = off;
	auto mode = c.pick<gc::serializationMode>({gc::serializationMode::BINARY, gc::serializationMode::TEXT, gc::serializationMode::XML});
	auto go = make_go({"-c", "sc"});
	auto first = gen_stage(c, 1, it);
	executor(*first.a);
	first.a->setCheckpointInterval(1); first.a->setRemoveCheckpointFiles(false); first.a->setCheckpointSerializationMode(mode); fs::remove_all("gocp"); first.a->setCheckpointBaseName("gocp", "x.cp");
	go->push_back(gen_start(c, p)); go->setOffset(off);
	auto w = std::make_shared<Watch>();
	go->registerPluggableOM(w);
	*go & first.a;
	evlog().start();
	go->optimize();
	evlog().stop();
	std::vector<std::size_t> proc;
	for (std::size_t k = 0; k < w->s.size(); k++) if (w->s[k].im == gg::infoMode::INFOPROCESSING) proc.push_back(k);
	std::size_t at = proc[c.size(0, proc.size() - 1)];
	auto &cp = w->s[at];
	std::string file, pre = "checkpoint-" + first.a->getAlgorithmPersonalityType() + "-" + std::to_string(cp.it) + "-";
	for (auto &e: fs::directory_iterator("gocp")) if (e.path().filename().string().compare(0, pre.size(), pre) == 0) file = e.path().string();
	CREQ(!file.empty(), "there is no checkpoint of iteration ", cp.it);
	// another object with other settings, which are replaced
	auto go2 = make_go({"-c", "sc", "-f", file});
	std::uint32_t it2 = 0;
	auto st = gen_stage(c, 1, it2);
	for (int k = 0; st.kind != first.kind && k < 50; k++) st = gen_stage(c, 1, it2 = 0);
	if (st.kind != first.kind) { st = first; st.a = make_alg(first.kind); }
	st.a->setCheckpointSerializationMode(mode);
	bool creator = c.flip();
	if (creator) go2->registerContentCreator(std::make_shared<Creator>([&]() -> PSP { return gen_start(c, p); }));
	*go2 & st.a;
	it = std::max(first.maxit, cp.it + 2);
	bool two = c.flip();
	Stage next;
	if (two) { next = gen_stage(c, first.rec, it); executor(*next.a); *go2 & next.a; }
	o.obs = first.str + " from iteration " + std::to_string(cp.it) + " (offset " + std::to_string(off) + ")" + (two ? ", then " + next.str : "") + "; " + p.str();
	auto w2 = std::make_shared<Watch>();
	go2->registerPluggableOM(w2);
	evlog().start();
	go2->optimize();
	evlog().stop();
	std::size_t pos = 0;
	std::uint32_t cur = cp.it + 1;
	Stage again = first; // the settings come from the checkpoint
	if (first.kind == 2 || first.kind == 0 || first.kind == 1) again.size = cp.pop.size();
	// the monitor of the first run is a part of the algorithm's state: it is not looked at
	verify(*w2, pos, again, "the continued run", cp.pop, cp.gb, cur, p, false);
	auto H = w2->s[pos++].gb;
	if (two) { verify(*w2, pos, next, "the following stage", H, {}, cur, p, false); H = w2->s[pos++].gb; }
	CREQ(pos == w2->s.size(), "there were ", w2->s.size() - pos, " further notifications");
	CREQ(go2->getIteration() == cur, "the iteration counter is ", go2->getIteration(), " instead of ", cur);
	std::vector<Item> res;
	for (auto const &q: *go2) res.push_back(item(q));
	CREQ(bag(res) == bag(H), "the result is ", keys(res), "instead of ", keys(H));
	o.label(alg_name(first.kind));
	if (at != proc.back()) o.label("handed on");
}
PROP("C31", resume, 250, 3000, 3, "a run of any algorithm with checkpoints is continued by another Go2 object from any of its checkpoints, also as the first of two stages; the continued run must begin with the population, the best solutions and the iteration of the checkpoint, and end with the best of both; non-trivial: it was not the last checkpoint") {
	auto pre = HW::ahead(c, 300);
	bool thorough = c.thorough();
	HW::in_child(c, 60., [&](HW::Out &o) { Ctx d(0, &pre, nullptr, thorough); resume(d, o); });
	if (c.labelled("handed on")) c.nontrivial();
}
PBT_MAIN
