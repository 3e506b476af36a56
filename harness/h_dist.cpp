// C32: the way in which work is distributed does not show in the results
#define INDIV_IMPL
#include "algorun.hpp"
#include "child.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GAsioConsumerT.hpp"
#include "courtier/GWebsocketConsumerT.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <set>
using namespace pbt;
using namespace H;
using Gem::Courtier::GBaseConsumerT;

template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; };
static std::string keys(std::vector<Item> const &v) { std::string r; for (auto &i: v) r += "(" + i.k + ")" + (i.done ? "" : "?") + " "; return r.empty() ? "none" : r; }

struct Way {
	int kind = 0; // 0 serial executor, 1 threads, 2 broker/serial consumer, 3 broker/threads, 4 asio, 5 websocket
	std::size_t n = 1, clients = 1; int smode = 2;
	std::string str() const {
		static const char *nm[] = {"serial", "threads", "broker+serial consumer", "broker+threads", "asio", "websocket"};
		return std::string(nm[kind]) + (kind == 1 || kind == 3 ? " x" + std::to_string(n) : "") + (kind >= 4 ? " server threads " + std::to_string(n) + " clients " + std::to_string(clients) + " mode " + std::to_string(smode) : "");
	}
};
static Way gen_way(Ctx &c, bool thorough) {
	Way w;
	w.kind = (int)c.weighted({0, 4, 2, 4, 2, thorough ? 2u : 1u});
	w.n = c.size(1, 8);
	w.clients = c.size(1, 4);
	w.smode = w.kind == 5 ? 2 : (int)c.raw(3);
	return w;
}
static unsigned short free_port() {
	for (int k = 0; k < 50; k++) {
		unsigned short q = (unsigned short)(10000 + ((unsigned)::getpid() * 13u + (unsigned)k * 1009u) % 22000u);
		int fd = ::socket(AF_INET, SOCK_STREAM, 0);
		int one = 1;
		::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(q); a.sin_addr.s_addr = htonl(INADDR_ANY);
		bool ok = ::bind(fd, (sockaddr *)&a, sizeof a) == 0;
		::close(fd);
		if (ok) return q;
	}
	return 0;
}
// enrols what the way needs; false if there is no free port
static bool prepare(Way const &w) {
	using PS_ = gg::GParameterSet;
	if (w.kind < 2) return true;
	std::shared_ptr<GBaseConsumerT<PS_>> k;
	if (w.kind == 2) k = std::make_shared<Gem::Courtier::GSerialConsumerT<PS_>>();
	else if (w.kind == 3) k = std::make_shared<Gem::Courtier::GStdThreadConsumerT<PS_>>(w.n);
	else {
		namespace po = boost::program_options;
		unsigned short port = free_port();
		if (!port) return false;
		std::string pre = w.kind == 4 ? "--asio_" : "--beast_";
		if (w.kind == 4) k = std::make_shared<Gem::Courtier::GAsioConsumerT<PS_>>(); else k = std::make_shared<Gem::Courtier::GWebsocketConsumerT<PS_>>();
		po::options_description v, h, all;
		k->addCLOptions(v, h);
		all.add(v).add(h);
		auto sm = w.smode == 0 ? gc::serializationMode::TEXT : w.smode == 1 ? gc::serializationMode::XML : gc::serializationMode::BINARY;
		std::vector<std::string> args{pre + "ip=127.0.0.1", pre + "port=" + std::to_string(port), pre + "serializationMode=" + std::to_string((int)sm), (w.kind == 4 ? "--asio_nProcessingThreads=" : "--beast_nListenerThreads=") + std::to_string(w.n)};
		po::variables_map vm;
		po::store(po::command_line_parser(args).options(all).run(), vm);
		po::notify(vm);
		k->actOnCLOptions(vm);
	}
	try { GBROKER(PS_)->enrol_consumer(k); } catch (gemfony_exception &) { if (w.kind < 4) throw; return false; }
	if (w.kind >= 4) for (std::size_t q = 0; q < w.clients; q++) { auto cl = k->getClient(); CREQ(cl, "the consumer gives no client"); std::thread([cl]() { try { cl->run(); } catch (...) {} }).detach(); }
	return true;
}
static void set_executor(OA &a, Way const &w) {
	fs::create_directories("cfg");
	if (w.kind == 0) { a.registerExecutor(gg::execMode::SERIAL, "cfg/GSerialExecutor.json"); return; }
	if (w.kind == 1) { a.registerExecutor(gg::execMode::MULTITHREADED, "cfg/GMTExecutor.json"); a.getExecutor<Gem::Courtier::GMTExecutorT<gg::GParameterSet>>()->setNThreads((std::uint16_t)w.n); return; }
	a.registerExecutor(gg::execMode::BROKER, "cfg/GBrokerExecutor.json");
	auto e = a.getExecutor<Gem::Courtier::GBrokerExecutorT<gg::GParameterSet>>();
	e->setWaitFactor(0.);
}
using Bag = std::multiset<std::string>;
static Bag bag(std::vector<Item> const &v) { std::multiset<std::string> r; for (auto &i: v) r.insert(i.k); return r; }
static std::multiset<std::string> bag(std::vector<Eval> const &v) { std::multiset<std::string> r; for (auto &i: v) r.insert(key(i)); return r; }
static std::string show(std::multiset<std::string> const &v) { std::string r; for (auto &i: v) r += "(" + i + ") "; return r.empty() ? "none" : r; }
static void same_items(std::string const &at, std::vector<Item> const &x, std::vector<Item> const &y) {
	CREQ(x.size() == y.size(), at, x.size(), " individuals in one case and ", y.size(), " in the other");
	for (std::size_t k = 0; k < x.size(); k++) {
		CREQ(x[k].k == y[k].k, at, "individual ", k, " is ", y[k].k, " instead of ", x[k].k, "; all: ", keys(y), " instead of ", keys(x));
		CREQ(x[k].done == y[k].done && x[k].valid == y[k].valid, at, "individual ", k, " (", x[k].k, ") has another status: ", x[k].done, x[k].valid, " and ", y[k].done, y[k].valid);
		CREQ(x[k].raw == y[k].raw && x[k].tr == y[k].tr, at, "individual ", k, " (", x[k].k, ") has another fitness");
	}
}

// the order of equally good ones, and which of them are kept, is left open
static void same_best(std::string const &at, std::vector<Item> const &x, std::vector<Item> const &y) {
	CREQ(x.size() == y.size(), at, x.size(), " individuals in one case and ", y.size(), " in the other");
	Bag b1, b2;
	for (std::size_t k = 0; k < x.size(); k++) {
		CREQ(x[k].raw == y[k].raw && x[k].tr == y[k].tr, at, keys(y), " instead of ", keys(x));
		if (x[k].raw != x.back().raw) { b1.insert(x[k].k); b2.insert(y[k].k); }
	}
	CREQ(b1 == b2, at, keys(y), " instead of ", keys(x));
}

static void same_run(Ctx &c, HW::Out &o, bool thorough) {
	Prob p = gen_prob(c, 1, true);
	if (p.pol != gg::evaluationPolicy::USESIMPLEEVALUATION) p.pol = gg::evaluationPolicy::USESIMPLEEVALUATION;
	Way w = gen_way(c, thorough);
	bool gd = c.flip();
	std::uint32_t iters = (std::uint32_t)c.size(1, 6);
	std::size_t n = c.size(1, 6), rec = c.size(1, 4);
	int jit = c.pick<int>({0, 200, 2000});
	double fs = c.pick<double>({0.001, 1., 100.}), stp = c.pick<double>({0.1, 1., 10.});
	std::vector<std::shared_ptr<HInd>> start;
	std::size_t ns = gd ? n : 1;
	for (std::size_t k = 0; k < ns; k++) start.push_back(gen_start(c, p));
	std::vector<std::string> specs;
	for (std::size_t k = 0; !gd && k < p.nd; k++) {
		if (k && c.flip()) continue;
		std::ostringstream s; s << "d(" << k << ", " << p.lo << ", " << (p.bounded ? p.lo + (p.hi - p.lo) * 0.75 : p.hi) << ", " << c.size(2, 6) << ")"; specs.push_back(s.str());
	}
	auto build = [&](Way const &x) {
		OAP a;
		if (gd) { auto g = std::make_shared<GD>(); g->setNStartingPoints(n); g->setFiniteStep(fs); g->setStepSize(stp); a = g; }
		else {
			auto s = std::make_shared<PS>(); std::string all; for (auto &q: specs) all += (all.empty() ? "" : ",") + q; s->setScanRandomly(false); s->setParameterSpecs(all); static_cast<Pop<PS> &>(*s).setDefaultPopulationSize(n); a = s;
		}
		static_cast<Pop<OA> &>(*a).setNRecordBestIndividuals(rec);
		a->setMaxIteration(iters); a->setMaxStallIteration(0); a->setReportIteration(1);
		for (auto &q: start) a->push_back(q->clone<gg::GParameterSet>());
		set_executor(*a, x);
		return a;
	};
	std::ostringstream note;
	note << (gd ? "gradient descent " : "scan ") << n << " iterations " << iters << " best " << rec << " jitter " << jit << " by " << w.str() << "; ";
	for (auto &q: specs) note << q << " ";
	note << p.str();
	o.obs = note.str();
	auto a = build(Way());
	auto x = run_alg(*a, 0, Inspect(), gg::execMode::SERIAL, false);
	jitter() = jit;
	if (!prepare(w)) { o.label("no port"); return; }
	for (int rep = 0; rep < 2; rep++) {
		auto b = build(w);
		auto y = run_alg(*b, 0, Inspect(), gg::execMode::SERIAL, false);
		CREQ(x.size() == y.size(), "there were ", y.size(), " notifications instead of ", x.size());
		for (std::size_t t = 0; t < x.size(); t++) {
			std::string at = "notification " + std::to_string(t) + ": ";
			CREQ(x[t].im == y[t].im && x[t].it == y[t].it && x[t].stall == y[t].stall, at, "iteration ", y[t].it, " stalls ", y[t].stall, " instead of ", x[t].it, ", ", x[t].stall);
			same_items(at + "population: ", x[t].pop, y[t].pop);
			same_best(at + "best so far: ", x[t].gb, y[t].gb);
			same_best(at + "best of the iteration: ", x[t].ib, y[t].ib);
			CREQ(x[t].bk == y[t].bk && x[t].bc == y[t].bc, at, "other best values");
			auto e1 = bag(x[t].ev), e2 = bag(y[t].ev);
			CREQ(e1 == e2, at, "evaluated: ", show(e2), " instead of ", show(e1));
		}
		auto r1 = item(a->getBestGlobalIndividual<gg::GParameterSet>()), r2 = item(b->getBestGlobalIndividual<gg::GParameterSet>());
		CREQ(r1.raw == r2.raw, "the result is ", r2.k, " instead of ", r1.k);
	}
	if (x.size() > 3) o.label("several iterations");
	o.label(w.kind == 1 ? "threads" : w.kind == 2 ? "broker+serial" : w.kind == 3 ? "broker+threads" : w.kind == 4 ? "asio" : "websocket");
}
PROP("C32", same_run, 450, 6000, 6, "a gradient descent or a scan with any settings, on any landscape, run serially and then twice by 1..8 threads, through the broker with a serial consumer or 1..8 threads, or over the network with 1..4 clients in any serialisation mode, with evaluations that take differently long; populations, bests, evaluations and counters have to be the same after every iteration; non-trivial: more than one iteration") {
	auto pre = HW::ahead(c, 300);
	bool thorough = c.thorough();
	HW::in_child(c, 60., [&](HW::Out &o) { Ctx d(0, &pre, nullptr, thorough); same_run(d, o, thorough); });
	if (c.labelled("several iterations")) c.nontrivial();
}

// algorithms that use random numbers: what each individual is given has to be its own
static void own_result(Ctx &c, HW::Out &o, bool thorough) {
	Prob p = gen_prob(c, 3, true);
	Way w = gen_way(c, thorough);
	int kind = (int)c.raw(3);
	if (kind) p.ncrit = 1;
	auto a = make_alg(kind);
	std::uint32_t iters = (std::uint32_t)c.size(1, 5);
	std::ostringstream note;
	if (kind == 0) {
		auto &e = dynamic_cast<EA &>(*a); std::size_t np = c.size(1, 6), nc = np + c.size(0, 20); e.setPopulationSizes(np + nc, np);
		e.setSortingScheme(p.ncrit > 1 ? c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_PARETO, gg::sortingMode::MUPLUSNU_SINGLEEVAL}) : c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL}));
		note << "EA " << np << "," << nc << " mode " << (int)e.getSortingScheme();
	} else if (kind == 1) { auto &e = dynamic_cast<SA &>(*a); std::size_t np = c.size(1, 4), nc = np + c.size(0, 12); e.setPopulationSizes(np + nc, np); note << "SA " << np << "," << nc; }
	else { std::size_t nb = c.size(1, 4), m = c.size(2, 5); dynamic_cast<SW &>(*a).setSwarmSizes(nb, m); note << "swarm " << nb << "x" << m; }
	a->setMaxIteration(iters); a->setMaxStallIteration(0); a->setReportIteration(1);
	std::size_t ns = c.size(1, 3);
	if (kind == 2) ns = 1;
	for (std::size_t k = 0; k < ns && k < a->getDefaultPopulationSize(); k++) a->push_back(gen_start(c, p));
	jitter() = c.pick<int>({0, 200, 2000});
	note << " iterations " << iters << " by " << w.str() << "; " << p.str();
	o.obs = note.str();
	if (!prepare(w)) { o.label("no port"); return; }
	set_executor(*a, w);
	auto s = run_alg(*a, 0, Inspect(), gg::execMode::SERIAL, false);
	CREQ(s.size() == iters + 2, "there were ", s.size(), " notifications");
	std::set<std::string> seen;
	std::size_t n = 0;
	std::set<std::thread::id> th;
	for (std::size_t t = 1; t <= iters; t++) {
		std::string at = "iteration " + std::to_string(t - 1) + ": ";
		std::vector<Item> fresh;
		std::set<std::string> ids;
		for (auto &q: s[t].pop) {
			CREQ(q.done, at, "individual ", q.k, " was not evaluated");
			CREQ(ids.insert(q.id).second || kind, at, "two individuals have the evaluation ", q.id);
			for (std::size_t k = 0; k < p.ncrit; k++) CREQ(q.raw.at(k) == p.f(q.e, k), at, "individual ", q.k, " has the fitness ", q.raw.at(k), " instead of ", p.f(q.e, k));
			if (seen.insert(q.id).second) fresh.push_back(q);
		}
		auto e = bag(s[t].ev), f = bag(fresh);
		CREQ(kind ? std::includes(e.begin(), e.end(), f.begin(), f.end()) : e == f, at, "evaluated were ", show(e), ", new in the population are ", show(f));
		CREQ(s[t].ev.size() <= s[t].pop.size(), at, "there were ", s[t].ev.size(), " evaluations for ", s[t].pop.size(), " individuals");
		for (auto &v: s[t].ev) th.insert(v.th);
		n += fresh.size();
	}
	if (th.size() > 1) o.label("shared");
	o.label(w.kind == 1 ? "threads" : w.kind == 2 ? "broker+serial" : w.kind == 3 ? "broker+threads" : w.kind == 4 ? "asio" : "websocket");
	o.label(alg_name(kind));
}
PROP("C32", own_result, 450, 6000, 6, "an evolutionary algorithm, simulated annealing or a swarm with any settings, distributed by 1..8 threads, through the broker or over the network; after every iteration every individual must have the fitness of its own parameters, each of the new ones having been evaluated exactly once; non-trivial: more than one worker took part") {
	auto pre = HW::ahead(c, 300);
	bool thorough = c.thorough();
	HW::in_child(c, 60., [&](HW::Out &o) { Ctx d(0, &pre, nullptr, thorough); own_result(d, o, thorough); });
	if (c.labelled("shared")) c.nontrivial();
}
PBT_MAIN
