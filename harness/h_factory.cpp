// C33: what factories deliver, and what the command line of Go2 starts
#define INDIV_IMPL
#include "algorun.hpp"
#include "child.hpp"
#include "geneva/Go2.hpp"
#include <set>
using namespace pbt;
using namespace H;

template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; using A::getNRecordBestIndividuals; };
template<typename T> static std::string S(T const &x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); }
static std::string S(bool x) { return x ? "true" : "false"; }
using Base = gg::G_OptimizationAlgorithm_Base;
using Fac = gg::G_OptimizationAlgorithm_FactoryT<Base>;
struct Opt { std::string group, name, val, want; std::function<std::string(Base &)> get; bool given = true; };
static std::shared_ptr<Fac> make_factory(int kind, std::string const &f) {
	switch (kind) {
		case 0: return std::make_shared<gg::GEvolutionaryAlgorithmFactory>(f);
		case 1: return std::make_shared<gg::GSimulatedAnnealingFactory>(f);
		case 2: return std::make_shared<gg::GSwarmAlgorithmFactory>(f);
		case 3: return std::make_shared<gg::GGradientDescentFactory>(f);
		default: return std::make_shared<gg::GParameterScanFactory>(f);
	}
}
static OAP product(Fac &f) { return f.gc::GFactoryT<Base>::get(); }
static const char *mnemo[] = {"ea", "sa", "swarm", "gd", "ps"};

#define GET(EXPR) [](Base &a) { (void)a; return S(EXPR); }
#define AS(T) dynamic_cast<T &>(a)
struct Plan { int kind = 0; std::vector<Opt> o; bool mt = false; std::size_t pop = 0, size = 0, parents = 0; bool grid = false; std::vector<std::size_t> steps; std::uint32_t maxit = 0; };
// run: the algorithm is going to be executed with these settings
static Plan gen_plan(Ctx &c, int kind, bool run, Prob const &p) {
	Plan r;
	r.kind = kind;
	auto add = [&](std::string g, std::string n, std::string v, std::function<std::string(Base &)> get, std::string want = "") { r.o.push_back(Opt{g, n, v, want.empty() ? v : want, get}); };
	auto real = [&]() { return c.pick<double>({0.5, 0.001, 1.25, 3.75, 17., 0.3333333333333333}); };
	r.maxit = run ? (std::uint32_t)c.size(1, 5) : (std::uint32_t)c.range(1, 100000);
	add("", "maxIteration", S(r.maxit), GET(a.getMaxIteration()));
	add("", "minIteration", S(run ? 0 : c.range(0, 1000) % r.maxit), GET(a.getMinIteration()));
	add("", "maxStallIteration", S(run ? 0 : c.range(0, 50)), GET(a.getMaxStallIteration()));
	add("touchedTermination", "terminationFile", c.pick<std::string>({"empty", "halt.txt", "a b.txt"}), [](Base &a) { bool b; return a.getTerminationFile(b); });
	add("touchedTermination", "touchedTerminationActive", S(!run && c.flip()), [](Base &a) { bool b; a.getTerminationFile(b); return S(b); });
	add("", "indivdualUpdateStallCounterThreshold", S(run ? 0 : c.range(0, 30)), GET(a.getStallCounterThreshold()));
	add("", "reportIteration", S(run ? 1 : c.range(1, 30)), GET(a.getReportIteration()));
	add("", "nRecordBestIndividuals", S(c.range(1, 30)), [](Base &a) { return S(static_cast<Pop<OA> &>(a).getNRecordBestIndividuals()); });
	add("", "cpInterval", S(run ? 0 : c.range(-1, 30)), GET(a.getCheckpointInterval()));
	std::string dir = c.pick<std::string>({"./cpa/", "./cpb/", "cpc"});
	add("checkpointLocation", "cpDirectory", dir, [](Base &a) { return S(a.getCheckpointDirectoryPath().lexically_normal() == fs::path("x")) + fs::path(a.getCheckpointDirectoryPath() / "").lexically_normal().string(); }, "false" + (fs::path(dir) / "").lexically_normal().string());
	add("checkpointLocation", "cpBaseName", c.pick<std::string>({"x.cp", "geneva.cp", "other"}), GET(a.getCheckpointBaseName()));
	add("", "cpOverwrite", S(c.flip()), GET(a.checkpointFilesAreRemoved()));
	add("", "cpSerMode", S(c.range(0, 2)), GET((int)a.getCheckpointSerializationMode()));
	add("qualityTermination", "threshold", S(real()), [](Base &a) { bool b; return S(a.getQualityThreshold(b)); });
	add("qualityTermination", "thresholdActive", S(!run && c.flip()), GET(a.hasQualityThreshold()));
	std::size_t mins = run ? 0 : c.size(0, 100), maxs = run || c.chance(1, 3) ? 0 : mins + c.size(1, 100000);
	auto dur = [&](std::size_t s) {
		std::ostringstream o; o << std::setfill('0');
		int form = (int)c.raw(3);
		if (form == 0) o << std::setw(2) << s / 3600 << ":" << std::setw(2) << s / 60 % 60 << ":" << std::setw(2) << s % 60; else if (form == 1) o << s / 60 << ":" << s % 60; else o << s;
		return o.str();
	};
	add("", "maxDuration", dur(maxs), GET(a.getMaxTime().count()), S(maxs));
	add("", "minDuration", dur(mins), GET(a.getMinTime().count()), S(mins));
	add("", "emitTerminationReason", S(c.flip()), GET(a.getEmitTerminationReason()));
	r.mt = c.flip();
	if (run) {
		add("defaultExecutor", "defaultExecMode", r.mt ? "1" : "0", [](Base &) { return std::string(); }, "-");
		add("defaultExecutor", "defaultExecConfig", r.mt ? "./cfg/GMTExecutor.json" : "./cfg/GSerialExecutor.json", [](Base &) { return std::string(); }, "-");
	}
	std::size_t big = run ? 6 : 50;
	if (kind < 2) {
		std::size_t np = c.size(1, run ? 4 : 20), nc = np + c.size(0, big);
		if (kind == 0 && !run && c.flip()) nc = np + 2 + c.size(0, 5);
		r.pop = r.size = np + nc;
		add("", "amalgamationLikelihood", S(run ? 0. : c.pick<double>({0., 0.25, 1.})), GET(AS(gg::G_OptimizationAlgorithm_ParChild).getAmalgamationLikelihood()));
		add("population", "size", S(np + nc), GET(a.getDefaultPopulationSize()));
		r.parents = np;
		add("population", "nParents", S(np), [](Base &) { return std::string(); }, "-");
		add("", "recombinationMethod", S(c.range(0, 2)), GET((int)AS(gg::G_OptimizationAlgorithm_ParChild).getRecombinationMethod()));
		std::size_t gr = run ? 0 : c.size(0, 10);
		add("populationGrowth", "growthRate", S(gr), GET(AS(gg::G_OptimizationAlgorithm_ParChild).getGrowthRate()));
		add("populationGrowth", "maxPopulationSize", S(gr ? np + nc + c.size(0, 100) : 0), GET(AS(gg::G_OptimizationAlgorithm_ParChild).getMaxPopulationSize()));
		if (kind == 0) {
			add("", "nAdaptionThreads", S(c.range(1, 6)), GET(AS(EA).getNThreads()));
			add("", "sortingMethod", S(run ? c.range(0, 2) : c.range(0, 4)), GET((int)AS(EA).getSortingScheme()));
		} else {
			add("", "nAdaptionThreads", S(c.range(1, 6)), GET(AS(SA).getNThreads()));
			add("", "t0", S(c.pick<double>({1., 1000., 12.5})), GET(AS(SA).getT0()));
			add("", "alpha", S(c.pick<double>({0.95, 0.5, 0.0625})), GET(AS(SA).getTDegradationStrength()));
		}
	} else if (kind == 2) {
		std::size_t n = c.size(1, 4), m = c.size(2, run ? 3 : 12);
		r.pop = r.size = n * m;
		add("swarmSize", "nNeighborhoods", S(n), GET(AS(SW).getNNeighborhoods()));
		add("swarmSize", "nNeighborhoodMembers", S(m), GET(AS(SW).getDefaultNNeighborhoodMembers()));
		add("", "cPersonal", S(real()), GET(AS(SW).getCPersonal()));
		add("", "cNeighborhood", S(real()), GET(AS(SW).getCNeighborhood()));
		add("", "cGlobal", S(real()), GET(AS(SW).getCGlobal()));
		add("", "cVelocity", S(real()), GET(AS(SW).getCVelocity()));
		add("", "velocityRangePercentage", S(c.pick<double>({0.15, 0.5, 1.})), GET(AS(SW).getVelocityRangePercentage()));
		add("", "updateRule", S(c.range(0, 1)), GET((int)AS(SW).getUpdateRule()));
		add("", "randomFillUp", S(c.flip()), GET(AS(SW).neighborhoodsFilledUpRandomly()));
		add("", "repulsionThreshold", S(run ? 0 : c.range(0, 20)), GET(AS(SW).getRepulsionThreshold()));
	} else if (kind == 3) {
		std::size_t n = c.size(1, run ? 3 : 20);
		r.pop = n; r.size = n * (p.nd + 1);
		add("", "nStartingPoints", S(n), GET(AS(GD).getNStartingPoints()));
		add("", "finiteStep", S(c.pick<double>({0.001, 1., 12.5})), GET(AS(GD).getFiniteStep()));
		add("", "stepSize", S(c.pick<double>({0.1, 1., 12.5})), GET(AS(GD).getStepSize()));
	} else {
		r.pop = r.size = c.size(1, run ? 8 : 50);
		add("", "size", S(r.pop), GET(a.getDefaultPopulationSize()));
		r.grid = c.flip();
		std::string spec;
		for (std::size_t k = 0; k < p.nd; k++) { r.steps.push_back(c.size(2, 5)); spec += (k ? ", " : "") + std::string("d(") + S(k) + ", " + S(p.lo) + ", " + S(p.lo + (p.hi - p.lo) * 0.75) + ", " + S(r.steps.back()) + ")"; }
		add("", "parameterOptions", spec, [](Base &) { return std::string(); }, "-");
		add("", "scanRandomly", S(!r.grid), GET(AS(PS).getScanRandomly()));
	}
	return r;
}
// options of one group are given or omitted together
static void write_config(std::string const &file, std::vector<Opt> const &o, bool order, Ctx &c) {
	std::vector<std::string> parts;
	std::map<std::string, std::string> groups;
	std::vector<std::string> names;
	for (auto &x: o) if (x.given) {
		std::string one = "\"" + x.name + "\": {\"comment\": \"generated\", \"default\": \"" + x.val + "\", \"value\": \"" + x.val + "\"}";
		if (x.group.empty()) parts.push_back(one);
		else { if (!groups.count(x.group)) names.push_back(x.group); auto &g = groups[x.group]; g += (g.empty() ? "" : ", ") + one; }
	}
	for (auto &n: names) parts.push_back("\"" + n + "\": {" + groups[n] + "}");
	if (order) for (std::size_t k = parts.size(); k > 1; k--) std::swap(parts[k - 1], parts[c.raw(k)]);
	std::ofstream f(file);
	f << "{\n";
	for (std::size_t k = 0; k < parts.size(); k++) f << parts[k] << (k + 1 < parts.size() ? ",\n" : "\n");
	f << "}\n";
}

PROP("C33", settings, 4000, 40000, 4, "the configuration file of any algorithm with any subset of its options, in any order, and limits given on the command line; the algorithms delivered by the factory, and those by a copy of it or after writing and reading a default file, have the values given, and the default values of the others; non-trivial: at least five options were given") {
	int kind = (int)c.raw(5);
	Prob p = gen_prob(c);
	Plan r = gen_plan(c, kind, false, p);
	fs::create_directories("fcfg"); fs::create_directories("cfg");
	std::string def = std::string("fcfg/def-") + mnemo[kind] + ".json", file = "fcfg/t.json";
	fs::remove(def); fs::remove(file);
	auto fd = make_factory(kind, def);
	if (c.flip()) { fd->writeConfigFile("written by a test"); REQ(fs::exists(def), "no default configuration was written"); c.label("written"); }
	auto d1 = product(*fd);
	REQ(fs::exists(def), "no default configuration was created");
	auto d2 = product(*make_factory(kind, def));
	std::set<std::string> omitted;
	bool some = c.chance(3, 4);
	std::size_t given = 0;
	for (auto &x: r.o) { std::string key = x.group.empty() ? x.name : x.group; if (some && c.chance(1, 3)) omitted.insert(key); }
	// sizes that have to fit to each other
	if (omitted.count("population") || omitted.count("populationGrowth")) { omitted.insert("population"); omitted.insert("populationGrowth"); }
	if (omitted.count("maxIteration") || omitted.count("minIteration")) { omitted.insert("maxIteration"); omitted.insert("minIteration"); }
	if (omitted.count("maxDuration") || omitted.count("minDuration")) { omitted.insert("maxDuration"); omitted.insert("minDuration"); }
	if (omitted.count("sortingMethod") || omitted.count("population")) omitted.insert("sortingMethod");
	std::ostringstream n;
	for (auto &x: r.o) { x.given = !omitted.count(x.group.empty() ? x.name : x.group); given += x.given; if (x.given) n << x.name << "=" << x.val << " "; }
	write_config(file, r.o, c.flip(), c);
	auto f = make_factory(kind, file);
	// the command line
	std::map<std::string, long> cl;
	std::vector<std::string> args;
	for (auto &k: {"MaxIterations", "MaxStallIterations", "MaxSeconds"}) if (c.chance(1, 4)) {
		long v = std::string(k) == "MaxIterations" ? (long)c.range(1000, 5000) : std::string(k) == "MaxSeconds" ? (long)c.range(100, 5000) : (long)c.range(0, 50);
		cl[k] = v; args.push_back("--" + std::string(mnemo[kind]) + k + "=" + S(v)); n << args.back() << " ";
	}
	c.note(mnemo[kind], " ", n.str());
	{
		namespace po = boost::program_options;
		po::options_description v, h, all;
		f->addCLOptions(v, h);
		all.add(v).add(h);
		po::variables_map vm;
		po::store(po::command_line_parser(args).options(all).run(), vm);
		po::notify(vm);
	}
	REQ(f->getMnemonic() == mnemo[kind], "the mnemonic is ", f->getMnemonic());
	std::vector<std::pair<std::string, OAP>> got;
	got.push_back({"the product", product(*f)});
	if (c.flip()) got.push_back({"the second product", product(*f)});
	if (c.chance(1, 3)) got.push_back({"a clone of the product", got[0].second->clone<Base>()});
	for (auto &g: got) {
		REQ(g.second && g.second->empty(), g.first, " has individuals");
		for (auto &x: r.o) {
			if (x.want == "-") continue;
			std::string want = x.given ? x.want : x.get(*d1);
			if (x.name == "maxIteration" && cl.count("MaxIterations")) want = S(cl["MaxIterations"]);
			if (x.name == "maxStallIteration" && cl.count("MaxStallIterations")) want = S(cl["MaxStallIterations"]);
			if (x.name == "maxDuration" && cl.count("MaxSeconds")) want = S(cl["MaxSeconds"]);
			std::string have = x.get(*g.second);
			REQ(have == want, g.first, ": ", x.name, " is ", have, " instead of ", want, x.given ? "" : " (not given)");
		}
	}
	for (auto &x: r.o) if (x.want != "-") REQ(x.get(*d1) == x.get(*d2), "the default configuration file changes ", x.name, " from ", x.get(*d1), " to ", x.get(*d2));
	c.label(mnemo[kind]);
	if (given >= 5) c.nontrivial();
}

struct Creator : gc::GFactoryT<gg::GParameterSet> {
	std::size_t n = 0;
	std::function<PSP()> f;
	explicit Creator(std::function<PSP()> g) : gc::GFactoryT<gg::GParameterSet>("cfg/creator.json"), f(g) {}
	PSP getObject_(gc::GParserBuilder &, std::size_t const &) override { n++; return f(); }
	void postProcess_(PSP &) override {}
	int dummy = 0;
	void describeLocalOptions_(gc::GParserBuilder &g) override { g.registerFileParameter<int>("dummy", dummy, 0) << "not used"; }
};
PROP("C33", product_runs, 1500, 20000, 4, "an algorithm of any type made from a generated configuration file and filled by a content creator, and a scan with a grid or random values taken from the file or the command line, is run with its default executor; number of individuals, iterations, threads and points visited have to agree with the configuration; non-trivial: more than one iteration") {
	int kind = (int)c.weighted({2, 2, 2, 2, 3});
	Prob p = gen_prob(c, 1, kind != 3);
	Plan r = gen_plan(c, kind, true, p);
	fs::create_directories("fcfg"); fs::create_directories("cfg");
	std::string file = "fcfg/r.json";
	bool spec_cl = kind == 4 && c.chance(1, 3);
	std::ostringstream n;
	for (auto &x: r.o) n << x.name << "=" << x.val << " ";
	c.note(mnemo[kind], " ", n.str(), p.str());
	std::string spec;
	for (auto &x: r.o) if (x.name == "parameterOptions" && spec_cl) { spec = x.val; x.val = "d(0, 0., 1., 3)"; }
	write_config(file, r.o, c.flip(), c);
	auto f = make_factory(kind, file);
	if (spec_cl) { dynamic_cast<gg::GParameterScanFactory &>(*f).setCLParameterSpecs(spec); c.label("command line"); }
	std::size_t limit = c.chance(1, 3) ? c.size(1, 5) : 1000000, made = 0;
	auto start = gen_start(c, p);
	auto cr = std::make_shared<Creator>([&]() -> PSP { if (made >= limit) return PSP(); made++; return made == 1 ? start->clone<gg::GParameterSet>() : gen_start(c, p); });
	f->registerContentCreator(cr);
	auto w = std::make_shared<Watch>();
	f->registerPluggableOM(w);
	std::vector<std::size_t> np;
	w->more = [&](OA const &b, Snap &x) { if (x.im == gg::infoMode::INFOPROCESSING) if (auto q = dynamic_cast<gg::G_OptimizationAlgorithm_ParChild const *>(&b)) np.push_back(q->getNParents()); };
	auto a = product(*f);
	std::size_t want = std::min(limit, a->getDefaultPopulationSize());
	REQ(a->getDefaultPopulationSize() == r.pop || kind == 3, "the size of the population is ", a->getDefaultPopulationSize(), " instead of ", r.pop);
	REQ(a->size() == want, "the product has ", a->size(), " individuals instead of ", want);
	evlog().start();
	a->optimize();
	evlog().stop();
	auto &s = w->s;
	REQ(s.size() >= 3, "there were ", s.size(), " notifications");
	std::size_t its = s.size() - 2;
	if (kind != 4) REQ(its == r.maxit, "there were ", its, " iterations instead of ", r.maxit);
	for (auto x: np) REQ(x == r.parents, "there are ", x, " parents instead of ", r.parents);
	std::set<std::thread::id> th;
	std::vector<Eval> ev;
	for (auto &x: s) {
		for (auto &e: x.ev) { th.insert(e.th); ev.push_back(e); }
		if (x.im == gg::infoMode::INFOPROCESSING && kind != 4) REQ(x.pop.size() == r.size, "there are ", x.pop.size(), " individuals instead of ", r.size);
	}
	REQ((th.count(std::this_thread::get_id()) != 0) == !r.mt, "evaluations were made by ", th.size(), " threads", r.mt ? ", including the main one" : ", not by the main one");
	if (kind == 4) {
		std::size_t total = 1;
		for (auto x: r.steps) total *= x;
		std::size_t pts = std::min(total, r.pop * r.maxit);
		REQ(ev.size() == pts, ev.size(), " points were visited instead of ", pts);
		std::set<double> grid;
		bool all = true;
		for (auto &e: ev) for (std::size_t k = 0; k < r.steps.size(); k++) {
			double lo = p.lo, hi = p.lo + (p.hi - p.lo) * 0.75;
			REQ(e.d[k] >= lo - 1e-9 && e.d[k] <= hi + 1e-9, "parameter ", k, " was set to ", e.d[k]);
			double t = (e.d[k] - lo) / (hi - lo) * (double)(r.steps[k] - 1);
			if (std::fabs(t - std::round(t)) > 1e-6) all = false;
		}
		REQ(all == r.grid, r.grid ? "some points are not on the grid" : "all points are on a grid");
		c.label(r.grid ? "grid" : "random");
	}
	c.label(mnemo[kind]);
	if (its > 1) c.nontrivial();
}

struct GoArgs {
	std::vector<std::string> s; std::vector<char *> p;
	explicit GoArgs(std::vector<std::string> const &x) : s(x) { for (auto &y: s) p.push_back(const_cast<char *>(y.c_str())); p.push_back(nullptr); }
};
static void go2_line(Ctx &c, HW::Out &o) {
	Prob p = gen_prob(c, 1, true);
	fs::create_directories("cfg"); fs::create_directories("config");
	static const char *files[] = {"GEvolutionaryAlgorithm", "GSimulatedAnnealing", "GSwarmAlgorithm", "GGradientDescent", "GParameterScan"};
	std::vector<Plan> plans;
	for (int k = 0; k < 5; k++) {
		plans.push_back(gen_plan(c, k, true, p));
		for (auto &x: plans.back().o) if (k < 2 && x.group == "population") { if (x.name == "size") x.val = x.want = S(12 + c.size(0, 3)); else x.val = x.want = S(1 + c.size(0, 1)); } // never less than what is handed on
		for (auto &x: plans.back().o) if (x.name == "nRecordBestIndividuals") x.val = x.want = S(c.range(1, 4));
		for (auto &x: plans.back().o) if (k == 2 && x.name == "nNeighborhoodMembers") x.val = x.want = "4";
		write_config(std::string("config/") + files[k] + ".json", plans.back().o, c.flip(), c);
	}
	std::vector<int> order;
	std::vector<std::string> args{"prog"};
	std::size_t na = c.size(0, 4);
	std::string list;
	for (std::size_t k = 0; k < na; k++) { order.push_back((int)c.raw(5)); list += (k ? "," : "") + std::string(mnemo[order.back()]); }
	if (na) { if (c.flip()) { args.push_back("-a"); args.push_back(list); } else args.push_back("--optimizationAlgorithms=" + list); }
	std::string cons = c.pick<std::string>({"sc", "stc"});
	if (c.flip()) { args.push_back("--consumer"); args.push_back(cons); }
	std::map<int, std::uint32_t> lim;
	for (int k = 0; k < 5; k++) { lim[k] = plans[k].maxit; if (c.chance(1, 3)) { lim[k] = (std::uint32_t)c.size(1, 9); args.push_back("--" + std::string(mnemo[k]) + "MaxIterations=" + S(lim[k])); } }
	bool unknown = c.chance(1, 12);
	if (unknown) { args.push_back("-a"); args.push_back("xx"); if (na) { unknown = false; args.pop_back(); args.pop_back(); } }
	std::ostringstream n;
	for (auto &x: args) n << x << " ";
	int dflt = (int)c.raw(5);
	std::uint32_t off = c.chance(1, 4) ? (std::uint32_t)c.size(1, 6) : 0;
	n << "default " << mnemo[dflt] << " offset " << off << " " << p.str();
	o.obs = n.str();
	GoArgs ga(args);
	if (unknown) {
		bool thrown = false;
		try { gg::Go2 go((int)ga.s.size(), ga.p.data(), "cfg/Go2.json"); } catch (gemfony_exception &) { thrown = true; }
		CREQ(thrown, "an unknown algorithm was accepted");
		o.label("unknown");
		return;
	}
	gg::Go2 go((int)ga.s.size(), ga.p.data(), "cfg/Go2.json");
	CREQ(go.getNAlgorithms() == na, "there are ", go.getNAlgorithms(), " algorithms instead of ", na);
	if (na == 0) { go.registerDefaultAlgorithm(std::string(mnemo[dflt])); order.push_back(dflt); }
	if (c.flip()) { // algorithms added by the program come after those of the command line
		int k = (int)c.raw(5);
		if (na) { go & std::string(mnemo[k]); order.push_back(k); o.label("added"); }
	}
	go.push_back(gen_start(c, p));
	auto w = std::make_shared<Watch>();
	std::vector<std::string> who;
	w->more = [&](OA const &a, Snap &) { who.push_back(a.getAlgorithmPersonalityType()); };
	go.registerPluggableOM(w);
	evlog().start();
	if (off) go.optimize(off); else go.optimize();
	evlog().stop();
	static const char *pers[] = {"PERSONALITY_EA", "PERSONALITY_SA", "PERSONALITY_SWARM", "PERSONALITY_GD", "PERSONALITY_PS"};
	std::size_t pos = 0;
	std::uint32_t cur = off;
	for (std::size_t k = 0; k < order.size(); k++) {
		std::string at = "stage " + S(k) + ": ";
		CREQ(pos < w->s.size() && w->s[pos].im == gg::infoMode::INFOINIT, at, "was not started");
		CREQ(who[pos] == make_alg(order[k])->getAlgorithmPersonalityType(), at, who[pos], " was started instead of ", pers[order[k]]);
		CREQ(w->s[pos].it == cur, at, "starts at iteration ", w->s[pos].it, " instead of ", cur);
		pos++;
		std::uint32_t its = 0;
		std::set<std::thread::id> th;
		std::size_t nev = 0;
		for (; pos < w->s.size() && w->s[pos].im != gg::infoMode::INFOEND; pos++) { its++; nev += w->s[pos].ev.size(); for (auto &e: w->s[pos].ev) th.insert(e.th); }
		CREQ(pos < w->s.size(), at, "did not end");
		std::uint32_t want = lim[order[k]] > cur ? lim[order[k]] - cur : 1;
		if (order[k] == 4) { std::size_t total = 1; for (auto x: plans[4].steps) total *= x; want = std::min<std::uint32_t>(want, (std::uint32_t)((total + plans[4].pop - 1) / plans[4].pop)); }
		CREQ(its == want, at, "did ", its, " iterations instead of ", want);
		if (nev) CREQ((th.count(std::this_thread::get_id()) != 0) == !plans[order[k]].mt, at, "evaluations were made by the wrong threads");
		cur += its;
		pos++;
	}
	CREQ(pos == w->s.size(), "there were further notifications");
	CREQ(go.getIteration() == cur, "the iteration counter is ", go.getIteration(), " instead of ", cur);
	if (order.size() > 1) o.label("several");
}
PROP("C33", go2_line, 500, 6000, 4, "a Go2 object with a generated command line (list of algorithms, limits, consumer) and configuration files for all algorithms, plus a default algorithm or further ones added by the program; the algorithms that are run, their order, iterations and executors have to agree with these; unknown names are refused; non-trivial: more than one algorithm") {
	auto pre = HW::ahead(c, 400);
	bool thorough = c.thorough();
	HW::in_child(c, 60., [&](HW::Out &o) { Ctx d(0, &pre, nullptr, thorough); go2_line(d, o); });
	if (c.labelled("several")) c.nontrivial();
}
PBT_MAIN
