// C36: individuals evaluated by an external program. The program is this executable itself, started through a script
#include <cmath>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <signal.h>
// ---- the external program ----------------------------------------------------------------------------
namespace ext {
static std::string slurp(std::string const &f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::string tag(std::string const &t, std::string const &n, std::size_t from = 0) {
	auto a = t.find("<" + n + ">", from); if (a == std::string::npos) return "";
	a += n.size() + 2; auto b = t.find("</" + n + ">", a);
	return b == std::string::npos ? "" : t.substr(a, b - a);
}
// criterion j of a set of parameters
static double value(std::vector<double> const &v, std::size_t j) {
	double s = 0.1 * (double)j; for (std::size_t k = 0; k < v.size(); k++) s += (v[k] - (double)j) * (v[k] - (double)j) * (double)(k + 1);
	return s;
}
static int run(int argc, char **argv) {
	std::string what, in, out, init, args;
	for (int k = 2; k < argc; k++) {
		std::string a = argv[k]; args += a + "\n";
		if (a == "--init" || a == "--setup" || a == "--evaluate" || a == "--archive" || a == "--finalize") what = a.substr(2);
		else if (a.rfind("--input=", 0) == 0) in = a.substr(8);
		else if (a.rfind("--output=", 0) == 0) out = a.substr(9);
		else if (a.rfind("--initvalues=", 0) == 0) init = a.substr(13);
	}
	std::string log = "log/" + what + "." + std::to_string(getpid()), body;
	int rc = 0;
	auto done = [&]() { { std::ofstream o(log + ".tmp"); o << args << "----\n" << body; } std::rename((log + ".tmp").c_str(), log.c_str()); };
	if (what == "setup") { std::ofstream(out) << slurp("spec.xml"); }
	else if (what == "archive") body = slurp(in);
	else if (what == "evaluate") {
		body = slurp(in);
		std::string id = tag(body, "id"), n = tag(body, "nVars"); std::vector<double> v;
		for (std::size_t k = 0; k < std::stoul(n.empty() ? "0" : n); k++) { auto b = tag(body, "var" + std::to_string(k)); v.push_back(std::strtod(tag(b, "value0").c_str(), nullptr)); }
		std::size_t nr = 1; { std::ifstream f("nresults"); f >> nr; }
		// what is to be done with this parameter set: the nearest key decides
		std::string act = "ok"; { std::ifstream f("plan"); double key; std::string a; double best = 1e300; while (f >> key >> a) if (not v.empty() && std::fabs(v[0] - key) < best) { best = std::fabs(v[0] - key); act = a; } }
		body += "\n<action>" + act + "</action>\n";
		std::ostringstream r; r << "<?xml version=\"1.0\"?>\n<batch>\n<nIndividuals>" << (act == "two" ? 2 : 1) << "</nIndividuals>\n<individuals>\n<individual0>\n<id>" << (act == "wrongid" ? "eval_0815" : id) << "</id>\n<nResults>" << (act == "more" ? nr + 1 : act == "fewer" ? nr - 1 : nr) << "</nResults>\n<isValid>" << (act == "invalid" ? "false" : "true") << "</isValid>\n<results>\n";
		for (std::size_t j = 0; j < nr; j++) if (not (act == "lacking" && j + 1 == nr)) { char b[64]; snprintf(b, sizeof b, "%.17g", value(v, j)); r << "<rawResult" << j << ">" << (act == "text" ? "abc" : b) << "</rawResult" << j << ">\n"; }
		r << "</results>\n</individual0>\n</individuals>\n</batch>\n";
		std::string t = r.str();
		if (act == "cut") t = t.substr(0, t.size() / 2);
		if (act == "empty") t.clear();
		done();
		if (act == "slow") usleep(30000);
		if (act == "exit") return 3;
		if (act == "kill") { kill(getpid(), SIGKILL); }
		if (act != "nofile") std::ofstream(out) << t;
		if (act == "late") return 1; // everything is written, but the program reports an error
		return 0;
	}
	done();
	return rc;
}
__attribute__((constructor(101))) static void start(int argc, char **argv, char **) {
	if (argc > 1 && std::strcmp(argv[1], "--external") == 0) { int r = 99; try { r = run(argc, argv); } catch (...) {} _exit(r); }
}
}
#define INDIV_IMPL
#include "algorun.hpp"
#include "plotfile.hpp"
#include "geneva-individuals/GExternalEvaluatorIndividual.hpp"
using namespace pbt;
using namespace H;
using GEE = gg::GExternalEvaluatorIndividual;
using EEP = std::shared_ptr<GEE>;

struct Var { std::string name; double lo, hi, init; bool fixed = false, rnd = false; };
struct Bound { std::string ex; std::size_t v; double mul, off; bool neg; };
struct Spec {
	std::vector<Var> v; std::vector<Bound> b; std::size_t nr = 1; std::string run, opt, init, base; bool rm = true;
	gg::evaluationPolicy pol; bool maxi; double sigma;
};
static std::string d17(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static Spec gen(Ctx &c) {
	Spec s;
	std::size_t n = c.size(1, 5);
	for (std::size_t k = 0; k < n; k++) {
		Var v; v.name = c.pick<std::string>({"x", "var", "speed_", "A"}) + std::to_string(k);
		v.lo = c.pick<double>({0., -10., 1.5, -1e-3, 1e5, -7e7, -0.1}); v.hi = v.lo + c.pick<double>({1., 0.1, 20., 1e4});
		if (k > 0 && c.chance(1, 5)) { v.fixed = true; v.hi = v.lo; }
		v.init = v.fixed ? v.lo : c.chance(1, 4) ? v.lo : v.lo + (v.hi - v.lo) * c.unit();
		v.rnd = not v.fixed && c.chance(1, 3);
		s.v.push_back(v);
	}
	if (c.chance(1, 2)) for (std::size_t m = c.size(1, 3); m > 0; m--) {
		Bound b; b.v = c.size(0, n - 1); auto &v = s.v[b.v]; double w = v.hi > v.lo ? v.hi - v.lo : 1.;
		// about f*w above the lower limit the value becomes 1
		double f = c.pick<double>({0.3, 0.7, 2., -1.});
		b.mul = (c.flip() ? 1. : -1.) / w; b.off = 1. - b.mul * (v.lo + f * w); b.neg = c.flip();
		b.ex = d17(b.mul) + "*{{" + v.name + "}} + (" + d17(b.off) + ")";
		if (b.mul < 0) b.ex = "(0" + d17(b.mul) + ")*{{" + v.name + "}} + (" + (b.off < 0 ? "0" : "") + d17(b.off) + ")"; else if (b.off < 0) b.ex = d17(b.mul) + "*{{" + v.name + "}} + (0" + d17(b.off) + ")";
		s.b.push_back(b);
	}
	s.nr = c.flip() ? 1 : c.size(1, 3);
	s.run = c.pick<std::string>({"run1", "2026-11-20", "my run"});
	s.opt = c.pick<std::string>({"empty", "", "--flag", "--path=/a/b -c 3"});
	s.init = c.pick<std::string>({"random", "min", "max"});
	s.base = c.pick<std::string>({"parameterFile", "./p", "tmp/in"});
	s.rm = c.flip();
	s.pol = c.pick<gg::evaluationPolicy>({gg::evaluationPolicy::USESIMPLEEVALUATION, gg::evaluationPolicy::USEWORSTCASEFORINVALID, gg::evaluationPolicy::USESIGMOID});
	s.maxi = c.chance(1, 4); s.sigma = c.pick<double>({0.025, 0.1, 0.5});
	return s;
}
static std::string str(Spec const &s) {
	std::ostringstream o; o << s.nr << " results, run " << s.run << ", options '" << s.opt << "', " << s.init << ", " << s.base << (s.rm ? " removed" : " kept") << " policy " << (int)s.pol << (s.maxi ? " max" : " min") << ";";
	for (auto &v: s.v) o << " " << v.name << "=" << num(v.init) << " in [" << num(v.lo) << "," << num(v.hi) << "]" << (v.rnd ? " random" : "");
	for (auto &b: s.b) o << "; " << b.ex << (b.neg ? " (negative allowed)" : "");
	return o.str();
}
static void prepare(Spec const &s) {
	if (fs::exists("ext")) fs::remove_all("ext");
	fs::create_directories("ext/log"); fs::create_directories("ext/tmp");
	fs::current_path("ext");
	{ std::ofstream o("prog"); o << "#!/bin/sh\nexec " << fs::read_symlink("/proc/self/exe").string() << " --external \"$@\"\n"; }
	fs::permissions("prog", fs::perms::owner_all);
	std::ofstream x("spec.xml");
	x << "<?xml version=\"1.0\"?>\n<batch><dataType>setup_data</dataType><runID>" << s.run << "</runID><nIndividuals>1</nIndividuals><individuals><individual0><iteration>0</iteration><nVars>" << s.v.size() << "</nVars><nResults>" << s.nr << "</nResults><nBounds>" << s.b.size() << "</nBounds><vars>";
	for (std::size_t k = 0; k < s.v.size(); k++) {
		auto &v = s.v[k];
		x << "<var" << k << "><name>" << v.name << "</name><type>GConstrainedDoubleObject</type><baseType>double</baseType><lowerBoundary>" << d17(v.lo) << "</lowerBoundary><upperBoundary>" << d17(v.hi) << "</upperBoundary>";
		if (v.rnd) x << "<initRandom>true</initRandom>"; else if (k % 2) x << "<initRandom>false</initRandom>";
		x << "<values><value0>" << d17(v.init) << "</value0></values></var" << k << ">";
	}
	x << "</vars>";
	if (not s.b.empty()) { x << "<bounds>"; for (std::size_t k = 0; k < s.b.size(); k++) x << "<bound" << k << "><expression>" << s.b[k].ex << "</expression><allowNegative>" << (s.b[k].neg ? "true" : "false") << "</allowNegative></bound" << k << ">"; x << "</bounds>"; }
	x << "</individual0></individuals></batch>\n";
	std::ofstream("nresults") << s.nr;
	std::ofstream j("cfg.json");
	auto one = [&](std::string const &n, std::string const &v, bool last = false) { j << "\"" << n << "\": {\"comment\": \"generated\", \"default\": \"" << v << "\", \"value\": \"" << v << "\"}" << (last ? "\n" : ",\n"); };
	j << "{\n"; one("programName", "./prog"); one("customOptions", s.opt); one("parameterFile", s.base); one("initValues", s.init); one("removeExecTemporaries", s.rm ? "true" : "false"); one("sigma1", d17(s.sigma)); one("evalPolicy", std::to_string((int)s.pol), true); j << "}\n";
}
struct Log { std::string args, body; };
static std::vector<Log> logs(std::string const &what) {
	std::vector<Log> r;
	for (auto &e: fs::directory_iterator("log")) if (auto n = e.path().filename().string(); n.rfind(what + ".", 0) == 0 && n.find(".tmp") == std::string::npos) {
		std::string t = ext::slurp(e.path().string()); auto p = t.find("----\n"); r.push_back({t.substr(0, p), t.substr(p + 5)});
	}
	return r;
}
static std::vector<double> values(std::string const &body) {
	std::vector<double> v; std::string n = ext::tag(body, "nVars");
	for (std::size_t k = 0; k < std::strtoul(n.c_str(), nullptr, 10); k++) v.push_back(std::strtod(ext::tag(ext::tag(body, "var" + std::to_string(k)), "value0").c_str(), nullptr));
	return v;
}
static std::vector<double> params(gg::GParameterSet const &p) { std::vector<double> v; p.streamline<double>(v); return v; }
// 1: valid, 0: not valid, -1: too close
static int valid(Spec const &s, std::vector<double> const &x) {
	int r = 1;
	for (auto &b: s.b) {
		double y = b.mul * x[b.v] + b.off; // negative values are either allowed or not
		double eps = 1e-9 * (1. + std::fabs(b.mul * x[b.v]) + std::fabs(b.off));
		if (std::fabs(y - 1.) < eps || (not b.neg && std::fabs(y) < eps)) return -1;
		if (y > 1. || (not b.neg && y < 0.)) r = 0;
	}
	return r;
}
static EEP remade(Ctx &c, EEP p) {
	if (c.chance(1, 4)) { c.label("clone"); return std::dynamic_pointer_cast<GEE>(p->gg::GObject::clone()); }
	if (c.chance(1, 4)) {
		c.label("serialised");
		auto m = c.pick<gc::serializationMode>({gc::serializationMode::XML, gc::serializationMode::BINARY, gc::serializationMode::TEXT});
		std::shared_ptr<gg::GParameterSet> q = p; std::string t = gc::sharedPtrToString(q, m);
		return std::dynamic_pointer_cast<GEE>(gc::sharedPtrFromString<gg::GParameterSet>(t, m));
	}
	return p;
}
struct Dir { fs::path was = fs::current_path(); ~Dir() { fs::current_path(was); std::error_code e; fs::remove_all("ext", e); } };

static void check_structure(Ctx &c, Spec const &s, GEE const &p, std::string const &where) {
	REQ(p.size() == s.v.size(), where, " has ", p.size(), " parameters");
	auto x = params(p); std::vector<double> lo, hi; p.boundaries<double>(lo, hi);
	for (std::size_t k = 0; k < s.v.size(); k++) {
		auto &v = s.v[k]; auto o = const_cast<GEE &>(p).at<gg::GConstrainedDoubleObject>(k);
		REQ(o, where, ": parameter ", k, " is of another type");
		REQ(o->getParameterName() == v.name, where, ": parameter ", k, " is called ", o->getParameterName());
		if (v.fixed) { REQ(x[k] == v.init, where, ": the fixed parameter ", k, " is ", num(x[k])); REQ(not o->adaptionsActive(), where, ": the fixed parameter ", k, " can be adapted"); }
		else {
			REQ(lo[k] == v.lo && (hi[k] == v.hi || hi[k] == std::nextafter(v.hi, v.lo)), where, ": the limits of parameter ", k, " are ", num(lo[k]), " and ", num(hi[k]));
			if (not v.rnd) REQ(near(x[k], v.init) || std::fabs(x[k] - v.init) <= 1e-12 * (std::fabs(v.init) + 1.), where, ": parameter ", k, " starts at ", num(x[k]));
			else REQ(x[k] >= v.lo && x[k] <= v.hi, where, ": parameter ", k, " starts at ", num(x[k]));
			REQ(o->adaptionsActive(), where, ": parameter ", k, " cannot be adapted");
		}
	}
	std::vector<boost::any> a; p.queryAdaptor("GDoubleGaussAdaptor", "sigma", a);
	for (auto &y: a) REQ(boost::any_cast<double>(y) == s.sigma, where, ": sigma is ", num(boost::any_cast<double>(y)));
	REQ(p.getNStoredResults() == s.nr && p.getNExpectedResults() == s.nr, where, " has ", p.getNStoredResults(), " results");
	REQ(p.getRunId() == s.run && p.getRemoveExecTemporaries() == s.rm && p.getEvaluationPolicy() == s.pol, where, " has other settings");
}
static std::size_t files(std::string const &pre) {
	std::size_t n = 0;
	fs::path p(pre); fs::path dir = p.has_parent_path() ? p.parent_path() : fs::path(".");
	for (auto &e: fs::directory_iterator(dir)) if (e.path().filename().string().rfind(p.filename().string() + "-", 0) == 0) n++;
	return n;
}

PROP("C36", exchanged, 130, 4000, 6, "a factory asks a generated external program for the structure of individuals, which are evaluated by it, by one or several threads, with failures of many kinds; non-trivial: at least one evaluation succeeded") {
	Spec s = gen(c);
	c.note(str(s));
	Dir dir; prepare(s);
	auto fp = std::make_unique<gg::GExternalEvaluatorIndividualFactory>("cfg.json"); auto &f = *fp;
	std::vector<EEP> v;
	std::size_t n = c.size(1, 4);
	for (std::size_t k = 0; k < n; k++) {
		auto p = std::dynamic_pointer_cast<GEE>(f.get());
		REQ(p, "the factory made nothing");
		check_structure(c, s, *p, "individual " + std::to_string(k));
		p->setMaxMode(s.maxi ? gg::maxMode::MAXIMIZE : gg::maxMode::MINIMIZE);
		v.push_back(p);
	}
	bool opt = s.opt != "empty" && not s.opt.empty();
	auto li = logs("init"), ls = logs("setup");
	REQ(li.size() == 1 && ls.size() == 1, "the program was initialised ", li.size(), " times and asked for the structure ", ls.size(), " times");
	std::string oa = s.opt == "--path=/a/b -c 3" ? "--path=/a/b\n-c\n3\n" : opt ? s.opt + "\n" : "";
	REQ(li[0].args == oa + "--init\n", "the program was initialised with ", li[0].args);
	REQ(ls[0].args.rfind(oa + "--setup\n", 0) == 0 && ls[0].args.find("--initvalues=" + s.init + "\n") != std::string::npos, "the program was asked for the structure with ", ls[0].args);
	for (auto &e: fs::directory_iterator(".")) REQ(e.path().filename().string().rfind("setup-", 0) != 0, "the setup file was left");

	bool some = false;
	for (std::size_t round = c.size(1, 3); round > 0; round--) {
		// distinct values of the first parameter, each with an action
		std::vector<std::string> act; std::vector<std::vector<double>> x; std::vector<bool> del;
		std::ofstream plan("plan");
		for (std::size_t k = 0; k < n; k++) {
			v[k] = remade(c, v[k]);
			auto y = params(*v[k]);
			for (std::size_t j = 0; j < s.v.size(); j++) if (not s.v[j].fixed) y[j] = s.v[j].lo + (s.v[j].hi - s.v[j].lo) * c.unit();
			auto &o = s.v[0]; y[0] = o.lo + (o.hi - o.lo) * ((double)k + 0.5 + 0.4 * (c.unit() - 0.5)) / (double)n;
			v[k]->assignValueVector<double>(y); y = params(*v[k]);
			std::string a = c.chance(3, 5) ? "ok" : c.pick<std::string>({"exit", "kill", "nofile", "wrongid", "more", "fewer", "two", "lacking", "text", "cut", "empty", "invalid", "slow", "late"});
			plan << d17(y[0]) << " " << a << "\n";
			act.push_back(a); x.push_back(y);
			v[k]->setAssignedIteration((std::uint32_t)c.range(0, 3));
			v[k]->set_processing_status(Gem::Courtier::processingStatus::DO_PROCESS);
			c.note(" ", a);
		}
		plan.close();
		fs::remove_all("log"); fs::create_directories("log");
		std::vector<int> thrown(n, 0);
		auto eval = [&](std::size_t k) { try { v[k]->process(); } catch (Gem::Courtier::g_processing_exception &) { thrown[k] = 1; } catch (...) { thrown[k] = 2; } };
		if (c.flip()) for (std::size_t k = 0; k < n; k++) eval(k);
		else { c.label("threads"); std::vector<std::thread> t; for (std::size_t k = 0; k < n; k++) t.emplace_back(eval, k); for (auto &q: t) q.join(); }
		auto le = logs("evaluate");
		std::size_t called = 0, left = 0;
		for (std::size_t k = 0; k < n; k++) {
			auto &p = *v[k]; auto &a = act[k];
			std::string where = "individual " + std::to_string(k) + " (" + a + ")";
			REQ(params(p) == x[k], where, ": its parameters were changed by the evaluation");
			int ok = valid(s, x[k]);
			Log const *l = nullptr; std::size_t m = 0;
			for (auto &q: le) if (auto w = values(q.body); w.size() == x[k].size() && w[0] == x[k][0]) { l = &q; m++; }
			called += m;
			if (ok < 0) { c.label("at a boundary"); if (m) left++; continue; }
			if (not ok && s.pol != gg::evaluationPolicy::USESIMPLEEVALUATION) {
				REQ(m == 0, where, ": the program was called although constraints are violated");
				REQ(thrown[k] == 0 && p.is_processed() && not p.isValid(), where, ": is valid or in error although constraints are violated");
				c.label("constraint violated"); continue;
			}
			REQ(m == 1, where, ": the program was called ", m, " times for these parameters");
			REQ(values(l->body) == x[k], where, ": the program was given other parameters");
			REQ(ext::tag(l->body, "runID") == s.run && ext::tag(l->body, "nIndividuals") == "1" && ext::tag(l->body, "id") == p.getCurrentEvaluationID(), where, ": the program was given another run or identification");
			for (std::size_t j = 0; j < s.v.size(); j++) REQ(ext::tag(ext::tag(l->body, "var" + std::to_string(j)), "name") == s.v[j].name, where, ": the program was given other names");
			REQ(l->args.rfind(oa + "--evaluate\n--input=" + s.base, 0) == 0, where, ": the program was called with ", l->args);
			bool good = a == "ok" || a == "slow" || (a == "fewer" && false);
			if (good) {
				REQ(thrown[k] == 0 && p.is_processed() && not p.has_errors(), where, ": the evaluation failed");
				for (std::size_t j = 0; j < s.nr; j++) {
					double w = ext::value(x[k], j);
					REQ(p.raw_fitness(j) == w, where, ": result ", j, " is ", num(p.raw_fitness(j)), ", expected ", num(w));
					if (s.pol == gg::evaluationPolicy::USESIMPLEEVALUATION) REQ(p.transformed_fitness(j) == w, where, ": transformed result ", j, " is ", num(p.transformed_fitness(j)));
				}
				REQ(p.isValid() == (ok == 1), where, ": wrong validity");
				some = true; c.label("evaluated"); if (s.nr > 1) c.label("several results");
			} else {
				REQ(thrown[k] == 1, where, ": no error was reported");
				REQ(p.has_errors() && not p.is_processed(), where, ": is not marked as erroneous");
				REQ(not p.getStoredErrorDescriptions().empty(), where, ": the reason is not given");
				c.label("failed: " + a);
			}
			// files are removed unless this was not wanted, or something unexpected happened
			bool clean = good || a == "exit" || a == "kill" || a == "late" || a == "invalid";
			if (not clean) left += files(s.base) ? 1 : 0;
		}
		REQ(called == le.size(), "the program was called ", le.size(), " times, ", called, " of them for known parameters");
		if (s.rm && left == 0) REQ(files(s.base) == 0 && files("result") == 0 && files("commandOutput") == 0, "there are files left over");
		if (not s.rm && called) REQ(files(s.base) > 0 && files("commandOutput") > 0, "files were removed");
		for (auto const &pre: {s.base, std::string("result"), std::string("commandOutput")}) {
			fs::path q(pre); fs::path d = q.has_parent_path() ? q.parent_path() : fs::path(".");
			std::vector<fs::path> rmv;
			if (s.rm || c.flip()) for (auto &e: fs::directory_iterator(d)) if (e.path().filename().string().rfind(q.filename().string() + "-", 0) == 0) rmv.push_back(e.path());
			for (auto &e: rmv) fs::remove(e);
		}
	}
	if (some) c.nontrivial();
	// at the end, all solutions may be handed over
	if (c.flip()) {
		std::vector<EEP> arch; for (auto &p: v) if (c.chance(2, 3)) arch.push_back(p);
		for (auto &e: fs::directory_iterator(fs::path(s.base).has_parent_path() ? fs::path(s.base).parent_path() : fs::path("."))) (void)e;
		std::stringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf());
		std::size_t before = files(s.base);
		try { f.archive(arch); } catch (...) { std::cout.rdbuf(old); throw; }
		std::cout.rdbuf(old);
		auto la = logs("archive");
		REQ(la.size() == (arch.empty() ? 0 : 1), "the program was called ", la.size(), " times with an archive of ", arch.size(), " individuals");
		REQ(files(s.base) == before, "the file of the archive was left");
		if (arch.size()) {
			auto &b = la[0].body; c.label("archive");
			REQ(ext::tag(b, "nIndividuals") == std::to_string(arch.size()) && ext::tag(b, "dataType") == "archive_data", "the archive has ", ext::tag(b, "nIndividuals"), " individuals, expected ", arch.size());
			for (std::size_t k = 0; k < arch.size(); k++) {
				auto t = ext::tag(b, "individual" + std::to_string(k)); auto &p = *arch[k];
				REQ(values(t) == params(p), "individual ", k, " of the archive has other parameters");
				REQ(ext::tag(t, "id") == p.getCurrentEvaluationID(), "individual ", k, " of the archive has another identification");
				REQ(ext::tag(t, "nResults") == std::to_string(s.nr), "individual ", k, " of the archive has another number of results");
				REQ((ext::tag(t, "hasErrors") == "true") == p.has_errors(), "individual ", k, " of the archive: wrong mark of errors");
				if (p.is_processed()) for (std::size_t j = 0; j < s.nr; j++) {
					REQ(std::strtod(ext::tag(t, "rawResult" + std::to_string(j)).c_str(), nullptr) == p.raw_fitness(j), "individual ", k, " of the archive has another result ", j);
					REQ(std::strtod(ext::tag(t, "result" + std::to_string(j)).c_str(), nullptr) == p.transformed_fitness(j), "individual ", k, " of the archive has another transformed result ", j);
				}
			}
		}
	}
	fp.reset();
	auto lf = logs("finalize");
	REQ(lf.size() == 1 && lf[0].args == oa + "--finalize\n", "the program was finalised ", lf.size(), " times");
}
PBT_MAIN
