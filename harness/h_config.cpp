// C05: configuration files and command lines
#define INDIV_IMPL
#include "indiv.hpp"
#include "common/GParserBuilder.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"
#include <array>
#include <set>
#include <sys/wait.h>
using namespace pbt;
namespace gc = Gem::Common;
namespace gg = Gem::Geneva;
namespace fs = std::filesystem;

// ---- values -----------------------------------------------------------------------------------
template<typename T> struct Val;
template<typename T> static T gen_int(Ctx &c) {
	switch (c.weighted({4, 2, 2, 1, 1})) {
		case 0: return (T)c.range(0, 20);
		case 1: return (T)(int64_t)c.raw(0);
		case 2: return (T)c.range(-1000, 1000);
		case 3: return std::numeric_limits<T>::max();
		default: return std::numeric_limits<T>::min();
	}
}
template<typename T> struct Val {
	static T gen(Ctx &c) { return gen_int<T>(c); }
	static std::string json(T v) { return std::to_string(v); }
};
template<> struct Val<bool> {
	static bool gen(Ctx &c) { return c.flip(); }
	static std::string json(bool v) { return v ? "true" : "false"; }
};
template<typename T> struct FVal {
	static T gen(Ctx &c) {
		switch (c.weighted({3, 3, 2, 1})) {
			case 0: return (T)c.range(-20, 20);
			case 1: return (T)c.nice_double();
			case 2: return (T)(c.real(-1., 1.) * std::pow(10., (double)c.range(-30, 30)));
			default: return c.pick({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), (T)0.1, (T)1. / 3});
		}
	}
	static std::string json(T v) { char b[64]; std::snprintf(b, 64, std::is_same<T, float>::value ? "%.9g" : "%.17g", (double)v); return b; }
};
template<> struct Val<double> : FVal<double> {};
template<> struct Val<float> : FVal<float> {};
static const std::string TEXT = "aZ09 _-./\\\"'{}[]:,;#=<>|\t\n%&?";
static std::string jstr(std::string const &s) {
	std::string o = "\"";
	for (char ch: s) switch (ch) {
		case '"': o += "\\\""; break;
		case '\\': o += "\\\\"; break;
		case '\n': o += "\\n"; break;
		case '\t': o += "\\t"; break;
		default: o += ch;
	}
	return o + "\"";
}
template<> struct Val<std::string> {
	static std::string gen(Ctx &c) { return c.text(TEXT, 0, 12); }
	static std::string json(std::string const &v) { return jstr(v); }
};
#define ENUMVAL(T, N) template<> struct Val<T> { static T gen(Ctx &c) { return (T)c.range(0, N - 1); } static std::string json(T v) { return std::to_string((int)v); } };
ENUMVAL(gg::maxMode, 2)
ENUMVAL(gg::sortingMode, 5)
ENUMVAL(gc::serializationMode, 3)
ENUMVAL(gg::evaluationPolicy, 3)
ENUMVAL(gg::duplicationScheme, 3)
ENUMVAL(gg::updateRule, 2)
ENUMVAL(gg::execMode, 3)

template<typename T> static std::string show(T const &v) { return Val<T>::json(v); }
template<typename T> static std::string show(std::vector<T> const &v) { std::string s = "["; for (auto const &x: v) s += show<T>(x) + " "; return s + "]"; }
template<typename T, std::size_t N> static std::string show(std::array<T, N> const &v) { std::string s = "["; for (auto const &x: v) s += show<T>(x) + " "; return s + "]"; }
template<typename A, typename B> static std::string show(std::pair<A, B> const &v) { return show(v.first) + "," + show(v.second); }

// ---- options ----------------------------------------------------------------------------------
struct Writer { Ctx &c; bool space; std::string ws() { if (!space) return ""; return c.pick({std::string(""), std::string(" "), std::string("\n\t"), std::string("  \n")}); } };

struct Opt {
	std::string name; bool essential = true; bool commented = false;
	virtual ~Opt() = default;
	virtual void fresh(Ctx &c) = 0;                        // choose the default for the next builder
	virtual void keep() = 0;                               // the default becomes the value of the file
	virtual void choose(Ctx &c) = 0;                       // choose the value of the file
	virtual void reg(gc::GParserBuilder &b) = 0;           // register with the default
	virtual void reset(gc::GParserBuilder &b, Ctx &c) = 0; // a new default after registration
	virtual std::string json(Writer &w) = 0;               // the option with the file's value
	virtual void check(Ctx &c, bool in_file, const char *where) = 0; // target against value/default
	virtual void untouched(Ctx &c, const char *where) = 0;
	virtual std::string sval() = 0;
	std::string comment() { return commented ? "a comment; of " + name + "\nwith \"quotes\"" : std::string(); }
};
template<typename T> struct OptT : Opt {
	T def{}, val{}, target{}, mark{}; int calls = 0;
	bool cb = false;
	void called(T const &v) { target = v; calls++; }
	void prep() { target = mark; calls = 0; }
	void keep() override { val = def; }
	void check(Ctx &c, bool in_file, const char *where) override {
		T const &e = in_file ? val : def;
		if (cb) REQ(calls == 1, where, ": call-back of ", name, " was called ", calls, " times");
		REQ(target == e, where, ": option ", name, " delivered ", show(target), " instead of ", show(e), in_file ? " (given in the file)" : " (its default)");
	}
	void untouched(Ctx &c, const char *where) override { REQ(target == mark && calls == 0, where, ": option ", name, " was changed to ", show(target)); }
	std::string sval() override { return show(val); }
};
template<typename T> struct OptSingle : OptT<T> {
	void fresh(Ctx &c) override { this->def = Val<T>::gen(c); this->mark = Val<T>::gen(c); }
	void choose(Ctx &c) override { this->val = Val<T>::gen(c); }
	void reg(gc::GParserBuilder &b) override {
		this->prep();
		if (this->cb) b.registerFileParameter<T>(this->name, this->def, std::function<void(T)>([this](T v) { this->called(v); }), this->essential, this->comment());
		else b.registerFileParameter<T>(this->name, this->target, this->def, this->essential, this->comment());
	}
	void reset(gc::GParserBuilder &b, Ctx &c) override { this->def = Val<T>::gen(c); b.resetFileParameterDefaults(this->name, this->def); }
	std::string json(Writer &w) override {
		std::string s = jstr(this->name) + w.ws() + ":" + w.ws() + "{";
		if (w.c.flip()) s += "\"comment\": \"something\",";
		if (w.c.flip()) s += "\"default\":" + w.ws() + Val<T>::json(this->def) + ",";
		std::string v = Val<T>::json(this->val);
		if (v[0] != '"' && w.c.flip()) v = "\"" + v + "\"";
		return s + w.ws() + "\"value\"" + w.ws() + ":" + w.ws() + v + w.ws() + "}";
	}
};
template<typename T> struct OptVector : OptT<std::vector<T>> {
	typedef std::vector<T> V;
	V gen(Ctx &c, std::size_t lo) { V v; std::size_t n = c.size(lo, 5); for (std::size_t i = 0; i < n; i++) v.push_back(Val<T>::gen(c)); return v; }
	void fresh(Ctx &c) override { this->def = gen(c, 1); this->mark = gen(c, 0); }
	void choose(Ctx &c) override { this->val = gen(c, 0); }
	void reg(gc::GParserBuilder &b) override {
		this->prep();
		if (this->cb) b.registerFileParameter<T>(this->name, this->def, std::function<void(V)>([this](V v) { this->called(v); }), this->essential, this->comment());
		else b.registerFileParameter<T>(this->name, this->target, this->def, this->essential, this->comment());
	}
	void reset(gc::GParserBuilder &b, Ctx &c) override { this->def = gen(c, 1); b.resetFileParameterDefaults<T>(this->name, this->def); }
	std::string json(Writer &w) override {
		std::string s = jstr(this->name) + ":" + w.ws() + "{" + w.ws() + "\"value\":";
		bool list = w.c.flip();
		if (this->val.empty()) return s + "\"\"}";
		s += list ? "[" : "{";
		bool first = true;
		for (auto const &x: this->val) { s += std::string(first ? "" : ",") + w.ws() + (list ? "" : "\"item\":") + Val<T>::json(x); first = false; }
		return s + (list ? "]" : "}") + w.ws() + "}";
	}
};
template<typename T, std::size_t N> struct OptArray : OptT<std::array<T, N>> {
	typedef std::array<T, N> V;
	V gen(Ctx &c) { V v; for (auto &x: v) x = Val<T>::gen(c); return v; }
	void fresh(Ctx &c) override { this->def = gen(c); this->mark = gen(c); }
	void choose(Ctx &c) override { this->val = gen(c); }
	void reg(gc::GParserBuilder &b) override {
		this->prep();
		if (this->cb) b.registerFileParameter<T, N>(this->name, this->def, std::function<void(V)>([this](V v) { this->called(v); }), this->essential, this->comment());
		else b.registerFileParameter<T, N>(this->name, this->target, this->def, this->essential, this->comment());
	}
	void reset(gc::GParserBuilder &b, Ctx &c) override { this->def = gen(c); b.resetFileParameterDefaults<T, N>(this->name, this->def); }
	std::string json(Writer &w) override {
		std::string s = jstr(this->name) + ":" + w.ws() + "{";
		std::vector<std::size_t> left;
		for (std::size_t i = 0; i < N; i++) if (!w.c.chance(1, 6)) left.push_back(i); else this->val[i] = this->def[i]; // an element left out
		bool first = true;
		while (!left.empty()) {
			std::size_t k = w.c.raw(left.size()), i = left[k];
			left.erase(left.begin() + k);
			s += std::string(first ? "" : ",") + jstr(std::to_string(i)) + ":{\"value\":" + w.ws() + Val<T>::json(this->val[i]) + "}";
			first = false;
		}
		return s + "}";
	}
};
template<typename A, typename B> struct OptPair : OptT<std::pair<A, B>> {
	void fresh(Ctx &c) override { this->cb = true; this->def = {Val<A>::gen(c), Val<B>::gen(c)}; this->mark = {Val<A>::gen(c), Val<B>::gen(c)}; }
	void choose(Ctx &c) override { this->val = {Val<A>::gen(c), Val<B>::gen(c)}; }
	std::string n1() { return this->name + "_a"; }
	std::string n2() { return this->name + "_b"; }
	void reg(gc::GParserBuilder &b) override {
		this->prep();
		b.registerFileParameter<A, B>(n1(), n2(), this->def.first, this->def.second, std::function<void(A, B)>([this](A x, B y) { this->called({x, y}); }), this->name, this->essential, this->comment(), this->comment());
	}
	void reset(gc::GParserBuilder &b, Ctx &c) override { this->def = {Val<A>::gen(c), Val<B>::gen(c)}; b.resetFileParameterDefaults<A, B>(n1(), this->def.first, this->def.second); }
	std::string json(Writer &w) override {
		std::string a = jstr(n1()) + ":{" + w.ws() + "\"value\":" + Val<A>::json(this->val.first) + w.ws() + "}";
		std::string b = jstr(n2()) + ":{\"value\":" + w.ws() + Val<B>::json(this->val.second) + "}";
		bool omit = w.c.chance(1, 6);
		if (omit) { if (w.c.flip()) { b = ""; this->val.second = this->def.second; } else { a = ""; this->val.first = this->def.first; } }
		if (w.c.flip()) std::swap(a, b);
		return jstr(this->name) + ":" + w.ws() + "{" + a + ((a.empty() || b.empty()) ? "" : ",") + b + "}";
	}
};
static std::unique_ptr<Opt> make_opt(Ctx &c, int i) {
	std::unique_ptr<Opt> o;
#define MK(T) { auto p = std::make_unique<T>(); p->cb = c.flip(); o = std::move(p); break; }
	switch (c.range(0, 28)) {
		case 0: MK(OptSingle<std::int32_t>)
		case 1: MK(OptSingle<double>)
		case 2: MK(OptSingle<std::string>)
		case 3: MK(OptSingle<bool>)
		case 4: MK(OptSingle<std::uint32_t>)
		case 5: MK(OptSingle<std::size_t>)
		case 6: MK(OptSingle<std::int64_t>)
		case 7: MK(OptSingle<std::uint16_t>)
		case 8: MK(OptSingle<float>)
		case 9: MK(OptSingle<gg::maxMode>)
		case 10: MK(OptSingle<gg::sortingMode>)
		case 11: MK(OptSingle<gc::serializationMode>)
		case 12: MK(OptVector<std::int32_t>)
		case 13: MK(OptVector<double>)
		case 14: MK(OptVector<std::string>)
		case 15: MK(OptVector<bool>)
		case 16: MK(OptVector<std::uint32_t>)
		case 17: { auto p = std::make_unique<OptArray<double, 3>>(); p->cb = c.flip(); o = std::move(p); break; }
		case 18: { auto p = std::make_unique<OptArray<std::int32_t, 12>>(); p->cb = c.flip(); o = std::move(p); break; }
		case 19: { auto p = std::make_unique<OptArray<std::string, 2>>(); p->cb = c.flip(); o = std::move(p); break; }
		case 20: { auto p = std::make_unique<OptArray<bool, 4>>(); p->cb = c.flip(); o = std::move(p); break; }
		case 21: o = std::make_unique<OptPair<double, bool>>(); break;
		case 22: o = std::make_unique<OptPair<std::string, bool>>(); break;
		case 23: o = std::make_unique<OptPair<std::size_t, std::size_t>>(); break;
		case 24: o = std::make_unique<OptPair<std::int32_t, std::string>>(); break;
		case 25: o = std::make_unique<OptPair<double, double>>(); break;
		case 26: o = std::make_unique<OptPair<std::string, std::string>>(); break;
		case 27: { auto p = std::make_unique<OptArray<float, 1>>(); p->cb = c.flip(); o = std::move(p); break; }
		default: MK(OptVector<float>)
	}
	o->name = c.pick({std::string("o"), std::string("Option_"), std::string("max-x ")}) + std::to_string(i);
	o->commented = c.flip();
	o->essential = !(o->commented && c.chance(1, 4));
	return o;
}

static std::string slurp(std::string const &p) { std::ifstream f(p); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void spit(std::string const &p, std::string const &s) { std::ofstream f(p); f << s; }

// scratch files below the working directory (a scratch directory made by check.py)
struct Dir {
	std::string d; int n = 0;
	Dir() { static int k = 0; d = fs::current_path().string() + "/cfg" + std::to_string(::getpid()) + "_" + std::to_string(k++); fs::create_directory(d); }
	~Dir() { std::error_code e; fs::remove_all(d, e); }
	std::string file() { return d + "/f" + std::to_string(n++) + ".json"; }
};

PROP("C05", file_roundtrip, 2500, 150000, 8, "1-8 options of 29 kinds (single, vector, array, pair; by call-back or reference) with random values: written by one builder or by hand (omitted options, omitted elements, foreign keys, white space, quoting, order) and parsed by another with other defaults, then written and parsed again; non-trivial: two or more options and one vector, array or pair, or an omitted option") {
	Dir dir;
	std::size_t n = c.size(1, 8);
	std::vector<std::unique_ptr<Opt>> o;
	for (std::size_t i = 0; i < n; i++) { o.push_back(make_opt(c, (int)i)); o[i]->fresh(c); }
	bool base = c.chance(1, 5);
	if (base) { ::setenv("GENEVA_CONFIG_BASENAME", dir.d.c_str(), 1); c.label("base directory"); } else ::unsetenv("GENEVA_CONFIG_BASENAME");
	std::string f1 = dir.file();
	auto arg = [&](std::string const &f) { return base ? fs::path(f).filename().string() : f; };
	int mode = (int)c.weighted({3, 2, 2});
	std::vector<bool> in(n, true);
	if (mode == 0) { // the file is written by hand
		for (auto &x: o) x->choose(c);
		Writer w{c, c.flip()};
		std::vector<std::string> parts;
		for (std::size_t i = 0; i < n; i++) { if (c.chance(1, 4)) { in[i] = false; c.nontrivial(); c.label("omitted"); } else parts.push_back(o[i]->json(w)); }
		if (c.flip()) parts.push_back("\"header\":{\"comment\":\"x\"}");
		if (c.flip()) parts.push_back("\"unknown\":{\"value\":\"7\",\"sub\":{\"value\":[1,2]}}");
		std::string s = w.ws() + "{";
		bool first = true;
		while (!parts.empty()) { std::size_t k = c.raw(parts.size()); s += (first ? "" : ",") + w.ws() + parts[k]; first = false; parts.erase(parts.begin() + k); }
		s += w.ws() + "}" + w.ws();
		spit(f1, s);
		c.note("file ", s);
	} else { // written by the library, directly or because the file is missing
		gc::GParserBuilder b;
		for (auto &x: o) x->reg(b);
		REQ(b.numberOfFileOptions() == n, "numberOfFileOptions ", b.numberOfFileOptions(), " instead of ", n);
		for (auto &x: o) if (c.chance(1, 4)) { x->reset(b, c); c.label("default changed after registration"); }
		bool all = true;
		if (mode == 1) {
			all = !c.chance(1, 3);
			b.writeConfigFile(f1, c.flip() ? "a header; with two lines" : "", all);
			for (auto &x: o) x->untouched(c, "writeConfigFile");
		} else {
			REQ(b.parseConfigFile(arg(f1)), "parsing a file that does not exist yet must create it with the defaults");
			REQ(fs::exists(f1), "the missing configuration file was not created");
			for (auto &x: o) x->check(c, false, "created file");
		}
		for (std::size_t i = 0; i < n; i++) { o[i]->keep(); in[i] = all || o[i]->essential; c.note(o[i]->name, "=", o[i]->sval()); }
		bool refused = false;
		std::string before = slurp(f1);
		try { b.writeConfigFile(f1, "again", true); } catch (gemfony_exception &) { refused = true; }
		REQ(refused && slurp(f1) == before, "an existing configuration file was overwritten");
	}
	std::set<std::string> kinds;
	for (auto &x: o) { c.label(typeid(*x).name()); if (n > 1 && !dynamic_cast<OptSingle<double> *>(x.get())) c.nontrivial(); }
	std::string f2 = dir.file();
	if (mode != 0) for (auto &x: o) x->fresh(c); // by hand: the defaults of the parsing builder are those already chosen
	{
		gc::GParserBuilder b;
		for (auto &x: o) x->reg(b);
		std::string before = slurp(f1);
		REQ(b.parseConfigFile(arg(f1)), "a valid configuration file was not accepted: ", before);
		REQ(slurp(f1) == before, "parsing changed the configuration file");
		for (std::size_t i = 0; i < n; i++) o[i]->check(c, in[i], "parsed file");
		if (c.flip()) { // again, with the same builder
			for (auto &x: o) dynamic_cast<Opt *>(x.get());
			b.writeConfigFile(f2, "rewritten", true);
			for (std::size_t i = 0; i < n; i++) if (!in[i]) o[i]->keep();
			for (auto &x: o) x->fresh(c);
			gc::GParserBuilder d;
			for (auto &x: o) x->reg(d);
			REQ(d.parseConfigFile(arg(f2)), "a configuration file written after parsing was not accepted: ", slurp(f2));
			for (auto &x: o) x->check(c, true, "rewritten file");
			c.label("rewritten");
		}
	}
	::unsetenv("GENEVA_CONFIG_BASENAME");
}

PROP("C05", file_errors, 1200, 60000, 6, "a valid file is cut off, gets an unbalanced character inserted, the wrong extension, is empty or a directory; non-trivial: the file is cut inside or corrupted") {
	::unsetenv("GENEVA_CONFIG_BASENAME");
	Dir dir;
	std::size_t n = c.size(1, 5);
	std::vector<std::unique_ptr<Opt>> o;
	for (std::size_t i = 0; i < n; i++) { o.push_back(make_opt(c, (int)i)); o[i]->fresh(c); o[i]->choose(c); }
	Writer w{c, false};
	std::string s = "{";
	for (std::size_t i = 0; i < n; i++) s += (i ? "," : "") + o[i]->json(w);
	s += "}";
	std::string f = dir.file();
	int k = (int)c.weighted({4, 3, 1, 1, 1, 1, 1});
	switch (k) {
		case 0: { std::size_t cut = c.raw(s.size()); s = s.substr(0, cut); spit(f, s); c.nontrivial(); break; }
		case 1: { // an extra closing or opening bracket outside of strings, or a missing colon
			std::vector<std::size_t> pos;
			bool str = false;
			for (std::size_t i = 0; i < s.size(); i++) {
				if (s[i] == '\\' && str) { i++; continue; }
				if (s[i] == '"') str = !str;
				if (!str && (s[i] == '{' || s[i] == '}' || s[i] == ':')) pos.push_back(i);
			}
			std::size_t p = c.pick(pos);
			if (s[p] == ':' || c.flip()) s.erase(p, 1); else s.insert(p, 1, s[p]);
			spit(f, s); c.nontrivial(); break;
		}
		case 2: spit(f, ""); break;
		case 3: fs::create_directory(f); break;
		case 4: f = dir.d + "/f.txt"; spit(f, s); break;
		case 5: f = dir.d + "/noext"; spit(f, s); break;
		default: f = dir.d + "/no/such/dir/f.json"; break;
	}
	c.note("case ", k, " file ", s);
	gc::GParserBuilder b;
	for (auto &x: o) x->reg(b);
	bool r;
	try { r = b.parseConfigFile(f); } catch (std::exception &) { r = false; }
	REQ(!r, "a broken configuration file was accepted: case ", k, " ", s);
	for (auto &x: o) x->untouched(c, "broken file");
	if (k >= 3) {
		bool thrown = false;
		std::string g = k == 3 ? f : k == 4 ? dir.d + "/g.txt" : k == 5 ? dir.d + "/g" : f;
		try { b.writeConfigFile(g, "h", true); } catch (gemfony_exception &) { thrown = true; }
		REQ(thrown, "writeConfigFile accepted the unsuitable target ", g);
	}
}

// ---- command lines ------------------------------------------------------------------------------
struct CLOpt {
	std::string name; char shrt = 0;
	virtual ~CLOpt() = default;
	virtual void reg(gc::GParserBuilder &b) = 0;
	virtual void give(Ctx &c, std::vector<std::string> &args) = 0;
	virtual void check(Ctx &c) = 0;
};
template<typename T> struct CLOptT : CLOpt {
	T target{}, def{}, impl{}, expect{}; bool implicit = false;
	static T gen(Ctx &c) { T v = Val<T>::gen(c); if constexpr (std::is_same<T, std::string>::value) { if (v.empty()) v = "x"; for (auto &x: v) if (x == '\n') x = 'n'; } return v; }
	void init(Ctx &c) { def = gen(c); impl = gen(c); target = gen(c); implicit = c.flip(); expect = def; }
	void reg(gc::GParserBuilder &b) override { b.registerCLParameter<T>(name + (shrt ? std::string(",") + shrt : std::string()), target, def, "text of " + name, implicit, impl); }
	void give(Ctx &c, std::vector<std::string> &args) override {
		if (implicit && c.chance(1, 3)) { expect = impl; args.push_back(shrt && c.flip() ? std::string("-") + shrt : "--" + name); return; }
		expect = gen(c);
		std::string v;
		if constexpr (std::is_same<T, std::string>::value) v = expect; else v = Val<T>::json(expect);
		if constexpr (std::is_same<T, bool>::value) { if (c.flip()) v = expect ? "1" : "0"; }
		if (implicit || v[0] == '-' || c.flip()) args.push_back("--" + name + "=" + v);
		else { args.push_back(shrt && c.flip() ? std::string("-") + shrt : "--" + name); args.push_back(v); }
	}
	void check(Ctx &c) override { REQ(target == expect, "option --", name, " delivered ", show(target), " instead of ", show(expect)); }
};
template<typename T> static std::unique_ptr<CLOpt> mkcl(Ctx &c) { auto p = std::make_unique<CLOptT<T>>(); p->init(c); return p; }

PROP("C05", command_line, 6000, 300000, 4, "1-7 options of 9 types with defaults and implicit values, a random subset given in random order as --n=v, --n v, -c v or without value; non-trivial: at least one given and one omitted option") {
	std::size_t n = c.size(1, 7);
	std::vector<std::unique_ptr<CLOpt>> o;
	for (std::size_t i = 0; i < n; i++) {
		switch (c.range(0, 8)) {
			case 0: o.push_back(mkcl<std::int32_t>(c)); break;
			case 1: o.push_back(mkcl<double>(c)); break;
			case 2: o.push_back(mkcl<std::string>(c)); break;
			case 3: o.push_back(mkcl<bool>(c)); break;
			case 4: o.push_back(mkcl<std::uint32_t>(c)); break;
			case 5: o.push_back(mkcl<std::size_t>(c)); break;
			case 6: o.push_back(mkcl<std::uint16_t>(c)); break;
			case 7: o.push_back(mkcl<gg::maxMode>(c)); break;
			default: o.push_back(mkcl<float>(c)); break;
		}
		o[i]->name = std::string("opt") + (char)('a' + i) + "x";
		if (c.chance(1, 3)) o[i]->shrt = (char)('A' + i);
	}
	gc::GParserBuilder b;
	for (auto &x: o) x->reg(b);
	REQ(b.numberOfCLOptions() == n, "numberOfCLOptions");
	std::vector<std::size_t> order;
	for (std::size_t i = 0; i < n; i++) order.push_back(i);
	for (std::size_t i = n; i > 1; i--) std::swap(order[i - 1], order[c.raw(i)]);
	std::vector<std::string> args{"prog"};
	std::size_t given = 0;
	for (auto i: order) if (c.flip()) { o[i]->give(c, args); given++; }
	bool help = c.chance(1, 10);
	if (help) args.insert(args.begin() + 1, c.flip() ? "--help" : "-h");
	std::string s;
	for (auto &a: args) s += "[" + a + "]";
	c.note(s);
	bool bad = !help && c.chance(1, 40);
	std::vector<char *> argv;
	if (bad) { args.push_back(c.pick({std::string("--nosuch=1"), std::string("--nosuch"), std::string("-Q")})); c.label("unknown option"); }
	for (auto &a: args) argv.push_back(&a[0]);
	argv.push_back(nullptr);
	if (bad) { // must not be accepted silently: the library ends the process with a message
		pid_t p = ::fork();
		if (p == 0) {
			int fd = ::open("/dev/null", O_WRONLY);
			::dup2(fd, 1); ::dup2(fd, 2);
			bool r = false;
			try { r = b.parseCommandLine((int)args.size(), argv.data(), false); } catch (...) { ::_exit(7); }
			::_exit(r ? 8 : 0);
		}
		int st = 0;
		::waitpid(p, &st, 0);
		REQ(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "an unknown option was accepted: ", args.back());
		return;
	}
	std::ostringstream sink;
	auto *old = std::cout.rdbuf(sink.rdbuf());
	bool verbose = c.chance(1, 4), r;
	try { r = b.parseCommandLine((int)args.size(), argv.data(), verbose); } catch (...) { std::cout.rdbuf(old); throw; }
	std::cout.rdbuf(old);
	REQ(r == help, "parseCommandLine returned ", r, " with help requested: ", help);
	for (auto &x: o) x->check(c);
	if (help || verbose) for (auto &x: o) REQ(sink.str().find(x->name) != std::string::npos, "the output does not mention ", x->name);
	if (given > 0 && given < n) c.nontrivial();
}

// ---- parameters of several sources ---------------------------------------------------------------
PROP("C05", one_time_parameter, 2000, 50000, 1, "sequence of references, assignments and resets on a parameter that may be set once through its reference; non-trivial: a second reference was taken") {
	int d = (int)c.range(-5, 5);
	gc::GOneTimeRefParameterT<int> p(d);
	int val = d; bool set = false; int dummy = 0;
	std::size_t n = c.size(1, 12);
	for (std::size_t i = 0; i < n; i++) {
		int v = (int)c.range(-100, 100);
		switch (c.range(0, 3)) {
			case 0: if (set) { c.nontrivial(); dummy++; } p.reference() = v; if (!set) val = v; set = true; c.note("ref ", v); break;
			case 1: p = v; val = v; set = true; c.note("assign ", v); break;
			case 2: p.reset(); set = false; c.note("reset"); break;
			default: { auto q = p; p = q; c.note("copy"); }
		}
		REQ(p.value() == val && (int)p == val && p.parmSet() == set, "value ", p.value(), " instead of ", val);
	}
}

// ---- the library's own configurable objects --------------------------------------------------------
struct Item { std::string json; std::function<void(gg::GObject &)> set; std::string what; };
template<typename T> static std::string field(std::string const &name, T v) { return jstr(name) + ":{\"value\":" + (Val<T>::json(v)) + "}"; }

struct Exposed : gg::G_OptimizationAlgorithm_Base {
	static auto nrec() { return &Exposed::setNRecordBestIndividuals; }
	static auto dps() { return &Exposed::setDefaultPopulationSize; }
};
static std::vector<std::function<Item(Ctx &)>> base_items() {
	typedef gg::G_OptimizationAlgorithm_Base B;
#define SINGLE(CLS, NAME, T, GEN, SETTER) [](Ctx &c) { T v = GEN; return Item{field<T>(NAME, v), [v](gg::GObject &o) { dynamic_cast<CLS &>(o).SETTER(v); }, NAME}; }
#define PAIR(CLS, LABEL, N1, T1, G1, N2, T2, G2, SETTER) [](Ctx &c) { T1 v = G1; T2 w = G2; return Item{jstr(LABEL) + ":{" + field<T1>(N1, v) + "," + field<T2>(N2, w) + "}", [v, w](gg::GObject &o) { dynamic_cast<CLS &>(o).SETTER(v, w); }, LABEL}; }
	return {
		SINGLE(B, "maxIteration", std::uint32_t, (std::uint32_t)c.range(500, 5000), setMaxIteration),
		SINGLE(B, "minIteration", std::uint32_t, (std::uint32_t)c.range(0, 400), setMinIteration),
		SINGLE(B, "maxStallIteration", std::uint32_t, (std::uint32_t)c.range(0, 100), setMaxStallIteration),
		PAIR(B, "touchedTermination", "terminationFile", std::string, "/tmp/f" + std::to_string(c.range(0, 9)), "touchedTerminationActive", bool, c.flip(), setTerminationFile),
		SINGLE(B, "indivdualUpdateStallCounterThreshold", std::uint32_t, (std::uint32_t)c.range(0, 50), setStallCounterThreshold),
		SINGLE(B, "reportIteration", std::uint32_t, (std::uint32_t)c.range(0, 50), setReportIteration),
		[](Ctx &c) { std::size_t v = c.size(1, 20); return Item{field<std::size_t>("nRecordBestIndividuals", v), [v](gg::GObject &o) { (dynamic_cast<B &>(o).*Exposed::nrec())(v); }, "nRecordBestIndividuals"}; },
		SINGLE(B, "cpInterval", std::int32_t, (std::int32_t)c.range(-1, 20), setCheckpointInterval),
		PAIR(B, "checkpointLocation", "cpDirectory", std::string, "./d" + std::to_string(c.range(0, 9)) + "/", "cpBaseName", std::string, "b" + std::to_string(c.range(0, 9)), setCheckpointBaseName),
		SINGLE(B, "cpOverwrite", bool, c.flip(), setRemoveCheckpointFiles),
		SINGLE(B, "cpSerMode", gc::serializationMode, Val<gc::serializationMode>::gen(c), setCheckpointSerializationMode),
		PAIR(B, "qualityTermination", "threshold", double, c.nice_double(), "thresholdActive", bool, c.flip(), setQualityThreshold),
		[](Ctx &c) { int h = (int)c.range(1, 30), m = (int)c.range(0, 59), s = (int)c.range(0, 59); char b[32]; std::snprintf(b, 32, "%02d:%02d:%02d", h, m, s); return Item{field<std::string>("maxDuration", b), [=](gg::GObject &o) { dynamic_cast<B &>(o).setMaxTime(std::chrono::duration<double>(h * 3600 + m * 60 + s)); }, "maxDuration"}; },
		[](Ctx &c) { int m = (int)c.range(0, 59), s = (int)c.range(0, 59); char b[32]; std::snprintf(b, 32, "00:%02d:%02d", m, s); return Item{field<std::string>("minDuration", b), [=](gg::GObject &o) { dynamic_cast<B &>(o).setMinTime(std::chrono::duration<double>(m * 60 + s)); }, "minDuration"}; },
		SINGLE(B, "emitTerminationReason", bool, c.flip(), setEmitTerminationReason),
	};
}
template<typename B> static std::vector<std::function<Item(Ctx &)>> par_child() {
	auto v = base_items();
	v.push_back(SINGLE(gg::G_OptimizationAlgorithm_ParChild, "amalgamationLikelihood", double, c.unit(), setAmalgamationLikelihood));
	v.push_back(PAIR(gg::G_OptimizationAlgorithm_ParChild, "population", "size", std::size_t, c.size(20, 50), "nParents", std::size_t, c.size(1, 9), setPopulationSizes));
	v.push_back(SINGLE(gg::G_OptimizationAlgorithm_ParChild, "recombinationMethod", gg::duplicationScheme, Val<gg::duplicationScheme>::gen(c), setRecombinationMethod));
	v.push_back(PAIR(gg::G_OptimizationAlgorithm_ParChild, "populationGrowth", "growthRate", std::size_t, c.size(0, 5), "maxPopulationSize", std::size_t, c.size(60, 80), setPopulationGrowth));
	return v;
}
template<typename A> static void object_case(Ctx &c, std::vector<std::function<Item(Ctx &)>> const &items) {
	::unsetenv("GENEVA_CONFIG_BASENAME");
	Dir dir;
	auto by_set = std::make_shared<A>(), by_file = std::make_shared<A>();
	// what a configuration file with only default values does to the object
	std::string f0 = dir.file();
	{
		gc::GParserBuilder d; by_set->addConfigurationOptions(d);
		if (c.flip()) by_set->writeConfigFile(f0, "h");
		REQ(d.parseConfigFile(f0), "the default configuration of ", typeid(A).name(), " was not accepted");
	}
	std::string s = "{", sep = "";
	std::size_t n = 0;
	for (auto &it: items) if (c.chance(2, 3)) {
		Item i = it(c);
		i.set(*by_set);
		s += sep + i.json; sep = ",";
		n++;
	}
	s += n ? "}" : "\"x\":{\"value\":1}}";
	c.note(typeid(A).name(), " ", s);
	std::string f = dir.file();
	spit(f, s);
	if (c.flip()) { by_file->readConfigFile(f); }
	else { gc::GParserBuilder b; by_file->addConfigurationOptions(b); REQ(b.parseConfigFile(f), "a valid configuration of ", typeid(A).name(), " was not accepted"); }
	try { by_file->compare(*by_set, gc::expectation::EQUALITY, 1e-12); }
	catch (g_expectation_violation &e) { c.fail("an object configured from a file differs from one configured by its setters: ", e.what(), " file ", s); }
	std::string a = by_file->toString(gc::serializationMode::XML), b = by_set->toString(gc::serializationMode::XML);
	REQ(a == b, "the state of an object configured from a file differs from one configured by its setters; file ", s);
	if (n > 1) c.nontrivial();
}

PROP("C05", objects, 600, 20000, 8, "an optimisation algorithm or individual configured from a generated file compared with one configured by its setters (every documented option, random subset); non-trivial: at least two options in the file") {
	switch (c.range(0, 5)) {
		case 0: {
			auto v = par_child<gg::GEvolutionaryAlgorithm>();
			v.push_back(SINGLE(gg::GEvolutionaryAlgorithm, "nAdaptionThreads", std::uint16_t, (std::uint16_t)c.range(1, 8), setNThreads));
			v.push_back(SINGLE(gg::GEvolutionaryAlgorithm, "sortingMethod", gg::sortingMode, Val<gg::sortingMode>::gen(c), setSortingScheme));
			object_case<gg::GEvolutionaryAlgorithm>(c, v); break;
		}
		case 1: {
			auto v = base_items();
			typedef gg::GSwarmAlgorithm S;
			v.push_back(PAIR(S, "swarmSize", "nNeighborhoods", std::size_t, c.size(2, 8), "nNeighborhoodMembers", std::size_t, c.size(2, 8), setSwarmSizes));
			v.push_back(SINGLE(S, "cPersonal", double, c.real(0.1, 3.), setCPersonal));
			v.push_back(SINGLE(S, "cNeighborhood", double, c.real(0.1, 3.), setCNeighborhood));
			v.push_back(SINGLE(S, "cGlobal", double, c.real(0.1, 3.), setCGlobal));
			v.push_back(SINGLE(S, "cVelocity", double, c.real(0.1, 3.), setCVelocity));
			v.push_back(SINGLE(S, "velocityRangePercentage", double, c.real(0.01, 1.), setVelocityRangePercentage));
			v.push_back(SINGLE(S, "updateRule", gg::updateRule, Val<gg::updateRule>::gen(c), setUpdateRule));
			v.push_back([](Ctx &c) { bool b = c.flip(); return Item{field<bool>("randomFillUp", b), [b](gg::GObject &o) { if (b) dynamic_cast<S &>(o).setNeighborhoodsRandomFillUp(); else dynamic_cast<S &>(o).setNeighborhoodsRandomFillUp(false); }, "randomFillUp"}; });
			v.push_back(SINGLE(S, "repulsionThreshold", std::uint32_t, (std::uint32_t)c.range(0, 50), setRepulsionThreshold));
			object_case<S>(c, v); break;
		}
		case 2: {
			auto v = base_items();
			v.push_back(SINGLE(gg::GGradientDescent, "nStartingPoints", std::size_t, c.size(1, 9), setNStartingPoints));
			v.push_back(SINGLE(gg::GGradientDescent, "finiteStep", double, c.real(0.0001, 1.), setFiniteStep));
			v.push_back(SINGLE(gg::GGradientDescent, "stepSize", double, c.real(0.0001, 1.), setStepSize));
			object_case<gg::GGradientDescent>(c, v); break;
		}
		case 3: {
			auto v = par_child<gg::GSimulatedAnnealing>();
			v.push_back(SINGLE(gg::GSimulatedAnnealing, "nAdaptionThreads", std::uint16_t, (std::uint16_t)c.range(1, 8), setNThreads));
			v.push_back(SINGLE(gg::GSimulatedAnnealing, "t0", double, c.real(1., 2000.), setT0));
			v.push_back(SINGLE(gg::GSimulatedAnnealing, "alpha", double, c.real(0.1, 0.99), setTDegradationStrength));
			object_case<gg::GSimulatedAnnealing>(c, v); break;
		}
		case 4: {
			auto v = base_items();
			v.push_back([](Ctx &c) { std::size_t v = c.size(1, 90); return Item{field<std::size_t>("size", v), [v](gg::GObject &o) { (dynamic_cast<gg::G_OptimizationAlgorithm_Base &>(o).*Exposed::dps())(v); }, "size"}; });
			// the kind of scan decides what the specification of the parameters means: it comes first, whatever the order in the file
			v.push_back([](Ctx &c) {
				bool kind = c.flip(), spec = c.flip(), r = c.flip();
				std::string s = "d(0, -" + std::to_string(c.range(1, 9)) + "., 10., " + std::to_string(c.range(2, 99)) + ")";
				std::vector<std::string> l;
				if (kind) l.push_back(field<bool>("scanRandomly", r));
				if (spec or not kind) l.push_back(field<std::string>("parameterOptions", s));
				if (l.size() == 2 and c.flip()) std::swap(l[0], l[1]);
				return Item{l.size() == 2 ? l[0] + "," + l[1] : l[0], [=](gg::GObject &o) {
					auto &p = dynamic_cast<gg::GParameterScan &>(o);
					if (kind) p.setScanRandomly(r);
					p.setParameterSpecs(spec or not kind ? s : "d(0, -10., 10., 100), d(1, -10., 10., 100)"); }, "scan"};
			});
			object_case<gg::GParameterScan>(c, v); break;
		}
		default: {
			typedef gg::GParameterSet P;
			std::vector<std::function<Item(Ctx &)>> v{
				SINGLE(P, "evalPolicy", gg::evaluationPolicy, Val<gg::evaluationPolicy>::gen(c), setEvaluationPolicy),
				SINGLE(P, "steepness", double, c.real(0.1, 3.), setSteepness),
				SINGLE(P, "barrier", double, c.real(0.1, 300.), setBarrier),
				SINGLE(P, "maxUnsuccessfulAdaptions", std::size_t, c.size(1, 2000), setMaxUnsuccessfulAdaptions),
				SINGLE(P, "maxRetriesUntilValid", std::size_t, c.size(1, 2000), setMaxRetriesUntilValid),
				SINGLE(P, "maxmode", gg::maxMode, Val<gg::maxMode>::gen(c), setMaxMode),
				PAIR(P, "randomCrashParameters", "useRandomCrash", bool, c.flip(), "randomCrashProb", double, c.unit(), setRandomCrash),
			};
			object_case<H::HInd>(c, v);
		}
	}
}
PBT_MAIN
