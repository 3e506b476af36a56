// A small property-based testing engine.
//
// Every random decision of a case is drawn from one recorded sequence of choices, so a case is a
// pure function of (VERIF_SEED, property name, case index), it can be replayed from the recorded
// choices alone, and it is shrunk by deleting and reducing choices (a choice of 0 is always the
// simplest one).  The choices live in a shared file mapping, so that they survive a crash.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <chrono>
#include <exception>
#include <stdexcept>
#include <limits>
#include <algorithm>
#include <memory>
#include <typeinfo>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) {
	for (unsigned char c: s) { h ^= c; h *= 1099511628211ULL; }
	return h;
}

struct Failure {
	std::string msg;
};

struct Discard {};

struct Shared { // lives in a file mapping
	static const size_t MAXC = 1u << 20;
	volatile uint64_t case_index;
	volatile uint64_t n;
	volatile uint64_t started; // number of cases started
	uint64_t c[MAXC];
};

class Ctx {
public:
	// ---- generation ---------------------------------------------------------------------
	// uniform in [0, n); n == 0 means the full 64-bit range
	uint64_t raw(uint64_t n) {
		uint64_t v;
		if (m_replay) {
			v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
			m_pos++;
			if (n != 0) v %= n;
		} else {
			v = splitmix(m_state);
			if (n != 0) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
		}
		record(v);
		return v;
	}
	int64_t range(int64_t lo, int64_t hi) { // inclusive
		return (int64_t)((uint64_t)lo + raw((uint64_t)hi - (uint64_t)lo + 1));
	}
	std::size_t size(std::size_t lo, std::size_t hi) { return (std::size_t)range((int64_t)lo, (int64_t)hi); }
	bool flip() { return raw(2) == 1; }
	// true with probability num/den; false is the simple choice
	bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }
	double unit() { return (double)(raw(1ULL << 53)) / (double)(1ULL << 53); }
	double real(double lo, double hi) { return lo + unit() * (hi - lo); }
	template<typename T> const T &pick(const std::vector<T> &v) { return v[raw(v.size())]; }
	template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size())); }
	// a choice by weights; index 0 is the simple one
	std::size_t weighted(std::initializer_list<unsigned> w) {
		uint64_t s = 0;
		for (auto x: w) s += x;
		uint64_t r = raw(s);
		std::size_t i = 0;
		for (auto x: w) { if (r < x) return i; r -= x; i++; }
		return 0;
	}
	// a "nice" finite double: small integers, halves, decimal fractions, magnitudes
	double nice_double(double scale = 1.) {
		switch (weighted({3, 3, 3, 2})) {
			case 0: return scale * (double)range(-10, 10);
			case 1: return scale * real(-10., 10.);
			case 2: return scale * real(-1., 1.);
			default: return scale * real(-1., 1.) * std::pow(10., (double)range(-6, 6));
		}
	}
	std::string text(const std::string &alphabet, std::size_t lo, std::size_t hi) {
		std::string r;
		std::size_t n = size(lo, hi);
		for (std::size_t i = 0; i < n; i++) r += alphabet[raw(alphabet.size())];
		return r;
	}
	// ---- reporting -----------------------------------------------------------------------
	template<typename... A> void note(A const &... a) {
		std::ostringstream o;
		o << std::setprecision(17);
		(void)std::initializer_list<int>{((o << a), 0)...};
		std::unique_lock<std::mutex> lk(m_mtx);
		if (m_notes.size() < 4000) { m_notes += o.str(); m_notes += "; "; }
	}
	void label(const std::string &l) { std::unique_lock<std::mutex> lk(m_mtx); m_labels[l]++; }
	bool labelled(const std::string &l) { std::unique_lock<std::mutex> lk(m_mtx); return m_labels.count(l) != 0; }
	void nontrivial() { m_nontrivial = true; }
	template<typename... A> [[noreturn]] void fail(A const &... a) {
		std::ostringstream o;
		o << std::setprecision(17);
		(void)std::initializer_list<int>{((o << a), 0)...};
		throw Failure{o.str()};
	}
	[[noreturn]] void discard() { throw Discard{}; }
	// for threads other than the one that runs the case: remember the first failure
	template<typename... A> void async_fail(A const &... a) {
		std::ostringstream o;
		o << std::setprecision(17);
		(void)std::initializer_list<int>{((o << a), 0)...};
		std::unique_lock<std::mutex> lk(m_mtx);
		if (m_async.empty()) m_async = o.str();
	}
	void check_async() { std::string s; { std::unique_lock<std::mutex> lk(m_mtx); s = m_async; } if (!s.empty()) throw Failure{s}; }
	bool thorough() const { return m_thorough; }
	uint64_t seed() const { return m_seed0; }

	// ---- engine side ---------------------------------------------------------------------
	Ctx(uint64_t seed, const std::vector<uint64_t> *replay, Shared *sh, bool thorough)
		: m_seed0(seed), m_state(seed), m_replay(replay), m_sh(sh), m_thorough(thorough) { if (m_sh) m_sh->n = 0; }
	uint64_t m_seed0;
	uint64_t m_state;
	const std::vector<uint64_t> *m_replay;
	std::size_t m_pos = 0;
	Shared *m_sh;
	bool m_thorough;
	std::vector<uint64_t> m_rec;
	std::string m_notes;
	std::map<std::string, uint64_t> m_labels;
	bool m_nontrivial = false;
	std::string m_async;
	std::mutex m_mtx;
private:
	void record(uint64_t v) {
		m_rec.push_back(v);
		if (m_sh && m_sh->n < Shared::MAXC) { m_sh->c[m_sh->n] = v; m_sh->n = m_sh->n + 1; }
	}
};

struct Prop {
	std::string id, name;
	uint64_t quick, thorough;
	int shards;       // how many processes may work on it at the same time
	std::function<void(Ctx &)> f;
	std::string rule; // what a case is and what makes it non-trivial
};
inline std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
struct Reg {
	Reg(const char *id, const char *name, uint64_t q, uint64_t t, int shards, std::function<void(Ctx &)> f, const char *rule) {
		props().push_back({id, name, q, t, shards, f, rule});
	}
};
#define PROP(...) PROP_(__VA_ARGS__)
#define PROP_(ID, NAME, QUICK, THOROUGH, SHARDS, RULE) \
	static void prop_##NAME(pbt::Ctx &c); \
	static pbt::Reg reg_##NAME(ID, #NAME, QUICK, THOROUGH, SHARDS, prop_##NAME, RULE); \
	static void prop_##NAME(pbt::Ctx &c)

#define REQ(COND, ...) do { if (!(COND)) { c.fail("[" #COND "] ", __VA_ARGS__); } } while (0)

// ---------------------------------------------------------------------------------------------
inline std::string json_str(const std::string &s) {
	std::string o = "\"";
	for (unsigned char ch: s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); o += b; }
		else o += (char)ch;
	}
	return o + "\"";
}

struct Outcome { int kind = 0; /* 0 ok 1 fail 2 discard */ std::string msg; };

inline Outcome run_one(const Prop &p, Ctx &c) {
	Outcome o;
	try {
		p.f(c);
		c.check_async();
	} catch (Failure const &f) { o.kind = 1; o.msg = f.msg; }
	catch (Discard const &) { o.kind = 2; }
	catch (std::exception const &e) { o.kind = 1; o.msg = std::string("unexpected exception: ") + typeid(e).name() + ": " + e.what(); }
	catch (...) { o.kind = 1; o.msg = "unexpected exception of unknown type"; }
	if (o.msg.size() > 3000) o.msg.resize(3000);
	return o;
}

inline std::string replay_text(const Prop &p, const std::vector<uint64_t> &ch, const std::string &msg, const std::string &notes) {
	std::ostringstream o;
	o << "prop " << p.id << " " << p.name << "\nchoices";
	for (auto v: ch) o << " " << v;
	auto clean = [](std::string s) { for (auto &x: s) if (x == '\n') x = ' '; return s; };
	o << "\n# failure: " << clean(msg) << "\n# case: " << clean(notes) << "\n";
	return o.str();
}

inline std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, std::string &msg, std::string &notes, bool thorough, double budget_s) {
	auto t0 = std::chrono::steady_clock::now();
	auto left = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s; };
	auto attempt = [&](std::vector<uint64_t> const &cand) -> bool {
		Ctx c(0, &cand, nullptr, thorough);
		Outcome o = run_one(p, c);
		if (o.kind != 1) return false;
		if (c.m_rec.size() > best.size()) return false;
		if (c.m_rec.size() == best.size() && !(c.m_rec < best)) return false;
		best = c.m_rec; msg = o.msg; notes = c.m_notes;
		return true;
	};
	bool progress = true;
	while (progress && left()) {
		progress = false;
		for (std::size_t blk = std::max<std::size_t>(1, best.size() / 2); blk >= 1 && left(); blk /= 2) {
			for (std::size_t i = 0; i + blk <= best.size() && left();) {
				auto cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + blk);
				if (attempt(cand)) progress = true; else i += blk;
			}
		}
		for (std::size_t i = 0; i < best.size() && left(); i++) {
			if (best[i] == 0) continue;
			auto cand = best;
			cand[i] = 0;
			if (attempt(cand)) { progress = true; continue; }
			uint64_t lo = 0, hi = best[i];
			for (int k = 0; k < 12 && hi - lo > 1 && left() && i < best.size(); k++) {
				uint64_t mid = lo + (hi - lo) / 2;
				cand = best; cand[i] = mid;
				if (attempt(cand)) { progress = true; hi = mid; } else lo = mid;
			}
		}
	}
	return best;
}

inline std::string arg(int argc, char **argv, const char *name, const std::string &def = "") {
	for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == name) return argv[i + 1];
	return def;
}

// exit: 0 ok, 1 failure (replay file written), 3 usage
inline int main_(int argc, char **argv) {
	std::string list = arg(argc, argv, "--list");
	if (!list.empty()) {
		for (auto &p: props()) if (list == "all" || p.id == list)
			std::cout << p.id << "\t" << p.name << "\t" << p.quick << "\t" << p.thorough << "\t" << p.shards << "\t" << p.rule << "\n";
		return 0;
	}
	bool thorough = arg(argc, argv, "--tier", "quick") == "thorough";
	std::string replay = arg(argc, argv, "--replay");
	if (!replay.empty()) {
		std::ifstream f(replay);
		std::string line, id, name;
		std::vector<uint64_t> ch;
		while (std::getline(f, line)) {
			std::istringstream is(line);
			std::string w;
			is >> w;
			if (w == "prop") is >> id >> name;
			else if (w == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
		}
		for (auto &p: props()) if (p.name == name) {
			Ctx c(0, &ch, nullptr, thorough);
			Outcome o = run_one(p, c);
			if (o.kind == 1) { std::cerr << "\nREPLAY-FAIL " << o.msg << "\nCASE " << c.m_notes << std::endl; std::cerr.flush(); std::_Exit(1); }
			std::cerr << "\nREPLAY-OK\nCASE " << c.m_notes << std::endl;
			std::cerr.flush();
			std::_Exit(0);
		}
		std::cerr << "no such property " << name << std::endl;
		return 3;
	}
	std::string name = arg(argc, argv, "--prop"), out = arg(argc, argv, "--out"), cur = arg(argc, argv, "--cur");
	uint64_t seed = std::stoull(arg(argc, argv, "--seed", "1"));
	uint64_t from = std::stoull(arg(argc, argv, "--from", "0")), step = std::stoull(arg(argc, argv, "--step", "1"));
	double budget = std::stod(arg(argc, argv, "--budget", "60"));
	double shrink_s = std::stod(arg(argc, argv, "--shrink", "15"));
	std::string only = arg(argc, argv, "--cases");
	for (auto &p: props()) {
		if (p.name != name) continue;
		uint64_t cases = only.empty() ? (thorough ? p.thorough : p.quick) : std::stoull(only);
		Shared *sh = nullptr;
		if (!cur.empty()) {
			int fd = ::open(cur.c_str(), O_RDWR | O_CREAT, 0644);
			if (fd < 0 || ::ftruncate(fd, sizeof(Shared)) != 0) return 3;
			sh = (Shared *)::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (sh == MAP_FAILED) return 3;
			sh->started = 0;
		}
		auto t0 = std::chrono::steady_clock::now();
		uint64_t done = 0, disc = 0, nt = 0;
		bool truncated = false;
		std::unordered_set<uint64_t> distinct;
		std::map<std::string, uint64_t> labels;
		std::vector<std::string> samples;
		int rc = 0;
		std::string failmsg;
		for (uint64_t i = from; i < cases; i += step) {
			if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { truncated = true; break; }
			uint64_t st = seed * 0x9e3779b97f4a7c15ULL + i * 0xd1b54a32d192ed03ULL + hash_str(p.name);
			splitmix(st);
			if (sh) { sh->case_index = i; sh->started = sh->started + 1; }
			Ctx c(st, nullptr, sh, thorough);
			Outcome o = run_one(p, c);
			if (o.kind == 2) { disc++; continue; }
			done++;
			for (auto &l: c.m_labels) labels[l.first] += 1;
			if (c.m_nontrivial) {
				uint64_t h = 0;
				for (auto v: c.m_rec) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); }
				if (distinct.insert(h).second) nt++;
				if (samples.size() < 2) samples.push_back(c.m_notes.substr(0, 700));
			}
			if (o.kind == 1) {
				std::string msg = o.msg, notes = c.m_notes;
				std::vector<uint64_t> best = c.m_rec;
				{ // the unshrunk case first, in case shrinking takes the process down
					std::ofstream f(out + ".replay0");
					f << replay_text(p, best, msg, notes);
				}
				if (sh) sh->n = 0;
				best = shrink(p, best, msg, notes, thorough, shrink_s);
				std::ofstream f(out + ".replay");
				f << replay_text(p, best, msg, notes);
				failmsg = msg;
				rc = 1;
				break;
			}
		}
		{
			std::ofstream hf(out + ".hash", std::ios::binary);
			for (auto h: distinct) hf.write((const char *)&h, sizeof h);
		}
		std::ofstream f(out);
		f << "{\"prop\":" << json_str(p.name) << ",\"cases\":" << done << ",\"discarded\":" << disc << ",\"nontrivial\":" << nt << ",\"truncated\":" << (truncated ? "true" : "false")
		  << ",\"wall_s\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << ",\"failure\":" << json_str(failmsg) << ",\"labels\":{";
		bool first = true;
		for (auto &l: labels) { f << (first ? "" : ",") << json_str(l.first) << ":" << l.second; first = false; }
		f << "},\"samples\":[";
		first = true;
		for (auto &s: samples) { f << (first ? "" : ",") << json_str(s); first = false; }
		f << "]}\n";
		f.close();
		std::cout.flush();
		std::_Exit(rc); // skip the library's static tear-down; it is not what is being decided
	}
	std::cerr << "no such property " << name << std::endl;
	return 3;
}

} // namespace pbt

#define PBT_MAIN int main(int argc, char **argv) { return pbt::main_(argc, argv); }
