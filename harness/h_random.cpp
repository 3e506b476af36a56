// C08: random numbers
#include "pbt.hpp"
#include "child.hpp"
#include "hap/GRandomFactory.hpp"
#include "hap/GRandomT.hpp"
#include "hap/GRandomDistributionsT.hpp"
#include "hap/GHapEnums.hpp"
#include <random>
#include <unordered_map>
using namespace pbt;
namespace gh = Gem::Hap;
using Local = gh::GRandomT<gh::RANDFLAVOURS::RANDOMLOCAL>;
using Proxy = gh::GRandomT<gh::RANDFLAVOURS::RANDOMPROXY>;

// The numbers are seeded from a non-deterministic source, so the tests below are statistical; every
// threshold is at a false-alarm probability of about 1e-10 per test.
static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.)); }
static double ks(std::vector<double> v, std::function<double(double)> cdf) {
	std::sort(v.begin(), v.end());
	double d = 0, n = (double)v.size();
	for (std::size_t i = 0; i < v.size(); i++) {
		double f = cdf(v[i]);
		d = std::max(d, std::max(f - (double)i / n, (double)(i + 1) / n - f));
	}
	return d * std::sqrt(n);
}
static const double KS_LIMIT = 3.5;
static std::unique_ptr<gh::GRandomBase> gen(Ctx &c) {
	bool local = c.flip();
	c.note(local ? "local" : "proxy");
	if (local) return std::unique_ptr<gh::GRandomBase>(new Local());
	return std::unique_ptr<gh::GRandomBase>(new Proxy());
}

template<typename T> static void bi_normal(Ctx &c, double tol) {
	using D = gh::bi_normal_distribution<T>;
	auto g = gen(c);
	auto par = [&](const char *n) {
		double mean = std::is_same<T, float>::value ? c.real(-10., 10.) : c.nice_double(), s1 = c.real(0.01, 5.), s2 = c.flip() ? s1 : c.real(0.01, 5.), dist = c.real(-20., 20.);
		if (c.chance(1, 5)) dist = 0;
		c.note(n, ": mean ", mean, " s1 ", s1, " s2 ", s2, " distance ", dist);
		return typename D::param_type((T)mean, (T)s1, (T)s2, (T)dist);
	};
	typename D::param_type p = par("object"), q = par("call"), st = p;
	D d(p);
	if (c.flip()) { D e(p.mean(), p.sigma1(), p.sigma2(), p.distance()); REQ(e == d && !(e != d), "equal distributions compare as different"); d = e; }
	if (c.flip()) { typename D::param_type r = par("set"); d.param(r); p = r; }
	if (c.chance(1, 3)) { D e(d); d = e; c.note("copied"); }
	if (c.chance(1, 4)) { d.reset(); p = st; c.note("reset"); }
	if (p.mean() != q.mean()) REQ(d != D(q), "different distributions compare as equal");
	REQ(d.mean() == p.mean() && d.sigma1() == p.sigma1() && d.sigma2() == p.sigma2() && d.distance() == p.distance(), "settings are not those given");
	REQ(d.param() == p, "param() differs");
	std::vector<double> a, b;
	std::size_t n = c.thorough() ? 40000 : 12000;
	for (std::size_t i = 0; i < n; i++) { a.push_back(d(*g)); if (i % 2) b.push_back(d(*g, q)); }
	auto cdf = [](typename D::param_type const &x) { return [&x](double v) { double h = std::fabs((double)x.distance()) / 2.; return 0.5 * phi((v - x.mean() + h) / x.sigma1()) + 0.5 * phi((v - x.mean() - h) / x.sigma2()); }; };
	for (auto x: a) REQ(std::isfinite(x) && x >= (d.min)() && x <= (d.max)(), "number ", x, " outside the support");
	double k1 = ks(a, cdf(p)), k2 = ks(b, cdf(q));
	(void)tol;
	REQ(k1 < KS_LIMIT, "numbers do not follow the distribution: Kolmogorov statistic ", k1);
	REQ(k2 < KS_LIMIT, "numbers drawn with given parameters do not follow the distribution: Kolmogorov statistic ", k2);
	c.nontrivial();
}
PROP("C08", random_bi_normal, 600, 6000, 4, "a bi-normal distribution with random settings, set by construction, assignment, copy, param() and reset(), or given per call; 12000 numbers against the analytic distribution (Kolmogorov-Smirnov, false alarm 1e-10)") { if (c.flip()) bi_normal<double>(c, 0); else bi_normal<float>(c, 0); }

PROP("C08", random_standard, 800, 6000, 4, "standard distributions over both kinds of generator: support, Kolmogorov-Smirnov or binomial bounds, and the raw bits and their correlations; parameters random") {
	auto g = gen(c);
	std::size_t n = c.thorough() ? 40000 : 12000;
	std::vector<double> v;
	auto binom = [&](double k, double p, const char *what) { double s = std::sqrt((double)n * p * (1 - p)); REQ(std::fabs(k - (double)n * p) <= 7. * s + 1e-9, what, ": ", k, " of ", n, " at probability ", p); };
	switch (c.raw(6)) {
		case 0: { double lo = c.nice_double(), hi = lo + std::fabs(c.nice_double()) + 1e-3; c.note("uniform real ", lo, " ", hi); std::uniform_real_distribution<double> d(lo, hi); for (std::size_t i = 0; i < n; i++) { v.push_back(d(*g)); REQ(v.back() >= lo && v.back() < hi, "outside"); } double k = ks(v, [&](double x) { return (x - lo) / (hi - lo); }); REQ(k < KS_LIMIT, "Kolmogorov statistic ", k); break; }
		case 1: { std::int32_t lo = (std::int32_t)c.range(-100, 100), hi = lo + (std::int32_t)c.range(0, 20); c.note("uniform int ", lo, " ", hi); std::uniform_int_distribution<std::int32_t> d(lo, hi); std::map<std::int32_t, std::size_t> h; for (std::size_t i = 0; i < n; i++) { auto x = d(*g); REQ(x >= lo && x <= hi, "outside: ", x); h[x]++; } for (auto x = lo; x <= hi; x++) binom((double)h[x], 1. / (hi - lo + 1), "frequency of a value"); break; }
		case 2: { double m = c.nice_double(), s = c.real(0.01, 5.); c.note("normal ", m, " ", s); std::normal_distribution<double> d(m, s); for (std::size_t i = 0; i < n; i++) v.push_back(d(*g)); double k = ks(v, [&](double x) { return phi((x - m) / s); }); REQ(k < KS_LIMIT, "Kolmogorov statistic ", k); break; }
		case 3: { double p = c.pick({0., 1., 0.5, c.unit()}); c.note("bernoulli ", p); std::bernoulli_distribution d(p); std::size_t k = 0; for (std::size_t i = 0; i < n; i++) k += d(*g); if (p == 0.) REQ(k == 0, k); else if (p == 1.) REQ(k == n, k); else binom((double)k, p, "bernoulli"); break; }
		case 4: { c.note("bits"); std::vector<std::size_t> h(32); for (std::size_t i = 0; i < n; i++) { auto x = (*g)(); REQ(x >= (gh::GRandomBase::min)() && x <= (gh::GRandomBase::max)(), "outside"); for (int b = 0; b < 32; b++) h[b] += (x >> b) & 1; } for (int b = 0; b < 32; b++) binom((double)h[b], 0.5, "bit frequency"); break; }
		default: { std::size_t lag = c.size(1, 5); c.note("correlation at lag ", lag); std::vector<double> w; for (std::size_t i = 0; i < n + lag; i++) w.push_back((double)(*g)() / 4294967296. - 0.5); double s = 0; for (std::size_t i = 0; i < n; i++) s += w[i] * w[i + lag]; double z = s / std::sqrt((double)n) * 12.; REQ(std::fabs(z) < 7., "correlated: ", z, " sigma"); break; }
	}
	c.nontrivial();
}

// two consecutive numbers identify a place in a stream
struct Windows {
	std::mutex m;
	std::unordered_map<uint64_t, uint32_t> seen;
	bool add(uint32_t a, uint32_t b) { return seen[((uint64_t)a << 32) | b]++ == 0; }
};
static Windows &windows() { static Windows w; return w; }

// The factory of a fresh process under a history of requests for more producers, with threads that take packages
// meanwhile. Of every package that is read the pairs of successive numbers are kept whose first number is divisible by
// 16, so that a stretch of numbers that is delivered twice is noticed wherever it begins.
PROP("C08", factory_history, 60, 900, 4, "the random number factory of a fresh process: 1 to 5 threads take packages of random numbers, read them wholly or in part and give them back, while the number of producers is set up to 5 times, before and after the first use; no stretch of numbers is ever delivered twice; non-trivial: the number of producers was raised by at least 2 at once") {
	struct Step { std::size_t when; std::size_t prod; };
	std::vector<Step> steps;
	std::size_t nt = c.size(1, 5), packages = c.size(200, c.thorough() ? 3000 : 1500), n = c.size(0, 5), cur = 2;
	bool jump = false;
	for (std::size_t i = 0; i < n; i++) {
		Step s{c.chance(1, 3) ? 0 : c.size(0, packages), c.size(1, 9)};
		steps.push_back(s);
		c.note("after ", s.when, ": ", s.prod, " producers; ");
	}
	std::sort(steps.begin(), steps.end(), [](Step const &a, Step const &b) { return a.when < b.when; });
	for (auto &s: steps) { if (s.prod >= cur + 2) jump = true; cur = std::max(cur, s.prod); }
	unsigned part = (unsigned)c.range(0, 3); // one in so many packages is given back half used
	c.note(nt, " threads, ", packages, " packages, parts ", part);
	HW::in_child(c, 60, [&](HW::Out &) {
		auto f = GRANDOMFACTORY;
		std::atomic<std::size_t> taken{0}, empty{0};
		std::vector<std::vector<uint64_t>> got(nt);
		std::vector<std::thread> ts;
		std::size_t next = 0;
		for (; next < steps.size() && steps[next].when == 0; next++) f->setNProducerThreads((std::uint16_t)steps[next].prod);
		for (std::size_t t = 0; t < nt; t++) ts.emplace_back([&, t]() {
			while (taken < packages && empty < 1000) {
				auto p = f->getNewRandomContainer();
				if (!p) { empty++; continue; }
				std::size_t k = taken++, left = part && k % (part + 1) == 0 ? (k * 37) % 1000 : 1000000;
				uint32_t last = 0; bool have = false;
				for (; left > 0 && !p->empty(); left--) {
					uint32_t x = (uint32_t)p->next();
					if (have && last % 16 == 0) got[t].push_back(((uint64_t)last << 32) | x);
					last = x; have = true;
				}
				f->returnUsedPackage(std::move(p));
			}
		});
		for (; next < steps.size(); next++) {
			while (taken < steps[next].when && empty < 1000) std::this_thread::sleep_for(std::chrono::microseconds(50));
			f->setNProducerThreads((std::uint16_t)steps[next].prod);
		}
		for (auto &t: ts) t.join();
		CREQ(empty < 1000, "no packages were produced");
		std::vector<uint64_t> all;
		for (auto &g: got) all.insert(all.end(), g.begin(), g.end());
		std::sort(all.begin(), all.end());
		std::size_t dup = 0;
		for (std::size_t i = 1; i < all.size(); i++) dup += all[i] == all[i - 1];
		CREQ(dup == 0, dup, " of ", all.size(), " sampled pairs of successive numbers were delivered twice");
	});
	if (jump) c.nontrivial();
}

PROP("C08", random_streams, 200, 1500, 2, "2 to 8 threads each owning generators that are drawn from, copied, moved, assigned and destroyed while the number of producers is raised; no pair of consecutive numbers is ever delivered twice in the whole process, whoever draws; non-trivial: at least 3 threads") {
	std::size_t nt = c.size(2, 8), draws = c.size(500, c.thorough() ? 12000 : 5000);
	std::vector<uint64_t> seeds;
	for (std::size_t t = 0; t < nt; t++) seeds.push_back(c.raw(1u << 30));
	std::size_t prod = c.size(0, 5);
	c.note(nt, " threads, ", draws, " draws, producers ", prod);
	{ Windows &w = windows(); std::unique_lock<std::mutex> l(w.m); if (w.seen.size() > 6000000) w.seen.clear(); }
	std::vector<std::thread> ts;
	std::atomic<std::size_t> dup{0};
	for (std::size_t t = 0; t < nt; t++) ts.emplace_back([&, t]() {
		try {
			uint64_t s = seeds[t];
			std::vector<std::unique_ptr<gh::GRandomBase>> g;
			auto fresh = [&]() { if (splitmix(s) % 4) g.emplace_back(new Proxy()); else g.emplace_back(new Local()); };
			fresh();
			std::vector<std::pair<uint32_t, uint32_t>> got;
			std::size_t done = 0;
			while (done < draws) {
				std::size_t k = splitmix(s) % g.size();
				switch (splitmix(s) % 12) {
					case 0: if (g.size() < 4) fresh(); break;
					case 1: if (g.size() > 1) g.erase(g.begin() + (long)k); break;
					case 2: if (auto p = dynamic_cast<Proxy *>(g[k].get())) g.emplace_back(new Proxy(*p)); else g.emplace_back(new Local(*dynamic_cast<Local *>(g[k].get()))); break;
					case 3: if (auto p = dynamic_cast<Proxy *>(g[k].get())) g.emplace_back(new Proxy(std::move(*p))); else g.emplace_back(new Local(std::move(*dynamic_cast<Local *>(g[k].get())))); break;
					case 4: case 5: {
						std::size_t o = splitmix(s) % g.size(); if (o == k) break;
						auto *p = dynamic_cast<Proxy *>(g[k].get()); auto *q = dynamic_cast<Proxy *>(g[o].get());
						auto *a = dynamic_cast<Local *>(g[k].get()); auto *b = dynamic_cast<Local *>(g[o].get());
						bool mv = splitmix(s) % 2;
						if (p && q) { if (mv) *p = std::move(*q); else *p = *q; }
						if (a && b) { if (mv) *a = std::move(*b); else *a = *b; }
						break; }
					default: {
						std::size_t n = 2 + splitmix(s) % 700;
						uint32_t last = (uint32_t)(*g[k])();
						for (std::size_t i = 1; i < n; i++) { uint32_t x = (uint32_t)(*g[k])(); if (i % 2) got.push_back({last, x}); last = x; }
						done += n; }
				}
				if (g.size() > 5) g.erase(g.begin());
			}
			Windows &w = windows();
			std::unique_lock<std::mutex> l(w.m);
			for (auto &p: got) if (!w.add(p.first, p.second)) dup++;
		} catch (std::exception const &e) { c.async_fail("drawing failed: ", e.what()); }
	});
	if (prod) GRANDOMFACTORY->setNProducerThreads((std::uint16_t)prod);
	for (auto &t: ts) t.join();
	REQ(dup == 0, dup.load(), " pairs of consecutive numbers were delivered before");
	if (nt >= 3) c.nontrivial();
}

PROP("C08", random_packages, 200, 1500, 2, "2 to 6 threads take packages from the factory, use a random part of each and give it back; no package is held by two at a time, every package is complete and fresh: a number that was used is not delivered again at the same place; non-trivial: more than 100 packages") {
	std::size_t nt = c.size(2, 6), n = c.size(20, c.thorough() ? 200 : 80);
	std::vector<uint64_t> seeds;
	for (std::size_t t = 0; t < nt; t++) seeds.push_back(c.raw(1u << 30));
	c.note(nt, " threads, ", n, " packages each");
	std::mutex m;
	std::unordered_map<void *, int> held;
	std::unordered_map<void *, std::vector<uint32_t>> used; // what was used of the package last seen at this address
	std::atomic<std::size_t> stale{0}, empty{0};
	auto f = GRANDOMFACTORY;
	std::vector<std::thread> ts;
	for (std::size_t t = 0; t < nt; t++) ts.emplace_back([&, t]() {
		try {
			uint64_t s = seeds[t];
			std::vector<std::unique_ptr<gh::random_container>> mine;
			for (std::size_t i = 0; i < n; i++) {
				auto p = f->getNewRandomContainer();
				if (!p) { empty++; if (empty > 5000) { c.async_fail("the factory delivers nothing"); return; } i--; continue; }
				if (p->empty() || p->getCurrentPosition() != 0 || p->size() != f->getCurrentArraySize()) c.async_fail("a package is delivered partly used: position ", p->getCurrentPosition());
				std::size_t k;
				switch (splitmix(s) % 4) { case 0: k = p->size(); break; case 1: k = 1 + splitmix(s) % 3; break; default: k = splitmix(s) % (p->size() + 1); }
				void *a = p.get();
				std::vector<uint32_t> old;
				{ std::unique_lock<std::mutex> l(m); if (held[a]++ != 0) c.async_fail("a package is held by two users"); auto it = used.find(a); if (it != used.end()) { old = it->second; used.erase(it); } }
				std::vector<uint32_t> now;
				for (std::size_t q = 0; q < k; q++) { now.push_back((uint32_t)p->next()); if (q < old.size() && now[q] == old[q]) stale++; }
				if (p->getCurrentPosition() != k) c.async_fail("position ", p->getCurrentPosition(), " after ", k, " numbers");
				if (p->empty() != (k == p->size())) c.async_fail("empty() is wrong at position ", k);
				mine.push_back(std::move(p));
				if (splitmix(s) % 3 || mine.size() > 5) for (std::size_t z = 0; z < mine.size(); z++) {
					void *b = mine[z].get();
					{ std::unique_lock<std::mutex> l(m); held[b]--; if (b == a) used[b] = now; }
					f->returnUsedPackage(std::move(mine[z]));
					if (mine[z]) c.async_fail("a returned package stays with the user");
				}
				if (mine.empty() || !mine[0]) mine.clear();
			}
			std::unique_lock<std::mutex> l(m);
			for (auto &p: mine) held[p.get()]--;
			mine.clear();
		} catch (std::exception const &e) { c.async_fail("package use failed: ", e.what()); }
	});
	for (auto &t: ts) t.join();
	c.check_async();
	REQ(stale < 2, stale.load(), " used numbers were delivered again");
	if (nt * n > 100) c.nontrivial();
}

PROP("C08", random_seeds, 30, 200, 2, "seeds drawn by 1 to 6 threads, more than the factory holds prepared: about as many different ones as independent 32-bit numbers have; local generators made from them start differently") {
	std::size_t nt = c.size(1, 6), n = c.size(500, 4000);
	c.note(nt, " threads, ", n, " seeds each");
	std::vector<std::vector<gh::seed_type>> got(nt);
	std::vector<std::thread> ts;
	for (std::size_t t = 0; t < nt; t++) ts.emplace_back([&, t]() { for (std::size_t i = 0; i < n; i++) got[t].push_back(GRANDOMFACTORY->getSeed()); });
	for (auto &t: ts) t.join();
	std::map<gh::seed_type, int> h;
	std::size_t dup = 0;
	for (auto &g: got) for (auto s: g) if (h[s]++) dup++;
	REQ(dup <= 6, dup, " of ", nt * n, " seeds were handed out twice");
	std::vector<std::unique_ptr<Local>> ls;
	std::map<std::pair<uint64_t, uint64_t>, int> st;
	for (int i = 0; i < 200; i++) { ls.emplace_back(new Local()); uint64_t a = (*ls.back())(), b = (*ls.back())(); if (st[{a, b}]++) dup++; }
	REQ(dup <= 6, "local generators deliver the same numbers");
	c.nontrivial();
}
PBT_MAIN
