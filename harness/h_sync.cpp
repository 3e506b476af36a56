// C01: bounded buffer.  C02: thread pool.  C03: barrier.
#include "pbt.hpp"
#include <deque>
#include <future>
#include <set>
#include "common/GBoundedBufferT.hpp"
#include "common/GThreadPool.hpp"
#include "common/GBarrier.hpp"
#include "common/GThreadGroup.hpp"
using namespace pbt;
using Gem::Common::GBoundedBufferT;
typedef std::chrono::steady_clock clk;
static double secs(clk::duration d) { return std::chrono::duration<double>(d).count(); }
static const double STALL = 8.;

// an item that remembers whether it has been moved from
struct Item {
	int id = -1; bool full = false;
	Item() = default;
	explicit Item(int i) : id(i), full(true) {}
	Item(Item const &) = default;
	Item &operator=(Item const &) = default;
	Item(Item &&o) noexcept : id(o.id), full(o.full) { o.full = false; o.id = -2; }
	Item &operator=(Item &&o) noexcept { if (this != &o) { id = o.id; full = o.full; o.full = false; o.id = -2; } return *this; }
};

template<std::size_t CAP> static void model_case(Ctx &c) {
	GBoundedBufferT<Item, CAP> b;
	std::deque<int> m;
	int next = 0;
	std::size_t n = c.size(1, 60);
	bool was_full = false, was_empty_pop = false;
	unsigned bias = c.size(1, 4); // 1: mostly pops ... 4: mostly pushes
	for (std::size_t i = 0; i < n; i++) {
		bool push = c.raw(5) < bias;
		bool full = (CAP > 0 && m.size() >= CAP);
		std::chrono::duration<double> to = std::chrono::microseconds(c.pick({0, 500, 1500}));
		if (push) {
			int k = (int)c.range(0, 5);
			if (full && (k == 2 || k == 3)) k -= 2; // would block
			Item it(next);
			bool ok = true;
			switch (k) {
				case 0: ok = b.try_push_copy(it); break;
				case 1: ok = b.try_push_move(std::move(it)); break;
				case 2: b.push_and_block_copy(it); break;
				case 3: b.push_and_block_move(std::move(it)); break;
				case 4: ok = b.push_and_wait_copy(it, to); break;
				case 5: ok = b.push_and_wait_move(std::move(it), to); break;
			}
			c.note("push", k, "(", next, ")=", ok);
			REQ(ok == !full, "push variant ", k, " returned ", ok, " with ", m.size(), " items of capacity ", CAP);
			if (ok) { m.push_back(next); next++; }
			else { was_full = true; REQ(it.full && it.id == next, "a refused push consumed the item"); }
			if (ok && (k == 0 || k == 2 || k == 4)) REQ(it.full && it.id == next - 1, "a copying push changed its argument");
		} else {
			int k = (int)c.range(0, 5);
			if (m.empty() && (k == 2 || k == 3)) k -= 2;
			Item it(-7);
			bool ok = true;
			switch (k) {
				case 0: ok = b.try_pop_copy(it); break;
				case 1: ok = b.try_pop_move(it); break;
				case 2: b.pop_and_block_copy(it); break;
				case 3: b.pop_and_block_move(it); break;
				case 4: ok = b.pop_and_wait_copy(it, to); break;
				case 5: ok = b.pop_and_wait_move(it, to); break;
			}
			c.note("pop", k, "=", ok, ":", it.id);
			REQ(ok == !m.empty(), "pop variant ", k, " returned ", ok, " with ", m.size(), " items");
			if (ok) {
				REQ(it.full && it.id == m.front(), "popped ", it.id, " instead of ", m.front());
				m.pop_front();
			} else { was_empty_pop = true; REQ(it.full && it.id == -7, "a failed pop changed its target"); }
		}
		REQ(b.size() == m.size(), "size ", b.size(), " instead of ", m.size());
		REQ(b.empty() == m.empty(), "empty() is wrong with ", m.size());
		REQ(b.isNotEmpty() == !m.empty(), "isNotEmpty() is wrong with ", m.size());
		if (CAP > 0) REQ(b.getRemainingSpace() == CAP - m.size(), "remaining space ", b.getRemainingSpace(), " with ", m.size(), "/", CAP);
	}
	REQ(b.getCapacity() == CAP, "capacity");
	REQ(b.isBounded() == (CAP > 0), "isBounded");
	if ((was_full || CAP == 0) && was_empty_pop) c.nontrivial();
}

PROP("C01", buffer_model, 12000, 400000, 3, "sequence of up to 60 push/pop calls of all 12 variants on capacities 0 (unbounded),1,2,3,7,100 against std::deque; non-trivial: it met a full and an empty buffer") {
	switch (c.weighted({2, 3, 3, 2, 2, 1})) {
		case 0: c.note("cap1"); model_case<1>(c); break;
		case 1: c.note("cap2"); model_case<2>(c); break;
		case 2: c.note("cap3"); model_case<3>(c); break;
		case 3: c.note("cap7"); model_case<7>(c); break;
		case 4: c.note("cap0"); model_case<0>(c); break;
		default: c.note("cap100"); model_case<100>(c); break;
	}
}

// concurrent histories -------------------------------------------------------------------------
struct Ev { uint64_t t0, t1; };
template<std::size_t CAP> struct Hist {
	GBoundedBufferT<Item, CAP> b;
	std::vector<Ev> push, pop;
	std::vector<std::atomic<int>> got;
	std::vector<std::vector<int>> seen; // per consumer
	std::atomic<uint64_t> progress{0}, clock{0}, tickets{0};
	std::atomic<int> bad{0};
	std::atomic<long> accepted{0}, removed{0};
	std::atomic<bool> over{false};
	std::atomic<int> running{0};
	explicit Hist(int total, int nc) : push(total), pop(total), got(total), seen(nc) { for (auto &g: got) g = 0; }
};

template<std::size_t CAP> static void hist_case(Ctx &c) {
	int np = (int)c.range(1, 4), nc = (int)c.range(1, 4), per = (int)c.range(1, 40);
	int total = np * per;
	struct Plan { std::vector<int> kind; std::vector<int> pause; };
	// a "profile" restricts what a thread does, so that all mixes of blocking and non-blocking users occur
	auto plan = [&](int n) {
		Plan p;
		int profile = (int)c.range(0, 4); // 0 mixed 1 blocking 2 timed 3 try 4 long timed
		int slow = (int)c.weighted({3, 1, 1});
		for (int i = 0; i < n; i++) {
			int k = profile == 0 ? (int)c.range(0, 7) : (profile - 1) * 2 + (int)c.raw(2);
			p.kind.push_back(k);
			p.pause.push_back(slow == 0 ? 0 : (slow == 1 ? (int)c.range(0, 30) : (int)c.range(0, 300)));
		}
		c.note("profile", profile, " slow", slow);
		return p;
	};
	std::vector<Plan> pp, cp;
	for (int i = 0; i < np; i++) pp.push_back(plan(per));
	for (int i = 0; i < nc; i++) cp.push_back(plan(16));
	auto h = std::make_shared<Hist<CAP>>(total, nc);
	std::vector<std::thread> th;
	auto spin = [](int us) { if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); };
	h->running = np + nc;
	for (int i = 0; i < np; i++) th.emplace_back([h, i, per, &spin, plan = pp[i]]() {
		for (int k = 0; k < per; k++) {
			int id = i * per + k;
			if (plan.pause[k]) std::this_thread::sleep_for(std::chrono::microseconds(plan.pause[k]));
			h->push[id].t0 = h->clock++;
			bool ok = false;
			while (!ok && !h->over) {
				Item it(id);
				switch (plan.kind[k]) {
					case 0: h->b.push_and_block_copy(it); ok = true; break;
					case 1: h->b.push_and_block_move(std::move(it)); ok = true; break;
					case 2: ok = h->b.push_and_wait_copy(it, std::chrono::microseconds(1500)); break;
					case 3: ok = h->b.push_and_wait_move(std::move(it), std::chrono::microseconds(1500)); break;
					case 4: ok = h->b.try_push_copy(it); break;
					case 5: ok = h->b.try_push_move(std::move(it)); break;
					case 6: ok = h->b.push_and_wait_copy(it, std::chrono::seconds(100)); break;
					default: ok = h->b.push_and_wait_move(std::move(it), std::chrono::seconds(100)); break;
				}
				if (!ok) std::this_thread::yield();
			}
			h->push[id].t1 = h->clock++;
			h->accepted++;
			h->progress++;
		}
		h->running--;
	});
	for (int i = 0; i < nc; i++) th.emplace_back([h, i, total, plan = cp[i]]() {
		for (int k = 0;; k = (k + 1) % 16) {
			if (h->tickets++ >= (uint64_t)total) break;
			if (plan.pause[k]) std::this_thread::sleep_for(std::chrono::microseconds(plan.pause[k]));
			uint64_t t0 = h->clock++;
			bool ok = false;
			Item it(-1);
			while (!ok && !h->over) {
				switch (plan.kind[k]) {
					case 0: h->b.pop_and_block_copy(it); ok = true; break;
					case 1: h->b.pop_and_block_move(it); ok = true; break;
					case 2: ok = h->b.pop_and_wait_copy(it, std::chrono::microseconds(1500)); break;
					case 3: ok = h->b.pop_and_wait_move(it, std::chrono::microseconds(1500)); break;
					case 4: ok = h->b.try_pop_copy(it); break;
					case 5: ok = h->b.try_pop_move(it); break;
					case 6: ok = h->b.pop_and_wait_copy(it, std::chrono::seconds(100)); break;
					default: ok = h->b.pop_and_wait_move(it, std::chrono::seconds(100)); break;
				}
				if (!ok) std::this_thread::yield();
			}
			if (!ok) break;
			uint64_t t1 = h->clock++;
			if (!it.full || it.id < 0 || it.id >= total) { h->bad = 1; }
			else {
				if (h->got[it.id]++ == 0) { h->pop[it.id].t0 = t0; h->pop[it.id].t1 = t1; }
				h->seen[i].push_back(it.id);
			}
			h->removed++;
			h->progress++;
		}
		h->running--;
	});
	// watch: sizes never beyond the capacity, and progress
	uint64_t last = 0; auto tl = clk::now();
	bool stalled = false; std::size_t oversize = 0;
	while (h->running > 0) {
		std::size_t s = h->b.size();
		if (CAP > 0 && s > CAP) oversize = s;
		uint64_t p = h->progress;
		if (p != last) { last = p; tl = clk::now(); }
		else if (secs(clk::now() - tl) > STALL) { stalled = true; break; }
		std::this_thread::sleep_for(std::chrono::microseconds(50));
	}
	if (stalled) {
		std::size_t left = h->b.size();
		for (auto &t: th) t.detach();
		h->over = true;
		c.fail("no operation made progress for ", STALL, " s although every blocked operation has a partner: ", h->accepted, " of ", total, " pushed, ", h->removed, " popped, ", left, " in a buffer of capacity ", CAP);
	}
	for (auto &t: th) t.join();
	REQ(oversize == 0, "buffer of capacity ", CAP, " held ", oversize);
	REQ(!h->bad, "an item came out damaged");
	for (int i = 0; i < total; i++) REQ(h->got[i] == 1, "item ", i, " came out ", h->got[i], " times");
	REQ(h->b.empty() && h->b.size() == 0, "the buffer is not empty after all items were removed");
	for (auto &s: h->seen) {
		std::map<int, int> lastseq;
		for (int id: s) {
			int p = id / per;
			auto it = lastseq.find(p);
			REQ(it == lastseq.end() || it->second < id, "a consumer got item ", id, " of producer ", p, " after ", it->second);
			lastseq[p] = id;
		}
	}
	for (int a = 0; a < total; a++) for (int b2 = 0; b2 < total; b2++)
		if (h->push[a].t1 < h->push[b2].t0)
			REQ(!(h->pop[b2].t1 < h->pop[a].t0), "not first-in first-out: ", a, " was pushed before ", b2, " but popped after it");
	if (np + nc > 2 && total > 10) c.nontrivial();
	c.label("producers" + std::to_string(np));
	c.label("consumers" + std::to_string(nc));
}

PROP("C01", buffer_histories, 3000, 60000, 4, "1-4 producers and 1-4 consumers move up to 160 items through a buffer, each thread with its own mix of the 6 push or pop variants and pauses; oracle: exactly-once, real-time FIFO order, capacity, progress; non-trivial: at least 3 threads and 11 items") {
	switch (c.weighted({3, 3, 2, 1, 2})) {
		case 0: c.note("cap1"); hist_case<1>(c); break;
		case 1: c.note("cap2"); hist_case<2>(c); break;
		case 2: c.note("cap3"); hist_case<3>(c); break;
		case 3: c.note("cap20"); hist_case<20>(c); break;
		default: c.note("cap0"); hist_case<0>(c); break;
	}
}

// blocked operations wake up: n blocked threads, then m matching operations of any kind -----------
template<std::size_t CAP> static void wake_case(Ctx &c) {
	auto b = std::make_shared<GBoundedBufferT<Item, CAP>>();
	bool producers = CAP > 0 && c.flip();
	int n = (int)c.range(1, 4);
	int kind = (int)c.range(0, 3);
	std::vector<int> ops;
	for (int i = 0; i < n; i++) ops.push_back((int)c.range(0, 5));
	// the first operations may follow each other so quickly that nobody has come back in between
	int burst = c.flip() ? std::min(n, CAP > 0 ? (int)CAP : n) : 1;
	c.note(producers ? "blocked producers " : "blocked consumers ", n, " kind ", kind, " burst ", burst);
	if (burst > 1) c.label("burst");
	auto done = std::make_shared<std::atomic<int>>(0);
	auto started = std::make_shared<std::atomic<int>>(0);
	if (producers) for (std::size_t i = 0; i < CAP; i++) REQ(b->try_push_copy(Item(1000 + (int)i)), "fill");
	std::vector<std::thread> th;
	for (int i = 0; i < n; i++) th.emplace_back([b, done, started, producers, kind, i]() {
		Item it(i);
		(*started)++;
		bool ok = true;
		if (producers) switch (kind) {
			case 0: b->push_and_block_copy(it); break;
			case 1: b->push_and_block_move(std::move(it)); break;
			case 2: ok = b->push_and_wait_copy(it, std::chrono::seconds(60)); break;
			default: ok = b->push_and_wait_move(std::move(it), std::chrono::seconds(60)); break;
		} else switch (kind) {
			case 0: b->pop_and_block_copy(it); break;
			case 1: b->pop_and_block_move(it); break;
			case 2: ok = b->pop_and_wait_copy(it, std::chrono::seconds(60)); break;
			default: ok = b->pop_and_wait_move(it, std::chrono::seconds(60)); break;
		}
		if (ok) (*done)++;
	});
	while (*started < n) std::this_thread::yield();
	std::this_thread::sleep_for(std::chrono::microseconds(300));
	bool late = false;
	for (int i = 0; i < n; i++) {
		Item it(5000 + i);
		bool ok = true;
		auto to = std::chrono::seconds(5);
		// an operation of ours can find the item already taken by (or the place given to) nobody else
		if (producers) switch (ops[i]) {
			case 0: ok = b->try_pop_copy(it); break;
			case 1: ok = b->try_pop_move(it); break;
			case 2: b->pop_and_block_copy(it); break;
			case 3: b->pop_and_block_move(it); break;
			case 4: ok = b->pop_and_wait_copy(it, to); break;
			default: ok = b->pop_and_wait_move(it, to); break;
		} else switch (ops[i]) {
			case 0: ok = b->try_push_copy(it); break;
			case 1: ok = b->try_push_move(std::move(it)); break;
			case 2: b->push_and_block_copy(it); break;
			case 3: b->push_and_block_move(std::move(it)); break;
			case 4: ok = b->push_and_wait_copy(it, to); break;
			default: ok = b->push_and_wait_move(std::move(it), to); break;
		}
		REQ(ok || CAP > 0, "matching operation ", ops[i], " failed");
		if (!ok) { i--; std::this_thread::yield(); continue; } // for bounded buffers: wait for the partner
		if (i + 1 < burst) continue;
		auto t0 = clk::now();
		while (*done < i + 1 && secs(clk::now() - t0) < STALL) std::this_thread::sleep_for(std::chrono::microseconds(20));
		if (*done < i + 1) { late = true; break; }
	}
	if (late) {
		int d = *done;
		for (auto &t: th) t.detach();
		// free them, they must not outlive the case
		for (int i = 0; i < 64; i++) { Item it(1); if (producers) b->pop_and_wait_copy(it, std::chrono::milliseconds(2)); else b->push_and_wait_copy(it, std::chrono::milliseconds(2)); }
		c.fail("a blocked ", producers ? "producer" : "consumer", " was not woken by operation ", ops[d], " although it could proceed");
	}
	for (auto &t: th) t.join();
	c.nontrivial();
}
PROP("C01", buffer_wakeups, 4000, 60000, 3, "1-4 threads block on a full or empty buffer, then as many matching operations of any variant release them one by one or several at once; every case is non-trivial") {
	switch (c.raw(4)) {
		case 0: wake_case<1>(c); break;
		case 1: wake_case<2>(c); break;
		case 2: wake_case<5>(c); break;
		default: wake_case<0>(c); break;
	}
}

// ---- C02: thread pool ----------------------------------------------------------------------
struct JobErr : std::runtime_error { using std::runtime_error::runtime_error; };
struct BoostErr : virtual boost::exception, virtual std::exception { int v; explicit BoostErr(int x) : v(x) {} };
struct PoolState {
	std::vector<std::atomic<int>> started, finished;
	std::atomic<int> in_flight{0}, max_in_flight{0}, n_started{0};
	explicit PoolState(int n) : started(n), finished(n) { for (auto &x: started) x = 0; for (auto &x: finished) x = 0; }
	void enter(int id) { int v = ++in_flight; int m = max_in_flight; while (v > m && !max_in_flight.compare_exchange_weak(m, v)) {} started[id]++; n_started++; }
	void leave(int id) { finished[id]++; in_flight--; }
};
struct JobFut { int id, kind; std::future<int> fi; std::future<void> fv; std::future<std::string> fs; };
static int job_int(std::shared_ptr<PoolState> s, int id, int us) { s->enter(id); if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); s->leave(id); return id * 7 + 1; }
static std::string job_str(std::shared_ptr<PoolState> s, int id, std::string a, int us) { s->enter(id); if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); s->leave(id); return a + std::to_string(id); }
static JobFut sched(Gem::Common::GThreadPool &p, std::shared_ptr<PoolState> s, int id, int kind, int us) {
	JobFut f; f.id = id; f.kind = kind;
	switch (kind) {
		case 0: f.fi = p.async_schedule([s, id, us]() { return job_int(s, id, us); }); break;
		case 1: f.fv = p.async_schedule([s, id, us]() { s->enter(id); if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); s->leave(id); }); break;
		case 2: f.fs = p.async_schedule([s, id, us]() { return job_str(s, id, "x", us); }); break;
		case 3: f.fi = p.async_schedule([s, id, us]() -> int { s->enter(id); if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); s->leave(id); throw JobErr("job" + std::to_string(id)); }); break;
		case 4: f.fv = p.async_schedule([s, id, us]() { s->enter(id); if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); s->leave(id); throw JobErr("job" + std::to_string(id)); }); break;
		case 5: f.fi = p.async_schedule([s, id]() -> int { s->enter(id); s->leave(id); throw 4711; }); break;
		case 6: f.fv = p.async_schedule([s, id]() { s->enter(id); s->leave(id); throw BoostErr(id); }); break;
		default: { std::function<int()> l = [s, id]() -> int { s->enter(id); s->leave(id); return id + 3; }; f.fi = p.async_schedule(l); }
	}
	return f;
}
// "" or what is wrong.  Every future has to be ready within the stall time.
static std::string settle(JobFut &f) {
	auto d = std::chrono::milliseconds((int)(STALL * 1000));
	std::ostringstream o;
	o << "job " << f.id << " of kind " << f.kind << ": ";
	try {
		switch (f.kind) {
			case 0: if (f.fi.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } { int v = f.fi.get(); if (v != f.id * 7 + 1) { o << "result " << v; return o.str(); } } break;
			case 1: if (f.fv.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } f.fv.get(); break;
			case 2: if (f.fs.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } { auto v = f.fs.get(); if (v != "x" + std::to_string(f.id)) { o << "result " << v; return o.str(); } } break;
			case 3: if (f.fi.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } f.fi.get(); o << "exception lost"; return o.str();
			case 4: case 6: if (f.fv.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } f.fv.get(); o << "exception lost"; return o.str();
			case 5: if (f.fi.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } f.fi.get(); o << "exception lost"; return o.str();
			default: if (f.fi.wait_for(d) != std::future_status::ready) { o << "future never ready"; return o.str(); } { int v = f.fi.get(); if (v != f.id + 3) { o << "result " << v; return o.str(); } }
		}
	} catch (JobErr const &e) {
		if ((f.kind == 3 || f.kind == 4) && std::string(e.what()) == "job" + std::to_string(f.id)) return "";
		o << "exception " << e.what(); return o.str();
	} catch (int v) {
		if (f.kind == 5 && v == 4711) return "";
		o << "int exception " << v; return o.str();
	} catch (std::future_error const &e) { o << "future error " << e.what(); return o.str(); }
	catch (std::exception const &e) { // a boost exception is converted to a std::runtime_error
		if (f.kind == 6) return "";
		o << "exception " << e.what(); return o.str();
	} catch (...) { o << "unknown exception"; return o.str(); }
	return "";
}
// resets the pool in another thread, so that a destructor that hangs can be reported
static bool destroy(std::shared_ptr<Gem::Common::GThreadPool> &p, double limit) {
	auto done = std::make_shared<std::atomic<bool>>(false);
	std::thread t([p = std::move(p), done]() mutable { p.reset(); *done = true; });
	p.reset();
	auto t0 = clk::now();
	while (!*done && secs(clk::now() - t0) < limit) std::this_thread::sleep_for(std::chrono::microseconds(30));
	if (*done) { t.join(); return true; }
	t.detach();
	return false;
}

PROP("C02", pool_sequences, 20000, 300000, 4, "up to 40 steps of schedule (8 kinds of jobs: values, void, throwing), wait, setNThreads, get on one pool of 1-6 threads; non-trivial: a thread count change with jobs in flight or between jobs") {
	unsigned n0 = (unsigned)c.range(1, 6);
	int steps = (int)c.range(1, 40);
	auto s = std::make_shared<PoolState>(steps + 1);
	auto pool = std::make_shared<Gem::Common::GThreadPool>(n0);
	c.note("pool", n0);
	std::vector<JobFut> fut;
	int id = 0; unsigned nmax = n0, ncur = n0; bool started = false, resized = false;
	for (int i = 0; i < steps; i++) {
		switch (c.weighted({8, 2, 2, 1})) {
			case 0: { int k = (int)c.range(0, 7), us = c.pick({0, 0, 100, 400}); c.note("job", id, " kind ", k); fut.push_back(sched(*pool, s, id, k, us)); id++; started = true; } break;
			case 1: c.note("wait"); pool->wait();
				for (int k = 0; k < id; k++) REQ(s->finished[k] == 1, "wait() returned but job ", k, " ran ", s->finished[k], " times");
				break;
			case 2: { unsigned n = (unsigned)c.range(1, 6); c.note("threads", n); pool->setNThreads(n); nmax = std::max(nmax, n); ncur = n; if (started) { resized = true; REQ(pool->getNThreads() == n, "getNThreads ", pool->getNThreads(), " after setting ", n); } } break;
			default: if (!fut.empty()) { std::string e = settle(fut.back()); REQ(e.empty(), e); fut.pop_back(); }
		}
		if (started) REQ(pool->getNThreads() == ncur, "the pool has ", pool->getNThreads(), " threads instead of ", ncur);
	}
	bool by_destructor = c.flip();
	if (by_destructor) {
		REQ(destroy(pool, STALL), "the destructor does not return");
		for (int k = 0; k < id; k++) REQ(s->finished[k] == 1, "the pool was destroyed but job ", k, " ran ", s->finished[k], " times");
	}
	for (auto &f: fut) { std::string e = settle(f); REQ(e.empty(), e); }
	if (pool) { pool->wait(); REQ(destroy(pool, STALL), "the destructor does not return"); }
	for (int k = 0; k < id; k++) REQ(s->finished[k] == 1 && s->started[k] == 1, "job ", k, " ran ", s->started[k], " times");
	REQ(s->max_in_flight <= (int)nmax, s->max_in_flight, " jobs ran at the same time in a pool of at most ", nmax);
	if (resized && id > 3) c.nontrivial();
}

PROP("C02", pool_concurrent, 4000, 60000, 4, "1-4 threads schedule up to 30 jobs each while others call wait() and setNThreads(); non-trivial: at least two callers and a resize") {
	int nt = (int)c.range(1, 4), per = (int)c.range(1, 30), nr = (int)c.range(0, 6), nw = (int)c.range(0, 6);
	unsigned n0 = (unsigned)c.range(1, 5);
	std::vector<unsigned> sizes; for (int i = 0; i < nr; i++) sizes.push_back((unsigned)c.range(1, 6));
	std::vector<int> kinds, us; for (int i = 0; i < nt * per; i++) { kinds.push_back((int)c.range(0, 7)); us.push_back(c.pick({0, 0, 50, 200})); }
	c.note("pool", n0, " callers ", nt, " jobs ", per, " resizes ", nr, " waits ", nw);
	auto s = std::make_shared<PoolState>(nt * per);
	auto pool = std::make_shared<Gem::Common::GThreadPool>(n0);
	auto over = std::make_shared<std::atomic<int>>(0);
	auto futs = std::make_shared<std::vector<std::vector<JobFut>>>(nt);
	std::vector<std::thread> th;
	for (int t = 0; t < nt; t++) th.emplace_back([=]() {
		for (int i = 0; i < per; i++) (*futs)[t].push_back(sched(*pool, s, t * per + i, kinds[t * per + i], us[t * per + i]));
		(*over)++;
	});
	th.emplace_back([=]() { for (unsigned n: sizes) { pool->setNThreads(n); std::this_thread::sleep_for(std::chrono::microseconds(80)); } (*over)++; });
	auto early = std::make_shared<std::atomic<int>>(0);
	th.emplace_back([=]() { for (int i = 0; i < nw; i++) { int before = 0; (void)before; pool->wait(); std::this_thread::sleep_for(std::chrono::microseconds(60)); } (*over)++; });
	auto t0 = clk::now();
	while (*over < nt + 2 && secs(clk::now() - t0) < 2 * STALL) std::this_thread::sleep_for(std::chrono::microseconds(50));
	if (*over < nt + 2) { for (auto &t: th) t.detach(); c.fail("scheduling, waiting and resizing threads are stuck; ", s->n_started, " jobs were started"); }
	for (auto &t: th) t.join();
	for (auto &v: *futs) for (auto &f: v) { std::string e = settle(f); REQ(e.empty(), e); }
	pool->wait();
	REQ(destroy(pool, STALL), "the destructor does not return");
	for (int k = 0; k < nt * per; k++) REQ(s->finished[k] == 1 && s->started[k] == 1, "job ", k, " ran ", s->started[k], " times");
	if (nt > 1 && nr > 0) c.nontrivial();
}

PROP("C02", thread_group, 6000, 60000, 2, "a thread group of 0-12 threads made by single, multiple and adopted creation; oracle: every function runs once, size is exact, join_all returns only after the end of all; non-trivial: more than one way of creation") {
	Gem::Common::GThreadGroup g;
	int n = (int)c.range(0, 6), total = 0; std::set<int> ways;
	auto cnt = std::make_shared<std::atomic<int>>(0);
	for (int i = 0; i < n; i++) {
		int w = (int)c.range(0, 2), us = (int)c.range(0, 300); ways.insert(w);
		auto f = [cnt, us]() { std::this_thread::sleep_for(std::chrono::microseconds(us)); (*cnt)++; };
		if (w == 0) { g.create_thread(f); total++; }
		else if (w == 1) { std::size_t k = c.size(0, 3); g.create_threads(f, k); total += (int)k; }
		else { g.add_thread(std::make_shared<std::thread>(f)); total++; }
		REQ((int)g.size() == total, "group of ", total, " threads reports ", g.size());
	}
	g.join_all();
	REQ(*cnt == total, "join_all returned after ", *cnt, " of ", total, " threads");
	c.note(n, " calls ", total, " threads");
	if (ways.size() > 1) c.nontrivial();
}

// ---- C03: barrier --------------------------------------------------------------------------
PROP("C03", barrier_rounds, 20000, 200000, 4, "1-6 threads pass a barrier 1-12 times with random delays; oracle: nobody enters round r+1 before all finished round r, exactly one caller per round is told it completed the barrier; non-trivial: at least 2 threads and 2 rounds") {
	int n = (int)c.range(1, 6), rounds = (int)c.range(1, 12);
	std::vector<int> us; for (int i = 0; i < n * rounds; i++) us.push_back(c.weighted({2, 1, 1}) == 0 ? 0 : (int)c.range(0, 200));
	struct St { Gem::Common::GBarrier b; std::vector<std::atomic<int>> at, leaders; std::atomic<int> bad{0}, done{0}; St(int n, int r) : b(n), at(r), leaders(r) { for (auto &x: at) x = 0; for (auto &x: leaders) x = 0; } };
	auto s = std::make_shared<St>(n, rounds);
	std::vector<std::thread> th;
	for (int t = 0; t < n; t++) th.emplace_back([=]() {
		for (int r = 0; r < rounds; r++) {
			if (us[t * rounds + r]) std::this_thread::sleep_for(std::chrono::microseconds(us[t * rounds + r]));
			s->at[r]++;
			if (s->b.wait()) s->leaders[r]++;
			if (s->at[r] != n) s->bad = r + 1;
		}
		s->done++;
	});
	auto t0 = clk::now();
	while (s->done < n && secs(clk::now() - t0) < STALL) std::this_thread::sleep_for(std::chrono::microseconds(30));
	c.note(n, " threads ", rounds, " rounds");
	if (s->done < n) { for (auto &t: th) t.detach(); c.fail("the threads of the barrier are stuck"); }
	for (auto &t: th) t.join();
	REQ(s->bad == 0, "a thread left round ", s->bad - 1, " before all ", n, " threads had arrived");
	for (int r = 0; r < rounds; r++) REQ(s->leaders[r] == 1, "round ", r, " had ", s->leaders[r], " completing callers");
	if (n > 1 && rounds > 1) c.nontrivial();
}
PROP("C03", barrier_blocks, 3000, 30000, 2, "n-1 of n threads arrive and must still be blocked after a pause; then the last one arrives and all are released; non-trivial: n > 2") {
	int n = (int)c.range(2, 6);
	struct St { Gem::Common::GBarrier b; std::atomic<int> in{0}, out{0}; St(int n) : b(n) {} };
	auto s = std::make_shared<St>(n);
	std::vector<std::thread> th;
	for (int t = 0; t < n - 1; t++) th.emplace_back([=]() { s->in++; s->b.wait(); s->out++; });
	while (s->in < n - 1) std::this_thread::yield();
	std::this_thread::sleep_for(std::chrono::microseconds(c.range(100, 3000)));
	int early = s->out;
	th.emplace_back([=]() { s->in++; s->b.wait(); s->out++; });
	auto t0 = clk::now();
	while (s->out < n && secs(clk::now() - t0) < STALL) std::this_thread::sleep_for(std::chrono::microseconds(30));
	c.note(n, " threads");
	if (s->out < n) { int o = s->out; for (auto &t: th) t.detach(); c.fail("only ", o, " of ", n, " threads were released"); }
	for (auto &t: th) t.join();
	REQ(early == 0, early, " threads were released with one of ", n, " missing");
	if (n > 2) c.nontrivial();
}
PROP("C03", barrier_zero, 20, 20, 1, "a barrier for 0 threads is refused; every case is non-trivial") {
	bool threw = false;
	try { Gem::Common::GBarrier b(0); } catch (gemfony_exception const &) { threw = true; }
	REQ(threw, "a barrier for 0 threads was accepted");
	(void)c.range(0, 100); c.nontrivial(); c.note("count 0");
}
PBT_MAIN
