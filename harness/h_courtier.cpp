// C18, C19, C20: evaluation of batches of work items through executors, broker and consumers.
#include "hwork.hpp"
#include "courtier/GExecutorT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GSerialConsumerT.hpp"
#include "courtier/GStdThreadConsumerT.hpp"
#include <set>
BOOST_CLASS_EXPORT_IMPLEMENT(HW::HWork)

#ifdef H_RELEASE
#define RN(N) N##_release
#else
#define RN(N) N
#endif

using namespace HW;
using Gem::Courtier::processingStatus;
using Ptr = std::shared_ptr<HWork>;
using Exec = Gem::Courtier::GBaseExecutorT<HWork>;
using BExec = Gem::Courtier::GBrokerExecutorT<HWork>;

namespace {

struct ItemPlan { int due = 0; /* 0 due 1 ignored 2 already processed */ int mode = 0; int sleep_us = 0; std::vector<double> payload; };
struct BatchPlan { std::vector<ItemPlan> items; bool resubmit = false; int ext = -1; bool reuse = false; bool reinit = false; };

ItemPlan gen_item(pbt::Ctx &c, int max_sleep, bool all_due) {
	ItemPlan p;
	p.due = all_due ? 0 : (int)c.weighted({7, 1, 1});
	p.mode = (int)c.weighted({8, 1, 1, 1, 1});
	if (max_sleep > 0 && c.flip()) p.sleep_us = (int)c.range(0, max_sleep);
	std::size_t n = c.size(0, 3);
	for (std::size_t i = 0; i < n; i++) p.payload.push_back(c.nice_double());
	return p;
}
std::string show(ItemPlan const &p) {
	std::string r(1, "WIP"[p.due]);
	if (p.mode) r += "!" + std::to_string(p.mode);
	if (p.sleep_us) r += "~" + std::to_string(p.sleep_us);
	return r;
}
std::string show(BatchPlan const &b) {
	std::string r = "[";
	if (b.items.size() > 60) r += std::to_string(b.items.size()) + " items: ";
	for (std::size_t i = 0; i < std::min<std::size_t>(b.items.size(), 60); i++) r += show(b.items[i]) + " ";
	r += "]";
	if (b.resubmit) r += "R";
	if (b.ext >= 0) r += "+" + std::to_string(b.ext);
	if (b.reuse) r += "(same items)";
	if (b.reinit) r += "(re-init before)";
	return r;
}

std::atomic<int> next_uid{1};
Ptr make_item(ItemPlan const &p, int owner, int batch) {
	Ptr w(new HWork());
	w->uid = next_uid++;
	w->owner = owner; w->batch = batch; w->mode = p.mode; w->sleep_us = p.sleep_us; w->payload = p.payload;
	return w;
}
// puts an item into the planned state before submission
void prepare(Ptr w, ItemPlan const &p) {
	if (p.due == 0) w->mark(processingStatus::DO_PROCESS);
	else if (p.due == 1) w->mark(processingStatus::DO_IGNORE);
	else w->markAsProcessedWith({-12345. - w->uid});
}
std::string status_of(Ptr w) { return w->getProcessingStatusAsStr(); }

// what has to be true of a batch that came back completely
void check_full(std::vector<Ptr> const &items, BatchPlan const &b, std::vector<HWork *> const &orig, std::vector<int> const &uids,
	std::vector<int> const &count0, Gem::Courtier::executor_status_t st, Exec &ex, int owner, int batch, bool same_objects) {
	CREQ(items.size() == b.items.size(), "the number of items of the batch changed");
	std::size_t due = 0, err = 0;
	for (std::size_t i = 0; i < items.size(); i++) {
		ItemPlan const &p = b.items[i];
		Ptr w = items[i];
		CREQ(w, "owner ", owner, " batch ", batch, " position ", i, ": no item");
		CREQ(w->uid == uids[i] && w->owner == owner, "owner ", owner, " batch ", batch, " position ", i, " holds item ", w->uid, " of owner ", w->owner, " instead of ", uids[i]);
		if (same_objects) CREQ(w.get() == orig[i], "owner ", owner, " batch ", batch, " position ", i, ": another object came back");
		int n = cnt()[w->uid] - count0[i];
		if (p.due == 1) {
			CREQ(n == 0 && w->is_ignored(), "ignored item ", i, " was evaluated ", n, " times, status ", status_of(w));
		} else if (p.due == 2) {
			CREQ(n == 0 && w->is_processed() && w->getStoredResult() == -12345. - w->uid, "processed item ", i, " was evaluated ", n, " times, status ", status_of(w));
		} else {
			due++;
			CREQ(n == 1, "owner ", owner, " batch ", batch, " item ", i, " was evaluated ", n, " times");
			if (p.mode == OK) {
				CREQ(w->is_processed(), "batch ", batch, " item ", i, " has status ", status_of(w));
				CREQ(w->getStoredResult() == w->expected(), "batch ", batch, " item ", i, " has result ", w->getStoredResult(), " instead of ", w->expected());
			} else {
				err++;
				CREQ(w->has_errors(), "failing item ", i, " of batch ", batch, " has status ", status_of(w));
				CREQ(w->error_flagged_by_user() == (p.mode == FLAG), "failing item ", i, " (mode ", p.mode, ") has status ", status_of(w));
				std::string d = w->getStoredErrorDescriptions();
				CREQ(!d.empty(), "failing item ", i, " has no error description");
				if (p.mode != THROW_ODD) CREQ(d.find("item " + std::to_string(w->uid) + " failed") != std::string::npos, "the error description of item ", w->uid, " is: ", d.substr(0, 200));
				bool threw = false;
				try { w->getStoredResult(); } catch (...) { threw = true; }
				CREQ(threw, "a result is available for failed item ", i);
			}
		}
	}
	CREQ(st.is_complete, "owner ", owner, " batch ", batch, " is reported as incomplete");
	CREQ(st.has_errors == (err > 0), "batch ", batch, ": has_errors=", st.has_errors, " with ", err, " failed items");
	CREQ(ex.getNReturnedLast() == due, "batch ", batch, ": getNReturnedLast()=", ex.getNReturnedLast(), " with ", due, " items due");
	CREQ(ex.getNNotReturnedLast() == 0, "batch ", batch, ": getNNotReturnedLast()=", ex.getNNotReturnedLast());
	CREQ(ex.getNErroneousWorkItems() == err, "batch ", batch, ": getNErroneousWorkItems()=", ex.getNErroneousWorkItems(), " with ", err, " failed items");
	CREQ(ex.getNOldWorkItems() == 0 && ex.getOldWorkItems().empty(), "batch ", batch, ": old work items are reported");
	CREQ(clashes() == 0, "an item was evaluated by two workers at the same time");
}

// runs one sequence of batches on an executor
void run_batches(Exec &ex, std::vector<BatchPlan> const &batches, int owner, bool same_objects) {
	ex.init();
	std::vector<Ptr> items;
	std::size_t iter = 0;
	for (std::size_t bi = 0; bi < batches.size(); bi++) {
		BatchPlan const &b = batches[bi];
		if (b.reinit) { ex.finalize(); ex.init(); }
		if (!b.reuse || items.size() != b.items.size()) {
			items.clear();
			for (auto const &p: b.items) items.push_back(make_item(p, owner, (int)bi));
		} else {
			for (std::size_t i = 0; i < items.size(); i++) { items[i]->mode = b.items[i].mode; items[i]->sleep_us = b.items[i].sleep_us; items[i]->payload = b.items[i].payload; items[i]->batch = (int)bi; }
		}
		std::vector<HWork *> orig; std::vector<int> uids, c0;
		for (std::size_t i = 0; i < items.size(); i++) {
			prepare(items[i], b.items[i]);
			orig.push_back(items[i].get()); uids.push_back(items[i]->uid); c0.push_back(cnt()[items[i]->uid]);
		}
		std::tuple<Gem::Courtier::ITERATION_COUNTER_TYPE, bool> ext{0, false};
		if (b.ext >= 0) { iter += (std::size_t)b.ext; ext = std::make_tuple(Gem::Courtier::ITERATION_COUNTER_TYPE(iter), true); }
		auto st = ex.workOn(items, b.resubmit, ext);
		iter++;
		check_full(items, b, orig, uids, c0, st, ex, owner, (int)bi, same_objects);
	}
	ex.finalize();
}

std::vector<BatchPlan> gen_batches(pbt::Ctx &c, std::size_t maxb, std::size_t maxn, int max_sleep) {
	std::vector<BatchPlan> r;
	std::size_t nb = c.size(1, maxb);
	for (std::size_t i = 0; i < nb; i++) {
		BatchPlan b;
		b.reuse = i > 0 && c.chance(1, 3);
		std::size_t n = b.reuse ? r.back().items.size() : c.size(0, maxn);
		bool none_due = c.chance(1, 12);
		for (std::size_t k = 0; k < n; k++) {
			b.items.push_back(gen_item(c, max_sleep, false));
			if (none_due && b.items.back().due == 0) b.items.back().due = 1 + (int)(k % 2);
		}
		b.resubmit = c.flip();
		if (c.chance(1, 4)) b.ext = (int)c.range(0, 3);
		b.reinit = i > 0 && c.chance(1, 8);
		r.push_back(b);
	}
	return r;
}

enum Cons { STC = 0, SC = 1, BOTH = 2 };
void enrol(int kind, std::size_t nthreads) {
	auto broker = GBROKER(HWork);
	std::vector<std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>>> v;
	if (kind != SC) v.push_back(std::make_shared<Gem::Courtier::GStdThreadConsumerT<HWork>>(nthreads));
	if (kind != STC) v.push_back(std::make_shared<Gem::Courtier::GSerialConsumerT<HWork>>());
	if (v.size() == 1) broker->enrol_consumer(v[0]); else broker->enrol_consumer_vec(v);
}

} // namespace

#ifdef H_RELEASE
#define QN(A, B) B
#else
#define QN(A, B) A
#endif
PROP("C18", RN(batches), QN(320, 160), 4000, 8, "one executor path (serial, thread pool, broker with threaded, serial or both consumers), 1-5 batches of 0-12 items each with a mix of due, ignored, processed, slow and failing items, items re-used or new, with resubmission, external iteration numbers and re-initialisation; non-trivial: two or more batches or a failing or not-due item") {
	int path = (int)c.weighted({2, 3, 3, 1, 1});
	std::size_t nthreads = c.size(1, 6);
	auto batches = gen_batches(c, c.thorough() ? 8 : 5, 12, 1500);
	bool shut = c.flip();
	bool nt = batches.size() > 1;
	std::string d;
	for (auto &b: batches) { d += show(b) + " "; for (auto &p: b.items) if (p.due || p.mode) nt = true; }
	c.note("path ", path, " threads ", nthreads, " ", d);
	c.label("path-" + std::to_string(path));
	if (nt) c.nontrivial();
	in_child(c, 20, [&](Out &o) {
		if (path == 0) { Gem::Courtier::GSerialExecutorT<HWork> ex; run_batches(ex, batches, 0, true); }
		else if (path == 1) { Gem::Courtier::GMTExecutorT<HWork> ex((std::uint16_t)nthreads); run_batches(ex, batches, 0, true); }
		else {
			enrol(path - 2, nthreads);
			{ BExec ex; run_batches(ex, batches, 0, true); }
			if (shut) { GBROKER(HWork)->finalize(); o.label("consumers shut down"); }
		}
	});
}

PROP("C18", RN(large_batch), QN(60, 16), 600, 4, "a batch larger than the broker's buffers (up to 5000 items) through one path; every case is non-trivial") {
	int path = (int)c.weighted({1, 2, 4, 1});
	std::size_t nthreads = c.size(1, 8);
	BatchPlan b;
	std::size_t n = c.pick<std::size_t>({1001, 999, 1000, 2500, 5000});
	for (std::size_t k = 0; k < n; k++) { ItemPlan p; p.payload.push_back((double)k); b.items.push_back(p); }
	std::size_t nerr = c.size(0, 5), nign = c.size(0, 5);
	for (std::size_t k = 0; k < nerr; k++) b.items[c.raw(n)].mode = (int)c.range(1, 3);
	for (std::size_t k = 0; k < nign; k++) b.items[c.raw(n)].due = (int)c.range(1, 2);
	c.note("path ", path, " threads ", nthreads, " items ", n, " failing ", nerr, " not due ", nign);
	c.nontrivial();
	in_child(c, 40, [&](Out &) {
		std::vector<BatchPlan> bs{b, b};
		bs[1].reuse = true;
		if (path == 0) { Gem::Courtier::GSerialExecutorT<HWork> ex; run_batches(ex, bs, 0, true); }
		else if (path == 1) { Gem::Courtier::GMTExecutorT<HWork> ex((std::uint16_t)nthreads); run_batches(ex, bs, 0, true); }
		else { enrol(path - 2, nthreads); BExec ex; run_batches(ex, bs, 0, true); }
	});
}

// ---------------------------------------------------------------------------------------------
namespace {
struct Submitter { int start_us = 0; int kind = 0; /* 0 regular, 1 leaves work behind */ std::vector<BatchPlan> batches; int left = 0; int left_sleep = 0; int pause_us = 0; };
}

PROP("C19", RN(submitters), QN(160, 40), 2000, 8, "1-4 submitters with their own batches on one broker with 1-6 worker threads, staggered starts, pauses and re-connections, and submitters that disconnect leaving 0-6 unfinished items behind; non-trivial: at least two submitters") {
	int kind = (int)c.weighted({3, 1, 1});
	std::size_t nthreads = c.size(1, 6);
	std::size_t ns = c.size(1, 4);
	std::vector<Submitter> subs;
	std::string d;
	bool leaver = false;
	for (std::size_t i = 0; i < ns; i++) {
		Submitter s;
		s.start_us = (int)c.range(0, 20000);
		s.kind = (int)c.weighted({2, 1});
		if (s.kind == 0) { s.batches = gen_batches(c, 3, 6, 2000); }
		else { s.left = (int)c.range(0, 6); s.left_sleep = (int)c.range(0, 30000); s.pause_us = (int)c.range(0, 20000); leaver = true; }
		d += "{start " + std::to_string(s.start_us) + (s.kind ? " leaves " + std::to_string(s.left) + " after " + std::to_string(s.pause_us) + " item time " + std::to_string(s.left_sleep) : "");
		for (auto &b: s.batches) d += " " + show(b);
		d += "} ";
		subs.push_back(s);
	}
	int late = (int)c.range(0, 60000); // a submitter that arrives after the others have gone
	auto lastb = gen_batches(c, 2, 6, 500);
	c.note("consumer ", kind, " threads ", nthreads, " ", d);
	if (ns > 1) c.nontrivial();
	if (leaver) c.label("with a submitter that leaves work behind");
	in_child(c, 40, [&](Out &) {
		enrol(kind, nthreads);
		std::mutex m; std::string first;
		auto guard = [&](std::function<void()> f) {
			std::string e;
			try { f(); } catch (ChildFail const &x) { e = x.msg; } catch (std::exception const &x) { e = std::string("exception: ") + x.what(); }
			if (!e.empty()) { std::unique_lock<std::mutex> lk(m); if (first.empty()) first = e; }
		};
		std::vector<std::thread> th;
		for (std::size_t i = 0; i < subs.size(); i++) th.emplace_back([&, i]() {
			Submitter const &s = subs[i];
			std::this_thread::sleep_for(std::chrono::microseconds(s.start_us));
			if (s.kind == 0) { guard([&]() { BExec ex; run_batches(ex, s.batches, (int)i + 1, true); }); }
			else guard([&]() {
				auto port = std::make_shared<Gem::Courtier::GBufferPortT<HWork>>();
				GBROKER(HWork)->enrol_buffer_port(port);
				for (int k = 0; k < s.left; k++) {
					ItemPlan p; p.sleep_us = s.left_sleep;
					Ptr w = make_item(p, 100 + (int)i, 0);
					w->mark(processingStatus::DO_PROCESS);
					w->setBufferId(port->getUniqueTag());
					port->push_raw(w);
				}
				std::this_thread::sleep_for(std::chrono::microseconds(s.pause_us));
				port->producer_disconnect();
			});
		});
		// somebody who comes late makes the broker drop the ports of those who have gone
		std::this_thread::sleep_for(std::chrono::microseconds(late));
		guard([&]() { BExec ex; run_batches(ex, lastb, 0, true); });
		for (auto &t: th) t.join();
		CREQ(first.empty(), first);
		guard([&]() { BExec ex; run_batches(ex, lastb, 50, true); });
		CREQ(first.empty(), first);
		CREQ(clashes() == 0, "an item was evaluated by two workers at the same time");
		GBROKER(HWork)->finalize();
	});
}


PROP("C19", RN(churn), QN(64, 16), 1000, 8, "2-6 threads that each connect to and disconnect from the broker many times, with or without an item of work in between, while a submitter works on batches; every case is non-trivial") {
	std::size_t nthreads = c.size(1, 4), nchurn = c.size(2, 6);
	std::vector<int> rounds, work;
	for (std::size_t i = 0; i < nchurn; i++) { rounds.push_back((int)c.range(1, 300)); work.push_back((int)c.weighted({3, 1})); }
	auto batches = gen_batches(c, 2, 4, 200);
	std::string d;
	for (auto &b: batches) d += show(b) + " ";
	for (std::size_t i = 0; i < nchurn; i++) d += (work[i] ? "w" : "") + std::to_string(rounds[i]) + " ";
	c.note("threads ", nthreads, " ", d);
	c.nontrivial();
	in_child(c, 40, [&](Out &) {
		enrol(STC, nthreads);
		std::mutex m; std::string first;
		auto guard = [&](std::function<void()> f) {
			std::string e;
			try { f(); } catch (ChildFail const &x) { e = x.msg; } catch (std::exception const &x) { e = std::string("exception: ") + x.what(); }
			if (!e.empty()) { std::unique_lock<std::mutex> lk(m); if (first.empty()) first = e; }
		};
		std::vector<std::thread> th;
		for (std::size_t i = 0; i < nchurn; i++) th.emplace_back([&, i]() { guard([&]() {
			for (int k = 0; k < rounds[i]; k++) {
				auto port = std::make_shared<Gem::Courtier::GBufferPortT<HWork>>();
				GBROKER(HWork)->enrol_buffer_port(port);
				if (work[i] && k % 8 == 0) {
					ItemPlan p; p.payload = {double(k), double(i)};
					Ptr w = make_item(p, 100 + (int)i, k), r;
					w->mark(processingStatus::DO_PROCESS);
					w->setBufferId(port->getUniqueTag());
					port->push_raw(w);
					if (k % 16 == 0) {
						bool ok = port->pop_processed(r, std::chrono::seconds(15));
						CREQ(ok && r && r->uid == w->uid && r->is_processed() && r->getStoredResult() == w->expected(), "an item did not come back as it should");
					}
				}
				port->producer_disconnect();
			}
		}); });
		guard([&]() { BExec ex; run_batches(ex, batches, 0, true); });
		for (auto &t: th) t.join();
		CREQ(first.empty(), first);
		guard([&]() { BExec ex; run_batches(ex, batches, 1, true); });
		CREQ(first.empty(), first);
		CREQ(clashes() == 0, "an item was evaluated by two workers at the same time");
	});
}

// ---------------------------------------------------------------------------------------------
// C20: a consumer whose "remote workers" return copies of the items, late, twice, failed or never
namespace {

struct Fate { int lost = 0; int delay_us = 0; int dup_us = -1; int fail = 0; };
std::string show(Fate const &f) {
	std::string r = f.lost ? "lost" : std::to_string(f.delay_us);
	if (!f.lost && f.fail) r += "!";
	if (!f.lost && f.dup_us >= 0) r += "x2@" + std::to_string(f.dup_us);
	return r;
}

class StubConsumer : public Gem::Courtier::GBaseConsumerT<HWork> {
public:
	using FateMap = std::map<int, std::vector<Fate>>;
	FateMap m_fates;                       // by item id: what happens at the first, second, ... attempt
	std::atomic<int> m_outstanding{0};
	std::mutex m_mtx;
	std::set<std::pair<int, int>> m_put_ok; // (batch, item id) that came back successfully at least once
	std::map<int, int> m_attempts;
	bool m_stop = false;
	std::thread m_t;
private:
	void addCLOptions_(boost::program_options::options_description &, boost::program_options::options_description &) override {}
	void actOnCLOptions_(const boost::program_options::variables_map &) override {}
	std::string getConsumerName_() const override { return "StubConsumer"; }
	std::string getMnemonic_() const override { return "stub"; }
	std::size_t getNProcessingUnitsEstimate_(bool &exact) const override { exact = false; return 1; }
	bool capableOfFullReturn_() const override { return false; }
	void shutdown_() override { Gem::Courtier::GBaseConsumerT<HWork>::shutdown_(); m_t.join(); }
	void deliver(Ptr w, int delay_us) {
		m_outstanding++;
		std::thread([this, w, delay_us]() {
			std::this_thread::sleep_for(std::chrono::microseconds(delay_us));
			{
				std::unique_lock<std::mutex> lk(m_mtx);
				if (w->is_processed()) m_put_ok.insert({w->batch, w->uid});
			}
			try { GBROKER(HWork)->put(w, std::chrono::milliseconds(200)); } catch (Gem::Courtier::buffer_not_present &) {}
			m_outstanding--;
		}).detach();
	}
	void async_startProcessing_() override {
		m_t = std::thread([this]() {
			while (!this->stopped()) {
				Ptr p;
				if (!GBROKER(HWork)->get(p, std::chrono::milliseconds(20)) || !p) { std::this_thread::yield(); continue; }
				m_outstanding++;
				int a;
				{ std::unique_lock<std::mutex> lk(m_mtx); a = m_attempts[p->uid]++; }
				auto const &fv = m_fates[p->uid];
				Fate f = fv.empty() ? Fate{} : fv[std::min<std::size_t>((std::size_t)a, fv.size() - 1)];
				if (f.lost) { m_outstanding--; continue; }
				Ptr w(new HWork(*p)), w2;
				w->sleep_us = 0;
				w->mode = f.fail;
				try { w->process(); } catch (Gem::Courtier::g_processing_exception &) {}
				if (f.dup_us >= 0) { w2.reset(new HWork(*w)); }
				deliver(w, f.delay_us);
				if (w2) deliver(w2, f.delay_us + f.dup_us);
				m_outstanding--;
			}
		});
	}
};

struct LossyBatch { std::vector<std::vector<Fate>> fates; std::vector<std::vector<double>> payload; bool resubmit = false; int pause_us = 0; std::vector<int> due; };

} // namespace

PROP("C20", RN(lossy), QN(240, 80), 3000, 8, "1-4 batches of 1-8 items on a consumer that gives back copies of the items late, twice, failed or never, with wait factors, partial return percentages, resubmission limits and pauses drawn at random; non-trivial: something is lost, late, duplicated or failed") {
	int mode = (int)c.weighted({3, 2, 2}); // 0 time-out, 1 no time-out with partial return, 2 very long time-out and no losses
	double wf = mode == 0 ? c.pick<double>({1.1, 1.0, 1.5, 3., 0.5}) : mode == 1 ? 0. : 300.;
	int perc = mode == 1 ? (int)c.range(1, 100) : (mode == 0 && c.chance(1, 3)) ? (int)c.range(1, 100) : 0;
	std::size_t maxres = c.size(0, 4);
	std::vector<LossyBatch> bs;
	std::size_t nb = c.size(1, 4);
	bool nt = false;
	std::string d;
	for (std::size_t b = 0; b < nb; b++) {
		LossyBatch lb;
		std::size_t n = c.size(1, 8);
		lb.resubmit = c.flip();
		lb.pause_us = c.chance(1, 3) ? (int)c.range(0, 60000) : 0;
		int style = (int)c.weighted({2, 2, 1}); // 0 quick, 1 mixed, 2 bad
		d += lb.resubmit ? "R[" : "[";
		for (std::size_t i = 0; i < n; i++) {
			int due = b > 0 && c.chance(1, 8) ? (int)c.range(1, 2) : 0;
			lb.due.push_back(due);
			std::vector<Fate> fv;
			std::size_t na = mode == 2 ? 1 : c.size(1, 2);
			for (std::size_t a = 0; a < na; a++) {
				Fate f;
				f.delay_us = (int)c.range(0, style == 0 ? 3000 : style == 1 ? 15000 : 60000);
				if (mode == 2) f.delay_us = 5000 + f.delay_us / 4;
				if (mode != 2 && style > 0 && c.chance(1, style == 2 ? 2 : 4)) f.lost = 1;
				if (c.chance(1, 6)) f.dup_us = (int)c.range(0, 30000);
				if (c.chance(1, 8)) f.fail = (int)c.range(1, 3);
				if (f.lost || f.dup_us >= 0 || f.fail || style == 2) nt = true;
				fv.push_back(f);
			}
			std::vector<double> pl;
			std::size_t np = c.size(0, 2);
			for (std::size_t k = 0; k < np; k++) pl.push_back(c.nice_double());
			lb.payload.push_back(pl);
			lb.fates.push_back(fv);
		}
		bool any_due = false;
		for (auto x: lb.due) any_due |= (x == 0);
		if (mode == 1) { // at least the configured share must come back in each attempt, otherwise it is right to wait
			std::size_t due = 0;
			for (auto x: lb.due) due += (x == 0);
			lb.resubmit = false;
			std::size_t need = (std::size_t)std::ceil((double)perc * (double)due / 100.), have = 0;
			for (std::size_t i = 0; i < n; i++) if (!lb.due[i] && !lb.fates[i][0].lost) have++;
			for (std::size_t i = 0; i < n && have < need; i++) if (!lb.due[i] && lb.fates[i][0].lost) { lb.fates[i][0].lost = 0; have++; }
		}
		if (mode == 0 && b == 0) { // the very first submission waits for a first item to come back
			bool some = false;
			for (std::size_t i = 0; i < n; i++) some |= !lb.fates[i][0].lost;
			if (!some) lb.fates[0][0].lost = 0;
		}
		for (std::size_t i = 0; i < n; i++) { d += lb.due[i] ? "-" : ""; for (auto &f: lb.fates[i]) d += show(f) + "/"; d += " "; }
		d += "] ";
		(void)any_due;
		bs.push_back(lb);
	}
	c.note("wait factor ", wf, " min. return ", perc, "% max. resubmissions ", maxres, " ", d);
	c.label("mode-" + std::to_string(mode));
	if (nt) c.nontrivial();
	in_child(c, 15, [&](Out &o) {
		auto stub = std::make_shared<StubConsumer>();
		// the items are made first, so that the consumer knows what to do with them
		std::vector<std::vector<Ptr>> all;
		std::vector<std::vector<int>> uid;
		for (std::size_t b = 0; b < bs.size(); b++) {
			all.emplace_back(); uid.emplace_back();
			for (std::size_t i = 0; i < bs[b].fates.size(); i++) {
				ItemPlan ip; ip.payload = bs[b].payload[i];
				Ptr w = make_item(ip, 0, (int)b);
				ip.due = bs[b].due[i];
				prepare(w, ip);
				stub->m_fates[w->uid] = bs[b].fates[i];
				all[b].push_back(w); uid[b].push_back(w->uid);
			}
		}
		ItemPlan lp;
		Ptr last = make_item(lp, 0, 9999);
		prepare(last, lp);
		stub->m_fates[last->uid] = {Fate{0, 60000, -1, 0}};
		GBROKER(HWork)->enrol_consumer(stub);
		BExec ex;
		ex.setWaitFactor(wf);
		ex.setMinPartialReturnPercentage((std::uint16_t)perc);
		ex.setMaxResubmissions(maxres);
		ex.init();
		std::set<std::pair<int, int>> incomplete, in_place, old_seen;
		std::vector<std::map<int, Gem::Courtier::ITERATION_COUNTER_TYPE>> dummy;
		auto check_old = [&](int current) {
			std::size_t n = ex.getNOldWorkItems();
			auto old = ex.getOldWorkItems();
			CREQ(old.size() == n, "getNOldWorkItems()=", n, " but ", old.size(), " old items");
			std::set<std::pair<int, int>> here;
			for (auto const &w: old) {
				CREQ(w, "an empty old item");
				CREQ(w->batch < current, "an item of batch ", w->batch, " is delivered as late in batch ", current);
				CREQ(w->is_processed() && w->getStoredResult() == w->expected(), "late item ", w->uid, " has status ", status_of(w), " or a wrong result");
				CREQ(here.insert({w->batch, w->uid}).second, "late item ", w->uid, " of batch ", w->batch, " is delivered twice with batch ", current);
				bool known = w->batch >= 0 && w->batch < (int)uid.size() && w->getCollectionPosition() < uid[w->batch].size() && uid[w->batch][w->getCollectionPosition()] == w->uid;
				CREQ(known, "late item ", w->uid, " claims position ", w->getCollectionPosition(), " of batch ", w->batch);
				old_seen.insert({w->batch, w->uid});
			}
			if (n) o.label("late items delivered");
		};
		for (std::size_t b = 0; b < bs.size(); b++) {
			LossyBatch const &lb = bs[b];
			auto items = all[b];
			auto st = ex.workOn(items, lb.resubmit);
			CREQ(items.size() == uid[b].size(), "the size of the batch changed");
			std::size_t left = 0, err = 0, due = 0;
			for (std::size_t i = 0; i < items.size(); i++) {
				Ptr w = items[i];
				CREQ(w, "batch ", b, " position ", i, " is empty");
				CREQ(w->uid == uid[b][i] && w->batch == (int)b, "batch ", b, " position ", i, " holds item ", w->uid, " of batch ", w->batch, " instead of ", uid[b][i]);
				if (lb.due[i]) {
					CREQ(w.get() == all[b][i].get() && (lb.due[i] == 1 ? w->is_ignored() : (w->is_processed() && w->getStoredResult() == -12345. - w->uid)), "batch ", b, " item ", i, " was not due but has status ", status_of(w));
					continue;
				}
				due++;
				if (w->is_due_for_processing()) { left++; incomplete.insert({(int)b, w->uid}); CREQ(w.get() == all[b][i].get(), "an unprocessed item was replaced"); }
				else if (w->has_errors()) {
					err++;
					CREQ(!w->getStoredErrorDescriptions().empty(), "a failed item has no description");
					bool may = false; for (auto &f: lb.fates[i]) may |= (f.fail && !f.lost);
					CREQ(may, "batch ", b, " item ", i, " is reported as failed, but never failed");
				} else {
					CREQ(w->is_processed(), "batch ", b, " item ", i, " has status ", status_of(w));
					CREQ(w->getStoredResult() == w->expected(), "batch ", b, " item ", i, " has result ", w->getStoredResult(), " instead of ", w->expected());
					bool may = false; for (auto &f: lb.fates[i]) may |= (!f.fail && !f.lost);
					CREQ(may, "batch ", b, " item ", i, " is reported as evaluated, but never was");
					in_place.insert({(int)b, w->uid});
				}
			}
			CREQ(st.is_complete == (left == 0), "batch ", b, ": is_complete=", st.is_complete, " with ", left, " unprocessed items");
			CREQ(st.has_errors == (err > 0), "batch ", b, ": has_errors=", st.has_errors, " with ", err, " failed items");
			CREQ(ex.getNNotReturnedLast() == left, "batch ", b, ": getNNotReturnedLast()=", ex.getNNotReturnedLast(), " with ", left, " unprocessed items");
			CREQ(ex.getNErroneousWorkItems() == err, "batch ", b, ": getNErroneousWorkItems()=", ex.getNErroneousWorkItems(), " with ", err, " failed items");
			bool onecycle = !lb.resubmit || maxres <= 1;
			CREQ(onecycle ? ex.getNReturnedLast() == due - left : ex.getNReturnedLast() <= due - left, "batch ", b, ": getNReturnedLast()=", ex.getNReturnedLast(), " with ", due, " due and ", left, " unprocessed items");
			if (mode == 1) {
				CREQ((double)(due - left) * 100. >= (double)perc * (double)due, "batch ", b, ": only ", due - left, " of ", due, " items are there, but ", perc, "% were asked for");
				if (left) o.label("partial return accepted");
			}
			if (mode == 2) CREQ(left == 0, "batch ", b, ": ", left, " items are missing although nothing was lost and the time-out is very long");
			if (left) o.label("incomplete batch");
			// how often each item was sent out
			{
				std::unique_lock<std::mutex> lk(stub->m_mtx);
				for (auto u: uid[b]) CREQ(stub->m_attempts[u] <= (int)(lb.resubmit ? std::max<std::size_t>(maxres, 1) : 1), "item ", u, " was sent out ", stub->m_attempts[u], " times with a limit of ", maxres);
			}
			check_old((int)b);
			if (lb.pause_us) std::this_thread::sleep_for(std::chrono::microseconds(lb.pause_us));
		}
		// wait until everything that comes back has come back, then fetch it with one last item
		std::this_thread::sleep_for(std::chrono::milliseconds(5));
		for (int k = 0; k < 1000 && stub->m_outstanding > 0; k++) std::this_thread::sleep_for(std::chrono::milliseconds(2));
		std::this_thread::sleep_for(std::chrono::milliseconds(20));
		std::set<std::pair<int, int>> back;
		{ std::unique_lock<std::mutex> lk(stub->m_mtx); if (stub->m_outstanding == 0) back = stub->m_put_ok; }
		ex.setWaitFactor(0.); ex.setMinPartialReturnPercentage(0);
		std::vector<Ptr> li{last};
		auto st = ex.workOn(li, false);
		CREQ(st.is_complete && li[0]->is_processed() && li[0]->getStoredResult() == li[0]->expected(), "the last item did not come back");
		check_old(9999);
		for (auto const &x: incomplete) {
			if (back.count(x)) CREQ(old_seen.count(x), "item ", x.second, " of batch ", x.first, " came back after its batch had ended and was never delivered");
		}
		ex.finalize();
	});
}

PBT_MAIN
