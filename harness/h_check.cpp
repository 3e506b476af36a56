// C29: checkpoints
#define INDIV_IMPL
#include "algorun.hpp"
#include "child.hpp"
#include <set>
#include <regex>
#include <sys/resource.h>
BOOST_CLASS_EXPORT(H::Watch)
using namespace pbt;
using namespace H;

template<typename A> struct Pop : A { using A::setDefaultPopulationSize; using A::setNRecordBestIndividuals; };
static void small(Ctx &c, OA &a, int kind) {
	static_cast<Pop<OA> &>(a).setNRecordBestIndividuals(c.size(1, 4));
	switch (kind) {
		case 0: { auto &e = dynamic_cast<EA &>(a); std::size_t np = c.size(1, 3); e.setPopulationSizes(np + np + c.size(0, 3), np);
			e.setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL})); break; }
		case 1: { auto &e = dynamic_cast<SA &>(a); std::size_t np = c.size(1, 3); e.setPopulationSizes(np + np + c.size(0, 3), np); break; }
		case 2: dynamic_cast<SW &>(a).setSwarmSizes(c.size(1, 3), c.size(2, 3)); break;
		case 3: dynamic_cast<GD &>(a).setNStartingPoints(c.size(1, 2)); break;
		default: { auto &e = static_cast<Pop<PS> &>(dynamic_cast<PS &>(a)); e.setDefaultPopulationSize(c.size(1, 3)); e.setNSimpleScans(1000); }
	}
}
static const char *tag(int k) { static const char *t[] = {"PERSONALITY_EA", "PERSONALITY_SA", "PERSONALITY_SWARM", "PERSONALITY_GD", "PERSONALITY_PS"}; return t[k]; }
static std::set<std::string> files(std::string const &dir) {
	std::set<std::string> r;
	if (fs::exists(dir)) for (auto &e: fs::directory_iterator(dir)) r.insert(e.path().filename().string());
	return r;
}
static std::string show(std::set<std::string> const &s) { std::string r; for (auto &x: s) r += x + " "; return r.empty() ? "none" : r; }
static bool fits(std::string const &f, int kind, std::uint32_t it, std::string const &base) {
	std::string pre = std::string("checkpoint-") + tag(kind) + "-" + std::to_string(it) + "-", post = "-" + base;
	return f.size() > pre.size() + post.size() && f.compare(0, pre.size(), pre) == 0 && f.compare(f.size() - post.size(), post.size(), post) == 0;
}
static void diff(std::string const &a, std::string const &b, std::string const &what) {
	if (a == b) return;
	std::size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	std::size_t l = a.rfind('\n', i);
	l = l == std::string::npos ? 0 : l + 1;
	CREQ(false, what, " differs: ", a.substr(l, 160 + i - l), " -- instead of -- ", b.substr(l, 160 + i - l));
}
struct Cp {
	int kind; Prob p; std::int32_t interval; bool rm; gc::serializationMode mode; std::string dir, base; std::uint32_t off, n;
	OAP a;
};
static Cp gen(Ctx &c) {
	Cp r;
	r.kind = (int)c.raw(5);
	r.p = gen_prob(c, 1, r.kind != 3);
	r.interval = c.weighted({3, 4, 1}) == 0 ? -1 : (std::int32_t)c.range(1, 4);
	r.rm = c.flip();
	r.mode = c.pick<gc::serializationMode>({gc::serializationMode::TEXT, gc::serializationMode::XML, gc::serializationMode::BINARY});
	r.dir = c.pick<std::string>({"cp", "other", "."});
	r.base = c.pick<std::string>({"geneva.cp", "my-file", "x"});
	r.off = c.chance(1, 4) ? (std::uint32_t)c.range(1, 20) : 0;
	r.n = (std::uint32_t)c.range(1, 8);
	c.label(alg_name(r.kind));
	c.note(alg_name(r.kind), " interval ", r.interval, r.rm ? " removing" : " keeping", " mode ", (int)r.mode, " offset ", r.off, " iterations ", r.n, "; ", r.p.str());
	return r;
}
static void setup(Cp const &s, OA &a) {
	a.setReportIteration(1); a.setMaxIteration(s.off + s.n); a.setMaxStallIteration(0); a.setStallCounterThreshold(0);
	a.setCheckpointInterval(s.interval); a.setRemoveCheckpointFiles(s.rm); a.setCheckpointSerializationMode(s.mode); a.setCheckpointBaseName(s.dir, s.base);
}
// the comparison leaves out what is not part of the state (and monitors)
static std::string state(OA const &a) {
	std::string t = dump(a), r;
	// the marks of the best fitness and of the stalls in the individuals are set after the checkpoint was written
	static const std::regex m("(^|\n)(GParameterSet [^\n]*?) ns=[0-9]+( rc=[^ ]+)([^\n]*?) bk=[^ ]+");
	return std::regex_replace(t, m, "$1$2$3$4");
}

PROP("C29", files_and_state, 500, 5000, 4, "an optimisation with any algorithm that writes checkpoints at any interval, in any mode and place; after each iteration the files must be those to be expected, and the newest one is loaded into a new algorithm, whose whole state must equal that of the running one; then the optimisation is continued; non-trivial: at least two checkpoints were compared") {
	Cp s = gen(c);
	for (auto d: {"cp", "other"}) fs::remove_all(d);
	for (auto &f: files(".")) if (f.rfind("checkpoint-", 0) == 0) fs::remove(f);
	OAP a = make_alg(s.kind);
	small(c, *a, s.kind);
	setup(s, *a);
	std::size_t nstart = c.size(1, 2);
	for (std::size_t k = 0; k < nstart; k++) a->push_back(gen_start(c, s.p));
	std::set<std::string> have, before;
	std::string last;
	std::size_t compared = 0;
	auto mine = [&]() { std::set<std::string> r; for (auto &f: files(s.dir)) if (f.rfind("checkpoint-", 0) == 0) r.insert(f); return r; };
	std::string laststate, lastfile;
	std::vector<Item> savedpop, savedbest;
	std::uint32_t savedit = 0;
	std::string problem;
	auto look = [&](OA const &x, Snap &sn) {
		if (sn.im != gg::infoMode::INFOPROCESSING) return;
		auto now = mine();
		bool due = s.interval < 0 ? sn.stall == 0 : sn.it % (std::uint32_t)s.interval == 0;
		std::set<std::string> fresh;
		for (auto &f: now) if (!have.count(f)) fresh.insert(f);
		REQ(fresh.size() == (due ? 1 : 0), "iteration ", sn.it, " with interval ", s.interval, sn.stall == 0 ? ", an improvement" : ", no improvement", ", wrote: ", show(fresh));
		if (due) {
			last = *fresh.begin();
			REQ(fits(last, s.kind, sn.it, s.base), "the checkpoint of iteration ", sn.it, " is called ", last);
			std::set<std::string> want;
			if (!s.rm) want = have;
			want.insert(last);
			REQ(now == want, "after iteration ", sn.it, " there are the files ", show(now), "instead of ", show(want));
			OAP b = make_alg(s.kind);
			b->setCheckpointSerializationMode(s.mode);
			REQ(b->cp_personality_fits(fs::path(s.dir) / last), "the name ", last, " is said not to belong to this algorithm");
			for (int k = 0; k < 5; k++) if (k != s.kind) REQ(!make_alg(k)->cp_personality_fits(fs::path(s.dir) / last), "the name ", last, " is said to belong to ", alg_name(k));
			b->loadCheckpoint(fs::path(s.dir) / last);
			try { diff(state(*b), state(x), "the state loaded from the checkpoint of iteration " + std::to_string(sn.it)); } catch (HW::ChildFail &f) { REQ(false, f.msg); }
			compared++;
			lastfile = (fs::path(s.dir) / last).string();
			savedpop = sn.pop; savedbest = sn.gb; savedit = sn.it;
		}
		have = now;
	};
	run_alg(*a, s.off, look);
	REQ(mine() == have, "the files after the run are ", show(mine()), "instead of ", show(have));
	if (compared > 1) c.nontrivial();
	if (lastfile.empty()) return;
	// continue
	OAP b = make_alg(s.kind);
	b->setCheckpointSerializationMode(s.mode);
	b->loadCheckpoint(lastfile);
	b->setCheckpointInterval(c.pick<std::int32_t>({0, 0, 1, -1}));
	std::uint32_t more = (std::uint32_t)c.range(1, 4);
	b->setMaxIteration(savedit + 1 + more);
	bool threads = c.flip();
	auto t = run_alg(*b, savedit + 1, Inspect(), threads ? gg::execMode::MULTITHREADED : gg::execMode::SERIAL);
	for (auto &e: evlog().get()) REQ((e.th != std::this_thread::get_id()) == threads, "the executor registered after loading the checkpoint is not the one that is used (threads ", threads, ")");
	REQ(t.size() == more + 2, "the continued run had ", t.size(), " notifications instead of ", more + 2);
	std::size_t same = s.kind == 4 ? 0 : s.kind == 3 ? dynamic_cast<GD &>(*b).getNStartingPoints() : savedpop.size(); // (the other points of a gradient descent are derived from the first ones, and a scan prepares its next points)
	REQ(t[0].pop.size() == savedpop.size(), "the continued run starts with ", t[0].pop.size(), " of ", savedpop.size(), " individuals");
	for (std::size_t k = 0; k < same; k++) REQ(t[0].pop[k].k == savedpop[k].k, "individual ", k, " of the continued run is ", t[0].pop[k].k, " instead of ", savedpop[k].k);
	for (std::size_t k = 1; k < t.size(); k++) {
		REQ(t[k].im == gg::infoMode::INFOEND || t[k].it == savedit + k, "iteration ", t[k].it, " is in place ", k, " of a run continued after iteration ", savedit);
		REQ(t[k].gb.size() >= savedbest.size(), "the continued run remembers ", t[k].gb.size(), " of ", savedbest.size(), " best solutions");
		for (std::size_t j = 0; j < savedbest.size(); j++) {
			double x = t[k].gb[j].tr.at(0), y = savedbest[j].tr.at(0);
			REQ(s.p.maxi ? x >= y : x <= y, "the best solution number ", j, " was ", y, " when saved, and is ", x, " in the continued run");
		}
	}
}

PROP("C29", again, 60, 1500, 2, "an algorithm is run several times from the same start individuals, with checkpoints; after each iteration that is due, its checkpoint must be there with the state of that run; non-trivial: some checkpoint has a name that was used in an earlier run") {
	Cp s = gen(c);
	if (c.chance(2, 3)) s.kind = 3; // a gradient descent does the same in each run
	s.dir = "cpa";
	fs::remove_all(s.dir);
	OAP a = make_alg(s.kind);
	small(c, *a, s.kind);
	setup(s, *a);
	auto st = gen_start(c, s.p);
	std::set<std::string> names;
	std::size_t runs = c.size(2, 3);
	for (std::size_t r = 0; r < runs; r++) {
		a->push_back(st->clone<gg::GParameterSet>());
		run_alg(*a, s.off, [&](OA const &x, Snap &sn) {
			if (sn.im != gg::infoMode::INFOPROCESSING) return;
			if (s.interval < 0 ? sn.stall != 0 : sn.it % (std::uint32_t)s.interval != 0) return;
			std::string got;
			for (auto &f: files(s.dir)) if (fits(f, s.kind, sn.it, s.base)) {
				OAP b = make_alg(s.kind);
				b->setCheckpointSerializationMode(s.mode);
				b->loadCheckpoint(fs::path(s.dir) / f);
				if (state(*b) == state(x)) got = f;
			}
			REQ(!got.empty(), "after iteration ", sn.it, " of run ", r, " there is no checkpoint with its state, only: ", show(files(s.dir)));
			if (!names.insert(got).second) c.nontrivial();
		});
		a->resetToOptimizationStart();
	}
}

PROP("C29", damage, 500, 4000, 4, "a checkpoint of any algorithm in any mode that is cut at any point, empty, missing, written in another mode or renamed to another algorithm; loading it must be refused and leave the algorithm as it was, or give the complete state; non-trivial: loading was refused") {
	Cp s = gen(c);
	int how = (int)c.weighted({6, 1, 1, 1, 2, 2});
	std::uint32_t at = (std::uint32_t)c.raw(1000);
	bool tail = c.chance(1, 3);
	int other = (int)((s.kind + 1 + (int)c.raw(4)) % 5);
	auto pre = HW::ahead(c, 60);
	c.note("damage ", how, " at ", at, tail ? " from the end" : "");
	HW::in_child(c, 40, [&](HW::Out &o) {
		Ctx d(0, &pre, nullptr, c.thorough());
		std::vector<PSP> st;
		OAP a = make_alg(s.kind);
		small(d, *a, s.kind);
		OAP b = make_alg(s.kind);
		alg_set_random(d, *b, false);
		std::size_t np = d.size(1, 2);
		for (std::size_t k = 0; k < np; k++) st.push_back(gen_start(d, s.p));
		fs::remove_all("cpd");
		s.dir = "cpd"; s.interval = 1; s.rm = true;
		setup(s, *a);
		for (auto &x: st) a->push_back(x);
		std::string want;
		run_alg(*a, s.off, [&](OA const &x, Snap &sn) { if (sn.im == gg::infoMode::INFOPROCESSING) want = state(x); });
		auto f = files("cpd");
		CREQ(f.size() == 1, "there are ", f.size(), " checkpoints");
		fs::path path = fs::path("cpd") / *f.begin();
		std::string data;
		{ std::ifstream in(path, std::ios::binary); std::stringstream q; q << in.rdbuf(); data = q.str(); }
		gc::serializationMode mode = s.mode;
		auto put = [&](std::string const &d) { std::ofstream(path, std::ios::binary | std::ios::trunc) << d; };
		std::size_t cut = data.size();
		switch (how) {
			case 0: cut = tail ? data.size() - std::min<std::size_t>(data.size(), 1 + at / 8) : data.size() * at / 1000; put(data.substr(0, cut)); break;
			case 1: put(""); break;
			case 2: fs::remove(path); break;
			case 3: { fs::path q = fs::path("cpd") / "x"; fs::rename(path, q); path = q; break; }
			case 4: { fs::path q = fs::path("cpd") / ("checkpoint-" + std::string(tag(other)) + "-1-0-x"); fs::rename(path, q); path = q; break; }
			default: mode = s.mode == gc::serializationMode::TEXT ? gc::serializationMode::XML : s.mode == gc::serializationMode::XML ? gc::serializationMode::BINARY : gc::serializationMode::TEXT;
		}
		b->setCheckpointSerializationMode(mode);
		std::string was = state(*b);
		bool refused = false;
		try { b->loadCheckpoint(path); } catch (std::exception &e) { refused = true; }
		o.label(refused ? "refused" : "accepted");
		if (refused) diff(state(*b), was, "the state after refusing a damaged checkpoint");
		else {
			CREQ(how == 0, "a checkpoint was loaded from ", path.string(), " in spite of damage of kind ", how);
			// (the text format has no end: a cut in its last number gives another number)
			if (s.mode != gc::serializationMode::TEXT || cut + 26 < data.size()) diff(state(*b), want, "the state loaded from a checkpoint cut after " + std::to_string(cut) + " of " + std::to_string(data.size()) + " bytes");
		}
		// content of another algorithm under the right name
		if (how == 4) {
			OAP d = make_alg(other);
			d->setCheckpointSerializationMode(s.mode);
			std::string dwas = state(*d);
			bool ref2 = false;
			try { d->loadCheckpoint(path); } catch (std::exception &e) { ref2 = true; }
			CREQ(ref2, "the checkpoint of ", alg_name(s.kind), " was loaded by ", alg_name(other));
			diff(state(*d), dwas, "the state after refusing a checkpoint of another algorithm");
		}
	});
	c.nontrivial();
}

PROP("C29", crash, 400, 3000, 4, "an optimisation that writes a checkpoint in every iteration is killed, or has its file system fill up, at a chosen byte of the checkpoint of a chosen iteration; afterwards a checkpoint of the iteration before (or a later one) must be there and load completely; non-trivial: the process ended in the middle of a checkpoint") {
	Cp s = gen(c);
	s.interval = 1; s.dir = "cpc"; s.n = (std::uint32_t)c.range(2, 6);
	std::uint32_t crashat = s.off + (std::uint32_t)c.range(1, s.n - 1);
	std::uint32_t per = (std::uint32_t)c.range(0, 999);
	bool full = c.chance(1, 3), tail = full && c.flip();
	auto pre = HW::ahead(c, 60);
	c.note(full ? "full" : "killed", " in iteration ", crashat, " at ", tail ? -(int)per : (int)per, s.rm ? " removing" : " keeping");
	fs::remove_all("cpc");
	std::fflush(nullptr); std::cout.flush();
	pid_t pid = ::fork();
	if (pid < 0) c.discard();
	if (pid == 0) {
		::prctl(PR_SET_PDEATHSIG, SIGKILL);
		int dn = ::open("/dev/null", O_RDWR);
		::dup2(dn, 1); ::dup2(dn, 2);
		try {
			Ctx d(0, &pre, nullptr, c.thorough());
			OAP a = make_alg(s.kind);
			small(d, *a, s.kind);
			setup(s, *a);
			for (std::size_t k = 0; k < 2; k++) a->push_back(gen_start(d, s.p));
			run_alg(*a, s.off, [&](OA const &x, Snap &sn) {
				if (sn.im != gg::infoMode::INFOPROCESSING) return;
				if (sn.it + 1 == crashat) {
					std::size_t sz = 0;
					for (auto &f: files("cpc")) sz = std::max<std::size_t>(sz, fs::file_size(fs::path("cpc") / f));
					std::size_t lim = tail ? sz - std::min(sz, (std::size_t)per) : sz * per / 1000;
					if (full) ::signal(SIGXFSZ, SIG_IGN); else ::signal(SIGXFSZ, SIG_DFL);
					rlimit r{lim, lim};
					::setrlimit(RLIMIT_FSIZE, &r);
					rlimit co{0, 0};
					::setrlimit(RLIMIT_CORE, &co);
				}
				if (sn.it == crashat) ::_exit(17); // that checkpoint seemed to be written, and could be used
			});
		} catch (std::exception &) { ::_exit(18); } catch (...) { ::_exit(19); }
		::_exit(0);
	}
	int stt = 0;
	auto t0 = std::chrono::steady_clock::now();
	for (;;) {
		pid_t r = ::waitpid(pid, &stt, WNOHANG);
		if (r == pid) break;
		if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(60)) { ::kill(pid, SIGKILL); ::waitpid(pid, &stt, 0); c.fail("the run did not end within 60 s"); }
		std::this_thread::sleep_for(std::chrono::microseconds(300));
	}
	bool killed = WIFSIGNALED(stt) && WTERMSIG(stt) == SIGXFSZ;
	int code = WIFEXITED(stt) ? WEXITSTATUS(stt) : -1;
	c.label(killed ? "killed" : code == 17 ? "written" : code == 18 ? "error reported" : "other");
	if (!killed && code != 17 && code != 18) c.fail("the run ended with ", WIFSIGNALED(stt) ? "signal " : "status ", WIFSIGNALED(stt) ? WTERMSIG(stt) : code);
	if (killed || code == 18) c.nontrivial();
	HW::in_child(c, 40, [&](HW::Out &) {
		std::ostringstream all;
		bool good = false;
		for (auto &f: files("cpc")) {
			OAP b = make_alg(s.kind);
			b->setCheckpointSerializationMode(s.mode);
			all << f << " (" << fs::file_size(fs::path("cpc") / f) << " bytes) ";
			try { b->loadCheckpoint(fs::path("cpc") / f); } catch (std::exception &e) { continue; }
			CREQ(fits(f, s.kind, b->getIteration(), s.base), "the checkpoint ", f, " is of iteration ", b->getIteration());
			if (b->getIteration() + 1 >= crashat) good = true;
		}
		CREQ(good, "iteration ", crashat - 1, " was completed, but no checkpoint of it or a later one can be loaded; there are: ", all.str());
		CREQ(code != 17 || !full || true, "");
	});
}
PBT_MAIN
