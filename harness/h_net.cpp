// C21: networked consumers with well-behaved, vanishing and misbehaving clients.
// Everything runs over the loopback interface inside a child process of its own.
#include "hwork.hpp"
#include "courtier/GExecutorT.hpp"
#include "courtier/GBrokerT.hpp"
#include "courtier/GCommandContainerT.hpp"
#include "courtier/GAsioConsumerT.hpp"
#include "courtier/GWebsocketConsumerT.hpp"
#include <boost/beast/websocket.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
BOOST_CLASS_EXPORT_IMPLEMENT(HW::HWork)

using namespace HW;
using Gem::Courtier::processingStatus;
using Cmd = Gem::Courtier::networked_consumer_payload_command;
using Msg = Gem::Courtier::GCommandContainerT<HWork, Cmd>;
using SMode = Gem::Common::serializationMode;
using Ptr = std::shared_ptr<HWork>;
using Client = Gem::Courtier::GBaseClientT<HWork>;
using BExec = Gem::Courtier::GBrokerExecutorT<HWork>;
using tcp = boost::asio::ip::tcp;
namespace ws = boost::beast::websocket;
using Clock = std::chrono::steady_clock;

namespace {

void nap(int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); }

// ---- the plan of a scenario ------------------------------------------------------------------
struct Item { int mode; int sleep_us; std::vector<double> payload; std::string text; };
enum RogueKind { CONNECT_CLOSE, CONNECT_RESET, GARBAGE, BIG_GARBAGE, TAKE_RESET, TAKE_VANISH, CUT_RESULT, CUT_RESET, EMPTY_RESULT, ODD_COMMAND,
	FOREIGN_RESULT, UNPROCESSED, BAD_POSITION, OLD_ITERATION, TWICE, STALL_HALF, STALL_DEAF, WS_HANDSHAKE_GARBAGE, WS_STALL_HANDSHAKE, WS_CONTROL, WS_TEXT_INSTEAD, N_ROGUES };
const char *rogue_name[] = {"connect+close", "connect+reset", "garbage", "big garbage", "take+reset", "take+vanish", "cut result", "cut result+reset", "empty result", "odd command",
	"foreign result", "unprocessed result", "bad position", "old iteration", "result twice", "stall half-way", "stall without reading", "handshake garbage", "stall before handshake", "control frames", "other frame type"};
struct Rogue { int kind; int delay_us; unsigned x; };
struct Batch { std::vector<Item> items; std::vector<Rogue> rogues; };
struct Plan { bool beast = false; int smode = 0; int threads = 1; int ping = 5; int clients = 1; double wf = 0.; std::size_t maxres = 3; std::vector<Batch> batches; };

std::string show(Plan const &p) {
	std::ostringstream o;
	o << (p.beast ? "websocket" : "asio") << " mode " << p.smode << " threads " << p.threads << " clients " << p.clients;
	if (p.beast) o << " ping " << p.ping;
	if (p.wf > 0) o << " wait factor " << p.wf << " resubmissions " << p.maxres;
	for (auto const &b: p.batches) {
		o << " [";
		for (auto const &i: b.items) { o << "W"; if (i.mode) o << "!" << i.mode; if (i.sleep_us) o << "~" << i.sleep_us; o << " "; }
		for (auto const &r: b.rogues) o << "| " << rogue_name[r.kind] << "@" << r.delay_us << " ";
		o << "]";
	}
	return o.str();
}

Item gen_item(pbt::Ctx &c, bool fails) {
	Item i;
	i.mode = fails ? (int)c.weighted({7, 1, 1, 1, 1}) : OK;
	i.sleep_us = c.chance(1, 3) ? (int)c.range(0, 8000) : 0;
	std::size_t n = c.size(0, 3);
	for (std::size_t k = 0; k < n; k++) i.payload.push_back(c.nice_double());
	i.text = c.text("abc<>&\"' 0", 0, 12);
	return i;
}

// ---- the clients that do not play by the rules -----------------------------------------------------
struct Env { bool beast; unsigned short port; SMode sm; std::atomic<bool> stop{false}; std::atomic<int> active{0}; };

std::string pack(Env const &e, Cmd cmd, Ptr w = Ptr()) {
	Msg m(cmd);
	if (w) m.reset(cmd, w); else m.reset(cmd);
	return Gem::Courtier::container_to_string(m, e.sm);
}
void stall(Env &e) { e.active--; while (!e.stop) nap(2000); e.active++; }

struct Raw { // a plain TCP connection
	int fd = -1;
	explicit Raw(unsigned short port) {
		fd = ::socket(AF_INET, SOCK_STREAM, 0);
		timeval tv{5, 0};
		::setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		::setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
		sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		if (::connect(fd, (sockaddr *)&a, sizeof a) != 0) { ::close(fd); fd = -1; }
	}
	~Raw() { if (fd >= 0) ::close(fd); }
	bool send(std::string const &s) {
		std::size_t off = 0;
		while (fd >= 0 && off < s.size()) { ssize_t n = ::send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL); if (n <= 0) return false; off += (std::size_t)n; }
		return fd >= 0;
	}
	std::string read_all() {
		std::string r; char b[8192];
		for (;;) { ssize_t n = fd < 0 ? -1 : ::recv(fd, b, sizeof b, 0); if (n <= 0) break; r.append(b, (std::size_t)n); }
		return r;
	}
	void fin() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }
	void rst() { if (fd < 0) return; linger l{1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); fd = -1; }
};
// one request over the asio protocol; the answer
std::string ask(Env const &e, std::string const &m) { Raw r(e.port); r.send(m); r.fin(); return r.read_all(); }

struct Ws { // a websocket connection
	boost::asio::io_context io;
	ws::stream<tcp::socket> s{io};
	bool ok = false;
	explicit Ws(Env const &e) {
		boost::system::error_code ec;
		s.next_layer().connect(tcp::endpoint(boost::asio::ip::address_v4::loopback(), e.port), ec);
		if (ec) return;
		timeval tv{5, 0};
		::setsockopt(s.next_layer().native_handle(), SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
		s.handshake("localhost", "/", ec);
		ok = !ec;
		s.binary(e.sm == SMode::BINARY);
	}
	void send(std::string const &m) { boost::system::error_code ec; if (ok) s.write(boost::asio::buffer(m), ec); if (ec) ok = false; }
	std::string read() { boost::system::error_code ec; boost::beast::multi_buffer b; if (ok) s.read(b, ec); if (ec) ok = false; return boost::beast::buffers_to_string(b.data()); }
	std::string ask(std::string const &m) { send(m); return read(); }
	void rst() { boost::system::error_code ec; s.next_layer().set_option(boost::asio::socket_base::linger(true, 0), ec); s.next_layer().close(ec); ok = false; }
	void bye() { boost::system::error_code ec; if (ok) s.close(ws::close_code::normal, ec); }
};

// takes an item from the server (empty if there is none)
template<typename ASK> Ptr take(Env const &e, ASK ask_) {
	for (int i = 0; i < 20 && !e.stop; i++) {
		std::string r = ask_(pack(e, Cmd::GETDATA));
		if (r.empty()) return Ptr();
		Msg m(Cmd::NONE);
		try { Gem::Courtier::container_from_string(r, m, e.sm); } catch (...) { return Ptr(); }
		if (m.get_command() == Cmd::COMPUTE) return m.get_payload();
		nap(5000);
	}
	return Ptr();
}
std::string garbage(unsigned x, std::size_t n) { std::string s; std::mt19937 r(x); for (std::size_t i = 0; i < n; i++) s.push_back((char)r()); if (n) s[0] = (char)0x7f; return s; }

// what both kinds of transport have in common
template<typename ASK> void common_rogue(Env &e, Rogue const &r, ASK ask_) {
	switch (r.kind) {
		case GARBAGE: ask_(garbage(r.x, 1 + r.x % 300)); break;
		case BIG_GARBAGE: ask_(garbage(r.x, 300000 + r.x % 700000)); break;
		case TAKE_VANISH: take(e, ask_); break;
		case CUT_RESULT: {
			Ptr w(new HWork()); w->uid = 60000; w->text = "cut"; w->setBufferId((Gem::Courtier::BUFFERPORT_ID_TYPE)654321); w->markAsProcessedWith({1.}); // (a text without its last character can still be read)
			std::string m = pack(e, Cmd::RESULT, w);
			ask_(m.substr(0, 1 + r.x % (m.size() - 1)));
		} break;
		case EMPTY_RESULT: ask_(pack(e, Cmd::RESULT)); break;
		case ODD_COMMAND: ask_(pack(e, r.x % 3 == 0 ? Cmd::NONE : r.x % 3 == 1 ? Cmd::NODATA : Cmd::COMPUTE)); break;
		case FOREIGN_RESULT: {
			Ptr w(new HWork()); w->uid = 60001; w->setBufferId((Gem::Courtier::BUFFERPORT_ID_TYPE)(123456 + r.x % 1000)); w->markAsProcessedWith({1.});
			ask_(pack(e, Cmd::RESULT, w));
		} break;
		case UNPROCESSED: { Ptr w = take(e, ask_); if (w) ask_(pack(e, Cmd::RESULT, w)); } break;
		case BAD_POSITION: {
			Ptr w = take(e, ask_);
			if (w) {
				try { w->process(); } catch (...) {}
				w->setCollectionPosition((Gem::Courtier::COLLECTION_POSITION_TYPE)(r.x % 2 ? 8 + r.x % 1000 : std::numeric_limits<Gem::Courtier::COLLECTION_POSITION_TYPE>::max() - r.x % 3));
				ask_(pack(e, Cmd::RESULT, w));
			}
		} break;
		case OLD_ITERATION: {
			Ptr w = take(e, ask_);
			if (w) {
				try { w->process(); } catch (...) {}
				w->setIterationCounter((Gem::Courtier::ITERATION_COUNTER_TYPE)(1000000 + r.x % 5));
				ask_(pack(e, Cmd::RESULT, w));
			}
		} break;
		case TWICE: {
			Ptr w = take(e, ask_);
			if (w) {
				try { w->process(); } catch (...) {}
				std::string m = pack(e, Cmd::RESULT, w);
				ask_(m); ask_(m);
			}
		} break;
		default: break;
	}
}

void run_rogue(Env &e, Rogue const &r) {
	nap(r.delay_us);
	switch (r.kind) {
		case CONNECT_CLOSE: { Raw x(e.port); return; }
		case CONNECT_RESET: { Raw x(e.port); x.rst(); return; }
		case WS_HANDSHAKE_GARBAGE: { Raw x(e.port); x.send(r.x % 2 ? garbage(r.x, 200) : "GET / HTTP/1.1\r\nHost: a\r\nUpgrade: nothing\r\n\r\n"); nap((int)(r.x % 5000)); return; }
		case WS_STALL_HANDSHAKE: { Raw x(e.port); x.send("GET / HTTP/1.1\r\nHost: "); stall(e); return; }
		default: break;
	}
	if (!e.beast) {
		auto A = [&](std::string const &m) { return ask(e, m); };
		switch (r.kind) {
			case TAKE_RESET: { Raw x(e.port); x.send(pack(e, Cmd::GETDATA)); x.fin(); nap((int)(r.x % 60000)); x.rst(); } break;
			case CUT_RESET: { std::string m = pack(e, Cmd::GETDATA); Raw x(e.port); x.send(m.substr(0, r.x % m.size())); nap((int)(r.x % 3000)); x.rst(); } break;
			case STALL_HALF: { std::string m = pack(e, Cmd::GETDATA); Raw x(e.port); x.send(m.substr(0, r.x % (m.size() + 1))); stall(e); } break;
			case STALL_DEAF: { Raw x(e.port); x.send(pack(e, Cmd::GETDATA)); x.fin(); stall(e); } break;
			default: common_rogue(e, r, A);
		}
	} else {
		Ws x(e);
		auto A = [&](std::string const &m) { return x.ask(m); };
		boost::system::error_code ec;
		switch (r.kind) {
			case TAKE_RESET: x.send(pack(e, Cmd::GETDATA)); nap((int)(r.x % 60000)); x.rst(); return;
			case CUT_RESET: if (x.ok) { std::string m = garbage(r.x, 20); m[0] = (char)0x82; m[1] = (char)0xfe; boost::asio::write(x.s.next_layer(), boost::asio::buffer(m), ec); } nap((int)(r.x % 3000)); x.rst(); return;
			case STALL_HALF: if (x.ok) { std::string m = garbage(r.x, 20); m[0] = (char)0x82; m[1] = (char)0xfe; boost::asio::write(x.s.next_layer(), boost::asio::buffer(m), ec); } stall(e); return;
			case STALL_DEAF: x.send(r.x % 2 ? garbage(r.x, 100) : pack(e, Cmd::GETDATA)); stall(e); return; // never reads what the server has to say, closing handshake included
			case WS_CONTROL: for (unsigned i = 0; i < 20 + r.x % 50 && x.ok; i++) { if (i % 2) x.s.ping("x", ec); else x.s.pong("y", ec); if (ec) x.ok = false; } break;
			case WS_TEXT_INSTEAD: x.s.binary(e.sm != SMode::BINARY); x.ask(pack(e, Cmd::GETDATA)); break;
			default: common_rogue(e, r, A);
		}
		if (r.x % 3 == 0) x.bye(); else if (r.x % 3 == 1) x.rst(); // otherwise the connection is just closed
	}
}

std::string status_of(Ptr w) { return w->getProcessingStatusAsStr(); }

bool port_is_free(unsigned short port) {
	int fd = ::socket(AF_INET, SOCK_STREAM, 0);
	int one = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_ANY);
	bool ok = ::bind(fd, (sockaddr *)&a, sizeof a) == 0;
	::close(fd);
	return ok;
}

std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>> make_consumer(Plan const &p, unsigned short port, int mode_value) {
	namespace po = boost::program_options;
	std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>> k;
	std::string pre;
	if (p.beast) { k = std::make_shared<Gem::Courtier::GWebsocketConsumerT<HWork>>(); pre = "--beast_"; }
	else { k = std::make_shared<Gem::Courtier::GAsioConsumerT<HWork>>(); pre = "--asio_"; }
	po::options_description v, h, all;
	k->addCLOptions(v, h);
	all.add(v).add(h);
	std::vector<std::string> args{pre + "ip=127.0.0.1", pre + "port=" + std::to_string(port), pre + "serializationMode=" + std::to_string(mode_value)};
	if (p.beast) { args.push_back("--beast_nListenerThreads=" + std::to_string(p.threads)); args.push_back("--beast_pingInterval=" + std::to_string(p.ping)); }
	else { args.push_back("--asio_nProcessingThreads=" + std::to_string(p.threads)); args.push_back("--asio_maxReconnects=2"); }
	po::variables_map vm;
	po::store(po::command_line_parser(args).options(all).run(), vm);
	po::notify(vm);
	k->actOnCLOptions(vm);
	return k;
}

// runs the plan; called inside of the child process
void run_plan(Plan const &p, Out &o) {
	unsigned short port = 0;
	for (int k = 0; k < 50 && !port; k++) { unsigned short q = (unsigned short)(10000 + ((unsigned)::getpid() * 13u + (unsigned)k * 1009u) % 22000u); if (port_is_free(q)) port = q; }
	if (!port) { o.label("no free port"); return; }
	SMode sm = p.smode == 0 ? SMode::TEXT : p.smode == 1 ? SMode::XML : SMode::BINARY;
	auto consumer = make_consumer(p, port, (int)sm);
	try { GBROKER(HWork)->enrol_consumer(consumer); }
	catch (gemfony_exception &) { o.label("port taken"); return; }

	Env &env = *new Env{p.beast, port, sm, {false}, {0}};
	std::atomic<int> &ended = *new std::atomic<int>(0);
	std::string &why = *new std::string;
	std::mutex &why_m = *new std::mutex;
	auto run_client = [&](std::shared_ptr<Client> cl, std::atomic<int> *done, bool strict) {
		std::string w = "returned";
		try { cl->run(); }
		catch (gemfony_exception &e) { w = "gemfony_exception " + std::string(e.what()).substr(0, 300); }
		catch (std::exception &e) { w = "exception " + std::string(e.what()).substr(0, 300); }
		catch (...) { w = "unknown exception"; }
		if (strict) { std::unique_lock<std::mutex> l(why_m); why = w; }
		(*done)++;
	};
	for (int k = 0; k < p.clients; k++) {
		auto cl = consumer->getClient();
		CREQ(cl, "the consumer gives no client");
		std::thread(run_client, cl, &ended, true).detach();
	}
	bool clean = p.wf == 0.;
	BExec ex;
	ex.setWaitFactor(p.wf);
	ex.setMaxResubmissions(p.maxres);
	ex.init();
	int next = 1;
	for (std::size_t b = 0; b < p.batches.size(); b++) {
		Batch const &bp = p.batches[b];
		std::vector<Ptr> items;
		int first = next;
		for (auto const &ip: bp.items) {
			Ptr w(new HWork()); w->uid = next++; w->batch = (int)b; w->mode = ip.mode; w->sleep_us = ip.sleep_us; w->payload = ip.payload; w->text = ip.text;
			w->mark(processingStatus::DO_PROCESS);
			items.push_back(w);
		}
		for (auto const &r: bp.rogues) {
			env.active++; std::thread([&env, r]() { try { run_rogue(env, r); } catch (...) {} env.active--; }).detach();
		}
		Gem::Courtier::executor_status_t st;
		int tries = 0;
		std::vector<std::size_t> open_pos; // the positions that still need work
		for (std::size_t i = 0; i < items.size(); i++) open_pos.push_back(i);
		do {
			std::vector<Ptr> todo;
			for (auto i: open_pos) todo.push_back(items[i]);
			if (clean || tries < 2) st = ex.workOn(todo, !clean);
			else {
				// The misbehaving clients have left (or do nothing any more), so that everything
				// that is still missing has to come back from the other ones
				while (env.active > 0) nap(1000);
				BExec patient;
				patient.setWaitFactor(0.);
				patient.init();
				st = patient.workOn(todo, false);
				patient.finalize();
			}
			tries++;
			CREQ(todo.size() == open_pos.size(), "the size of batch ", b, " changed from ", open_pos.size(), " to ", todo.size());
			std::vector<std::size_t> still;
			std::size_t err = 0;
			for (std::size_t k = 0; k < todo.size(); k++) {
				std::size_t i = open_pos[k];
				Ptr w = todo[k];
				int uid = first + (int)i;
				CREQ(w && w->uid == uid && w->text == bp.items[i].text && w->payload == bp.items[i].payload, "batch ", b, " position ", i, " holds the wrong item: ", w ? w->uid : -1, " instead of ", uid);
				items[i] = w;
				if (w->is_processed()) {
					CREQ(bp.items[i].mode == OK, "failing item ", uid, " is reported as processed");
					CREQ(cnt()[uid] >= 1, "item ", uid, " is reported as processed but no client has worked on it");
					CREQ(w->getStoredResult() == w->expected(), "item ", uid, " has result ", w->getStoredResult(), " instead of ", w->expected());
				} else if (w->has_errors()) {
					err++;
					CREQ(bp.items[i].mode != OK, "item ", uid, " is reported as failed: ", w->getStoredErrorDescriptions().substr(0, 200));
					CREQ(cnt()[uid] >= 1, "item ", uid, " is reported as failed but no client has worked on it");
					std::string d = w->getStoredErrorDescriptions();
					if (bp.items[i].mode != THROW_ODD) CREQ(d.find("item " + std::to_string(uid) + " failed") != std::string::npos, "the error description of item ", uid, " is: ", d.substr(0, 200));
				} else {
					CREQ(!st.is_complete, "batch ", b, " is reported as complete but item ", uid, " has status ", status_of(w));
					still.push_back(i);
				}
			}
			CREQ(ended == 0, "a well-behaved client has ended early in batch ", b, ": ", why);
			CREQ(st.has_errors == (err > 0), "batch ", b, ": has_errors=", st.has_errors, " with ", err, " failed items");
			CREQ(st.is_complete == still.empty(), "batch ", b, ": is_complete=", st.is_complete, " with ", still.size(), " open items");
			if (st.is_complete) break;
			CREQ(!clean, "batch ", b, " is incomplete although all clients behave well");
			open_pos = still;
			CREQ(tries <= 2, "batch ", b, " is incomplete although no item can have been lost");
		} while (true);
		if (clean) for (std::size_t i = 0; i < items.size(); i++) CREQ(cnt()[first + (int)i] == 1, "item ", first + (int)i, " was evaluated ", cnt()[first + (int)i].load(), " times");
		if (tries > 1) o.label("resubmitted");
	}
	ex.finalize();
	// the server has to go down whatever the state of its connections
	consumer->shutdown();
	env.stop = true;
}

Plan gen_plan(pbt::Ctx &c, bool beast, bool with_rogues) {
	Plan p;
	p.beast = beast;
	p.smode = (int)c.range(0, 2);
	p.threads = (int)c.weighted({2, 2, 1}) + 1;
	p.ping = (int)c.pick<int>({1, 2, 15});
	p.clients = (int)c.range(1, with_rogues ? 3 : 5);
	if (with_rogues) { p.wf = c.pick<double>({0.5, 1., 2.}); p.maxres = c.size(1, 2); }
	std::size_t nb = c.size(1, 3);
	if (with_rogues) { // a first batch that tells the executor how long things take
		Batch b; std::size_t n = c.size(1, 4);
		for (std::size_t i = 0; i < n; i++) b.items.push_back(gen_item(c, false));
		p.batches.push_back(b);
	}
	for (std::size_t k = 0; k < nb; k++) {
		Batch b;
		std::size_t n = c.size(1, 8);
		for (std::size_t i = 0; i < n; i++) b.items.push_back(gen_item(c, true));
		if (with_rogues) {
			std::size_t m = c.size(1, 6);
			for (std::size_t i = 0; i < m; i++) {
				Rogue r;
				r.kind = (int)c.range(0, beast ? N_ROGUES - 1 : STALL_DEAF);
				r.delay_us = (int)c.range(0, 40000);
				r.x = (unsigned)c.range(0, 1000000);
				b.rogues.push_back(r);
				c.label(rogue_name[r.kind]);
			}
		}
		p.batches.push_back(b);
	}
	if (with_rogues) { Batch b; b.items.push_back(gen_item(c, false)); p.batches.push_back(b); }
	return p;
}
} // namespace

PROP("C21", asio_clean, 60, 1500, 8, "1-3 batches of 1-8 items (failing ones included) on an asio server with 1-5 well-behaved clients, all serialization modes; non-trivial: more than one client or a failing item") {
	Plan p = gen_plan(c, false, false);
	c.note(show(p));
	bool f = p.clients > 1; for (auto &b: p.batches) for (auto &i: b.items) f |= i.mode != OK;
	if (f) c.nontrivial();
	in_child(c, 60, [&](Out &o) { run_plan(p, o); });
}
PROP("C21", beast_clean, 60, 1500, 8, "the same on a websocket server") {
	Plan p = gen_plan(c, true, false);
	c.note(show(p));
	bool f = p.clients > 1; for (auto &b: p.batches) for (auto &i: b.items) f |= i.mode != OK;
	if (f) c.nontrivial();
	in_child(c, 60, [&](Out &o) { run_plan(p, o); });
}
PROP("C21", asio_rogue, 100, 3000, 8, "batches on an asio server with 1-3 well-behaved clients while up to 6 other clients per batch vanish, stall, send garbage, truncated messages, wrong or repeated results; the batches have to be completed all the same; always non-trivial") {
	Plan p = gen_plan(c, false, true);
	c.note(show(p)); c.nontrivial();
	in_child(c, 60, [&](Out &o) { run_plan(p, o); });
}
PROP("C21", beast_rogue, 100, 3000, 8, "the same on a websocket server, including broken handshakes, frames and control frames and clients that never answer the closing handshake") {
	Plan p = gen_plan(c, true, true);
	c.note(show(p)); c.nontrivial();
	in_child(c, 60, [&](Out &o) { run_plan(p, o); });
}

namespace {
// starts a server; 0 if there is no port for it
unsigned short start(Plan const &p, std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>> &consumer, Out &o) {
	unsigned short port = 0;
	for (int k = 0; k < 50 && !port; k++) { unsigned short q = (unsigned short)(10000 + ((unsigned)::getpid() * 13u + (unsigned)k * 1009u) % 22000u); if (port_is_free(q)) port = q; }
	if (!port) { o.label("no free port"); return 0; }
	SMode sm = p.smode == 0 ? SMode::TEXT : p.smode == 1 ? SMode::XML : SMode::BINARY;
	consumer = make_consumer(p, port, (int)sm);
	try { GBROKER(HWork)->enrol_consumer(consumer); }
	catch (gemfony_exception &) { o.label("port taken"); return 0; }
	return port;
}
struct Watched { std::shared_ptr<Client> cl; std::atomic<int> done{0}; };
Watched &run_watched(std::shared_ptr<Client> cl) {
	Watched &w = *new Watched; // lives as long as the process
	w.cl = cl;
	std::thread([&w]() { try { w.cl->run(); } catch (...) {} w.done++; }).detach();
	return w;
}
std::vector<Ptr> make_batch(std::vector<Item> const &v, int &next) {
	std::vector<Ptr> items;
	for (auto const &ip: v) {
		Ptr w(new HWork()); w->uid = next++; w->mode = ip.mode; w->sleep_us = ip.sleep_us; w->payload = ip.payload; w->text = ip.text;
		w->mark(processingStatus::DO_PROCESS);
		items.push_back(w);
	}
	return items;
}
void all_done(std::vector<Ptr> const &items, std::vector<Item> const &v, int first) {
	CREQ(items.size() == v.size(), "the size of the batch changed");
	for (std::size_t i = 0; i < items.size(); i++) {
		CREQ(items[i] && items[i]->uid == first + (int)i, "wrong item at position ", i);
		if (v[i].mode == OK) CREQ(items[i]->is_processed() && items[i]->getStoredResult() == items[i]->expected(), "item ", items[i]->uid, " has status ", status_of(items[i]));
		else CREQ(items[i]->has_errors(), "failing item ", items[i]->uid, " has status ", status_of(items[i]));
	}
}
} // namespace

PROP("C21", producer_leaves, 40, 1000, 8, "a producer gives up on 1-4 slow items that well-behaved clients are still working on and goes away; the clients stay available for the 1-3 batches of the next producer; non-trivial: a client was at work when the producer left") {
	Plan p;
	p.beast = c.flip(); p.smode = (int)c.range(0, 2); p.threads = (int)c.range(1, 2); p.ping = 15; p.clients = (int)c.range(1, 3);
	std::vector<Item> slow;
	std::size_t n = c.size(1, 4);
	for (std::size_t i = 0; i < n; i++) { Item it = gen_item(c, true); it.sleep_us = (int)c.range(20000, 60000); slow.push_back(it); }
	std::vector<std::vector<Item>> later;
	std::size_t nb = c.size(1, 3);
	for (std::size_t b = 0; b < nb; b++) { later.emplace_back(); std::size_t m = c.size(1, 6); for (std::size_t i = 0; i < m; i++) later.back().push_back(gen_item(c, true)); }
	int stay = (int)c.range(0, 60000);
	c.note(p.beast ? "websocket" : "asio", " mode ", p.smode, " clients ", p.clients, " slow items ", n, " the producer leaves after ", stay, " us, ", nb, " batches follow");
	in_child(c, 30, [&](Out &o) {
		std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>> consumer;
		if (!start(p, consumer, o)) return;
		std::vector<Watched *> cl;
		for (int k = 0; k < p.clients; k++) cl.push_back(&run_watched(consumer->getClient()));
		int next = 1;
		{
			BExec ex; // an executor whose time is up after a first, quick item
			ex.setWaitFactor(0.5);
			ex.init();
			std::vector<Item> first_b{Item{OK, 0, {}, ""}};
			auto it = make_batch(first_b, next);
			ex.workOn(it, false);
			auto s = make_batch(slow, next);
			ex.workOn(s, false);
			nap(stay);
			ex.finalize();
		}
		int busy_n = 0;
		for (int u = 1; u < next; u++) busy_n += busy()[u] > 0;
		if (busy_n) o.label("client at work");
		for (auto const &v: later) {
			BExec ex;
			ex.setWaitFactor(0.);
			ex.init();
			int f = next;
			auto it = make_batch(v, next);
			auto st = ex.workOn(it, false);
			CREQ(st.is_complete, "the batch is incomplete");
			all_done(it, v, f);
			for (auto w: cl) CREQ(w->done == 0, "a well-behaved client has ended early");
			ex.finalize();
		}
		consumer->shutdown();
	});
	if (c.labelled("client at work")) c.nontrivial();
}
PROP("C21", limited_clients, 40, 1000, 8, "1-4 clients that may process 1-3 items (or run for a limited time) each and enough items for all of them: a client never processes more than that and ends in time; non-trivial: a limit was reached") {
	Plan p;
	p.beast = c.flip(); p.smode = (int)c.range(0, 2); p.threads = (int)c.range(1, 2); p.ping = 15;
	std::vector<int> limits, ms;
	std::size_t n = c.size(1, 4);
	for (std::size_t i = 0; i < n; i++) { if (c.chance(3, 4)) { limits.push_back((int)c.range(1, 3)); ms.push_back(0); } else { limits.push_back(0); ms.push_back((int)c.range(10, 100)); } }
	std::vector<Item> v;
	for (int i = 0; i < 600; i++) { Item it{OK, 1000, {}, ""}; v.push_back(it); } // more than all of the clients together can manage in the time they have
	int fails = (int)c.range(0, 2);
	for (int i = 0; i < 600; i++) if (fails && i % 3 == 0) v[i].mode = 1 + i % 4;
	std::string d; for (std::size_t i = 0; i < n; i++) d += limits[i] ? std::to_string(limits[i]) + " " : std::to_string(ms[i]) + "ms ";
	c.note(p.beast ? "websocket" : "asio", " mode ", p.smode, " limits ", d, fails ? " with failing items" : "");
	in_child(c, 30, [&](Out &o) {
		std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>> consumer;
		if (!start(p, consumer, o)) return;
		std::string &broken = *new std::string;
		std::thread([&v, &broken]() { // results that are not sent any more are lost, hence the batch need not return
			int next = 1;
			BExec &ex = *new BExec;
			ex.setWaitFactor(0.);
			ex.init();
			std::vector<Ptr> &it = *new std::vector<Ptr>(make_batch(v, next));
			try { ex.workOn(it, false); broken = "returned"; } catch (gemfony_exception &e) { broken = std::string(e.what()).substr(0, 400); } catch (std::exception &e) { broken = e.what(); }
			for (;;) nap(1000000);
		}).detach();
		std::vector<Watched *> cl;
		for (std::size_t k = 0; k < limits.size(); k++) {
			auto x = consumer->getClient();
			if (limits[k]) x->setProcessMax((std::uint32_t)limits[k]);
			else x->setMaxTime(std::chrono::duration<double>(ms[k] / 1000.));
			cl.push_back(&run_watched(x));
		}
		auto t0 = Clock::now();
		for (std::size_t k = 0; k < cl.size(); k++) {
			while (cl[k]->done == 0 && Clock::now() - t0 < std::chrono::seconds(15)) nap(1000);
			CREQ(cl[k]->done, "client ", k, " (limit ", limits[k], " items / ", ms[k], " ms) has processed ", cl[k]->cl->getNProcessed(), " items and still runs after 15 s; submission: ", broken);
			if (limits[k]) { CREQ((int)cl[k]->cl->getNProcessed() == limits[k], "client ", k, " has processed ", cl[k]->cl->getNProcessed(), " items instead of ", limits[k]); o.label("limit reached"); }
		}
		consumer->shutdown();
	});
	if (c.labelled("limit reached")) c.nontrivial();
}

PROP("C21", server_dies, 40, 1000, 8, "1-4 clients are being served when the server process is killed at an arbitrary time: every client ends in order and in time; non-trivial: items had been processed before") {
	Plan p;
	p.beast = c.flip(); p.smode = (int)c.range(0, 2); p.threads = (int)c.range(1, 3); p.ping = 15; p.clients = (int)c.range(1, 4);
	int when = (int)c.range(0, 250000), sl = c.chance(1, 2) ? 0 : (int)c.range(0, 3000);
	std::size_t big = c.chance(1, 3) ? c.size(1000, 60000) : 0;
	c.note(p.beast ? "websocket" : "asio", " mode ", p.smode, " clients ", p.clients, " server killed after ", when, " us, items take ", sl, " us, text of ", big);
	in_child(c, 40, [&](Out &o) {
		int fd[2];
		CREQ(::pipe(fd) == 0, "pipe");
		pid_t server = ::fork();
		if (server == 0) {
			::prctl(PR_SET_PDEATHSIG, SIGKILL);
			std::shared_ptr<Gem::Courtier::GBaseConsumerT<HWork>> consumer;
			Out dummy;
			unsigned short port = start(p, consumer, dummy);
			if (::write(fd[1], &port, sizeof port) < 0) ::_exit(1);
			std::vector<Item> v(200, Item{OK, sl, {}, std::string(big, 'a')});
			BExec ex;
			ex.setWaitFactor(0.);
			ex.init();
			for (;;) { int next = 1; auto it = make_batch(v, next); ex.workOn(it, false); }
		}
		::close(fd[1]);
		unsigned short port = 0;
		if (::read(fd[0], &port, sizeof port) != (ssize_t)sizeof port || port == 0) { o.label("no port"); return; }
		SMode sm = p.smode == 0 ? SMode::TEXT : p.smode == 1 ? SMode::XML : SMode::BINARY;
		auto consumer = make_consumer(p, port, (int)sm); // only asked for clients
		struct W { std::shared_ptr<Client> cl; std::atomic<int> done{0}; std::string why; };
		std::vector<W *> cl;
		for (int k = 0; k < p.clients; k++) {
			W *w = new W;
			w->cl = consumer->getClient();
			cl.push_back(w);
			std::thread([w]() {
				try { w->cl->run(); }
				catch (gemfony_exception &e) { w->why = "gemfony_exception " + std::string(e.what()).substr(0, 300); }
				catch (std::exception &e) { w->why = "exception " + std::string(e.what()).substr(0, 300); }
				catch (...) { w->why = "unknown exception"; }
				w->done++;
			}).detach();
		}
		nap(when);
		std::uint32_t n = 0;
		for (auto w: cl) { n += w->cl->getNProcessed(); CREQ(w->done == 0, "a client has ended although the server is alive: ", w->why); }
		if (n) o.label("items processed");
		::kill(server, SIGKILL);
		::waitpid(server, nullptr, 0);
		auto t0 = Clock::now();
		for (auto w: cl) {
			while (w->done == 0 && Clock::now() - t0 < std::chrono::seconds(25)) nap(1000);
			CREQ(w->done, "a client still runs 25 s after the server was killed");
			CREQ(w->why.empty(), "a client has ended with an exception when the server was killed: ", w->why);
		}
	});
	if (c.labelled("items processed")) c.nontrivial();
}

PROP("C21", server_restart, 24, 600, 8, "a server with connected clients is killed and started again on the same port: it is available at once and new clients are served; always non-trivial") {
	Plan p;
	p.beast = c.flip(); p.smode = (int)c.range(0, 2); p.threads = (int)c.range(1, 2); p.ping = 15; p.clients = (int)c.range(1, 4);
	int when = (int)c.range(20000, 200000);
	c.note(p.beast ? "websocket" : "asio", " mode ", p.smode, " clients ", p.clients, " server killed after ", when, " us");
	in_child(c, 40, [&](Out &o) {
		unsigned short port = 0;
		for (int k = 0; k < 50 && !port; k++) { unsigned short q = (unsigned short)(10000 + ((unsigned)::getpid() * 13u + (unsigned)k * 1009u) % 22000u); if (port_is_free(q)) port = q; }
		if (!port) { o.label("no free port"); return; }
		SMode sm = p.smode == 0 ? SMode::TEXT : p.smode == 1 ? SMode::XML : SMode::BINARY;
		for (int round = 0; round < 2; round++) {
			int fd[2];
			CREQ(::pipe(fd) == 0, "pipe");
			pid_t server = ::fork();
			if (server == 0) {
				::prctl(PR_SET_PDEATHSIG, SIGKILL);
				auto k = make_consumer(p, port, (int)sm);
				char ok = 'y';
				try { GBROKER(HWork)->enrol_consumer(k); } catch (...) { ok = 'n'; }
				if (::write(fd[1], &ok, 1) < 0 || ok == 'n') ::_exit(1);
				std::vector<Item> v(200, Item{OK, 0, {}, ""});
				BExec ex;
				ex.setWaitFactor(0.);
				ex.init();
				for (;;) { int next = 1; auto it = make_batch(v, next); ex.workOn(it, false); }
			}
			::close(fd[1]);
			char ok = 0;
			CREQ(::read(fd[0], &ok, 1) == 1, "no answer from the server process");
			::close(fd[0]);
			if (round == 0 && ok != 'y') { o.label("port taken"); return; }
			CREQ(ok == 'y', "the server could not be started again on its port");
			// the clients of the first round run in a process of their own, which survives the server for a moment
			pid_t cp = ::fork();
			if (cp == 0) {
				::prctl(PR_SET_PDEATHSIG, SIGKILL);
				auto k = make_consumer(p, port, (int)sm);
				std::vector<Watched *> cl;
				for (int i = 0; i < p.clients; i++) cl.push_back(&run_watched(k->getClient()));
				auto t0 = Clock::now();
				bool all = false;
				while (!all && Clock::now() - t0 < std::chrono::seconds(20)) { all = true; for (auto w: cl) all &= w->cl->getNProcessed() > 0; nap(1000); }
				if (round == 0) nap(when);
				::_exit(all ? 0 : 7);
			}
			int st = 0;
			if (round == 0) { nap(when); ::kill(server, SIGKILL); ::waitpid(server, nullptr, 0); }
			else { ::waitpid(cp, &st, 0); ::kill(server, SIGKILL); ::waitpid(server, nullptr, 0); CREQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "clients of the new server got no work"); }
		}
	});
	c.nontrivial();
}
PBT_MAIN
