// C22: messages between server and clients
#include "hwork.hpp"
#include "courtier/GCommandContainerT.hpp"
#include <sys/resource.h>
BOOST_CLASS_EXPORT_IMPLEMENT(HW::HWork)
using namespace HW;
using Gem::Courtier::processingStatus;
using Cmd = Gem::Courtier::networked_consumer_payload_command;
using Msg = Gem::Courtier::GCommandContainerT<HWork, Cmd>;
using Mode_ = Gem::Common::serializationMode;
using Ptr = std::shared_ptr<HWork>;

namespace {
const char *alphabet = "abc XYZ<>&\"'\\/;:0123456789.\n\t-+_";

double any_double(pbt::Ctx &c) {
	switch (c.weighted({4, 2, 1, 1, 1, 1})) {
		case 0: return c.nice_double();
		case 1: { uint64_t u = c.raw(0); double d; std::memcpy(&d, &u, 8); return std::isfinite(d) ? d : 0.5; }
		case 2: return -0.;
		case 3: return std::numeric_limits<double>::infinity();
		case 4: return std::numeric_limits<double>::denorm_min() * (double)c.range(1, 100);
		default: return -std::numeric_limits<double>::max();
	}
}
struct W : HWork { using HWork::force_set_error; };

Ptr gen_work(pbt::Ctx &c) {
	Ptr w(new HWork());
	w->uid = (int)c.range(0, 1000);
	w->batch = (int)c.range(-5, 1000000);
	w->owner = (int)c.raw(5);
	std::size_t n = c.size(0, 12);
	for (std::size_t i = 0; i < n; i++) w->payload.push_back(any_double(c));
	w->text = c.text(alphabet, 0, 40);
	w->setBufferId((Gem::Courtier::BUFFERPORT_ID_TYPE)c.raw(100000));
	w->setCollectionPosition((Gem::Courtier::COLLECTION_POSITION_TYPE)c.raw(100000));
	w->setIterationCounter((Gem::Courtier::ITERATION_COUNTER_TYPE)c.raw(100000));
	w->setResubmissionCounter((Gem::Courtier::RESUBMISSION_COUNTER_TYPE)c.raw(10));
	w->vetoPreProcessing(c.flip());
	w->vetoPostProcessing(c.flip());
	int st = (int)c.weighted({2, 2, 2, 1, 1});
	if (st >= 1) w->mark(processingStatus::DO_PROCESS);
	if (st >= 2) {
		w->mode = st == 2 ? OK : st == 3 ? (int)c.range(1, 2) : FLAG;
		try { w->process(); } catch (Gem::Courtier::g_processing_exception &) {}
		w->mode = (int)c.raw(3);
	}
	return w;
}
bool same_d(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
std::string diff(HWork const &a, HWork const &b) {
#define CMP(X) if (!(a.X == b.X)) return #X;
	CMP(uid) CMP(batch) CMP(owner) CMP(mode) CMP(text) CMP(getBufferId()) CMP(getCollectionPosition()) CMP(getIterationCounter()) CMP(getResubmissionCounter())
	CMP(mayBePreProcessed()) CMP(mayBePostProcessed()) CMP(getProcessingStatus()) CMP(getStoredErrorDescriptions()) CMP(getCurrentEvaluationID()) CMP(getNStoredResults())
	CMP(getProcessingTimes())
#undef CMP
	if (a.payload.size() != b.payload.size()) return "payload size";
	for (std::size_t i = 0; i < a.payload.size(); i++) if (!same_d(a.payload[i], b.payload[i])) return "payload";
	if (a.is_processed() && !same_d(a.getStoredResult(), b.getStoredResult())) return "result";
	return "";
}
Cmd gen_cmd(pbt::Ctx &c) { return (Cmd)c.range(0, 5); }
Mode_ gen_mode(pbt::Ctx &c) { return c.pick<Mode_>({Mode_::TEXT, Mode_::XML, Mode_::BINARY}); }
void limit_memory() { rlimit r{6ull << 30, 6ull << 30}; ::setrlimit(RLIMIT_AS, &r); }
// a container that already holds something
void prefill(pbt::Ctx &c, Msg &m) {
	int k = (int)c.raw(3);
	if (k == 1) m.reset(gen_cmd(c));
	else if (k == 2) m.reset(gen_cmd(c), gen_work(c));
}
} // namespace

PROP("C22", round_trip, 20000, 400000, 8, "a message with any command, none or one work item in any processing state, in one of three formats, decoded into a container that already holds something; non-trivial: with a work item") {
	Cmd cmd = gen_cmd(c);
	Mode_ mode = gen_mode(c);
	Ptr w;
	if (!c.chance(1, 5)) w = gen_work(c);
	Msg m(cmd, w), r;
	prefill(c, r);
	if (w) c.nontrivial();
	c.note("command ", (int)cmd, " format ", (int)mode, w ? " with item, " + std::to_string(w->payload.size()) + " values, status " + w->getProcessingStatusAsStr() : " without item");
	std::string s = Gem::Courtier::container_to_string(m, mode);
	REQ(m.get_command() == cmd && m.get_payload() == w, "encoding changed the message");
	Gem::Courtier::container_from_string(s, r, mode);
	REQ(r.get_command() == cmd, "command ", (int)r.get_command(), " instead of ", (int)cmd);
	REQ((bool)r.get_payload() == (bool)w, "a work item appeared or disappeared");
	if (w) {
		REQ(r.get_payload() != w, "the decoded item is the encoded one");
		std::string d = diff(*w, *r.get_payload());
		REQ(d.empty(), "the decoded item differs in ", d);
	}
	// the encoding of the decoded message decodes to the same again, and works in the other formats
	Mode_ mode2 = gen_mode(c);
	Msg r2;
	Gem::Courtier::container_from_string(Gem::Courtier::container_to_string(r, mode2), r2, mode2);
	REQ(r2.get_command() == cmd && (bool)r2.get_payload() == (bool)w, "second round");
	if (w) { std::string d = diff(*w, *r2.get_payload()); REQ(d.empty(), "after the second round the item differs in ", d); }
}

// decode, then use what came out the way server and client do
static void try_decode(pbt::Ctx &c, std::string const &s, Mode_ mode, bool must_fail) {
	Msg m;
	prefill(c, m);
	auto before = m.get_payload();
	bool threw = false;
	try { Gem::Courtier::container_from_string(s, m, mode); } catch (std::exception const &) { threw = true; }
	if (threw) {
		c.label("rejected");
		REQ(m.get_payload() != before || !before, "the container still holds the earlier item after a message was rejected");
	} else {
		c.label("accepted");
		REQ(!must_fail, "a malformed message was accepted");
		REQ(m.get_payload() != before || !before, "the container still holds the earlier item");
		if (m.get_payload()) {
			int ps = (int)m.get_payload()->getProcessingStatus();
			(void)ps;
			std::string again = Gem::Courtier::container_to_string(m, mode);
			Msg m2;
			Gem::Courtier::container_from_string(again, m2, mode);
		}
	}
}

PROP("C22", truncated, 20000, 300000, 8, "a valid message cut off at any place; non-trivial: cut inside the data") {
	Mode_ mode = gen_mode(c);
	Msg m(gen_cmd(c), c.chance(1, 4) ? Ptr() : gen_work(c));
	std::string s = Gem::Courtier::container_to_string(m, mode);
	std::size_t n = c.size(0, s.size() - 1);
	c.note("format ", (int)mode, " cut at ", n, " of ", s.size());
	c.nontrivial();
	limit_memory();
	// the last bytes of a text may be redundant; everything else is needed
	try_decode(c, s.substr(0, n), mode, n + 60 < s.size() && m.get_payload());
}

PROP("C22", foreign, 12000, 200000, 8, "something that is no message in the expected format: a message in another format, whole or cut off, arbitrary bytes or text, or nothing; non-trivial: a message with an item in another format") {
	Mode_ mode = gen_mode(c);
	std::string s;
	switch (c.weighted({3, 2, 2, 1})) {
		case 0: {
			Mode_ other = gen_mode(c);
			if (other == mode) c.discard();
			Msg m(gen_cmd(c), c.chance(1, 4) ? Ptr() : gen_work(c));
			s = Gem::Courtier::container_to_string(m, other);
			if (c.chance(1, 4)) s.resize(c.size(0, s.size()));
			if (m.get_payload()) c.nontrivial();
			break;
		}
		case 1: { std::size_t n = c.size(0, 200); for (std::size_t i = 0; i < n; i++) s += (char)c.raw(256); break; }
		case 2: s = c.text(alphabet, 0, 200); break;
		default: break;
	}
	{ std::ostringstream o; for (unsigned char ch: s.substr(0, 150)) o << std::hex << (int)ch << ' '; c.note("format ", (int)mode, ": ", o.str()); }
	limit_memory();
	try_decode(c, s, mode, true);
}

PBT_MAIN
