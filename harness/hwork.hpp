// A light work item and the machinery to run one generated scenario in a child process of its own
// (the broker is a singleton that takes its consumers once per process, and a hang or a crash is
// one of the things that are being looked for).
#pragma once
#include "pbt.hpp"
#include "child.hpp"
#include <boost/serialization/export.hpp>
#include "common/GCommonEnums.hpp"
#include "common/GSerializationHelperFunctionsT.hpp"
#include "courtier/GProcessingContainerT.hpp"

namespace HW {

enum Mode { OK = 0, THROW_STD = 1, THROW_GEM = 2, FLAG = 3, THROW_ODD = 4 };

static const int MAXID = 1 << 16;
inline std::atomic<int> *cnt() { static std::atomic<int> c[MAXID]; return c; }   // completed or attempted process_() calls
inline std::atomic<int> *busy() { static std::atomic<int> c[MAXID]; return c; }  // currently inside process_()
inline std::atomic<int> &clashes() { static std::atomic<int> c{0}; return c; }

class HWork : public Gem::Courtier::GProcessingContainerT<HWork, double> {
	friend class boost::serialization::access;
	template<typename Archive> void serialize(Archive &ar, const unsigned int) {
		using boost::serialization::make_nvp;
		ar & make_nvp("GProcessingContainerT", boost::serialization::base_object<Gem::Courtier::GProcessingContainerT<HWork, double>>(*this))
		   & BOOST_SERIALIZATION_NVP(uid) & BOOST_SERIALIZATION_NVP(batch) & BOOST_SERIALIZATION_NVP(owner) & BOOST_SERIALIZATION_NVP(mode)
		   & BOOST_SERIALIZATION_NVP(sleep_us) & BOOST_SERIALIZATION_NVP(payload) & BOOST_SERIALIZATION_NVP(text);
	}
public:
	HWork() = default;
	HWork(const HWork &) = default;
	~HWork() override = default;
	double expected() const {
		double r = 0.5 * uid;
		for (std::size_t i = 0; i < payload.size(); i++) r += payload[i] * double(i + 1);
		return r;
	}
	void mark(Gem::Courtier::processingStatus s) { this->set_processing_status(s); }
	int uid = 0, batch = 0, owner = 0, mode = 0, sleep_us = 0;
	std::vector<double> payload;
	std::string text;
private:
	void process_() override {
		if (busy()[uid]++ != 0) clashes()++;
		cnt()[uid]++;
		if (sleep_us > 0) std::this_thread::sleep_for(std::chrono::microseconds(sleep_us));
		busy()[uid]--;
		switch (mode) {
			case OK: this->registerResult(0, this->expected()); return;
			case THROW_STD: throw std::runtime_error("item " + std::to_string(uid) + " failed");
			case THROW_GEM: throw gemfony_exception("item " + std::to_string(uid) + " failed");
			case FLAG: this->registerResult(0, this->expected()); this->force_set_error("item " + std::to_string(uid) + " failed"); return;
			default: throw 42;
		}
	}
};

} // namespace HW

BOOST_CLASS_EXPORT_KEY(HW::HWork)
