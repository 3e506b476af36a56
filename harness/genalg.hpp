// Optimisation algorithms with random settings and populations, and a dump of what is observable about them.
#pragma once
#include "gen.hpp"
#include "geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp"
#include "geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp"
#include "geneva/G_OptimizationAlgorithm_GradientDescent.hpp"
#include "geneva/G_OptimizationAlgorithm_ParameterScan.hpp"

namespace H {
using OA = gg::G_OptimizationAlgorithm_Base;
using OAP = std::shared_ptr<OA>;
using EA = gg::GEvolutionaryAlgorithm;
using SA = gg::GSimulatedAnnealing;
using SW = gg::GSwarmAlgorithm;
using GD = gg::GGradientDescent;
using PS = gg::GParameterScan;

inline const char *alg_name(int k) { static const char *n[] = {"EA", "SA", "SWARM", "GD", "PS"}; return n[k]; }
inline OAP make_alg(int kind) {
	switch (kind) {
		case 0: return std::make_shared<EA>();
		case 1: return std::make_shared<SA>();
		case 2: return std::make_shared<SW>();
		case 3: return std::make_shared<GD>();
		default: return std::make_shared<PS>();
	}
}
using OAVec = gc::GPtrVectorT<gg::GParameterSet, gg::GObject>;

inline std::string dump_alg_settings(OA const &a) {
	std::ostringstream o;
	bool f = false, t = false;
	double q = a.getQualityThreshold(f);
	std::string tf = a.getTerminationFile(t);
	o << a.name() << "\ncpi=" << a.getCheckpointInterval() << " cpb=" << a.getCheckpointBaseName() << " cpd=" << a.getCheckpointDirectory() << " cpm=" << (int)a.getCheckpointSerializationMode()
	  << "\ndps=" << a.getDefaultPopulationSize() << " maxit=" << a.getMaxIteration() << " minit=" << a.getMinIteration() << " maxst=" << a.getMaxStallIteration()
	  << " maxt=" << num(a.getMaxTime().count()) << " mint=" << num(a.getMinTime().count()) << " q=" << f << "," << num(q) << " tf=" << tf << "," << t
	  << " rep=" << a.getReportIteration() << " sct=" << a.getStallCounterThreshold() << " emit=" << a.getEmitTerminationReason() << " hasom=" << a.hasPluggableOptimizationMonitors();
	if (auto p = dynamic_cast<gg::G_OptimizationAlgorithm_ParChild const *>(&a))
		o << "\nnp=" << p->getNParents() << " dch=" << p->getDefaultNChildren() << " rec=" << (int)p->getRecombinationMethod() << " gr=" << p->getGrowthRate() << " mps=" << p->getMaxPopulationSize() << " am=" << num(p->getAmalgamationLikelihood());
	if (auto p = dynamic_cast<EA const *>(&a)) o << "\nsort=" << (int)p->getSortingScheme() << " nt=" << p->getNThreads();
	if (auto p = dynamic_cast<SA const *>(&a)) o << "\nal=" << num(p->getTDegradationStrength()) << " t0=" << num(p->getT0()) << " nt=" << p->getNThreads();
	if (auto p = dynamic_cast<SW const *>(&a)) {
		o << "\ncp=" << num(p->getCPersonal()) << " cn=" << num(p->getCNeighborhood()) << " cg=" << num(p->getCGlobal()) << " cv=" << num(p->getCVelocity()) << " vr=" << num(p->getVelocityRangePercentage())
		  << " nn=" << p->getNNeighborhoods() << " dm=" << p->getDefaultNNeighborhoodMembers() << " ur=" << (int)p->getUpdateRule() << " rt=" << p->getRepulsionThreshold();
	}
	if (auto p = dynamic_cast<GD const *>(&a)) o << "\nnsp=" << p->getNStartingPoints() << " fs=" << num(p->getFiniteStep()) << " ss=" << num(p->getStepSize());
	if (auto p = dynamic_cast<PS const *>(&a)) o << "\nnmi=" << p->getNMonitorInds() << " nss=" << p->getNSimpleScans() << " sr=" << p->getScanRandomly();
	return o.str();
}
inline std::string dump_alg_state(OA const &a) {
	std::ostringstream o;
	OAVec const &v = a;
	o << "\nit=" << a.getIteration() << " stall=" << a.getStallCounter() ;
	auto pair = [&](const char *n, auto f) { try { auto t = f(); o << n << num(std::get<0>(t)) << "," << num(std::get<1>(t)); } catch (gemfony_exception &) { o << n << "none"; } };
	pair(" bk=", [&]() { return a.getBestKnownPrimaryFitness(); });
	pair(" bc=", [&]() { return a.getBestCurrentPrimaryFitness(); });
	if (auto p = dynamic_cast<SA const *>(&a)) o << " T=" << num(p->getT());
	if (auto p = dynamic_cast<PS const *>(&a)) o << " nsp=" << p->getNScansPerformed();
	auto &b = const_cast<OA &>(a);
	auto bests = [&](const char *n, bool global) {
		o << "\n" << n << ":";
		try {
			auto w = global ? b.template getBestGlobalIndividuals<gg::GParameterSet>() : b.template getBestIterationIndividuals<gg::GParameterSet>();
			for (auto &x: w) o << "\n" << dump(*x);
		} catch (gemfony_exception &) { o << " none"; }
	};
	bests("global bests", true); bests("iteration bests", false);
	o << "\npopulation " << v.size();
	for (auto const &x: v) o << "\n" << dump(*x);
	return o.str();
}
inline std::string dump(OA const &a) { return dump_alg_settings(a) + dump_alg_state(a); }

// one random change of a setting; returns its name.  Values are valid for every state of the object.
inline std::string alg_set_random(pbt::Ctx &c, OA &a, bool population = true) {
	auto pc = dynamic_cast<gg::G_OptimizationAlgorithm_ParChild *>(&a);
	auto ea = dynamic_cast<EA *>(&a);
	auto sa = dynamic_cast<SA *>(&a);
	auto sw = dynamic_cast<SW *>(&a);
	auto gd = dynamic_cast<GD *>(&a);
	auto ps = dynamic_cast<PS *>(&a);
	using F = std::pair<const char *, std::function<void()>>;
	std::vector<F> f{
		{"cpinterval", [&]() { a.setCheckpointInterval((std::int32_t)c.range(-1, 9)); }},
		{"cpbase", [&]() { a.setCheckpointBaseName(std::string("/tmp"), "cp_" + c.text("abc", 1, 4)); }},
		{"cpmode", [&]() { a.setCheckpointSerializationMode(c.pick<gc::serializationMode>({gc::serializationMode::TEXT, gc::serializationMode::XML, gc::serializationMode::BINARY})); }},
		{"miniter0", [&]() { a.setMinIteration(0); a.setMaxIteration((std::uint32_t)c.range(1, 2000)); }},
		{"miniter", [&]() { a.setMinIteration(0); auto m = (std::uint32_t)c.range(10, 2000); a.setMaxIteration(m); a.setMinIteration((std::uint32_t)c.range(0, 9)); }},
		{"maxstall", [&]() { a.setMaxStallIteration((std::uint32_t)c.range(0, 50)); }},
		{"times", [&]() { a.setMinTime(std::chrono::duration<double>(0.)); a.setMaxTime(std::chrono::duration<double>(c.pick<double>({0.25, 3., 1000.5}))); if (c.flip()) a.setMinTime(std::chrono::duration<double>(0.125)); }},
		{"quality", [&]() { a.setQualityThreshold(c.nice_double(), c.flip()); }},
		{"termfile", [&]() { a.setTerminationFile("tf_" + c.text("xyz", 1, 3), c.flip()); }},
		{"report", [&]() { a.setReportIteration((std::uint32_t)c.range(1, 9)); }},
		{"sct", [&]() { a.setStallCounterThreshold((std::uint32_t)c.range(0, 50)); }},
		{"emit", [&]() { a.setEmitTerminationReason(c.flip()); }},
	};
	if (pc) {
		if (population) f.push_back({"popsizes", [&]() { std::size_t np = c.size(1, 4); std::size_t nc = np * c.size(1, 4) + c.size(0, 3); pc->setPopulationSizes(np + nc, np); }});
		f.push_back({"recomb", [&]() { pc->setRecombinationMethod(c.pick<gg::duplicationScheme>({gg::duplicationScheme::DEFAULTDUPLICATIONSCHEME, gg::duplicationScheme::RANDOMDUPLICATIONSCHEME, gg::duplicationScheme::VALUEDUPLICATIONSCHEME})); }});
		f.push_back({"growth", [&]() { pc->setPopulationGrowth(c.size(0, 3), c.size(50, 60)); }});
		f.push_back({"amalg", [&]() { pc->setAmalgamationLikelihood(c.unit()); }});
	}
	if (ea) {
		f.push_back({"sort", [&]() { ea->setSortingScheme(c.pick<gg::sortingMode>({gg::sortingMode::MUPLUSNU_SINGLEEVAL, gg::sortingMode::MUCOMMANU_SINGLEEVAL, gg::sortingMode::MUNU1PRETAIN_SINGLEEVAL, gg::sortingMode::MUPLUSNU_PARETO, gg::sortingMode::MUCOMMANU_PARETO})); }});
		f.push_back({"nthr", [&]() { ea->setNThreads((std::uint16_t)c.range(1, 9)); }});
	}
	if (sa) {
		f.push_back({"alpha", [&]() { sa->setTDegradationStrength(c.real(0.01, 1.5)); }});
		f.push_back({"t0", [&]() { sa->setT0(c.real(0.5, 2000.)); }});
		f.push_back({"nthr", [&]() { sa->setNThreads((std::uint16_t)c.range(1, 9)); }});
	}
	if (sw) {
		if (population) f.push_back({"swarmsizes", [&]() { sw->setSwarmSizes(c.size(1, 4), c.size(2, 5)); }});
		f.push_back({"cpers", [&]() { sw->setCPersonal(c.real(0., 2.)); }});
		f.push_back({"cneigh", [&]() { sw->setCNeighborhood(c.real(0., 2.)); }});
		f.push_back({"cglob", [&]() { sw->setCGlobal(c.real(0., 2.)); }});
		f.push_back({"cvel", [&]() { sw->setCVelocity(c.real(0., 2.)); }});
		f.push_back({"vrange", [&]() { sw->setVelocityRangePercentage(c.real(0.01, 1.)); }});
		f.push_back({"rule", [&]() { sw->setUpdateRule(c.flip() ? gg::updateRule::SWARM_UPDATERULE_LINEAR : gg::updateRule::SWARM_UPDATERULE_CLASSIC); }});
		f.push_back({"rthr", [&]() { sw->setRepulsionThreshold((std::uint32_t)c.range(0, 30)); }});
	}
	if (gd) {
		if (population) f.push_back({"nsp", [&]() { gd->setNStartingPoints(c.size(1, 5)); }});
		f.push_back({"fs", [&]() { gd->setFiniteStep(c.real(0.001, 0.5)); }});
		f.push_back({"ss", [&]() { gd->setStepSize(c.real(0.001, 0.5)); }});
	}
	if (ps) {
		f.push_back({"nmi", [&]() { ps->setNMonitorInds(c.size(1, 9)); }});
		f.push_back({"nss", [&]() { ps->setNSimpleScans(c.size(0, 9)); }});
		f.push_back({"scanr", [&]() { ps->setScanRandomly(c.flip()); }});
	}
	auto const &x = f[c.raw(f.size())];
	x.second();
	return x.first;
}
} // namespace H
