// C11 (bounded parameters) and C12 (adaptors)
#define INDIV_IMPL
#include "gen.hpp"
using namespace H;

// ------------------------------------------------------------------------------- fixed-step adaptors
// They move a value by a step that the harness chooses, so that the effect of an adaption is known.
struct FixD : gg::GDoubleGaussAdaptor {
	double d = 0.;
	FixD() { setAdaptionMode(gg::adaptionMode::ALWAYS); setAdaptAdProb(0.); }
	FixD(FixD const &) = default;
	void customAdaptions(double &v, double const &, Gem::Hap::GRandomBase &) override { v += d; }
	void load_(gg::GObject const *cp) override { gg::GDoubleGaussAdaptor::load_(cp); d = dynamic_cast<FixD const *>(cp)->d; }
	gg::adaptorId getAdaptorId_() const override { return gg::adaptorId(99); }
	gg::GObject *clone_() const override { return new FixD(*this); }
	template<typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<gg::GDoubleGaussAdaptor>(*this)) & BOOST_SERIALIZATION_NVP(d); }
};
BOOST_CLASS_EXPORT(FixD)
struct FixI : gg::GInt32GaussAdaptor {
	std::int32_t d = 0;
	FixI() { setAdaptionMode(gg::adaptionMode::ALWAYS); setAdaptAdProb(0.); }
	FixI(FixI const &) = default;
	void customAdaptions(std::int32_t &v, std::int32_t const &, Gem::Hap::GRandomBase &) override { v += d; }
	void load_(gg::GObject const *cp) override { gg::GInt32GaussAdaptor::load_(cp); d = dynamic_cast<FixI const *>(cp)->d; }
	gg::adaptorId getAdaptorId_() const override { return gg::adaptorId(99); }
	gg::GObject *clone_() const override { return new FixI(*this); }
	template<typename A> void serialize(A &ar, const unsigned int) { ar & boost::serialization::make_nvp("b", boost::serialization::base_object<gg::GInt32GaussAdaptor>(*this)) & BOOST_SERIALIZATION_NVP(d); }
};
BOOST_CLASS_EXPORT(FixI)

// --------------------------------------------------------------------------------- the subjects
using CDO = gg::GConstrainedDoubleObject;
using CIO = gg::GConstrainedInt32Object;
using CDC = gg::GConstrainedDoubleCollection;
using CDOC = gg::GConstrainedDoubleObjectCollection;
using CIOC = gg::GConstrainedInt32ObjectCollection;
static const auto ALLP = gg::activityMode::ALLPARAMETERS;

struct Sub {
	int kind; // 0 double object, 1 int object, 2 double collection, 3 collection of double objects, 4 collection of int objects
	std::shared_ptr<gg::GParameterBase> p;
	std::size_t n = 1;
	bool integral() const { return kind == 1 || kind == 4; }
	bool shared() const { return kind == 2; }
	CDO &d(std::size_t k) const { return kind == 0 ? dynamic_cast<CDO &>(*p) : *dynamic_cast<CDOC &>(*p)[k]; }
	CIO &i(std::size_t k) const { return kind == 1 ? dynamic_cast<CIO &>(*p) : *dynamic_cast<CIOC &>(*p)[k]; }
	CDC &c() const { return dynamic_cast<CDC &>(*p); }
	double value(std::size_t k) const { return shared() ? c().value(k) : integral() ? (double)i(k).value() : d(k).value(); }
	double lo(std::size_t k) const { return shared() ? c().getLowerBoundary() : integral() ? i(k).getLowerBoundary() : d(k).getLowerBoundary(); }
	double hi(std::size_t k) const { return shared() ? c().getUpperBoundary() : integral() ? i(k).getUpperBoundary() : d(k).getUpperBoundary(); }
	void set(std::size_t k, double x, bool op) const {
		if (shared()) c().setValue(k, x);
		else if (integral()) { if (op) i(k) = (std::int32_t)x; else i(k).setValue((std::int32_t)x); }
		else { if (op) static_cast<gg::GConstrainedFPT<double> &>(d(k)) = x; else d(k).setValue(x); }
	}
	void set3(std::size_t k, double x, double l, double h) const { if (integral()) i(k).setValue((std::int32_t)x, (std::int32_t)l, (std::int32_t)h); else d(k).setValue(x, l, h); }
	void setB(std::size_t k, double l, double h) const { if (shared()) c().setBoundaries(l, h); else if (integral()) i(k).setBoundaries((std::int32_t)l, (std::int32_t)h); else d(k).setBoundaries(l, h); }
	void resetB(std::size_t k) const { if (shared()) c().resetBoundaries(); else if (integral()) i(k).resetBoundaries(); else d(k).resetBoundaries(); }
	void delta(double x) const {
		for (std::size_t k = 0; k < (shared() ? 1 : n); k++) {
			if (integral()) { auto a = std::dynamic_pointer_cast<FixI>(i(k).getAdaptor()); a->d = (std::int32_t)x; }
			else { auto a = std::dynamic_pointer_cast<FixD>(shared() ? c().getAdaptor() : d(k).getAdaptor()); a->d = x; }
		}
	}
	// the inclusive upper boundary that a requested upper boundary leads to
	double up(double h) const { return integral() || shared() ? h : std::nextafter(h, -HUGE_VAL); }
};
static double reflect(bool integral, double x, double lo, double hi) {
	if (x >= lo && x <= hi) return x;
	if (integral) {
		long long w = (long long)hi - (long long)lo + 1, r = ((long long)x - (long long)lo) % (2 * w);
		if (r < 0) r += 2 * w;
		return (double)((long long)lo + (r < w ? r : 2 * w - 1 - r));
	}
	long double w = (long double)hi - (long double)lo;
	if (w == 0.L) return lo;
	long double r = fmodl((long double)x - (long double)lo, 2.L * w);
	if (r < 0) r += 2.L * w;
	if (r > w) r = 2.L * w - r;
	return (double)((long double)lo + r);
}

PROP("C11", range_ops, 60000, 2500000, 7, "a value was moved across a boundary, or an assignment or a change of the boundaries was refused, after at least one accepted change") {
	Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMLOCAL> gr;
	Sub s;
	s.kind = (int)c.raw(5);
	bool I = s.integral();
	const double LIM = I ? (double)(std::numeric_limits<std::int32_t>::max() / 10) : std::numeric_limits<double>::max() / 10.;
	auto num = [&](double scale) { return I ? std::floor(c.nice_double(scale)) : c.nice_double(scale); };
	double scale = I ? c.pick<double>({1., 100.}) : c.pick<double>({1., 0.01, 1000.});
	auto bounds = [&](double &l, double &h) {
		l = num(scale);
		h = l + (I ? (double)c.range(1, 40) : c.pick<double>({1., 0.25, 3., 100.}) * scale * (double)c.range(1, 5));
	};
	auto clampi = [&](double x) { return I ? std::floor(x) : x; };
	bool fixed = !c.chance(1, 4);
	double l0, h0;
	bounds(l0, h0);
	std::size_t n = s.kind < 2 ? 1 : c.size(1, 3);
	s.n = n;
	auto inside = [&](double l, double h) { return c.chance(1, 5) ? l : clampi(std::min(l + (h - l) * c.unit(), I ? h : std::nextafter(h, l))); };
	auto mk_d = [&]() { auto q = std::make_shared<CDO>(inside(l0, h0), l0, h0); if (fixed) q->addAdaptor(std::make_shared<FixD>()); else q->addAdaptor(gen_d_adaptor(c)); return q; };
	auto mk_i = [&]() { auto q = std::make_shared<CIO>((std::int32_t)inside(l0, h0), (std::int32_t)l0, (std::int32_t)h0); if (fixed) q->addAdaptor(std::make_shared<FixI>()); else q->addAdaptor(gen_i_adaptor(c)); return q; };
	switch (s.kind) {
		case 0: s.p = mk_d(); break;
		case 1: s.p = mk_i(); break;
		case 2: {
			auto q = std::make_shared<CDC>(n, inside(l0, h0), l0, h0);
			if (fixed) q->addAdaptor(std::make_shared<FixD>()); else q->addAdaptor(gen_d_adaptor(c));
			s.p = q; break;
		}
		case 3: { auto q = std::make_shared<CDOC>(); for (std::size_t k = 0; k < n; k++) q->push_back(mk_d()); s.p = q; break; }
		default: { auto q = std::make_shared<CIOC>(); for (std::size_t k = 0; k < n; k++) q->push_back(mk_i()); s.p = q; }
	}
	c.note("kind ", s.kind, " n ", n, " [", l0, ",", h0, ")");
	if (!I && s.kind != 2) { // constructors refuse what is not admissible
		auto refused = [&](double v, double l, double h) { try { CDO x(v, l, h); return false; } catch (gemfony_exception &) { return true; } };
		REQ(refused(l0, h0, l0), "a constructor accepts inverted boundaries ", h0, " ", l0);
		REQ(refused(h0 + (h0 - l0), l0, h0), "a constructor accepts a value above the boundaries");
		REQ(refused(std::nextafter(l0, -HUGE_VAL), l0, h0), "a constructor accepts a value just below the boundaries");
		REQ(refused(std::numeric_limits<double>::quiet_NaN(), l0, h0), "a constructor accepts NaN as a value");
		CDO x(h0, l0, h0);
		REQ(x.value() >= l0 && x.value() < h0, "constructed with the upper boundary ", h0, " the parameter delivers ", x.value());
	}
	if (I) {
		auto refused = [&](double v, double l, double h) { try { CIO x((std::int32_t)v, (std::int32_t)l, (std::int32_t)h); return false; } catch (gemfony_exception &) { return true; } };
		REQ(refused(l0, h0, l0) && refused(h0 + 1, l0, h0) && refused(l0 - 1, l0, h0), "a constructor accepts inadmissible boundaries or values");
	}

	std::vector<double> ext(n), lo(n), hi(n); // the model
	std::vector<double> slack(n, -1.);        // sum of |step| of adaptions since the last reading; -1: none
	std::vector<bool> exact(n, false);        // the stored value is known to be ext
	auto tol = [&](double x, std::size_t k) { return I ? 0. : 16. * std::numeric_limits<double>::epsilon() * (std::fabs(x) + std::fabs(lo[k]) + std::fabs(hi[k])); };
	auto near = [&](double a, double b, double x, std::size_t k) { return (x >= lo[k] && x <= hi[k]) ? a == b : std::fabs(a - b) <= tol(x, k); };
	auto sync = [&](const char *what) {
		for (std::size_t k = 0; k < n; k++) {
			ext[k] = s.value(k); lo[k] = s.lo(k); hi[k] = s.hi(k); slack[k] = -1.; exact[k] = true;
			REQ(ext[k] >= lo[k] && ext[k] <= hi[k], what, ": element ", k, " delivers ", ext[k], " outside [", lo[k], ",", hi[k], "]");
			REQ(s.value(k) == ext[k], what, ": reading twice gives ", s.value(k), " after ", ext[k]);
		}
	};
	// all views of the value agree and lie in the range
	auto views = [&](const char *what) {
		std::vector<double> v; std::vector<std::int32_t> w;
		if (I) { s.p->streamline<std::int32_t>(w, ALLP); v.assign(w.begin(), w.end()); } else s.p->streamline<double>(v, ALLP);
		REQ(v.size() == n, what, ": streamline gives ", v.size(), " values");
		for (std::size_t k = 0; k < n; k++) REQ(v[k] == s.value(k) && v[k] >= s.lo(k) && v[k] <= s.hi(k), what, ": the flat list shows ", v[k], ", the parameter ", s.value(k), " in [", s.lo(k), ",", s.hi(k), "]");
	};
	auto unchanged = [&](const char *what) {
		for (std::size_t k = 0; k < n; k++) {
			REQ(s.lo(k) == lo[k] && s.hi(k) == hi[k], what, ": the boundaries changed to [", s.lo(k), ",", s.hi(k), "]");
			REQ(s.value(k) == ext[k], what, ": element ", k, " changed from ", ext[k], " to ", s.value(k));
		}
	};
	// resolve pending adaptions, so that the model knows the value
	auto settle = [&]() {
		for (std::size_t k = 0; k < n; k++) {
			if (slack[k] < 0.) continue;
			double v = s.value(k);
			REQ(v >= lo[k] && v <= hi[k], "after adaptions element ", k, " delivers ", v, " outside [", lo[k], ",", hi[k], "]");
			REQ(std::fabs(v - ext[k]) <= slack[k] + tol(std::fabs(ext[k]) + slack[k], k), "adaptions by at most ", slack[k], " changed element ", k, " from ", ext[k], " to ", v);
		}
		sync("settle");
	};
	sync("construction"); views("construction");
	for (std::size_t k = 0; k < n; k++) REQ(lo[k] == l0 && hi[k] == (I ? h0 : std::nextafter(h0, -HUGE_VAL)), "constructed boundaries are [", lo[k], ",", hi[k], "]");

	bool changed = false, interesting = false;
	std::size_t nops = c.size(1, c.thorough() ? 40 : 16);
	for (std::size_t op = 0; op < nops; op++) {
		std::size_t k = c.size(0, n - 1);
		switch (c.weighted({5, 2, 3, 1, 3, 2, 2, 2, 2, 6, 2, 2})) {
			case 0: { // assignment
				settle();
				bool viaop = !s.shared() && c.flip();
				double x;
				bool ok = true;
				switch (c.weighted({4, 2, 2, 1, 1})) {
					case 0: x = lo[k] + (hi[k] - lo[k]) * c.unit(); x = I ? std::floor(x) : x; x = std::max(lo[k], std::min(hi[k], x)); break;
					case 1: x = c.flip() ? lo[k] : hi[k]; break;
					case 2: x = c.flip() ? std::min(hi[k] + (I ? 1. + c.size(0, 50) : (std::fabs(hi[k]) + scale) * (0.01 + c.unit())), I ? 2147483647. : HUGE_VAL) : std::max(lo[k] - (I ? 1. + c.size(0, 50) : (std::fabs(lo[k]) + scale) * (0.01 + c.unit())), I ? -2147483648. : -HUGE_VAL); ok = false; break;
					case 3: x = I ? lo[k] - 1. : std::nextafter(lo[k], -HUGE_VAL); ok = false; break;
					default: x = I ? hi[k] + 1. : c.flip() ? std::numeric_limits<double>::quiet_NaN() : c.flip() ? HUGE_VAL : -HUGE_VAL; ok = false;
				}
				if (std::isinf(x) && std::isfinite(x) && ok) ok = false;
				c.note("set ", k, " ", x);
				bool thrown = false;
				try { s.set(k, x, viaop); } catch (std::exception &) { thrown = true; }
				REQ(thrown == !ok, thrown ? "an admissible" : "an inadmissible", " value ", x, " was ", thrown ? "refused" : "accepted", " in [", lo[k], ",", hi[k], "]");
				if (thrown) { unchanged("refused assignment"); interesting = interesting || changed; c.label("refused"); }
				else { REQ(s.value(k) == x, "assigned ", x, ", delivered ", s.value(k)); ext[k] = x; unchanged("assignment"); changed = true; }
				break;
			}
			case 1: { // value and boundaries
				if (s.shared()) break;
				settle();
				double l, h;
				bounds(l, h);
				double x = inside(l, h);
				bool ok = true;
				switch (c.weighted({4, 1, 1, 1, 1, 1})) {
					case 1: std::swap(l, h); ok = false; break;
					case 2: x = h + (I ? 1. : std::fabs(h) * 1e-3 + 1e-3); ok = false; break;
					case 3: x = l - (I ? 1. : std::fabs(l) * 1e-3 + 1e-3); ok = false; break;
					case 4: if (!I) { x = h; } break; // the upper boundary stands for the largest admissible value
					case 5: if (I) break; if (c.flip()) x = std::numeric_limits<double>::quiet_NaN(); else if (c.flip()) l = std::numeric_limits<double>::quiet_NaN(); else h = std::numeric_limits<double>::quiet_NaN(); ok = false; break;
					default: break;
				}
				c.note("set3 ", k, " ", x, " ", l, " ", h);
				bool thrown = false;
				try { s.set3(k, x, l, h); } catch (std::exception &) { thrown = true; }
				REQ(thrown == !ok, "value ", x, " with boundaries ", l, ",", h, " was ", thrown ? "refused" : "accepted");
				if (thrown) { unchanged("refused value and boundaries"); interesting = interesting || changed; c.label("refused"); }
				else {
					lo[k] = l; hi[k] = s.up(h);
					ext[k] = x == h && !I ? hi[k] : x;
					unchanged("value and boundaries"); changed = true;
				}
				break;
			}
			case 2: { // boundaries
				bool hot = c.chance(1, 3); // without reading the value before
				if (!hot || slack[k] > 0.) settle();
				std::size_t a = s.shared() ? 0 : k, b = s.shared() ? n : k + 1;
				double mn = ext[a], mx = ext[a], l, h;
				for (std::size_t q = a; q < b; q++) { mn = std::min(mn, ext[q]); mx = std::max(mx, ext[q]); }
				bool ok = true;
				double w = I ? (double)c.range(0, 20) : scale * c.unit(), w2 = I ? (double)c.range(1, 20) : scale * (0.05 + c.unit());
				l = mn - w; h = mx + w2;
				if (std::fabs(mn) > 1e8 || std::fabs(mx) > 1e8) { l = mn - std::fabs(mn) * 0.25 - 1.; h = mx + std::fabs(mx) * 0.25 + 1.; l = clampi(l); h = clampi(h); if (l < -LIM || h > LIM) break; }
				switch (c.weighted({5, 1, 1, 1, 1, 1, 1})) {
					case 1: std::swap(l, h); ok = false; break;
					case 2: l = mn + (I ? 1. : std::fabs(mn) * 1e-6 + 1e-6); h = std::max(h, l) + (I ? 1. : std::fabs(l) * 1e-3 + 1e-3); ok = false; break;
					case 3: h = mx - (I ? 1. : std::fabs(mx) * 1e-6 + 1e-6); l = std::min(l, h - (I ? 1. : std::fabs(h) * 1e-3 + 1e-3)); ok = false; break;
					case 4: if (I) { l = -2147483648.; } else l = -std::numeric_limits<double>::max(); ok = false; break;
					case 5: if (I) break; if (c.flip()) l = std::numeric_limits<double>::quiet_NaN(); else h = std::numeric_limits<double>::quiet_NaN(); ok = false; break;
					case 6: if (I || s.shared()) { if (mn == mx) { l = mn; h = mx; } } break; // one admissible value only
					default: break;
				}
				c.note("bounds ", k, " ", l, " ", h);
				bool thrown = false;
				try { s.setB(k, l, h); } catch (std::exception &) { thrown = true; }
				REQ(thrown == !ok, "boundaries ", l, ",", h, " around ", mn, "..", mx, " were ", thrown ? "refused" : "accepted");
				if (thrown) { unchanged("refused boundaries"); interesting = interesting || changed; c.label("refused"); }
				else { for (std::size_t q = a; q < b; q++) { lo[q] = l; hi[q] = s.up(h); } settle(); unchanged("boundaries"); changed = true; }
				break;
			}
			case 3: { // widest boundaries
				settle();
				s.resetB(k);
				for (std::size_t q = s.shared() ? 0 : k; q < (s.shared() ? n : k + 1); q++) { lo[q] = s.lo(q); hi[q] = s.hi(q); REQ(lo[q] <= -LIM * 0.99 && hi[q] >= LIM * 0.99, "reset boundaries are [", lo[q], ",", hi[q], "]"); }
				unchanged("reset boundaries");
				c.note("reset boundaries");
				if (c.flip()) break;
				break;
			}
			case 4: { // assignment of the whole list, values outside are folded back
				bool skip = false;
				std::vector<double> v(n);
				for (std::size_t q = 0; q < n; q++) {
					double w = hi[q] - lo[q];
					switch (c.weighted({2, 3, 2, 1})) {
						case 0: v[q] = lo[q] + w * c.unit(); break;
						case 1: v[q] = lo[q] + w * c.real(-6., 6.); break;
						case 2: v[q] = c.flip() ? lo[q] - w * (double)c.range(0, 5) : hi[q] + w * (double)c.range(0, 5); break;
						default: v[q] = num(scale * 100.);
					}
					if (I) v[q] = std::floor(v[q]);
					if (!std::isfinite(v[q]) || (I && std::fabs(v[q]) > 2e9) || (w > 0. && std::fabs(v[q] / w) > 1e12)) skip = true;
				}
				if (skip) break;
				bool map = s.kind <= 2 && c.flip();
				std::vector<std::int32_t> vi(v.begin(), v.end());
				if (map) {
					std::string nm = s.p->getParameterName();
					if (I) s.p->assignValueVectors<std::int32_t>(std::map<std::string, std::vector<std::int32_t>>{{nm, vi}}, ALLP); else s.p->assignValueVectors<double>(std::map<std::string, std::vector<double>>{{nm, v}}, ALLP);
				} else {
					std::size_t pos = 0;
					if (I) s.p->assignValueVector<std::int32_t>(vi, pos, ALLP); else s.p->assignValueVector<double>(v, pos, ALLP);
					REQ(pos == n, "assigning a list of ", n, " values consumed ", pos);
				}
				for (std::size_t q = 0; q < n; q++) {
					double e = reflect(I, v[q], lo[q], hi[q]);
					REQ(near(s.value(q), e, v[q], q), "assigned ", v[q], " in [", lo[q], ",", hi[q], "]: delivered ", s.value(q), ", folded back it is ", e);
					if (e != v[q]) { interesting = true; c.label("folded list value"); }
				}
				c.note("list ", v[0], map ? " (map)" : "");
				sync("list"); changed = true;
				break;
			}
			case 5: { // multiplication
				bool hot = c.flip();
				if (!hot) settle(); else { bool pend = false; for (auto x: slack) pend = pend || x >= 0.; if (pend) c.label("arithmetic on an unread adaption"); }
				double f = I ? (double)c.range(-5, 5) : c.nice_double();
				bool skip = false;
				for (std::size_t q = 0; q < n; q++) { double m = std::fabs(ext[q]) + std::max(0., slack[q]); double w = hi[q] - lo[q]; if ((I && m > 1e6) || m > 1e100 || (w > 0. && m * std::fabs(f) / w > 1e12)) skip = true; }
				if (skip) break;
				bool rnd = c.chance(1, 3);
				std::vector<double> before = ext, sl = slack;
				if (I) f = std::floor(f);
				double f2 = f;
				if (rnd) {
					f2 = f + (I ? (double)c.range(1, 3) : 0.5 * c.unit());
					if (!I && c.flip()) { f = 0.; f2 = 1.; s.p->multiplyByRandom<double>(ALLP, gr); }
					else if (I) s.p->multiplyByRandom<std::int32_t>((std::int32_t)f, (std::int32_t)f2, ALLP, gr);
					else s.p->multiplyByRandom<double>(f, f2, ALLP, gr);
				} else if (I) s.p->multiplyBy<std::int32_t>((std::int32_t)f, ALLP);
				else s.p->multiplyBy<double>(f, ALLP);
				c.note("times ", f, rnd ? ".." : "");
				for (std::size_t q = 0; q < n; q++) {
					double v = s.value(q);
					REQ(v >= lo[q] && v <= hi[q], "after a multiplication ", v, " is outside [", lo[q], ",", hi[q], "]");
					if (sl[q] < 0.) {
						if (!rnd) {
							double e = reflect(I, before[q] * f, lo[q], hi[q]);
							REQ(near(v, e, before[q] * f, q), before[q], " times ", f, " in [", lo[q], ",", hi[q], "] delivers ", v, ", folded back it is ", e);
							if (e != before[q] * f) { interesting = true; c.label("folded product"); }
						} else {
							double a = std::min(before[q] * f, before[q] * f2), b = std::max(before[q] * f, before[q] * f2);
							if (a >= lo[q] && b <= hi[q]) REQ(v >= a - tol(a, q) && v <= b + tol(b, q), before[q], " times a number in [", f, ",", f2, "] delivers ", v);
						}
					} else if (!rnd && f == 1.) REQ(std::fabs(v - before[q]) <= sl[q] + tol(std::fabs(before[q]) + sl[q], q), "a multiplication by one changed ", before[q], " to ", v, " after adaptions by at most ", sl[q]);
					else if (!rnd && f == 0.) REQ(near(v, reflect(I, 0., lo[q], hi[q]), 0., q), "a multiplication by zero delivers ", v);
					else if (!rnd && std::fabs(before[q]) + sl[q] < 1e6) {
						// the value before the multiplication lies within sl of before and in the range; the product is folded, which never enlarges distances
						double e = reflect(I, before[q] * f, lo[q], hi[q]);
						REQ(std::fabs(v - e) <= sl[q] * std::fabs(f) * (1 + 1e-12) + tol((std::fabs(before[q]) + sl[q]) * std::fabs(f), q), before[q], " changed by at most ", sl[q], " and then multiplied by ", f, " delivers ", v, " instead of about ", e);
						c.label("product after unread adaption");
					}
				}
				sync("product"); changed = true;
				break;
			}
			case 6: { // the same value everywhere
				settle();
				double f = c.flip() ? inside(lo[k], hi[k]) : num(scale * 3.);
				bool skip = false;
				for (std::size_t q = 0; q < n; q++) { double w = hi[q] - lo[q]; if (w > 0. && std::fabs(f) / w > 1e12) skip = true; }
				if (skip) break;
				if (I) s.p->fixedValueInit<std::int32_t>((std::int32_t)f, ALLP); else s.p->fixedValueInit<double>(f, ALLP);
				for (std::size_t q = 0; q < n; q++) {
					double e = reflect(I, f, lo[q], hi[q]);
					REQ(near(s.value(q), e, f, q), "initialised with ", f, " in [", lo[q], ",", hi[q], "]: delivered ", s.value(q), ", folded back it is ", e);
					if (e != f) { interesting = true; c.label("folded fixed value"); }
				}
				c.note("fixed ", f);
				sync("fixed value"); changed = true;
				break;
			}
			case 7: { // adding and subtracting another parameter
				settle();
				bool skip = false;
				for (std::size_t q = 0; q < n; q++) if (std::fabs(ext[q]) > (I ? 1e8 : 1e100)) skip = true;
				if (skip) break;
				auto o = s.p->clone<gg::GParameterBase>();
				Sub t = s; t.p = o;
				std::vector<double> oth(n);
				for (std::size_t q = 0; q < n; q++) { double x = lo[q] + (hi[q] - lo[q]) * c.unit(); if (I) x = std::floor(x); x = std::max(lo[q], std::min(hi[q], x)); if (std::fabs(x) > (I ? 1e8 : 1e100)) x = ext[q]; t.set(q, x, false); oth[q] = x; }
				bool sub = c.flip();
				if (I) { if (sub) s.p->subtract<std::int32_t>(o, ALLP); else s.p->add<std::int32_t>(o, ALLP); }
				else { if (sub) s.p->subtract<double>(o, ALLP); else s.p->add<double>(o, ALLP); }
				for (std::size_t q = 0; q < n; q++) {
					double x = sub ? ext[q] - oth[q] : ext[q] + oth[q], e = reflect(I, x, lo[q], hi[q]);
					REQ(near(s.value(q), e, x, q), ext[q], sub ? " minus " : " plus ", oth[q], " in [", lo[q], ",", hi[q], "] delivers ", s.value(q), ", folded back it is ", e);
					REQ(t.value(q) == oth[q], "the other operand changed from ", oth[q], " to ", t.value(q));
					if (e != x) { interesting = true; c.label("folded sum"); }
				}
				c.note(sub ? "minus" : "plus");
				sync("sum"); changed = true;
				break;
			}
			case 8: { // random initialisation
				s.p->randomInit(ALLP, gr);
				for (std::size_t q = 0; q < n; q++) { double v = s.value(q); REQ(v >= lo[q] && v <= hi[q], "random initialisation delivers ", v, " outside [", lo[q], ",", hi[q], "]"); REQ(s.lo(q) == lo[q] && s.hi(q) == hi[q], "random initialisation changed the boundaries"); }
				c.note("random init");
				sync("random initialisation"); changed = true;
				break;
			}
			case 9: { // adaption
				if (!fixed) {
					bool skip = false;
					for (std::size_t q = 0; q < n; q++) if (hi[q] - lo[q] > (I ? 1e8 : 1e200)) skip = true;
					if (skip) break;
					std::size_t m = s.p->adapt(gr);
					REQ(m <= n, "adapt() reports ", m, " changes of ", n, " values");
					for (std::size_t q = 0; q < n; q++) { double v = s.value(q); REQ(v >= lo[q] && v <= hi[q], "adaption delivers ", v, " outside [", lo[q], ",", hi[q], "]"); REQ(m || v == ext[q], "adapt() reports no change, but ", ext[q], " became ", v); REQ(s.lo(q) == lo[q] && s.hi(q) == hi[q], "adaption changed the boundaries"); }
					c.note("adapt");
					sync("adaption"); changed = true;
					break;
				}
				std::size_t m = c.size(1, 3);
				for (std::size_t r = 0; r < m; r++) {
					double w = hi[k] - lo[k], dl;
					for (std::size_t q = 0; q < n; q++) w = std::min(w, hi[q] - lo[q]);
					if (w > 1e8) w = 1e8;
					switch (c.weighted({3, 3, 2, 1})) {
						case 0: dl = w * c.real(-0.3, 0.3); break;
						case 1: dl = w * c.real(-2., 2.); break;
						case 2: dl = c.flip() ? w : -w; break;
						default: dl = w * c.real(-50., 50.);
					}
					if (I) dl = std::floor(dl);
					if (I && dl == 0.) dl = c.flip() ? 1. : -1.;
					if (I) { bool skip = false; for (std::size_t q = 0; q < n; q++) if (std::fabs(ext[q]) + std::fabs(dl) * 4. + std::max(0., slack[q]) > 1e9) skip = true; if (skip) break; }
					s.delta(dl);
					std::size_t rep = s.p->adapt(gr);
					REQ(rep == n, "adapt() reports ", rep, " changes of ", n, " values that all were changed");
					bool read = c.flip();
					for (std::size_t q = 0; q < n; q++) {
						if (!read) { slack[q] = std::max(0., slack[q]) + std::fabs(dl); continue; }
						double v = s.value(q);
						REQ(v >= lo[q] && v <= hi[q], "adapted by ", dl, " element ", q, " delivers ", v, " outside [", lo[q], ",", hi[q], "]");
						if (slack[q] < 0. && exact[q]) {
							double e = reflect(I, ext[q] + dl, lo[q], hi[q]);
							REQ(near(v, e, ext[q] + dl, q), ext[q], " adapted by ", dl, " in [", lo[q], ",", hi[q], "] delivers ", v, ", folded back it is ", e);
							if (e != ext[q] + dl) { interesting = true; c.label("folded adaption"); }
						}
					}
					c.note("adapt ", dl, read ? "" : " unread");
					if (read) { for (std::size_t q = 0; q < n; q++) { double b = std::max(0., slack[q]) + std::fabs(dl); REQ(std::fabs(s.value(q) - ext[q]) <= b + tol(std::fabs(ext[q]) + b, q), "adaptions by at most ", b, " changed ", ext[q], " to ", s.value(q)); } sync("adaption"); }
					changed = true;
				}
				break;
			}
			case 10: { // a copy or a loaded or a restored object delivers the same
				Sub t = s;
				int how = (int)c.raw(3);
				bool pend = false;
				for (auto x: slack) pend = pend || x >= 0.;
				if (how == 0) t.p = s.p->clone<gg::GParameterBase>();
				else if (how == 1) { t.p = s.p->clone<gg::GParameterBase>(); if (c.flip()) { t.p->randomInit(ALLP, gr); } t.p->GObject::load(s.p); }
				else {
					auto m = c.pick<gc::serializationMode>({gc::serializationMode::BINARY, gc::serializationMode::TEXT, gc::serializationMode::XML});
					t.p = s.p->clone<gg::GParameterBase>(); t.p->randomInit(ALLP, gr);
					t.p->fromString(s.p->toString(m), m);
				}
				for (std::size_t q = 0; q < n; q++) {
					REQ(t.lo(q) == s.lo(q) && t.hi(q) == s.hi(q), "a copy has boundaries [", t.lo(q), ",", t.hi(q), "] instead of [", s.lo(q), ",", s.hi(q), "]");
					REQ(t.value(q) == s.value(q), "a copy delivers ", t.value(q), " instead of ", s.value(q));
				}
				if (pend) c.label("copied with an unread adaption");
				c.note("copy ", how);
				settle();
				if (c.flip()) { s = t; sync("copy"); }
				break;
			}
			default: views("views"); settle(); c.note("read");
		}
	}
	settle();
	views("end");
	if (interesting) c.nontrivial();
}

// ------------------------------------------------------------------------------------------ C12
using GR = Gem::Hap::GRandomT<Gem::Hap::RANDFLAVOURS::RANDOMLOCAL>;
static const double MINP = 0.001, MINS = 0.001; // the documented smallest probability and smallest sigma
static const double NaN = std::numeric_limits<double>::quiet_NaN();

template<typename T> void adaptor_history(pbt::Ctx &c, std::shared_ptr<gg::GAdaptorT<T>> a, bool flip, GR &gr) {
	auto g = std::dynamic_pointer_cast<gg::GNumGaussAdaptorT<T, double>>(a);
	std::shared_ptr<gg::GNumBiGaussAdaptorT<T, double>> bi = std::dynamic_pointer_cast<gg::GNumBiGaussAdaptorT<T, double>>(a);
	auto D = [&]() { std::string r = dump_adaptor<T>(a); if constexpr (std::is_same<T, double>::value) r += dump_bigauss(a); return r; };
	auto P = [&]() { return a->getAdaptionProbability(); };
	auto pr = [&]() { return a->getAdProbRange(); };
	auto limits = [&](const char *what) {
		auto r = pr();
		REQ(std::get<0>(r) >= MINP && std::get<1>(r) <= 1. && std::get<0>(r) <= std::get<1>(r), what, ": the range of the probability is ", std::get<0>(r), "..", std::get<1>(r));
		REQ(P() >= std::get<0>(r) && P() <= std::get<1>(r), what, ": the probability ", P(), " is outside ", std::get<0>(r), "..", std::get<1>(r));
		REQ(a->getResetAdaptionProbability() >= std::get<0>(r) && a->getResetAdaptionProbability() <= std::get<1>(r), what, ": the reset probability ", a->getResetAdaptionProbability(), " is outside ", std::get<0>(r), "..", std::get<1>(r));
		auto in = [&](const char *n, double x, std::tuple<double, double> t, double least) {
			REQ(x >= std::get<0>(t) && x <= std::get<1>(t) && std::get<0>(t) >= least, what, ": ", n, " ", x, " is outside ", std::get<0>(t), "..", std::get<1>(t));
		};
		if (g) { in("sigma", g->getSigma(), g->getSigmaRange(), MINS); in("reset sigma", g->getResetSigma(), g->getSigmaRange(), MINS); }
		if (bi) { in("sigma1", bi->getSigma1(), bi->getSigma1Range(), MINS); in("sigma2", bi->getSigma2(), bi->getSigma2Range(), MINS); in("delta", bi->getDelta(), bi->getDeltaRange(), 0.); }
	};
	auto setting = [&](const char *n, double x, double y, bool valid, std::function<void()> f) {
		std::string before = D();
		bool thrown = false;
		try { f(); } catch (std::exception &) { thrown = true; }
		c.note(n, " ", x, " ", y, thrown ? " refused" : "");
		REQ(thrown == !valid, n, "(", x, ",", y, ") was ", thrown ? "refused" : "accepted", ", state ", before);
		if (thrown) { REQ(D() == before, n, "(", x, ",", y, ") was refused but changed the adaptor: ", diff(before, D())); c.label("refused"); }
		limits(n);
	};
	auto value = [&](double lo, double hi) { // inside, at an end, outside
		switch (c.weighted({4, 1, 1, 1, 1, 1})) {
			case 0: return lo + (hi - lo) * c.unit();
			case 1: return lo;
			case 2: return hi;
			case 3: return lo - (0.0001 + c.unit() * 0.5);
			case 4: return hi + (0.0001 + c.unit() * 0.5);
			default: return NaN;
		}
	};
	auto ok = [](double x, double lo, double hi) { return x >= lo && x <= hi; };
	limits("construction");
	bool adapted_after_setting = false, set = false;
	std::uint64_t total = 0;
	std::size_t nops = c.size(1, c.thorough() ? 40 : 18);
	for (std::size_t op = 0; op < nops; op++) {
		switch (c.weighted({6, 2, 2, 1, 1, 3, 2, 1, 2, 5, 3, 2, 1})) {
			case 0: case 9: { // adaptions
				bool vec = c.flip();
				std::size_t n = vec ? c.size(1, 40) : 1, rep = vec ? 1 : c.size(1, 60);
				if (c.thorough() && c.chance(1, 20)) rep *= 40;
				T range = T(0);
				if constexpr (std::is_same<T, bool>::value) range = true; else range = std::is_same<T, double>::value ? (T)c.pick<double>({1., 0.5, 1000.}) : (T)c.pick<double>({1., 7., 1000.});
				auto mode = a->getAdaptionMode();
				double p0 = P(), aad = a->getAdaptAdProb(), aap = a->getAdaptAdaptionProbability();
				std::string before = D();
				for (std::size_t r = 0; r < rep; r++) {
					std::vector<T> v(n);
					for (std::size_t k = 0; k < n; k++) if constexpr (std::is_same<T, bool>::value) v[k] = c.flip(); else if constexpr (std::is_same<T, double>::value) v[k] = 0.; else v[k] = (T)c.range(-100, 100);
					auto w = v;
					std::size_t cnt;
					auto thr = a->getAdaptionThreshold(), cnt0 = a->getAdaptionCounter();
					double sig0 = g ? g->getSigma() : bi ? bi->getSigma1() : 0.;
					if (vec) cnt = a->adapt(v, range, gr);
					else if constexpr (std::is_same<T, bool>::value) { bool x = v[0]; cnt = a->adapt(x, range, gr); v[0] = x; }
					else cnt = a->adapt(v[0], range, gr);
					std::size_t changed = 0;
					for (std::size_t k = 0; k < n; k++) {
						if (v[k] == w[k]) continue;
						changed++;
						if constexpr (std::is_same<T, std::int32_t>::value) { if (flip) REQ(std::abs(v[k] - w[k]) == 1, "a flip changed ", w[k], " to ", v[k]); }
					}
					REQ(cnt == changed, "adapt() reports ", cnt, " changes, but ", changed, " of ", n, " values changed; ", before);
					if (mode == gg::adaptionMode::NEVER) REQ(cnt == 0, "adaption mode NEVER changed ", cnt, " values");
					if (mode == gg::adaptionMode::ALWAYS) REQ(cnt == n, "adaption mode ALWAYS changed ", cnt, " of ", n, " values");
					if (mode == gg::adaptionMode::WITHPROBABILITY && p0 == 1. && aad == 0.) { REQ(cnt == n, "with probability 1 only ", cnt, " of ", n, " values were changed"); c.label("probability 1"); }
					limits("adaption");
					if (aad == 0.) REQ(P() == p0, "the probability changed from ", p0, " to ", P(), " although it is not to be adapted");
					// step sizes change upon every threshold-th adaption, or not at all
					if (thr > 0) REQ(a->getAdaptionCounter() == (cnt0 + cnt) % thr || cnt0 >= thr, "the counter went from ", cnt0, " to ", a->getAdaptionCounter(), " after ", cnt, " adaptions with threshold ", thr);
					double sig1 = g ? g->getSigma() : bi ? bi->getSigma1() : 0.;
					bool may = thr > 0 ? cnt0 + cnt >= thr : aap > 0. && cnt > 0;
					if (!may) REQ(sig0 == sig1, "sigma changed from ", sig0, " to ", sig1, " without being due; threshold ", thr, " counter ", cnt0, " adaptions ", cnt);
					else if (thr > 0 && cnt0 < thr && g && g->getSigmaAdaptionRate() > 0.01 && std::get<0>(g->getSigmaRange()) < std::get<1>(g->getSigmaRange())) {
						auto sr = g->getSigmaRange();
						if (sig0 > std::get<0>(sr) && sig0 < std::get<1>(sr)) { REQ(sig1 != sig0, "sigma ", sig0, " was not adapted although ", thr, " adaptions had been made"); c.label("step size adapted"); }
					}
					total += cnt;
				}
				if (mode == gg::adaptionMode::NEVER && aad == 0.) REQ(D() == before, "adaption mode NEVER changed the adaptor: ", diff(before, D()));
				if (set) adapted_after_setting = true;
				c.note("adapt ", rep, "x", n);
				break;
			}
			case 1: { double x = value(std::get<0>(pr()), std::get<1>(pr())); bool v = ok(x, std::get<0>(pr()), std::get<1>(pr())); setting("setAdaptionProbability", x, 0, v, [&]() { a->setAdaptionProbability(x); }); if (v) REQ(P() == x, "set ", x, ", reported ", P()); set = true; break; }
			case 2: { double x = value(std::get<0>(pr()), std::get<1>(pr())); bool v = ok(x, std::get<0>(pr()), std::get<1>(pr())); setting("setResetAdaptionProbability", x, 0, v, [&]() { a->setResetAdaptionProbability(x); }); if (v) REQ(a->getResetAdaptionProbability() == x, "set ", x, ", reported ", a->getResetAdaptionProbability()); break; }
			case 3: { double x = value(0., 1.); bool v = ok(x, 0., 1.); setting("setAdaptAdaptionProbability", x, 0, v, [&]() { a->setAdaptAdaptionProbability(x); }); if (v) REQ(a->getAdaptAdaptionProbability() == x, "set ", x); break; }
			case 4: { double x = c.flip() ? 0. : c.flip() ? c.real(0., 3.) : -0.1; bool v = x >= 0.; setting("setAdaptAdProb", x, 0, v, [&]() { a->setAdaptAdProb(x); }); if (v) REQ(a->getAdaptAdProb() == x, "set ", x); set = true; break; }
			case 5: {
				double x = value(0., 0.6), y = value(0.4, 1.);
				if (c.chance(1, 8)) { x = 0.; y = 0.0005; }
				bool v = x >= 0. && y <= 1. && x <= y && y >= MINP;
				if (std::isnan(x) || std::isnan(y)) break;
				double p = P();
				setting("setAdProbRange", x, y, v, [&]() { a->setAdProbRange(x, y); });
				if (v) { double l = std::max(x, MINP); REQ(std::get<0>(pr()) == l && std::get<1>(pr()) == y, "the range is reported as ", std::get<0>(pr()), "..", std::get<1>(pr())); REQ(P() == std::max(l, std::min(y, p)), "the probability ", p, " became ", P(), " in ", l, "..", y); }
				set = true; break;
			}
			case 6: { auto t = (std::uint32_t)c.range(0, 6); a->setAdaptionThreshold(t); REQ(a->getAdaptionThreshold() == t, "threshold"); c.note("threshold ", t); break; }
			case 7: { auto m = c.pick<gg::adaptionMode>({gg::adaptionMode::WITHPROBABILITY, gg::adaptionMode::ALWAYS, gg::adaptionMode::NEVER}); a->setAdaptionMode(m); REQ(a->getAdaptionMode() == m, "mode"); c.note("mode ", (int)m); set = true; break; }
			case 8: { // stalls
				T range = T(1);
				double p = P(), s = g ? g->getSigma() : 0.;
				bool upd = a->updateOnStall((std::size_t)c.range(1, 9), range);
				bool diff = p != a->getResetAdaptionProbability() || (g && s != g->getResetSigma());
				REQ(P() == a->getResetAdaptionProbability(), "after a stall the probability is ", P(), " instead of ", a->getResetAdaptionProbability());
				if (g) REQ(g->getSigma() == g->getResetSigma(), "after a stall sigma is ", g->getSigma(), " instead of ", g->getResetSigma());
				REQ(upd == diff, "updateOnStall() reports ", upd, ", there was ", diff ? "a" : "no", " change");
				limits("stall"); c.note("stall");
				break;
			}
			case 10: { // step sizes
				if (g) {
					auto sr = g->getSigmaRange();
					switch (c.raw(4)) {
						case 0: { double x = value(std::get<0>(sr), std::get<1>(sr)); bool v = ok(x, std::get<0>(sr), std::get<1>(sr)); setting("setSigma", x, 0, v, [&]() { g->setSigma(x); }); if (v) REQ(g->getSigma() == x, "set ", x); break; }
						case 1: { double x = value(std::get<0>(sr), std::get<1>(sr)); bool v = ok(x, std::get<0>(sr), std::get<1>(sr)); setting("setResetSigma", x, 0, v, [&]() { g->setResetSigma(x); }); if (v) REQ(g->getResetSigma() == x, "set ", x); break; }
						case 2: {
							double x = value(0., 0.5), y = value(0.3, 1.);
							if (std::isnan(x) || std::isnan(y)) break;
							if (c.chance(1, 6)) { x = 0.; y = 0.0005; }
							bool v = x >= 0. && x <= y && y <= 1. && y >= MINS;
							double s = g->getSigma();
							setting("setSigmaRange", x, y, v, [&]() { g->setSigmaRange(x, y); });
							if (v) { double l = std::max(x, MINS); REQ(std::get<0>(g->getSigmaRange()) == l && std::get<1>(g->getSigmaRange()) == y, "range"); REQ(g->getSigma() == std::max(l, std::min(y, s)), "sigma ", s, " became ", g->getSigma(), " in ", l, "..", y); }
							break;
						}
						default: { double x = c.real(0., 2.); g->setSigmaAdaptionRate(x); REQ(g->getSigmaAdaptionRate() == x, "rate"); c.note("rate ", x); }
					}
					set = true;
				}
				if (bi) {
					int w = (int)c.raw(3);
					auto rg = w == 0 ? bi->getSigma1Range() : w == 1 ? bi->getSigma2Range() : bi->getDeltaRange();
					auto get = [&]() { return w == 0 ? bi->getSigma1() : w == 1 ? bi->getSigma2() : bi->getDelta(); };
					auto rng = [&]() { return w == 0 ? bi->getSigma1Range() : w == 1 ? bi->getSigma2Range() : bi->getDeltaRange(); };
					switch (c.raw(3)) {
						case 0: { double x = value(std::get<0>(rg), std::get<1>(rg)); if (std::isnan(x)) break; bool v = ok(x, std::get<0>(rg), std::get<1>(rg)); setting("set bi step", w, x, v, [&]() { w == 0 ? bi->setSigma1(x) : w == 1 ? bi->setSigma2(x) : bi->setDelta(x); }); if (v) REQ(get() == x, "set ", x, " read ", get()); break; }
						case 1: {
							double x = value(0., 0.5), y = value(0.3, 2.);
							if (std::isnan(x) || std::isnan(y)) break;
							if (c.chance(1, 6)) { x = 0.; y = 0.0005; }
							bool v = x >= 0. && x <= y && (w == 2 || y >= MINS);
							double s = get();
							setting("set bi range", x, y, v, [&]() { w == 0 ? bi->setSigma1Range(x, y) : w == 1 ? bi->setSigma2Range(x, y) : bi->setDeltaRange(x, y); });
							if (v) { double l = w == 2 ? x : std::max(x, MINS); REQ(std::get<0>(rng()) == l && std::get<1>(rng()) == y, "range ", std::get<0>(rng())); REQ(get() == std::max(l, std::min(y, s)), "step ", s, " became ", get(), " in ", l, "..", y); }
							break;
						}
						default: { double x = c.real(0., 2.); if (w == 0) bi->setSigma1AdaptionRate(x); else if (w == 1) bi->setSigma2AdaptionRate(x); else bi->setDeltaAdaptionRate(x); bi->setUseSymmetricSigmas(c.flip()); c.note("bi rate ", x); }
					}
					set = true;
				}
				break;
			}
			case 11: { // copies behave the same
				std::string before = D();
				int how = (int)c.raw(3);
				auto b = a->template clone<gg::GAdaptorT<T>>();
				if (how == 1) { b->setAdaptionThreshold(77); b->GObject::load(a); }
				if (how == 2) { b->setAdaptionThreshold(77); auto m = c.pick<gc::serializationMode>({gc::serializationMode::BINARY, gc::serializationMode::TEXT, gc::serializationMode::XML}); b->fromString(a->toString(m), m); }
				a = b;
				g = std::dynamic_pointer_cast<gg::GNumGaussAdaptorT<T, double>>(a); bi = std::dynamic_pointer_cast<gg::GNumBiGaussAdaptorT<T, double>>(a);
				if (how < 2) REQ(D() == before, "a copy differs: ", diff(before, D()));
				c.note("copy ", how);
				break;
			}
			default: { // random initialisation
				a->randomInit(gr);
				limits("random initialisation"); c.note("random init");
			}
		}
	}
	if (adapted_after_setting && total > 0) c.nontrivial();
}
PROP("C12", adaptor_history, 40000, 2000000, 7, "values were adapted after at least one setting had been changed") {
	GR gr;
	int kind = (int)c.raw(5);
	c.note("adaptor ", kind);
	auto ctor = [&](auto tag, auto mk0, auto mk1, auto mk4, auto mk5) {
		using A = typename decltype(tag)::element_type;
		double lo = c.real(0.002, 0.3), hi = lo + c.real(0., 0.6), s = lo + (hi - lo) * c.unit(), ss = c.real(0., 1.), p = c.real(0.01, 1.);
		std::shared_ptr<A> a;
		switch (c.raw(4)) {
			case 0: return mk0();
			case 1: a = mk1(p); REQ(a->getAdaptionProbability() == p, "constructed with probability ", p, " it is ", a->getAdaptionProbability()); return a;
			case 2: a = mk4(s, ss, lo, hi); break;
			default: a = mk5(s, ss, lo, hi, p); REQ(a->getAdaptionProbability() == p, "constructed with probability ", p, " it is ", a->getAdaptionProbability());
		}
		REQ(a->getSigma() == s && a->getResetSigma() == s && a->getSigmaAdaptionRate() == ss && std::get<0>(a->getSigmaRange()) == lo && std::get<1>(a->getSigmaRange()) == hi,
			"constructed with sigma ", s, " rate ", ss, " range ", lo, "..", hi, " it has sigma ", a->getSigma(), " reset ", a->getResetSigma(), " rate ", a->getSigmaAdaptionRate(), " range ", std::get<0>(a->getSigmaRange()), "..", std::get<1>(a->getSigmaRange()));
		return a;
	};
	switch (kind) {
		case 0: { using A = gg::GDoubleGaussAdaptor; adaptor_history<double>(c, ctor(std::shared_ptr<A>(), []() { return std::make_shared<A>(); }, [](double p) { return std::make_shared<A>(p); }, [](double s, double ss, double l, double h) { return std::make_shared<A>(s, ss, l, h); }, [](double s, double ss, double l, double h, double p) { return std::make_shared<A>(s, ss, l, h, p); }), false, gr); break; }
		case 1: adaptor_history<double>(c, c.flip() ? std::make_shared<gg::GDoubleBiGaussAdaptor>() : std::make_shared<gg::GDoubleBiGaussAdaptor>(c.real(0.01, 1.)), false, gr); break;
		case 2: { using A = gg::GInt32GaussAdaptor; adaptor_history<std::int32_t>(c, ctor(std::shared_ptr<A>(), []() { return std::make_shared<A>(); }, [](double p) { return std::make_shared<A>(p); }, [](double s, double ss, double l, double h) { return std::make_shared<A>(s, ss, l, h); }, [](double s, double ss, double l, double h, double p) { return std::make_shared<A>(s, ss, l, h, p); }), false, gr); break; }
		case 3: adaptor_history<std::int32_t>(c, c.flip() ? std::make_shared<gg::GInt32FlipAdaptor>() : std::make_shared<gg::GInt32FlipAdaptor>(c.real(0.01, 1.)), true, gr); break;
		default: adaptor_history<bool>(c, c.flip() ? std::make_shared<gg::GBooleanAdaptor>() : std::make_shared<gg::GBooleanAdaptor>(c.real(0.01, 1.)), true, gr);
	}
}

// how often values change and by how much, over many adaptions with fixed settings
PROP("C12", adaptor_statistics, 700, 12000, 6, "always") {
	GR gr;
	int kind = (int)c.raw(5);
	const std::size_t N = c.thorough() ? 40000 : 12000;
	double p = c.flip() ? c.pick<double>({0.001, 0.01, 0.05, 0.5, 0.95, 0.999}) : c.real(0.01, 1.);
	bool vec = c.flip(), always = c.chance(1, 4);
	auto count = [&](std::size_t n) {
		double pp = always ? 1. : p, e = (double)N * pp, sd = std::sqrt(e * (1. - pp));
		c.note("adaptor ", kind, " p ", p, always ? " always" : "", " N ", N, " changes ", n);
		REQ(std::fabs((double)n - e) <= 6.5 * sd + (sd > 0. ? 2. : 0.), "with probability ", pp, " ", n, " of ", N, " values were changed");
	};
	auto moments = [&](std::vector<double> const &x, double mean, double var, const char *what) { // of independent values; the fourth moment bounds the spread of the sample variance
		if (x.size() < 200) return;
		double n = (double)x.size(), m = 0., v = 0., q = 0.;
		for (auto y: x) m += y;
		m /= n;
		for (auto y: x) { v += (y - m) * (y - m); q += std::pow(y - m, 4); }
		v /= n; q /= n;
		REQ(std::fabs(m - mean) <= 7. * std::sqrt(var / n), what, ": the mean of ", n, " steps is ", m, ", expected ", mean, " with variance ", var);
		REQ(std::fabs(v - var) <= 8. * std::sqrt(std::max(q - v * v, var * var * 0.1) / n), what, ": the variance of ", n, " steps is ", v, ", expected ", var);
		c.label(what);
	};
	auto collect = [&](auto &a, auto zero, auto range) {
		using T = decltype(zero);
		std::vector<double> steps;
		a.setAdaptAdProb(0.); a.setAdaptionThreshold(0); a.setAdaptAdaptionProbability(0.);
		a.setAdaptionProbability(p);
		a.setAdaptionMode(always ? gg::adaptionMode::ALWAYS : gg::adaptionMode::WITHPROBABILITY);
		std::size_t n = 0;
		if (vec) { std::vector<T> v(N, zero); n = a.adapt(v, range, gr); for (std::size_t k = 0; k < N; k++) if (v[k] != zero) steps.push_back((double)v[k] - (double)zero); }
		else for (std::size_t k = 0; k < N; k++) { T v = zero; n += a.adapt(v, range, gr); if (v != zero) steps.push_back((double)v - (double)zero); }
		REQ(n == steps.size(), "reported ", n, " changes, there were ", steps.size());
		count(n);
		return steps;
	};
	switch (kind) {
		case 0: {
			gg::GDoubleGaussAdaptor a;
			double s = c.real(0.001, 1.), r = c.pick<double>({1., 0.25, 100.});
			a.setAll(s, 0.5, 0.001, 1.);
			moments(collect(a, 0., r), 0., s * s * r * r, "Gauss steps");
			break;
		}
		case 1: {
			gg::GDoubleBiGaussAdaptor a;
			double s1 = c.real(0.001, 1.), s2 = c.real(0.001, 1.), d = c.real(0., 2.), r = c.pick<double>({1., 0.25, 100.});
			bool sym = c.flip();
			a.setAllSigma1(s1, 0.5, 0.001, 1.); a.setAllSigma2(s2, 0.5, 0.001, 1.); a.setAllDelta(d, 0.5, 0., 2.); a.setUseSymmetricSigmas(sym);
			double w = sym ? s1 : s2;
			moments(collect(a, 0., r), 0., r * r * ((s1 * s1 + w * w) / 2. + d * d / 4.), "bi-Gauss steps");
			break;
		}
		case 2: {
			gg::GInt32GaussAdaptor a;
			double s = c.real(0.05, 1.);
			std::int32_t r = c.pick<std::int32_t>({1, 100, 100000});
			a.setAll(s, 0.5, 0.001, 1.);
			auto st = collect(a, std::int32_t(1000), r);
			if (r == 100000) moments(st, 0., s * s * r * r, "integer Gauss steps");
			else { std::size_t up = 0; for (auto x: st) up += x > 0; if (st.size() > 50) REQ(std::fabs((double)up - 0.5 * (double)st.size()) <= 3.5 * std::sqrt((double)st.size()), up, " of ", st.size(), " steps go up"); }
			break;
		}
		case 3: {
			gg::GInt32FlipAdaptor a;
			auto st = collect(a, std::int32_t(c.range(-5, 5)), std::int32_t(10));
			std::size_t up = 0;
			for (auto x: st) { REQ(x == 1. || x == -1., "a flip changed a value by ", x); up += x > 0; }
			if (st.size() > 50) REQ(std::fabs((double)up - 0.5 * (double)st.size()) <= 3.5 * std::sqrt((double)st.size()), up, " of ", st.size(), " flips go up");
			c.label("flips");
			break;
		}
		default: {
			gg::GBooleanAdaptor a;
			collect(a, c.flip(), true);
			c.label("booleans");
		}
	}
	c.nontrivial();
}

// adaption of whole parameter trees: the reported number is the number of changed values
PROP("C12", param_adapt, 40000, 2000000, 6, "some values were changed and some were not to be changed") {
	GR gr;
	GenOpt o;
	o.moderate = true;
	Tree t;
	auto p = gen_param(c, o, t);
	auto read = [&](Leaf const &l) {
		std::vector<double> r; std::vector<double> d; std::vector<std::int32_t> i; std::vector<bool> b;
		if (l.type == 'd') { l.obj->streamline<double>(d, ALLP); r = d; }
		if (l.type == 'i') { l.obj->streamline<std::int32_t>(i, ALLP); r.assign(i.begin(), i.end()); }
		if (l.type == 'b') { l.obj->streamline<bool>(b, ALLP); r.assign(b.begin(), b.end()); }
		return r;
	};
	c.note(dump(*p));
	std::size_t rounds = c.size(1, 8);
	bool some = false, blocked = false;
	for (std::size_t r = 0; r < rounds; r++) {
		std::vector<std::vector<double>> before;
		for (auto &l: t.leaves) before.push_back(read(l));
		std::size_t n = p->adapt(gr), changed = 0, may_stay = 0;
		for (std::size_t k = 0; k < t.leaves.size(); k++) {
			auto &l = t.leaves[k];
			auto now = read(l);
			REQ(now.size() == before[k].size(), "adaption changed the number of values");
			for (std::size_t q = 0; q < now.size(); q++) {
				if (now[q] == before[k][q]) continue;
				changed++;
				REQ(l.adaptable, "the inactive parameter ", l.name, " changed from ", before[k][q], " to ", now[q]);
			}
			if (l.constrained && l.adaptable) may_stay += now.size(); // a step across a boundary may be folded back to the same value
			if (!l.adaptable) blocked = true;
		}
		REQ(n >= changed && n <= changed + may_stay, "adapt() reports ", n, " changes, ", changed, " values changed, ", may_stay, " may have been folded back");
		some = some || changed;
	}
	if (some && blocked) c.nontrivial();
}

PBT_MAIN
