// Every operation sequence of the real AlphaFilter against a reference in double precision.
#include "mc.h"
#include <AlphaFilter/AlphaFilter.hpp>
#include <cmath>
#include <cfloat>

struct V2 {
	float x{0}, y{0};
};
static V2 operator*(float a, const V2 &v) { return V2{a * v.x, a * v.y}; }
static V2 operator+(const V2 &a, const V2 &b) { return V2{a.x + b.x, a.y + b.y}; }

struct Ref {
	double alpha{0}, x{0}, y{0};
	bool in01{true};
	double lo{0}, hi{0};
	void upd(double sx, double sy) { x = (1 - alpha) * x + alpha * sx; y = (1 - alpha) * y + alpha * sy; lo = std::min(lo, sx); hi = std::max(hi, sx); in01 = in01 && alpha >= 0 && alpha <= 1; }
	void rst(double sx, double sy) { x = sx; y = sy; lo = hi = sx; in01 = true; }
};

static const float SAMPLES[] = {0.f, 1.f, -3.25f, 1e6f, -1e-6f};
static const float ALPHAS[] = {0.f, 1.f, 0.5f, 0.1f, 0.999f};
static const float PARAMS[][2] = {{0.01f, 0.1f}, {1.f, 1.f}, {0.02f, 0.f}, {0.f, 5.f}, {0.f, 0.f}, {1e-8f, 1e-8f}, {-1.f, 0.5f}, {0.2f, -0.2f}, {1e4f, 1e-3f}};

// 5 updates, 3 resets, 4 weights, 7 parameter pairs
static int op(int c) { return c < 5 ? c : c < 8 ? c : c < 12 ? c + 2 : c + 3 + (c > 14) + (c > 16); }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 3e-6 * (std::fabs(b) + scale) + 1e-30; }

static void check(const AlphaFilter<float> &f, const AlphaFilter<V2> &g, const Ref &r, double scale, const char *op)
{
	MC_CHECK(near(f.getState(), r.x, scale), "state", "state %.9g after %s, the recurrence gives %.9g (alpha %.9g)", f.getState(), op, r.x, r.alpha);
	MC_CHECK(near(g.getState().x, r.x, scale) && near(g.getState().y, r.y, scale), "vector-state", "vector state (%.9g, %.9g) after %s, the recurrence gives (%.9g, %.9g)",
		 g.getState().x, g.getState().y, op, r.x, r.y);

	if (r.in01) {
		MC_CHECK(f.getState() >= r.lo - 3e-6 * scale && f.getState() <= r.hi + 3e-6 * scale, "hull", "state %.9g left the range [%.9g, %.9g] of its inputs", f.getState(), r.lo, r.hi);
	}
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	const int depth = mc::thorough() ? 6 : 5;
	mc::rule("histories: all sequences (quick 5, thorough 6 operations) of update with 5 values, reset with 3, setAlpha with 4 weights and setParameters with 7 (interval, time constant) pairs "
		 "including zero, tiny and negative denominators, starting from a default-constructed filter or one constructed with each weight; scalar and vector filters together; a state is the "
		 "reference (weight, value). parameters: a grid of intervals x time constants. convergence: constant input for up to 400 updates for each weight and start.");

	mc::explore("histories", mc::ODOMETER, [&]() {
		const int ctor = mc::choose(6);
		AlphaFilter<float> f = ctor ? AlphaFilter<float>(ALPHAS[ctor - 1]) : AlphaFilter<float>();
		AlphaFilter<V2> g = ctor ? AlphaFilter<V2>(ALPHAS[ctor - 1]) : AlphaFilter<V2>();
		AlphaFilter<float> other(0.25f);   // an independent filter used in between
		double oref = 0;
		Ref r;
		r.alpha = ctor ? double(ALPHAS[ctor - 1]) : 0.;
		double scale = 1e-9;
		check(f, g, r, scale, "construction");

		for (int k = 0; k < depth; k++) {
			const int c = op(mc::choose(19));
			mc::transition();

			if (c < 5) {
				const float s = SAMPLES[c];
				scale = std::max(scale, (double)std::fabs(s));
				mc::note("update(%g)", s);
				const float &ret = f.update(s);
				const V2 rg = g.update(V2{s, -2 * s});
				r.upd(s, -2. * s);
				MC_CHECK(ret == f.getState() && rg.x == g.getState().x && rg.y == g.getState().y, "return", "update() returned %.9g, the state is %.9g", ret, f.getState());

			} else if (c < 10) {
				const float s = SAMPLES[c - 5];
				scale = std::max(scale, (double)std::fabs(s));
				mc::note("reset(%g)", s);
				f.reset(s);
				g.reset(V2{s, s + 1});
				r.rst(s, double(s + 1));
				scale = std::max(scale, 1.);
				MC_CHECK(f.getState() == s, "reset", "state %.9g after reset(%.9g)", f.getState(), s);

			} else if (c < 15) {
				mc::note("setAlpha(%g)", ALPHAS[c - 10]);
				f.setAlpha(ALPHAS[c - 10]);
				g.setAlpha(ALPHAS[c - 10]);
				r.alpha = ALPHAS[c - 10];

			} else {
				const float dt = PARAMS[c - 15][0], tc = PARAMS[c - 15][1];
				mc::note("setParameters(%g, %g)", dt, tc);
				f.setParameters(dt, tc);
				g.setParameters(dt, tc);

				if (tc + dt > FLT_EPSILON) { r.alpha = double(dt) / (double(tc) + double(dt)); }
			}

			other.update(4.f);
			oref = 0.75 * oref + 1.;
			MC_CHECK(near(other.getState(), oref, 4), "independent", "a second filter changed: %.9g instead of %.9g", other.getState(), oref);
			check(f, g, r, scale, "the last operation");
			mc::visit(mc::hash_pod(mc::hash_pod(3, r.x), r.alpha));
		}

		mc::outcome(mc::hash_pod(1, float(r.x)));

		if (r.alpha == 0.5 && r.x > 0.2 && r.x < 0.3) { mc::sample("constructor %d, %d operations, final weight %.3f state %.6f", ctor, depth, r.alpha, r.x); }
	}, 2);

	// setParameters over a grid, observed through one update of a filter reset to 0 with sample 1
	const int N = mc::thorough() ? 1200 : 300;
	mc::for_all("parameters", uint64_t(N), [&](uint64_t i) {
		mc::Count c;
		const float dt = i == 0 ? 0.f : float(std::pow(10., -9 + 18. * i / N));

		for (int j = 0; j < N; j++) {
			const float tc = j == 0 ? 0.f : float(std::pow(10., -9 + 18. * j / N));
			AlphaFilter<float> f(0.125f);
			f.setParameters(dt, tc);
			f.reset(0.f);
			const double got = f.update(1.f);
			const double want = double(dt) + double(tc) > FLT_EPSILON ? double(dt) / (double(dt) + double(tc)) : 0.125;
			c.add(got > 0 && got < 1);
			c.tr += 3;
			c.states++;

			if (std::fabs(double(dt) + tc - FLT_EPSILON) > 1e-13) {
				MC_CHECK(std::fabs(got - want) <= 1e-6 * want + 1e-12, "parameters", "setParameters(%.9g, %.9g) gives weight %.9g instead of %.9g", dt, tc, got, want);
			}
		}
	});
	mc::for_all("convergence", 21, [&](uint64_t i) {
		mc::Count c;
		const float a = float(i) / 20.f;

		for (float start : {0.f, -5.f, 1e3f}) {
			for (float target : {0.f, 2.f, -1e4f}) {
				AlphaFilter<float> f(a);
				f.reset(start);
				double err = double(start) - target, prev = std::fabs(err);

				for (int k = 0; k < 400; k++) {
					f.update(target);
					err *= 1 - double(a);
					c.tr++;
					c.add(std::fabs(err) > 1e-3);
					c.states++;
					const double e = std::fabs(double(f.getState()) - target), m = 2e-6 * (std::fabs(target) + std::fabs(start)) / std::max(0.02, (double)a);
					MC_CHECK(std::fabs(e - std::fabs(err)) <= m, "convergence", "weight %.2f: distance %.9g from the constant input after %d updates, expected %.9g", a, e, k + 1, std::fabs(err));
					MC_CHECK(e <= prev + m, "monotone", "weight %.2f: the distance grew from %.9g to %.9g", a, prev, e);
					prev = e;
				}
			}
		}
	});
	return mc::finish();
}
