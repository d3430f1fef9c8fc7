// min / max / constrain / radians / degrees: exhaustive over int8 triples, all ordered pairs/triples of a floating point alphabet, and a dense angle grid.
#include "mc.h"
#include <mathlib/mathlib.h>
#include <cmath>
#include <limits>

template<typename T> static std::vector<T> alphabet()
{
	using L = std::numeric_limits<T>;
	std::vector<T> v;
	const T base[] = {T(0), L::denorm_min(), L::min(), T(1e-6), T(0.1), T(0.5), T(1), T(1) + L::epsilon(), T(3.14159265358979), T(45), T(90), T(179.5), T(180), T(181), T(360), T(12345.678), L::max() / T(400), L::max(), L::infinity()};

	for (T b : base) { v.push_back(b); v.push_back(-b); }

	return v;
}

template<typename T> static void fp(const char *part)
{
	const std::vector<T> a = alphabet<T>();
	mc::for_all(part, a.size(), [&](uint64_t i) {
		mc::Count c;

		for (T y : a) {
			const T x = a[i];
			c.add(x != y);
			c.states++;
			c.tr += 2;
			MC_CHECK(math::min(x, y) == (y < x ? y : x), "min", "min(%.17g, %.17g) = %.17g", double(x), double(y), double(math::min(x, y)));
			MC_CHECK(math::max(x, y) == (y > x ? y : x), "max", "max(%.17g, %.17g) = %.17g", double(x), double(y), double(math::max(x, y)));

			for (T z : a) {
				if (y <= z) {
					const T r = math::constrain(x, y, z);
					const T w = x < y ? y : x > z ? z : x;
					c.add(x < y || x > z);
					c.states++;
					c.tr++;
					MC_CHECK(r == w, "constrain", "constrain(%.17g, %.17g, %.17g) = %.17g", double(x), double(y), double(z), double(r));
				}
			}
		}
	});
}

template<typename T> static void angles(const char *part, double tol)
{
	const uint64_t N = mc::thorough() ? 4000000 : 400000;
	mc::for_all(part, N + 1, [&](uint64_t i) {
		const T x = T(-2000 + 4000. * double(i) / double(N));
		const double PI = 3.14159265358979323846;
		const T r = math::radians(x), d = math::degrees(x), b1 = math::degrees(r), b2 = math::radians(d);
		mc::sh()->states.fetch_add(1);
		mc::transition(4);
		mc::evaluation(x != 0);
		MC_CHECK(std::fabs(double(r) - double(x) * PI / 180) <= tol * std::fabs(double(r)), "radians", "radians(%.17g) = %.17g", double(x), double(r));
		MC_CHECK(std::fabs(double(d) - double(x) * 180 / PI) <= tol * std::fabs(double(d)), "degrees", "degrees(%.17g) = %.17g", double(x), double(d));
		MC_CHECK(std::fabs(double(b1) - double(x)) <= 2 * tol * std::fabs(double(x)) && std::fabs(double(b2) - double(x)) <= 2 * tol * std::fabs(double(x)), "roundtrip",
			 "%.17g becomes %.17g and %.17g after a round trip", double(x), double(b1), double(b2));

		if (i % 100000 == 777) { mc::sample("radians(%.9g) = %.9g, degrees(%.9g) = %.9g", double(x), double(r), double(x), double(d)); }
	});
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	mc::rule("min/max/constrain over every int8 triple (16.7 million), every pair and triple of a 38-value alphabet (zeros, denormal, limits, infinities) for float and double, every unsigned pair/triple of "
		 "a 9-value alphabet; radians/degrees on a uniform grid over [-2000,2000] for float and double; triples with lower limit above upper limit are excluded. Non-trivial: the limits or operands differ.");
	mc::for_all("int8", 256, [&](uint64_t i) {
		mc::Count c;
		const int8_t v = int8_t(int(i) - 128);

		for (int lo = -128; lo < 128; lo++) {
			c.tr += 2;
			MC_CHECK(math::min(v, int8_t(lo)) == (lo < v ? lo : v) && math::max(v, int8_t(lo)) == (lo > v ? lo : v), "minmax-int", "min/max(%d, %d) = %d/%d", v, lo, math::min(v, int8_t(lo)), math::max(v, int8_t(lo)));

			for (int hi = lo; hi < 128; hi++) {
				const int r = math::constrain(v, int8_t(lo), int8_t(hi));
				c.add(v < lo || v > hi);
				c.states++;
				c.tr++;
				MC_CHECK(r == (v < lo ? lo : v > hi ? hi : v), "constrain-int", "constrain(%d, %d, %d) = %d", v, lo, hi, r);
			}
		}
	});
	mc::for_all("unsigned", 9, [&](uint64_t i) {
		const uint64_t a[9] = {0, 1, 2, 100000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, ~0ull};
		mc::Count c;

		for (uint64_t y : a) {
			const uint64_t x = a[i];
			c.tr += 4;
			c.add(x != y);
			c.states++;
			MC_CHECK(math::min(x, y) == (y < x ? y : x) && math::max(x, y) == (y > x ? y : x), "minmax-u64", "min/max(%llu, %llu)", (unsigned long long)x, (unsigned long long)y);
			MC_CHECK(math::min(unsigned(x), unsigned(y)) == (unsigned(y) < unsigned(x) ? unsigned(y) : unsigned(x)), "min-u32", "min(%u, %u)", unsigned(x), unsigned(y));

			for (uint64_t z : a) {
				if (y <= z) { MC_CHECK(math::constrain(x, y, z) == (x < y ? y : x > z ? z : x), "constrain-u64", "constrain(%llu, %llu, %llu)", (unsigned long long)x, (unsigned long long)y, (unsigned long long)z); }
			}
		}
	});
	fp<float>("float");
	fp<double>("double");
	angles<float>("angles-float", 4e-7);
	angles<double>("angles-double", 1e-15);
	return mc::finish();
}
