// Rotation helpers: yaw extraction and yaw replacement, 312 / 321 sequences, inverse rotation matrix, compensated sum, integer power.
#include "mc.h"
#include <EKF/utils.hpp>
#include <cmath>
#include <limits>

struct M3 { double m[3][3]; };
static M3 rz(double a) { return {{{std::cos(a), -std::sin(a), 0}, {std::sin(a), std::cos(a), 0}, {0, 0, 1}}}; }
static M3 rx(double a) { return {{{1, 0, 0}, {0, std::cos(a), -std::sin(a)}, {0, std::sin(a), std::cos(a)}}}; }
static M3 ry(double a) { return {{{std::cos(a), 0, std::sin(a)}, {0, 1, 0}, { -std::sin(a), 0, std::cos(a)}}}; }
static M3 mul(const M3 &a, const M3 &b)
{
	M3 r{};

	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { for (int k = 0; k < 3; k++) { r.m[i][j] += a.m[i][k] * b.m[k][j]; } } }

	return r;
}
static double dist(const matrix::Dcmf &a, const M3 &b)
{
	double d = 0;

	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { const double e = std::fabs(double(a(i, j)) - b.m[i][j]); d = (e > d || e != e) ? e : d; } }

	return d;
}
static matrix::Dcmf toDcm(const M3 &a)
{
	matrix::Dcmf r;

	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { r(i, j) = float(a.m[i][j]); } }

	return r;
}
static matrix::Quatf toQuat(const M3 &a)
{
	// Shepperd, choosing the largest component
	const double t[4] = {a.m[0][0] + a.m[1][1] + a.m[2][2], a.m[0][0], a.m[1][1], a.m[2][2]};
	double q[4];
	int k = 0;

	for (int i = 1; i < 4; i++) { if (t[i] > t[k]) { k = i; } }

	if (k == 0) {
		const double s = 2 * std::sqrt(1 + t[0]);
		q[0] = s / 4; q[1] = (a.m[2][1] - a.m[1][2]) / s; q[2] = (a.m[0][2] - a.m[2][0]) / s; q[3] = (a.m[1][0] - a.m[0][1]) / s;

	} else {
		const int i = k - 1, j = k % 3, l = (k + 1) % 3;
		const double s = 2 * std::sqrt(1 + a.m[i][i] - a.m[j][j] - a.m[l][l]);
		q[k] = s / 4;
		q[0] = (a.m[l][j] - a.m[j][l]) / s;
		q[1 + j] = (a.m[j][i] + a.m[i][j]) / s;
		q[1 + l] = (a.m[l][i] + a.m[i][l]) / s;
	}

	return matrix::Quatf(float(q[0]), float(q[1]), float(q[2]), float(q[3]));
}
static double wrap(double a) { while (a > M_PI) { a -= 2 * M_PI; } while (a < -M_PI) { a += 2 * M_PI; } return a; }

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	const int N = mc::thorough() ? 72 : 24;
	mc::rule("attitudes: yaw x roll x pitch on a regular grid (quick 24, thorough 72 values per angle, roll and yaw over a full turn, pitch over +-90 degrees) and new yaw angles on a grid of 9; "
		 "singular attitudes are excluded for the sequence that is singular there; non-trivial: a rotation other than identity. Compensated sums: all length-6 sequences over 7 magnitudes. "
		 "Integer powers: 13 bases x exponents -12..12.");
	mc::for_all("attitudes", uint64_t(N) * N, [&](uint64_t k) {
		mc::Count cnt;
		const double yaw = -M_PI + 2 * M_PI * (k / N) / N + 0.013, a1 = -M_PI + 2 * M_PI * (k % N) / N + 0.007;

		for (int j = 0; j <= N; j++) {
			const double a2 = -M_PI / 2 + M_PI * j / N;
			cnt.states++;
			cnt.tr += 10;
			cnt.add();
			// 3-2-1: R = Rz(yaw) Ry(pitch) Rx(roll)
			const M3 R = mul(mul(rz(yaw), ry(a2)), rx(a1));
			const matrix::Dcmf D = toDcm(R);
			const matrix::Quatf q = toQuat(R);
			const bool sing321 = std::fabs(R.m[2][0]) > 0.999, sing312 = std::fabs(R.m[2][1]) > 0.999;

			if (!sing321) {
				const double y = std::atan2(R.m[1][0], R.m[0][0]);
				MC_CHECK(std::fabs(wrap(getEuler321Yaw(D) - y)) < 2e-5 && std::fabs(wrap(getEuler321Yaw(q) - y)) < 2e-5, "yaw321", "yaw %.3f pitch %.3f roll %.3f: 3-2-1 yaw %.6f (matrix) %.6f (quaternion), expected %.6f", yaw, a2, a1, getEuler321Yaw(D), getEuler321Yaw(q), y);
			}

			if (!sing312) {
				const double y = std::atan2(-R.m[0][1], R.m[1][1]);
				MC_CHECK(std::fabs(wrap(getEuler312Yaw(D) - y)) < 2e-5 && std::fabs(wrap(getEuler312Yaw(q) - y)) < 2e-5, "yaw312", "yaw %.3f pitch %.3f roll %.3f: 3-1-2 yaw %.6f (matrix) %.6f (quaternion), expected %.6f", yaw, a2, a1, getEuler312Yaw(D), getEuler312Yaw(q), y);
			}

			// the inverse rotation matrix is the transpose
			M3 T{};

			for (int r = 0; r < 3; r++) { for (int c = 0; c < 3; c++) { T.m[r][c] = R.m[c][r]; } }

			MC_CHECK(dist(quatToInverseRotMat(q), T) < 2e-6, "inverse", "yaw %.3f pitch %.3f roll %.3f: inverse rotation matrix off by %.3g", yaw, a2, a1, dist(quatToInverseRotMat(q), T));
			// which sequence is further from its singularity
			const double p321 = std::fabs(R.m[2][0]), p312 = std::fabs(R.m[2][1]);

			if (std::fabs(p321 - p312) > 1e-5) {
				MC_CHECK(shouldUse321RotationSequence(D) == (p321 < p312), "sequence", "yaw %.3f pitch %.3f roll %.3f: uses the %s sequence", yaw, a2, a1, shouldUse321RotationSequence(D) ? "3-2-1" : "3-1-2");
			}

			// replacing the yaw only rotates about the vertical
			for (double ny : {-3.1, -1.7, -0.5, 0., 0.4, 1.5707, 2.2, 3.1}) {
				if (!sing321) {
					const M3 W = mul(rz(ny - std::atan2(R.m[1][0], R.m[0][0])), R);
					MC_CHECK(dist(updateEuler321YawInRotMat(float(ny), D), W) < 2e-4, "set321", "yaw %.3f pitch %.3f roll %.3f to yaw %.3f (3-2-1): off by %.3g", yaw, a2, a1, ny, dist(updateEuler321YawInRotMat(float(ny), D), W));
				}

				// asin() keeps the 3-1-2 roll within a quarter turn
				if (!sing312) {
					const M3 W = mul(rz(ny - std::atan2(-R.m[0][1], R.m[1][1])), R);
					MC_CHECK(dist(updateEuler312YawInRotMat(float(ny), D), W) < 2e-4, "set312", "yaw %.3f pitch %.3f roll %.3f to yaw %.3f (3-1-2): off by %.3g", yaw, a2, a1, ny, dist(updateEuler312YawInRotMat(float(ny), D), W));
				}

				if (std::fabs(p321 - p312) > 1e-5) {
					const double y0 = p321 < p312 ? std::atan2(R.m[1][0], R.m[0][0]) : std::atan2(-R.m[0][1], R.m[1][1]);
					const M3 W = mul(rz(ny - y0), R);
					MC_CHECK(dist(updateYawInRotMat(float(ny), D), W) < 2e-4, "set-yaw", "yaw %.3f pitch %.3f roll %.3f to yaw %.3f: off by %.3g", yaw, a2, a1, ny, dist(updateYawInRotMat(float(ny), D), W));
				}
			}

			// 3-1-2 construction from (yaw, roll, pitch)
			const M3 B = mul(mul(rz(yaw), rx(a1)), ry(a2));
			const matrix::Dcmf G = taitBryan312ToRotMat(matrix::Vector3f(float(yaw), float(a1), float(a2)));
			MC_CHECK(dist(G, B) < 2e-6, "tait-bryan", "3-1-2 rotation from yaw %.3f roll %.3f pitch %.3f off by %.3g", yaw, a1, a2, dist(G, B));
		}

		if (k % 200 == 57) { mc::sample("yaw %.3f, second angle %.3f with %d third angles", yaw, a1, N + 1); }
	});
	mc::explore("kahan", mc::ODOMETER, [&]() {
		static const float A[7] = {1.f, 1e-8f, -1e-8f, 1e-3f, 1e4f, -1.f, 3.3333333f};
		float sum = 0, acc = 0;
		double ref = 0, big = 0;

		for (int rep = 0; rep < 6; rep++) {
			const float v = A[mc::choose(7)];

			for (int k = 0; k < 50; k++) { sum = kahanSummation(sum, v, acc); ref += v; big = std::max(big, std::fabs(ref)); big = std::max(big, (double)std::fabs(v)); }

			mc::transition(50);
		}

		mc::visit(mc::hash_pod(4, sum));
		MC_CHECK(std::fabs(sum - ref) <= 2.5e-7 * big + 1e-12, "kahan", "compensated sum %.9g, exact %.9g", sum, ref);
	}, 2);
	mc::for_all("power", 13 * 25, [&](uint64_t k) {
		static const float B[13] = {0.5f, 1.f, 2.f, -1.f, -2.f, 3.f, 10.f, 0.1f, -0.3f, 1.7f, 25.f, -11.f, 0.99f};
		const float b = B[k / 25];
		const int e = int(k % 25) - 12;
		const double w = std::pow(double(b), e);
		mc::transition();
		mc::evaluation();
		mc::visit(mc::mix(k, 1234));
		MC_CHECK(std::fabs(ecl::powf(b, e) - w) <= 3e-6 * std::fabs(w), "power", "%g to the power %d is %g, expected %g", b, e, ecl::powf(b, e), w);
		MC_CHECK(std::fabs(sq(b) - double(b) * b) <= 2e-7 * double(b) * b, "square", "sq(%g) = %g", b, sq(b));
	});
	return mc::finish();
}
