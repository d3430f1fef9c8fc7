// Reference error-state-free 24-state Kalman filter in double precision, written from the definition of the
// states and of the measurements; Jacobians are obtained by numerical differentiation of the measurement and
// process functions, so nothing of the generated code of the filter under test is shared.
#pragma once

#include "ekfsim.h"

namespace ref
{

using namespace sim;

constexpr int N = 24;

// homogeneous rotation body -> earth (not assuming a unit quaternion)
inline V3 rot_h(const double *q, const V3 &v)
{
	const double q0 = q[0], q1 = q[1], q2 = q[2], q3 = q[3];
	return {(q0 * q0 + q1 * q1 - q2 * q2 - q3 * q3) *v.x + 2 * (q1 * q2 - q0 * q3) *v.y + 2 * (q1 * q3 + q0 * q2) *v.z,
		2 * (q1 * q2 + q0 * q3) *v.x + (q0 * q0 - q1 * q1 + q2 * q2 - q3 * q3) *v.y + 2 * (q2 * q3 - q0 * q1) *v.z,
		2 * (q1 * q3 - q0 * q2) *v.x + 2 * (q2 * q3 + q0 * q1) *v.y + (q0 * q0 - q1 * q1 - q2 * q2 + q3 * q3) *v.z};
}
inline V3 rot_hT(const double *q, const V3 &v)
{
	const double c[4] = {q[0], -q[1], -q[2], -q[3]};
	return rot_h(c, v);
}

struct Imu {
	double da[3], dv[3], dta, dtv;
	bool clip[3];
};
inline Imu imu_of(const imuSample &s)
{
	Imu r;

	for (int i = 0; i < 3; i++) { r.da[i] = s.delta_ang(i); r.dv[i] = s.delta_vel(i); r.clip[i] = s.delta_vel_clipping[i]; }

	r.dta = s.delta_ang_dt;
	r.dtv = s.delta_vel_dt;
	return r;
}

struct Flags {
	bool mag_3D, wind, in_air, bad_acc_vertical;
};

struct Kf {
	double x[N];
	double P[N][N];
	// quantities the filter carries besides states and covariance
	double dt_avg{0.01};
	double ang_filt{0}, acc_filt{0};
	double hrate_lpf{0};
	V3 earth_rate{0, 0, 0};
	bool inhibit[3] {false, false, false};
	Flags f;
	V3 ang_rate_raw{0, 0, 0};
	double eps{1e-7};            // rounding of the innovation about to be used
	double slack[N] {};          // what the rounding of the innovations may do to the states

	V3 vel() const { return {x[4], x[5], x[6]}; }
	V3 pos() const { return {x[7], x[8], x[9]}; }
	Q4 q() const { return {x[0], x[1], x[2], x[3]}; }
	double Rij(int i, int j) const
	{
		const V3 e = q().rot({j == 0 ? 1. : 0., j == 1 ? 1. : 0., j == 2 ? 1. : 0.});
		return e[i];
	}
	void set(const Ekf &e)
	{
		const auto v = e.getStateAtFusionHorizonAsVector();
		const auto &c = e.covariances();

		for (int i = 0; i < N; i++) { slack[i] = 0; x[i] = v(i); for (int j = 0; j < N; j++) { P[i][j] = c(i, j); } }
	}
	static double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

	void predict_state(const Imu &m, const parameters &p)
	{
		const V3 er = q().inv(earth_rate);
		V3 d{m.da[0] - x[10] - er.x * m.dta, m.da[1] - x[11] - er.y * m.dta, m.da[2] - x[12] - er.z * m.dta};
		const Q4 qn = (q() * q_exp(d)).normalized();
		x[0] = qn.w; x[1] = qn.x; x[2] = qn.y; x[3] = qn.z;
		const V3 dv = qn.rot({m.dv[0] - x[13], m.dv[1] - x[14], m.dv[2] - x[15]});
		const V3 v0 = vel();
		x[4] += dv.x; x[5] += dv.y; x[6] += dv.z + G * m.dtv;
		const V3 v1 = vel();

		for (int i = 0; i < 3; i++) { x[7 + i] += (v0[i] + v1[i]) * 0.5 * m.dtv; }

		// limits
		for (int i = 4; i < 7; i++) { x[i] = clampd(x[i], -1000, 1000); }

		for (int i = 7; i < 10; i++) { x[i] = clampd(x[i], -1e6, 1e6); }

		const double gl = 20 * DEG * dt_avg, al = double(p.acc_bias_lim) * dt_avg;

		for (int i = 10; i < 13; i++) { x[i] = clampd(x[i], -gl, gl); }

		for (int i = 13; i < 16; i++) { x[i] = clampd(x[i], -al, al); }

		for (int i = 16; i < 19; i++) { x[i] = clampd(x[i], -1, 1); }

		for (int i = 19; i < 22; i++) { x[i] = clampd(x[i], -0.5, 0.5); }

		for (int i = 22; i < 24; i++) { x[i] = clampd(x[i], -100, 100); }

		dt_avg = 0.99 * dt_avg + 0.01 * clampd(0.5 * (m.dta + m.dtv), 0.005, 0.02);

		if (m.dta > 0.0025) { ang_rate_raw = {m.da[0] / m.dta, m.da[1] / m.dta, m.da[2] / m.dta}; }
	}
	// process function of the covariance prediction: the ten kinematic states, linearised at the state now
	static void process(const double *s, const double *u, const Imu &m, double dt, double *o)
	{
		const double ax = 0.5 * (m.da[0] - u[0] - s[10]), ay = 0.5 * (m.da[1] - u[1] - s[11]), az = 0.5 * (m.da[2] - u[2] - s[12]);
		const Q4 q{s[0], s[1], s[2], s[3]};
		const Q4 qn = q * Q4{1, ax, ay, az};
		o[0] = qn.w; o[1] = qn.x; o[2] = qn.y; o[3] = qn.z;
		const V3 a = rot_h(s, {m.dv[0] - u[3] - s[13], m.dv[1] - u[4] - s[14], m.dv[2] - u[5] - s[15]});
		o[4] = s[4] + a.x; o[5] = s[5] + a.y; o[6] = s[6] + a.z + G * dt;
		o[7] = s[7] + s[4] * dt; o[8] = s[8] + s[5] * dt; o[9] = s[9] + s[6] * dt;
	}
	void zero(int i, double var)
	{
		for (int j = 0; j < N; j++) { P[i][j] = P[j][i] = 0; }

		P[i][i] = var;
	}
	void limit_P()
	{
		for (int i = 0; i < 4; i++) { P[i][i] = clampd(P[i][i], 0, 1); }

		for (int i = 4; i < 10; i++) { P[i][i] = clampd(P[i][i], 1e-6, 1e6); }

		for (int i = 10; i < 13; i++) { P[i][i] = clampd(P[i][i], 0, 1); }

		if (!inhibit[0] || !inhibit[1] || !inhibit[2]) {
			double mx = 1e-9;
			bool reset = false;

			for (int i = 0; i < 3; i++) {
				if (inhibit[i]) { continue; }

				if (P[13 + i][13 + i] > mx) { mx = P[13 + i][13 + i]; }

				else if (P[13 + i][13 + i] < 1e-9) { reset = true; }
			}

			const double lo = std::max(0.01 * mx, 5e-8), hi = std::pow(0.1 * G * dt_avg, 2);

			for (int i = 0; i < 3; i++) { if (!inhibit[i]) { P[13 + i][13 + i] = clampd(P[13 + i][13 + i], lo, hi); } }

			if (reset) {
				for (int i = 13; i < 16; i++) { zero(i, P[i][i]); }
			}
		}

		if (f.mag_3D) {
			for (int i = 16; i < 22; i++) { P[i][i] = clampd(P[i][i], 0, 1); }

		} else {
			for (int i = 16; i < 22; i++) { zero(i, 0); }
		}

		if (f.wind) {
			for (int i = 22; i < 24; i++) { P[i][i] = clampd(P[i][i], 0, 1e6); }

		} else {
			for (int i = 22; i < 24; i++) { zero(i, 0); }
		}
	}
	// true when an inhibit decision is too close to its threshold to call
	bool predict_cov(const Imu &m, const parameters &p)
	{
		bool close = false;
		const double dt = 0.01;
		// accelerometer bias learning
		const double al = clampd(dt / p.acc_bias_learn_tc, 0, 1);
		const double wn = std::sqrt(m.da[0] * m.da[0] + m.da[1] * m.da[1] + m.da[2] * m.da[2]) / dt;
		const double an = std::sqrt(m.dv[0] * m.dv[0] + m.dv[1] * m.dv[1] + m.dv[2] * m.dv[2]) / dt;
		ang_filt = std::max(wn, (1 - al) * ang_filt);
		acc_filt = std::max(an, (1 - al) * acc_filt);
		const bool high = ang_filt > p.acc_bias_learn_gyr_lim || acc_filt > p.acc_bias_learn_acc_lim;

		if (std::fabs(ang_filt - p.acc_bias_learn_gyr_lim) < 1e-3 || std::fabs(acc_filt - p.acc_bias_learn_acc_lim) < 1e-2) { close = true; }

		const bool all = (p.fusion_mode & MASK_INHIBIT_ACC_BIAS) || high || f.bad_acc_vertical;

		for (int i = 0; i < 3; i++) {
			const double r = std::fabs(Rij(2, i));

			if (!f.in_air && std::fabs(r - 0.8) < 1e-4) { close = true; }

			inhibit[i] = all || !(r > 0.8 || f.in_air) || m.clip[i];
		}

		// Jacobians
		double F[N][N] = {}, Gu[10][6] = {};

		for (int i = 0; i < N; i++) { F[i][i] = 1; }

		const double zu[6] = {0, 0, 0, 0, 0, 0};

		for (int c = 0; c < 16; c++) {
			double a[N], b[N], oa[10], ob[10];
			memcpy(a, x, sizeof(a));
			memcpy(b, x, sizeof(b));
			const double h = 1e-4;
			a[c] += h; b[c] -= h;
			process(a, zu, m, dt, oa);
			process(b, zu, m, dt, ob);

			for (int r = 0; r < 10; r++) { F[r][c] = (oa[r] - ob[r]) / (2 * h); }
		}

		for (int c = 0; c < 6; c++) {
			double ua[6] = {}, ub[6] = {}, oa[10], ob[10];
			const double h = 1e-4;
			ua[c] = h; ub[c] = -h;
			process(x, ua, m, dt, oa);
			process(x, ub, m, dt, ob);

			for (int r = 0; r < 10; r++) { Gu[r][c] = (oa[r] - ob[r]) / (2 * h); }
		}

		// noise
		double Qu[6], Qs[N] = {};
		const double gn = clampd(p.gyro_noise, 0, 1);
		double acn = clampd(p.accel_noise, 0, 1);

		if (f.bad_acc_vertical) { acn = 4.9f; }

		for (int i = 0; i < 3; i++) {
			Qu[i] = std::pow(dt * gn, 2);
			Qu[3 + i] = std::pow(dt * (m.clip[i] ? 4.9f : acn), 2);
			Qs[10 + i] = std::pow(dt * dt * clampd(p.gyro_bias_p_noise, 0, 1), 2);
			Qs[13 + i] = std::pow(dt * dt * clampd(p.accel_bias_p_noise, 0, 1), 2);
		}

		if (f.mag_3D) {
			if (P[16][16] + P[17][17] + P[18][18] < 0.1) { for (int i = 16; i < 19; i++) { Qs[i] = std::pow(dt * clampd(p.mage_p_noise, 0, 1), 2); } }

			if (P[19][19] + P[20][20] + P[21][21] < 0.1) { for (int i = 19; i < 22; i++) { Qs[i] = std::pow(dt * clampd(p.magb_p_noise, 0, 1), 2); } }
		}

		hrate_lpf = hrate_lpf * (1 - 0.1 * dt) + x[6] * 0.1 * dt;

		if (f.wind && P[22][22] + P[23][23] < double(p.initial_wind_uncertainty) * p.initial_wind_uncertainty) {
			for (int i = 22; i < 24; i++) {
				Qs[i] = std::pow(dt * clampd(p.wind_vel_p_noise, 0, 1) * (1 + p.wind_vel_p_noise_scaler * std::fabs(hrate_lpf)), 2);
			}
		}

		// P <- F P F' + G Qu G' + Qs; only the first ten rows of F differ from the identity
		static double T[N][N];
		static double O[N][N];

		for (int i = 0; i < N; i++) {
			for (int j = 0; j < N; j++) {
				if (i < 10) { double s = 0; for (int k = 0; k < 16; k++) { s += F[i][k] * P[k][j]; } T[i][j] = s; }

				else { T[i][j] = P[i][j]; }
			}
		}

		for (int i = 0; i < N; i++) {
			for (int j = 0; j < N; j++) {
				if (j < 10) { double s = 0; for (int k = 0; k < 16; k++) { s += T[i][k] * F[j][k]; } O[i][j] = s; }

				else { O[i][j] = T[i][j]; }
			}
		}

		for (int i = 0; i < 10; i++) {
			for (int j = 0; j < 10; j++) { for (int k = 0; k < 6; k++) { O[i][j] += Gu[i][k] * Qu[k] * Gu[j][k]; } }
		}

		for (int i = 0; i < N; i++) { O[i][i] += Qs[i]; }

		const double sum = P[7][7] + P[8][8];

		if (std::fabs(sum - 1e4) < 1) { close = true; }

		if (sum > 1e4) {
			for (int i = 7; i < 9; i++) { for (int j = 0; j < N; j++) { O[i][j] = P[i][j]; O[j][i] = P[j][i]; } }
		}

		for (int i = 0; i < 3; i++) {
			if (inhibit[i]) {
				const double hold = P[13 + i][13 + i];

				// correlations with the biases of later axes and with field and wind states stay frozen
				for (int j = 0; j < N; j++) { O[13 + i][j] = O[j][13 + i] = (j > 13 + i && !(j < 16 && inhibit[j - 13])) ? P[13 + i][j] : 0; }

				O[13 + i][13 + i] = hold;
			}
		}

		memcpy(P, O, sizeof(P));
		limit_P();
		return close;
	}
	// innovation variance of a measurement with Jacobian H
	double S_of(const double *H, double R) const
	{
		double s = R;

		for (int i = 0; i < N; i++) { if (H[i] != 0) { for (int j = 0; j < N; j++) { s += H[i] * P[i][j] * H[j]; } } }

		return s;
	}
	template<typename Fn> void jac(double *H, Fn &&h, std::initializer_list<int> idx) const
	{
		for (int i = 0; i < N; i++) { H[i] = 0; }

		for (int c : idx) {
			double a[N], b[N];
			memcpy(a, x, sizeof(a));
			memcpy(b, x, sizeof(b));
			const double d = 1e-5;
			a[c] += d; b[c] -= d;
			H[c] = (h(a) - h(b)) / (2 * d);
		}
	}
	enum { ALL = 0xffffff, WIND_ONLY = 0xc00000, MAG_ONLY = 0x3f0000 };
	// scalar measurement update, gains of the states outside the mask are zero
	bool update(const double *H, double innov, double R, unsigned mask = ALL)
	{
		double PH[N], K[N];
		const double S = S_of(H, R);

		for (int i = 0; i < N; i++) { PH[i] = 0; for (int j = 0; j < N; j++) { if (H[j] != 0) { PH[i] += P[i][j] * H[j]; } } }

		for (int i = 0; i < N; i++) { K[i] = (mask >> i) & 1 ? PH[i] / S : 0; }

		return apply(K, PH, innov);
	}
	bool apply(double *K, const double *PH, double innov)
	{
		for (int i = 0; i < 3; i++) { if (inhibit[i]) { K[13 + i] = 0; } }

		for (int i = 0; i < N; i++) { if (P[i][i] < K[i] * PH[i]) { return false; } }

		for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) { P[i][j] -= K[i] * PH[j]; } }

		for (int i = 0; i < N; i++) { for (int j = 0; j < i; j++) { P[i][j] = P[j][i] = 0.5 * (P[i][j] + P[j][i]); } }

		limit_P();

		for (int i = 0; i < N; i++) { x[i] -= K[i] * innov; slack[i] += std::fabs(K[i]) * (eps + 2e-3 * std::fabs(innov)); }

		const double n = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]);

		for (int i = 0; i < 4; i++) { x[i] /= n; }

		return true;
	}
	bool direct(int idx, double innov, double R, double S)
	{
		double PH[N], K[N];

		for (int i = 0; i < N; i++) { PH[i] = P[i][idx]; K[i] = P[i][idx] / S; }

		return apply(K, PH, innov);
	}
};

} // namespace ref
