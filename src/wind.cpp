// WindEstimator: every history of airspeed / sideslip measurements and predictions against a reference extended Kalman filter in double
// precision whose measurement Jacobians are obtained by numerical differentiation.
#include "mc.h"
#include <airdata/WindEstimator.hpp>
#include <cmath>
#include <new>

typedef double D;
struct Ref {
	D x[3] {}, P[3][3] {};
	bool init{false}, reset{false};
	D qw{0.1}, qk{1e-4}, rt{1.4}, rb{0.5};
	int gt{3}, gb{1};
	uint64_t t_tas{0}, t_beta{0}, t_upd{0}, rej_tas{0}, rej_beta{0};
	D enforced{-1};
	D ti{0}, tv{0}, bi{0}, bv{0};
	bool unsure{false};

	void initialise(const D v[3], D var, D tas)
	{
		const D s = std::hypot(v[0], v[1]);
		unsure = unsure || std::fabs(s - 3) < 1e-4;

		if (s < 3) { init = false; return; }

		x[0] = v[0] - tas * v[0] / s;
		x[1] = v[1] - tas * v[1] / s;
		x[2] = 1;
		// covariance as initialised by the estimator (the statement only claims that it is symmetric and non-negative)
		const D L3 = tas / (s * s * s), L4 = L3 * v[0] * v[1] + 1, L6 = -tas / s;
		const D L[2][2] = {{L4, v[1] *v[1] *L3 + L6}, {v[0] *v[0] *L3 + L6, L4}};

		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P[i][j] = 0; } }

		for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { P[i][j] = var * (L[i][0] * L[j][0] + L[i][1] * L[j][1]); } }

		P[2][2] = 1e-4;
		rej_tas = rej_beta = 0;
		reset = true;
		init = true;
	}
	void update(uint64_t now)
	{
		if (!init) { return; }

		reset = false;

		if (now - t_upd < 1000000 || t_upd == 0) { if (t_upd == 0) { t_upd = now; } return; }

		const D dt = (now - t_upd) * 1e-6;
		t_upd = now;
		P[0][0] += dt * dt * qw;
		P[1][1] += dt * dt * qw;
		P[0][1] += dt * dt * qw;
		P[1][0] = P[0][1];
		P[2][2] += dt * dt * qk;
	}
	template<class F> bool fuse(uint64_t now, const D v[3], F h, D z, D R, int gate, uint64_t &rej, D &innov, D &var, D re_tas)
	{
		D H[3];
		const D h0 = h(x);

		for (int i = 0; i < 3; i++) {
			D a[3] = {x[0], x[1], x[2]}, b[3] = {x[0], x[1], x[2]};
			const D e = 1e-4;
			a[i] += e; b[i] -= e;
			const D d1 = (h(a) - h(b)) / (2 * e);
			a[i] += e; b[i] -= e;
			H[i] = (4 * d1 - (h(a) - h(b)) / (4 * e)) / 3;
		}

		D PH[3], S = R;

		for (int i = 0; i < 3; i++) { PH[i] = P[i][0] * H[0] + P[i][1] * H[1] + P[i][2] * H[2]; }

		for (int i = 0; i < 3; i++) { S += H[i] * PH[i]; }

		innov = z - h0;
		var = S;
		const D lim = D(gate) * gate * S;
		unsure = unsure || std::fabs(innov * innov - lim) < 2e-3 * lim;

		unsure = unsure || std::fabs(S) < 0.05;

		if (innov * innov > lim) { if (!rej) { rej = now; } }

		else { rej = 0; }

		// a negative innovation variance is treated like a persistent rejection: start again
		if (rej || S < 0) {
			unsure = unsure || (rej && now - rej > 4999990 && now - rej < 5000010 && now - rej != 5000000);

			if ((rej && now - rej > 5000000) || S < 0) { initialise(v, 0.1, re_tas); }

			return false;
		}

		for (int i = 0; i < 3; i++) { x[i] += PH[i] / S * innov; }

		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P[i][j] -= PH[i] * PH[j] / S; } }

		for (int i = 0; i < 3; i++) {
			if (P[i][i] < 0) { init = false; return true; }

			P[i][i] = std::min(P[i][i], i < 2 ? 25. : 0.1);
		}

		x[2] = enforced < 0 ? std::max(0., x[2]) : enforced;
		return true;
	}
	void airspeed(uint64_t now, D tas, const D v[3], const D var[2])
	{
		if (!init) { initialise(v, std::max(0.01, var[0]), tas); return; }

		if (now - t_tas < 100000) { return; }

		t_tas = now;
		fuse(now, v, [&](const D *s) { return s[2] * std::sqrt((v[0] - s[0]) * (v[0] - s[0]) + (v[1] - s[1]) * (v[1] - s[1]) + v[2] * v[2]); }, tas, rt, gt, rej_tas, ti, tv, tas);
	}
	void beta(uint64_t now, const D v[3], const D Rt[3][3])   // Rt: earth to body
	{
		const D sp = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);

		if (!init) { initialise(v, 0.1, sp); return; }

		if (now - t_beta < 100000) { return; }

		t_beta = now;
		auto body = [&](const D *s, int k) { return Rt[k][0] * (v[0] - s[0]) + Rt[k][1] * (v[1] - s[1]) + Rt[k][2] * v[2]; };
		const D fwd = body(x, 0);
		unsure = unsure || (std::fabs(fwd) < 2 && std::fabs(fwd) >= 0.099);

		if (std::fabs(fwd) < 0.1) { return; }

		fuse(now, v, [&](const D *s) { return body(s, 1) / body(s, 0); }, 0, rb, gb, rej_beta, bi, bv, sp);
	}
};

static void set_rot(double yaw, double pitch, double roll, D Rt[3][3], matrix::Quatf &q)
{
	q = matrix::Quatf(matrix::Eulerf(float(roll), float(pitch), float(yaw)));
	const D w = q(0), x = q(1), y = q(2), z = q(3);
	const D R[3][3] = {{w *w + x *x - y *y - z * z, 2 * (x *y - w * z), 2 * (x *z + w * y)}, {2 * (x *y + w * z), w *w - x *x + y *y - z * z, 2 * (y *z - w * x)}, {2 * (x *z - w * y), 2 * (y *z + w * x), w *w - x *x - y *y + z * z}};

	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { Rt[i][j] = R[j][i]; } }
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	const int depth = mc::thorough() ? 7 : 6;
	mc::rule("all sequences (quick 6 for two configurations and 5 for the rest, thorough 7) of macro-operations from a menu of 11 (predict after 0.3 s / 1.2 s / 3 s, airspeed fast / slow / repeated within 100 ms / outlier / persistent outlier for 6 s, sideslip on two "
		 "headings, with the object slow on the ground) for 4 configurations of noise, gate and scale enforcement, in two storage patterns; each operation is compared with the reference filter "
		 "(wind, variances, scale, innovations, validity, reset flag); paths end where a comparison is within rounding of a decision; non-trivial: the estimator is initialised.");
	mc::assume("the covariance right after initialisation and the wind process noise correlation are taken as implemented");
	mc::explore("histories", mc::ODOMETER, [&]() {
		const int cfg = mc::choose(4), fill = mc::choose(2);
		alignas(16) static char mem[sizeof(WindEstimator)];
		memset(mem, fill ? 0xA5 : 0, sizeof(mem));
		WindEstimator &w = *new (mem) WindEstimator;
		Ref r;
		const int d = !mc::thorough() && (fill || cfg > 1) ? depth - 1 : depth;

		if (cfg) {
			w.set_wind_p_noise(cfg == 1 ? 0.5f : 0.1f);
			w.set_tas_scale_p_noise(0.01f);
			w.set_tas_noise(cfg == 3 ? 0.5f : 2.f);
			w.set_beta_noise(0.3f);
			w.set_tas_gate(cfg == 2 ? 5 : 3);
			w.set_beta_gate(2);
			r.qw = cfg == 1 ? 0.25 : 0.01; r.qk = 1e-4; r.rt = cfg == 3 ? 0.25 : 4.; r.rb = 0.09; r.gt = cfg == 2 ? 5 : 3; r.gb = 2;

			if (cfg == 3) { w.enforce_airspeed_scale(1.1f); r.enforced = 1.1; }
		}

		uint64_t now = 10000000;
		const D wind[2] = {3, -2};
		D yaw = 0.3;
		auto vel = [&](D speed, D v[3]) { v[0] = wind[0] + speed * std::cos(yaw); v[1] = wind[1] + speed * std::sin(yaw); v[2] = 0.4; };
		auto compare = [&](const char *what) {
			mc::transition();

			if (r.unsure) { mc::end_path(); }

			float a[2], b[2];
			w.get_wind(a);
			w.get_wind_var(b);
			MC_CHECK(w.is_estimate_valid() == r.init, "valid", "after %s: is_estimate_valid() is %d, expected %d", what, w.is_estimate_valid(), r.init);
			mc::evaluation(r.init);

			if (!r.init) { return; }

			for (int i = 0; i < 2; i++) {
				MC_CHECK(std::fabs(a[i] - r.x[i]) < 5e-3 * (1 + std::fabs(r.x[i])), "wind", "after %s: wind[%d] %.5f, reference %.5f", what, i, a[i], r.x[i]);
				MC_CHECK(b[i] >= 0 && std::fabs(b[i] - r.P[i][i]) < 1e-2 * (0.02 + r.P[i][i]), "variance", "after %s: wind variance[%d] %.6f, reference %.6f", what, i, b[i], r.P[i][i]);
			}

			MC_CHECK(std::fabs(w.get_tas_scale() - r.x[2]) < 2e-3 && w.get_tas_scale() >= 0, "scale", "after %s: scale %.6f, reference %.6f", what, w.get_tas_scale(), r.x[2]);
			MC_CHECK(w.get_wind_estimator_reset() == r.reset, "reset-flag", "after %s: reset flag %d, expected %d", what, w.get_wind_estimator_reset(), r.reset);
			MC_CHECK(std::fabs(w.get_tas_innov() - r.ti) < 1e-2 * (1 + std::fabs(r.ti)) && std::fabs(w.get_tas_innov_var() - r.tv) < 1e-2 * (0.05 + std::fabs(r.tv)), "tas-innovation", "after %s: airspeed innovation %.5f (variance %.5f), reference %.5f (%.5f)",
				 what, w.get_tas_innov(), w.get_tas_innov_var(), r.ti, r.tv);
			MC_CHECK(std::fabs(w.get_beta_innov() - r.bi) < 1e-2 * (1 + std::fabs(r.bi)) && std::fabs(w.get_beta_innov_var() - r.bv) < 1e-2 * (0.05 + std::fabs(r.bv)), "beta-innovation", "after %s: sideslip innovation %.5f (variance %.5f), reference %.5f (%.5f)",
				 what, w.get_beta_innov(), w.get_beta_innov_var(), r.bi, r.bv);
			mc::visit(mc::hash_bytes(mc::hash_bytes(cfg, a, 8), b, 8));
		};
		auto tas = [&](D speed, D meas, const char *what) {
			D v[3], var[2] = {0.04, 0.04};
			vel(speed, v);
			const float fv[3] = {float(v[0]), float(v[1]), float(v[2])};
			const D dv[3] = {fv[0], fv[1], fv[2]};
			w.fuse_airspeed(now, float(meas), matrix::Vector3f(fv), matrix::Vector2f(0.04f, 0.04f));
			r.airspeed(now, float(meas), dv, var);
			compare(what);
		};
		auto beta = [&](D y, const char *what) {
			D v[3], Rt[3][3];
			matrix::Quatf q;
			vel(15, v);
			set_rot(y, 0.1, -0.2, Rt, q);
			const float fv[3] = {float(v[0]), float(v[1]), float(v[2])};
			const D dv[3] = {fv[0], fv[1], fv[2]};
			w.fuse_beta(now, matrix::Vector3f(fv), q);
			r.beta(now, dv, Rt);
			compare(what);
		};
		auto predict = [&](uint64_t dt, const char *what) { now += dt; w.update(now); r.update(now); compare(what); };

		for (int k = 0; k < d; k++) {
			const int c = mc::choose(11);
			mc::note("operation %d at %.3f s", c, now * 1e-6);

			switch (c) {
			case 0: now += 150000; tas(15, 15.3, "airspeed at 15 m/s"); break;

			case 1: predict(1200000, "a prediction after 1.2 s"); break;

			case 2: now += 110000; beta(yaw, "sideslip along the track"); break;

			case 3: now += 50000; tas(15, 14, "airspeed 50 ms later"); break;

			case 4: yaw += 1.4; now += 200000; tas(18, 17.5, "airspeed after a turn"); break;

			case 5: now += 200000; tas(15, 60, "an airspeed outlier"); break;

			case 6: for (int i = 0; i < 7; i++) { now += 900000; tas(15, 45, "persistently wrong airspeed"); } break;

			case 7: now += 120000; beta(yaw + 0.5, "sideslip across the track"); break;

			case 8: predict(300000, "a prediction after 0.3 s"); break;

			case 9: { const D y = yaw; yaw = 2.55; now += 300000; tas(3.2, 3.0, "low ground speed"); yaw = y; } break;

			default: for (int i = 0; i < 4; i++) { now += 1700000; beta(yaw - 1.2, "persistent sideslip"); } predict(1000000, "a prediction after 1 s"); break;
			}
		}

		mc::outcome(r.init + 2 * r.reset + 4 * (r.rej_tas != 0) + 8 * (r.rej_beta != 0));

		if (r.init && r.rej_beta && cfg == 2) { mc::sample("configuration %d: after %d operations wind (%.3f, %.3f), variance (%.4f, %.4f), scale %.4f", cfg, depth, r.x[0], r.x[1], r.P[0][0], r.P[1][1], r.x[2]); }

		w.~WindEstimator();
	}, 3);
	return mc::finish();
}
