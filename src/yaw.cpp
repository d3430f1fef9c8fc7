// EKFGSF_yaw: histories of motion, velocity measurements and flight state against a reference bank of filters in double precision,
// and convergence to the true heading from every initial heading.
#include "mc.h"
#include <EKF/EKFGSF_yaw.h>
#include <cmath>
#include <new>

typedef double D;
static const D PI = 3.14159265358979323846, G = 9.80665;
static D wrap(D a) { while (a > PI) { a -= 2 * PI; } while (a <= -PI) { a += 2 * PI; } return a; }

struct M3 { D a[3][3]; };
static M3 mul(const M3 &x, const M3 &y) { M3 r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { r.a[i][j] += x.a[i][k] * y.a[k][j]; } return r; }
static M3 euler(D yaw, D pitch, D roll)
{
	const D cy = cos(yaw), sy = sin(yaw), cp = cos(pitch), sp = sin(pitch), cr = cos(roll), sr = sin(roll);
	return M3{{{cy *cp, cy *sp *sr - sy * cr, cy *sp *cr + sy * sr}, {sy *cp, sy *sp *sr + cy * cr, sy *sp *cr - cy * sr}, {-sp, cp * sr, cp * cr}}};
}

struct Ref {
	struct Model { M3 R; D bias[3]; D x[3], P[3][3], innov[2]; } m[5];
	D w[5], accel[3] {}, yaw{0}, var{0}, vel[2] {}, acc{0};
	bool aligned{false}, started{false}, fresh{false}, unsure{false}, corrected{false};

	void init()
	{
		started = false;

		for (int i = 0; i < 5; i++) {
			Model &k = m[i];
			w[i] = 0.2;
			k.x[0] = vel[0]; k.x[1] = vel[1]; k.x[2] = -PI + PI / 5 + i * 2 * PI / 5;

			for (auto &r : k.P) { for (D &v : r) { v = 0; } }

			k.P[0][0] = k.P[1][1] = acc * acc;
			k.P[2][2] = PI * PI / 25;
			k.innov[0] = k.innov[1] = 0;
		}
	}
	// same roll and pitch, new heading (angles about the axes in the order that is away from its singularity)
	static M3 with_heading(D h, const M3 &R)
	{
		if (std::fabs(R.a[2][0]) < std::fabs(R.a[2][1])) { return euler(h, -asin(R.a[2][0]), atan2(R.a[2][1], R.a[2][2])); }

		return mul(euler(h, 0, 0), mul(euler(0, 0, asin(R.a[2][1])), euler(0, atan2(-R.a[2][0], R.a[2][2]), 0)));
	}
	static D heading(const M3 &R, bool &unsure)
	{
		const D p = std::fabs(R.a[2][0]), r = std::fabs(R.a[2][1]);
		const D h1 = atan2(R.a[1][0], R.a[0][0]), h2 = atan2(-R.a[0][1], R.a[1][1]);

		if (std::fabs(p - r) < 1e-3 && std::fabs(wrap(h1 - h2)) > 2e-4) { unsure = true; }

		return p < r ? h1 : h2;
	}
	void step(const D da[3], const D dv[3], D dt, D dtv, bool run, D tas, const D main_bias[3])
	{
		const D c = std::min(10 * dtv * 0.2, 1.), idt = std::max(dt, 0.001), idv = std::max(dtv, 0.001);

		for (int i = 0; i < 3; i++) { accel[i] = accel[i] * (1 - c) + dv[i] / idv * c; }

		if (!aligned) {
			const D n = std::sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]);

			if (n / idv > 0.9 * G && n / idv < 1.1 * G) {
				init();
				aligned = true;
				// roll and pitch such that the specific force points up, heading zero
				const D pitch = asin(dv[0] / n), roll = atan2(-dv[1], -dv[2]);

				for (auto &k : m) { k.R = euler(0, pitch, roll); k.bias[0] = k.bias[1] = k.bias[2] = 0; }
			}

			return;
		}

		const D an = std::sqrt(accel[0] * accel[0] + accel[1] * accel[1] + accel[2] * accel[2]);
		const D att = tas > 1e-7 && an > G ? 1 : 2;
		const D g0 = 1 - std::min(att * std::fabs(an - G) / G, 1.), gain = 0.2 * g0 * g0;

		for (auto &k : m) {
			D rate[3], corr[3] {};

			for (int i = 0; i < 3; i++) { rate[i] = da[i] / idt - k.bias[i]; }

			if (gain > 0) {
				D a[3] = {accel[0], accel[1], accel[2]};

				if (tas > 1e-7) { a[1] -= tas * rate[2]; a[2] += tas * rate[1]; }

				const D *d = k.R.a[2];   // down in body frame
				const D cr[3] = {d[1] *a[2] - d[2] *a[1], d[2] *a[0] - d[0] *a[2], d[0] *a[1] - d[1] *a[0]};

				for (int i = 0; i < 3; i++) { corr[i] = cr[i] * gain / an; }
			}

			const D spin = std::sqrt(rate[0] * rate[0] + rate[1] * rate[1] + rate[2] * rate[2]);
			unsure = unsure || std::fabs(spin - 0.175) < 1e-3;

			if (spin < 0.175) { for (int i = 0; i < 3; i++) { k.bias[i] = std::max(-0.05, std::min(0.05, k.bias[i] - corr[i] * 0.04 * dt)); } }

			D q[3];

			for (int i = 0; i < 3; i++) { q[i] = da[i] + (corr[i] - k.bias[i]) * dt; }

			const M3 S = {{{1, -q[2], q[1]}, {q[2], 1, -q[0]}, {-q[1], q[0], 1}}};
			k.R = mul(k.R, S);

			for (auto &row : k.R.a) { const D n = std::sqrt(row[0] * row[0] + row[1] * row[1] + row[2] * row[2]); for (D &v : row) { v /= n; } }

			if (!started) { continue; }

			k.x[2] = heading(k.R, unsure);
			D v[3] {};

			for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { v[i] += k.R.a[i][j] * dv[j]; } }

			k.x[0] += v[0]; k.x[1] += v[1];
			// velocity change rotates with the heading error: d(vN)/d(yaw) = -vE, d(vE)/d(yaw) = vN
			const D F[3][3] = {{1, 0, -v[1]}, {0, 1, v[0]}, {0, 0, 1}};
			D T[3][3] {}, N[3][3] {};

			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) { T[i][j] += F[i][l] * k.P[l][j]; }

			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) { N[i][j] += T[i][l] * F[j][l]; }

			N[0][0] += 4 * dtv * dtv; N[1][1] += 4 * dtv * dtv; N[2][2] += 0.01 * dt * dt;

			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { k.P[i][j] = i == j ? std::max(N[i][j], 1e-6) : N[i][j]; }
		}

		if (run && fresh) {
			if (!started) {
				init();

				for (auto &k : m) {
					k.R = with_heading(k.x[2], k.R);

					for (int i = 0; i < 3; i++) { k.bias[i] = main_bias[i]; }
				}

				started = true;

			} else {
				D total = 0, top = 0;

				for (int i = 0; i < 5; i++) {
					Model &k = m[i];
					const D r = std::max(acc, 0.5) * std::max(acc, 0.5);
					k.innov[0] = k.x[0] - vel[0]; k.innov[1] = k.x[1] - vel[1];
					const D a = k.P[0][0] + r, b = k.P[0][1], c2 = k.P[1][1] + r, det = a * c2 - b * b;
					const D Si[2][2] = {{c2 / det, -b / det}, {-b / det, a / det}};
					D K[3][2], KS[3][2];

					for (int j = 0; j < 3; j++) { for (int l = 0; l < 2; l++) { K[j][l] = k.P[j][0] * Si[0][l] + k.P[j][1] * Si[1][l]; KS[j][l] = k.P[j][l]; } }

					const D chi = k.innov[0] * (Si[0][0] * k.innov[0] + Si[0][1] * k.innov[1]) + k.innov[1] * (Si[1][0] * k.innov[0] + Si[1][1] * k.innov[1]);
					const D s = chi > 25 ? std::sqrt(25 / chi) : 1;
					D N[3][3];

					for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) { N[j][l] = k.P[j][l] - K[j][0] * KS[l][0] - K[j][1] * KS[l][1]; } }

					for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) { k.P[j][l] = j == l ? std::max(N[j][l], 1e-6) : N[j][l]; } }

					D dx[3];

					for (int j = 0; j < 3; j++) { dx[j] = -s * (K[j][0] * k.innov[0] + K[j][1] * k.innov[1]); k.x[j] += dx[j]; }

					k.R = mul(euler(dx[2], 0, 0), k.R);
					const D dens = 0.159154943 / std::sqrt(det) * std::exp(-0.5 * chi);
					w[i] *= dens;
					top = std::max(top, w[i]);
					w[i] = std::max(w[i], 1e-5);
					total += w[i];
				}

				corrected = true;
				unsure = unsure || (top > 0.8e-5 && top < 1.25e-5);

				if (top < 1e-5) { init(); }

				else { for (D &v : w) { v /= total; } }
			}

		} else if (!run) { started = false; }

		D s = 0, c1 = 0;

		for (int i = 0; i < 5; i++) { s += w[i] * sin(m[i].x[2]); c1 += w[i] * cos(m[i].x[2]); }

		len = std::hypot(s, c1);
		yaw = atan2(s, c1);
		var = 0;
		near_pi = false;

		for (int i = 0; i < 5; i++) { const D d = wrap(m[i].x[2] - yaw); var += w[i] * (m[i].P[2][2] + d * d); near_pi = near_pi || (PI - std::fabs(d) < 0.02 && w[i] > 1e-3); }

		fresh = false;
	}
	D len{1};
	bool near_pi{false};
};

static EKFGSF_yaw &create(char *mem, int fill) { memset(mem, fill ? 0xA5 : 0, sizeof(EKFGSF_yaw)); return *new (mem) EKFGSF_yaw; }
alignas(16) static char mem1[sizeof(EKFGSF_yaw)], mem2[sizeof(EKFGSF_yaw)];

// vehicle whose motion generates the inertial data
struct Truth {
	D yaw, pitch, roll, vN{0}, vE{0};
	// forward acceleration fx in the heading direction, yaw rate r; attitude otherwise fixed
	void imu(D dt, D fx, D fy, D r, D da[3], D dv[3])
	{
		yaw = wrap(yaw + r * dt);
		const D aN = fx * cos(yaw) - fy * sin(yaw), aE = fx * sin(yaw) + fy * cos(yaw);
		vN += aN * dt; vE += aE * dt;
		const M3 R = euler(yaw, pitch, roll);
		const D f[3] = {aN, aE, -G};

		for (int i = 0; i < 3; i++) { dv[i] = 0; for (int j = 0; j < 3; j++) { dv[i] += R.a[j][i] * f[j] * dt; } da[i] = R.a[2][i] * r * dt; }
	}
};

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));
	const int depth = mc::thorough() ? 6 : 4;
	mc::rule("part histories: all sequences (quick 4, thorough 6) of one-second segments from a menu of 9 (motion x velocity data x in-flight flag, with an outlier, a data gap, a 1.4 g pull, landing) for 3 initial headings and 2 configurations (tilt, gyro bias, airspeed, storage pattern); "
		 "every 10 ms the estimate, its variance, the five models and their weights are compared with a reference bank; a path ends where a comparison would be within rounding of a decision. "
		 "part convergence: all headings on a grid x tilts x acceleration directions x gyro biases; non-trivial: the estimator is active.");
	mc::assume("velocities and inertial data are those of a rigid body, the initial tilt alignment happens within 0.9 to 1.1 g");

	mc::explore("histories", mc::ODOMETER, [&]() {
		const int h = mc::choose(3), cfg = mc::choose(2);
		EKFGSF_yaw &y = create(mem1, cfg);
		EKFGSF_yaw &other = create(mem2, 1 - cfg);   // a second instance fed differently must not matter
		Ref r;
		Truth t{h == 0 ? 0.4 : h == 1 ? -2.9 : 1.9, cfg ? -0.1 : 0.02, cfg ? 0.25 : 0.0};
		const D bias[3] = {cfg ? 0.01 : 0., cfg ? -0.02 : 0., cfg ? 0.03 : 0.};
		const matrix::Vector3f fb{(float)bias[0], (float)bias[1], (float)bias[2]};
		uint64_t now = 1000000;
		D acc = cfg ? 0.3 : 0.8;
		const D dt = 0.01;
		int n = 0;
		bool was = false;

		for (int seg = 0; seg < depth; seg++) {
			const int c = mc::choose(9);
			mc::note("segment %d: %d", seg, c);

			for (int i = 0; i < 100; i++) {
				D fx = 0, fy = 0, rr = 0, scale = 1;
				bool gps = n % 20 == 7, run = true;
				D spike = 0;

				switch (c) {
				case 0: fx = 2; break;                         // forward acceleration, data
				case 1: rr = 0.6; fx = 0.5; break;             // turn
				case 2: gps = false; fy = 1; break;            // no data
				case 3: run = false; break;                    // on the ground
				case 4: spike = i == 47 || i == 27 ? 9 : 0; fx = -2; break;   // outlier
				case 5: break;                                 // hover
				case 6: scale = 1.4; break;                    // pull: total acceleration away from 1 g
				case 7: spike = i > 50 ? 400 : 0; run = i < 90; break;        // all models disagree
				default: run = i % 50 >= 25; fy = -2; rr = -0.3; break;
				}

				D da[3], dv[3];
				t.imu(dt, fx, fy, rr, da, dv);
				imuSample s{};
				now += 10000;
				s.time_us = now;
				s.delta_ang_dt = float(dt);
				// the accelerometer has its own interval
				const double skew = cfg ? (i / 3 % 2 ? 1.1 : 0.9) : 1;
				s.delta_vel_dt = float(dt * skew);

				for (int k = 0; k < 3; k++) {
					s.delta_ang(k) = float(da[k] + bias[k] * dt);
					s.delta_vel(k) = float(dv[k] * scale * skew);
					da[k] = s.delta_ang(k); dv[k] = s.delta_vel(k);
				}

				if (gps) {
					const matrix::Vector2f v(float(t.vN + spike), float(t.vE));
					y.setVelocity(v, float(acc));
					r.vel[0] = v(0); r.vel[1] = v(1); r.acc = float(acc); r.fresh = true;
				}

				const D tas = cfg ? 12 : 0;
				y.update(s, run, float(tas), fb);
				r.step(da, dv, s.delta_ang_dt, s.delta_vel_dt, run, tas, bias);

				if (i % 10 == 3) { other.setVelocity(matrix::Vector2f(float(i), -3.f), 0.7f); s.delta_ang(2) = 0.003f; other.update(s, true, 0, fb); }

				n++;

				if (r.unsure) { mc::end_path(); }

				float yaw = -99, var = -99;
				const bool ok = y.getYawData(&yaw, &var);
				mc::transition();
				MC_CHECK(ok == r.started, "valid", "t=%.2f s: an estimate is %s, expected %s", n * 0.01, ok ? "available" : "not available", r.started ? "available" : "none");

				if (!ok) { MC_CHECK(yaw == -99 && var == -99, "valid", "t=%.2f s: results written without an estimate", n * 0.01); was = false; mc::evaluation(false); if (r.started) { mc::end_path(); } continue; }

				mc::evaluation();
				MC_CHECK(std::isfinite(yaw) && std::fabs(yaw) <= 3.1415928f && std::isfinite(var) && var > 0, "range", "t=%.2f s: heading %g, variance %g", n * 0.01, yaw, var);
				float ly, lv, my[5], vn[5], ve[5], w[5];
				MC_CHECK(y.getLogData(&ly, &lv, my, vn, ve, w), "log", "t=%.2f s: log data missing", n * 0.01);
				MC_CHECK(ly == yaw && lv == var, "log", "t=%.2f s: logged heading %g, reported %g", n * 0.01, ly, yaw);
				D sw = 0, ss = 0, cc = 0;

				for (int k = 0; k < 5; k++) {
					sw += w[k]; ss += w[k] * sin(my[k]); cc += w[k] * cos(my[k]);
					MC_CHECK(w[k] >= 0.9e-5f && w[k] <= 1.000001f, "weight", "t=%.2f s: weight[%d] is %g", n * 0.01, k, w[k]);
					MC_CHECK(std::fabs(wrap(my[k] - r.m[k].x[2])) < 3e-3, "model-heading", "t=%.2f s: heading of model %d is %.5f, reference %.5f", n * 0.01, k, my[k], r.m[k].x[2]);
					MC_CHECK(std::fabs(vn[k] - r.m[k].innov[0]) < 2e-2 + 1e-3 * std::fabs(r.m[k].innov[0]) && std::fabs(ve[k] - r.m[k].innov[1]) < 2e-2 + 1e-3 * std::fabs(r.m[k].innov[1]), "innovation", "t=%.2f s: innovation of model %d (%.4f, %.4f), reference (%.4f, %.4f)",
						 n * 0.01, k, vn[k], ve[k], r.m[k].innov[0], r.m[k].innov[1]);
					MC_CHECK(std::fabs(w[k] - r.w[k]) < 1e-2, "weight-value", "t=%.2f s: weight of model %d is %.5f, reference %.5f", n * 0.01, k, w[k], r.w[k]);
				}

				MC_CHECK(std::fabs(sw - 1) < 1e-4, "weight-sum", "t=%.2f s: the weights add up to %.6f", n * 0.01, sw);

				if (was && r.len > 0.05) {
					MC_CHECK(std::fabs(wrap(yaw - atan2(ss, cc))) < 1e-3, "mean", "t=%.2f s: heading %.5f is not the weighted mean %.5f of the models", n * 0.01, yaw, atan2(ss, cc));
					MC_CHECK(std::fabs(wrap(yaw - r.yaw)) < 5e-3 + 0.02 / r.len * 0.05, "heading", "t=%.2f s: heading %.5f, reference %.5f", n * 0.01, yaw, r.yaw);

					if (!r.near_pi) { MC_CHECK(std::fabs(var - r.var) < 2e-2 * (0.05 + r.var), "variance", "t=%.2f s: variance %.5f, reference %.5f", n * 0.01, var, r.var); }
				}

				was = true;
				if (i % 20 == 0) { mc::visit(mc::hash_bytes(h * 2 + cfg, w, sizeof(w)) ^ mc::hash_bytes(5, my, sizeof(my))); }
			}
		}

		mc::outcome(r.started + 2 * (r.var < 0.05) + 4 * (r.var < 0.5));
		if (r.started && r.var < 0.05 && h == 1) { mc::sample("heading %.3f: after %d s estimate %.3f, variance %.4f", t.yaw, depth, r.yaw, r.var); }
	}, 3);

	const int NH = mc::thorough() ? 72 : 24, NA = mc::thorough() ? 8 : 4;
	mc::for_all("convergence", uint64_t(NH) * NA * 4, [&](uint64_t i) {
		const int cfg = i % 4, a = (i / 4) % NA, h = i / (4 * NA);
		EKFGSF_yaw &y = create(mem1, cfg & 1);
		Truth t{wrap(h * 2 * PI / NH + 0.01), cfg & 1 ? 0.15 : 0., cfg & 2 ? -0.2 : 0.};
		const D dir = a * 2 * PI / NA;
		const matrix::Vector3f bias(0.01f, -0.015f, cfg & 2 ? 0.03f : -0.02f);
		uint64_t now = 5000000;
		float yaw = 0, var = 0;
		mc::Count c;

		for (int n = 0; n < 1500; n++) {
			// stand for two seconds, then accelerate and brake in turn
			const D f = n < 200 ? 0 : ((n / 150) % 2 ? 2.5 : -2.5);
			D da[3], dv[3];
			t.imu(0.01, f * cos(dir), f * sin(dir), 0, da, dv);
			imuSample s{};
			now += 10000;
			s.time_us = now;
			s.delta_ang_dt = s.delta_vel_dt = 0.01f;

			for (int k = 0; k < 3; k++) { s.delta_ang(k) = float(da[k]) + bias(k) * 0.01f; s.delta_vel(k) = float(dv[k]); }

			if (n > 100 && n % 20 == 0) { y.setVelocity(matrix::Vector2f(float(t.vN), float(t.vE)), 0.5f); }

			y.update(s, n > 150, 0.f, bias);
			c.tr++;
		}

		c.add();
		c.states++;
		MC_CHECK(y.getYawData(&yaw, &var), "converge", "true heading %.3f: no estimate after 13 s of manoeuvres", t.yaw);
		MC_CHECK(std::fabs(wrap(yaw - t.yaw)) < 0.1 && var < 0.05, "converge", "true heading %.3f, acceleration direction %.2f: estimate %.3f, variance %.4f after 13 s of manoeuvres", t.yaw, dir, yaw, var);
		mc::outcome(100 + int(var * 500));

		if (i % 97 == 0) { mc::sample("true heading %.3f: estimate %.4f, variance %.4f", t.yaw, yaw, var); }
	});
	return mc::finish();
}
