// The decisions of one update, see refctl.h. Included by ekf_env.cpp after Env.
#pragma once

// after the inertial sample and the measurements of this tick were given to the filter, before it is updated
void Env::ctl_deliver()
{
	Ctl &K = ctl;
	const parameters &P = p();
	const auto &g = w.got;
	const uint64_t del = e().get_imu_sample_delayed().time_us;

	if (!K.inited && !K.spacing) { K.begin(P); }

	if (del != K.last_delayed || !n_upd) { K.last_delayed = del; K.spacing = (w.t - del) / (K.obs_len - 1); }

	if (g.mag) { K.qmag.push(g.m.time_us, K.spacing, P.mag_delay_ms, v3(g.m.mag), true); }

	if (g.baro) { K.qbaro.push(g.b.time_us, K.spacing, P.baro_delay_ms, g.b.hgt, true); }

	if (g.gps && ((P.fusion_mode & MASK_USE_GPS) || P.vdist_sensor_type == VDIST_SENSOR_GPS) && g.g.fix_type > 2) {
		const Ctl::GpsD d{v3(g.g.vel_ned), g.g.eph, g.g.epv, g.g.sacc, g.g.alt * 1e-3f, g.g.yaw};

		if (K.qgps.push(g.g.time_usec, K.spacing, P.gps_delay_ms, d, false)) {
			uint16_t st;
			e().get_gps_check_status(&st);
			const bool fail = (st & 1) || ((st >> 1) & P.gps_check_mask);

			if (!K.gps_seen || fail) { K.gps_fail.set(w.t); }

			if (!fail) { K.gps_pass.set(w.t); }

			K.gps_seen = true;
			K.gps_passed = K.gps_fail.out(w.t, health);
			K.gps_norm = std::max(std::max(double(g.g.eph) / P.req_hacc, double(g.g.epv) / P.req_vacc), double(g.g.sacc) / P.req_sacc);

			if (!K.origin0 && e().global_origin_valid() && K.inited) {
				// the GPS has set the origin, its height there is that of the estimate
				if (e().control_status().flags.gps_hgt) { K.hgt_off = 0; }

				// unless the GPS provides the heading
				if (P.mag_fusion_type == MAG_FUSE_TYPE_NONE && !e().control_status().flags.gps_yaw) { K.gsf_request = true; K.gsf.set(0); }

				if (P_E05 && P.vdist_sensor_type == VDIST_SENSOR_GPS) { MC_CHECK(e().control_status().flags.gps_hgt, "gps height start", "%s the GPS has set the origin but its height is not used", where()); }
			}
		}
	}

	if (g.aspd) { K.qtas.push(g.a.time_us, K.spacing, P.airspeed_delay_ms, g.a.true_airspeed, false); }

	if (g.range) { K.qrng.push(g.r.time_us, K.spacing, P.range_delay_ms, g.r, false); }

	if (g.flow) { K.qflow.push(g.f.time_us, K.spacing, P.flow_delay_ms, g.f, false); }

	if (g.ev) { K.qev.push(g.v.time_us, K.spacing, P.ev_delay_ms, g.v, false); }

	K.c0 = e().control_status().flags;
	K.origin0 = e().global_origin_valid();
	e().clear_information_events();
	e().clear_warning_events();

	if (!n_upd) {
		// the initialisation consumes the samples of the magnetometer and the barometer
		K.qmag.pop(del, K.mag);

		if (K.qbaro.pop(del, K.baro)) { K.baro_off = std::isnan(K.baro_off) ? K.baro.d : 0.9 * K.baro_off + 0.1 * K.baro.d; }
	}
}

// the decisions of the update that was just made
void Env::ctl_step()
{
	Ctl &K = ctl;
	const parameters &P = p();
	const uint64_t now = b.now, hz = b.delayed;
	const Ctl::Flags &c0 = K.c0;
	auto &c = b.c.flags;
	const int mask = P.fusion_mode, prim = P.vdist_sensor_type;
	const bool air = c0.in_air, tilt = c.tilt_align, origin = K.origin0, beta_on = c0.fuse_beta;
	const imuSample imu = e().get_imu_sample_delayed();

	if (!K.inited) {
		K.inited = true;

		for (Tm *t : {&K.hgt, &K.hpos, &K.delpos, &K.hvel, &K.of, &K.hagl, &K.fake}) { t->set(a.now); }

		K.synth = true;
	}

	double moved = 0;

	// a command that moved the origin just before this update moved the references, too
	if (user_origin == n_upd) {
		const double shift = K.map && (c0.gps || c0.opt_flow || c0.ev_pos || c0.ev_vel || (c0.fuse_aspd && c0.fuse_beta)) && b.r.cnt[3] != a.r.cnt[3] ? e_alt() - K.alt : 0;
		K.baro_off += shift;
		moved = shift;

		if (c0.rng_hgt) { K.hgt_off += shift; }
	}

	K.map = K.map || origin || user_origin == n_upd;
	K.alt = e_alt();

	// running copy of the flags
	Tri gps = bool(c0.gps), flow = bool(c0.opt_flow), evp = bool(c0.ev_pos), evv = bool(c0.ev_vel), evy = bool(c0.ev_yaw), gyaw = bool(c0.gps_yaw), aspd = bool(c0.fuse_aspd), wind = bool(c0.wind);
	Tri H[4] = {bool(c0.baro_hgt), bool(c0.gps_hgt), bool(c0.rng_hgt), bool(c0.ev_hgt)};
	Tri yaw = c0.yaw_align == c.yaw_align ? Tri(bool(c.yaw_align)) : Tri::U();
	Tri info[13], warn[12], posD(false), velD(false);
	auto sel = [&](Tri when, int k) { for (int i = 0; i < 4; i++) { H[i] = (when & Tri(i == k)) | (!when & H[i]); } };
	auto fresh = [&](uint64_t last, int64_t to) { const int64_t d = int64_t(last) + to - int64_t(now); return d > Tm::SLACK ? Tri(true) : d <= -Tm::SLACK ? Tri(false) : Tri::U(); };
	auto reset_vel = [&](Tri when) {
		const Tri g = gps & K.gps_fail.out(now, health);
		info[1] = info[1] | (when & g);
		info[2] = info[2] | (when & !g & flow);
		info[3] = info[3] | (when & !g & !flow & evv);
		info[4] = info[4] | (when & !g & !flow & !evv);
	};
	auto reset_pos = [&](Tri when) {
		info[6] = info[6] | (when & gps);
		info[7] = info[7] | (when & !gps & evp);
		info[5] = info[5] | (when & !gps & !evp);
	};
	auto air_data = [&]() { return aspd & Tri(beta_on); };
	// the attitude at the fusion of this update lies between the published ones
	const double r22 = 0.5 * (a.s.q().rot({0, 0, 1}).z + b.s.q().rot({0, 0, 1}).z), r22e = 0.01 + std::fabs(a.s.q().rot({0, 0, 1}).z - b.s.q().rot({0, 0, 1}).z);

	// ---- samples that are due
	Tri baro_fresh = fresh(K.qbaro.last, 400000), gps_fresh = fresh(K.qgps.last, 1000000), ev_fresh = fresh(K.qev.last, 400000);
	const uint64_t prev_gps = K.gps.t;
	const bool gps_ready = K.qgps.pop(hz, K.gps);
	auto gps_alt = [&]() { return double(K.gps.t ? K.gps.d.hgt : K.qgps.newest.hgt) - e_alt(); };
	K.qmag.pop(hz, K.mag);
	const uint64_t prev_baro = K.baro.t;
	const bool baro_ready = K.qbaro.pop(hz, K.baro);
	const bool rng_ready = K.qrng.pop(hz, K.rng);

	const uint64_t flow_before = K.flow.t;

	if (!K.flow_ready || !c0.opt_flow) { K.flow_ready = K.qflow.pop(hz, K.flow); }

	if (K.flow.t != flow_before) { K.flow_gap = K.flow.t - flow_before; }

	const bool ev_ready = K.qev.pop(hz, K.ev), tas_ready = K.qtas.pop(hz, K.tas);

	// ---- range finder
	{
		K.dt_lpf = std::min(K.dt_lpf * 0.995f + 0.005f * float(hz - K.rng.t), 4e6f);

		if (hz - K.rng.t > 400000 || !(K.dt_lpf < 2e6f)) {
			K.rng_valid = false;
			K.rng_regular = false;

		} else {
			K.rng_regular = true;

			if (rng_ready) {
				K.rng_valid = false;
				const float d = K.rng.d.rng;

				if (K.rng.d.quality == 0) { K.rng_bad = hz; }

				else if (hz - K.rng_bad > uint64_t(P.range_valid_quality_s * 1e6f) && d >= 0.05f && d <= 40.f) {
					const Tri tilt_ok = above(r22, P.range_cos_max_tilt, r22e);

					if (tilt_ok.maybe()) {
						if (K.rng.t - K.rng_last_valid > 10000000) {
							if (tilt_ok.unknown()) { K.stuck = Tri::U(); }

							else if (K.stuck_max - K.stuck_min > 0.1f) { K.stuck_max = K.stuck_min = 0; K.stuck = false; }

							else {
								K.stuck_max = std::max(K.stuck_max, d);
								K.stuck_min = K.stuck_min < 0.1f || d < K.stuck_min ? d : K.stuck_min;
								K.stuck = true;
							}
						}

						K.rng_valid = tilt_ok & !K.stuck;

						if (K.rng_valid.maybe()) { K.rng_last_valid = K.rng.t; }
					}
				}
			}
		}
	}
	Tri rng_healthy = Tri(rng_ready) & K.rng_valid;

	// ---- vertical acceleration
	Tri bad;
	{
		const double lim = P.vert_innov_test_lim;
		const Tri vp = K.vpos_try.recent(now, 1000000), vv = K.vvel_try.recent(now, 1000000);
		const Tri ap = above(K.vpos_ratio, lim, 1e-3 * lim), av = above(K.vvel_ratio, lim, 1e-3 * lim);
		const Tri both = (av & Tri(K.vpos_ratio > 0)) | (ap & Tri(K.vvel_ratio > 0));
		const Tri falling = vp & ((vv & both) | (!vv & ap));
		const Tri indep = vp & vv & Tri(!((c0.gps_hgt && c0.gps) || (c0.ev_hgt && c0.ev_vel)));
		const bool clipping = imu.delta_vel_clipping[0] || imu.delta_vel_clipping[1] || imu.delta_vel_clipping[2];

		if (clipping && K.clip < 100) { K.clip++; } else if (K.clip > 0) { K.clip--; }

		bad = (indep | Tri(K.clip > 0)) & falling;
		K.bad_acc.happen(bad, now);
		K.good_acc.happen(!bad, now);
	}
	const Tri bad_acc = a.fault.flags.bad_acc_vertical ? K.bad_acc.recent(now, 10000000) : bad;

	// ---- height timeouts
	{
		const Tri trig = K.good_acc.out(now, P.bad_acc_reset_delay_us) | K.hgt.out(now, 5000000);
		const Tri acc = K.qgps.newest.vacc < P.req_vacc;
		// barometer
		const Tri to_gps = trig & H[0] & gps_fresh & ((acc & !K.bad_acc.recent(now, 10000000)) | !baro_fresh);
		const Tri b_b = trig & H[0] & !to_gps & baro_fresh;
		// GPS: is the barometer consistent?
		const double innov = std::fabs(a.s.s[9] - (K.hgt_off - K.qbaro.newest + K.baro_off)), lim = (sq_(P.baro_noise) + b.P[9][9]) * sq_(P.baro_innov_gate), lim2 = (sq_(P.baro_noise) + a.P[9][9]) * sq_(P.baro_innov_gate);
		const Tri cons = std::isnan(innov) ? Tri::U() : innov < 0.9 * std::min(lim, lim2) - 5 ? Tri(true) : innov > 1.1 * std::max(lim, lim2) + 5 ? Tri(false) : Tri::U();
		const Tri g_b = trig & H[1] & baro_fresh & ((cons & !acc) | !gps_fresh);
		const Tri g_g = trig & H[1] & !g_b & gps_fresh;
		const Tri r_r = trig & H[2] & K.rng_valid, r_b = trig & H[2] & !K.rng_valid & baro_fresh;
		const Tri e_e = trig & H[3] & ev_fresh, e_b = trig & H[3] & !ev_fresh & baro_fresh;
		const Tri any = to_gps | b_b | g_b | g_g | r_r | r_b | e_e | e_b;

		if (mc::replaying() && any.maybe()) { mc::note("t=%.3f height reset predicted (%d): baro>gps %d baro %d gps>baro %d gps %d rng %d rng>baro %d ev %d ev>baro %d; consistent %d (%.1f, %.1f)", (now - w.t0) * 1e-6, any.v, to_gps.v, b_b.v, g_b.v, g_g.v, r_r.v, r_b.v, e_e.v, e_b.v, cons.v, innov, lim); }

		baro_fresh = baro_fresh & !to_gps;
		sel(to_gps, 1);
		sel(g_b | r_b | e_b, 0);

		if (to_gps.take(c.gps_hgt && !c0.gps_hgt)) { K.hgt_off = gps_alt() + moved + a.s.s[9] + 0.01 * a.s.s[6]; }

		if ((g_b | r_b | e_b).take(c.baro_hgt && !c0.baro_hgt)) { K.hgt_off = 0; }

		posD = posD | any;
		velD = velD | any;
		warn[4] = any;

		if ((to_gps | g_g | r_r).maybe() && a.r.cnt[3] != b.r.cnt[3]) { K.baro_off = K.qbaro.newest + b.s.s[9]; }

		K.hgt.happen(any, now);
	}

	// ---- magnetometer: resets of velocity and position after a correction of the heading by the course
	if (b.warn >> 7 & 1) { K.course = now; }

	if (K.course && now - K.course < 2000000) { reset_vel(Tri::U()); reset_pos(Tri::U()); }

	// ---- optical flow
	{
		const float alpha = std::min(0.01f / P.acc_bias_learn_tc, 1.0f);
		const V3 da = v3(imu.delta_ang), dv = v3(imu.delta_vel);
		K.wmag = std::max(da.norm() / 0.01, (1 - alpha) * K.wmag);
		K.avec = dv * (alpha / 0.01) + K.avec * (1 - alpha);

		if (!air) {
			const double an = K.avec.norm();
			const Tri exc = above(an, 1.5 * G, 0.02) | !above(an, 0.5 * G, 0.02) | above(K.wmag, 8, 0.02) | !above(r22, std::cos(30 * DEG), r22e);
			K.bad_motion.happen(exc, hz);
			K.good_motion.happen(!exc, hz);

		} else { K.bad_motion.set(0); K.good_motion.set(hz); }

		K.flow_acc += imu.delta_ang_dt;

		if (K.flow_ready) {
			const float dt = K.flow.d.dt, lo = std::max(0.8f * K.flow_acc, 0.001f), hi = std::min(1.2f * K.flow_acc, 0.2f);
			const bool comp = K.flow_acc <= 1.0f;
			const Tri dt_ok = !above(lo, dt, 1e-5) & !above(dt, hi, 1e-5);
			const Tri mag_ok = !above(K.flow.d.flow_xy_rad.norm(), dt * 8, 1e-5);
			const Tri good = Tri(K.flow.d.quality >= P.flow_qual_min) & mag_ok & above(r22, P.range_cos_max_tilt, r22e) & Tri(comp) & dt_ok;
			const Tri keep = good | Tri(!air && comp);

			if (keep.unknown()) { K.flow_unsure = now + 300000; }

			K.flow_ready = keep.maybe();
			K.flow_acc = 0;
		}

		const Tri sure = now < K.flow_unsure ? Tri::U() : Tri(true);
		const Tri others = gps | evp | evv | air_data();

		if (K.flow_ready) {
			const Tri required = Tri(air) & (Tri(a.dr) | (flow & !others) | (gps & ((flow & above(K.gps_norm, 0.7, 1e-4)) | (!flow & above(K.gps_norm, 1.0, 1e-4)))));
			const Tri preflight = Tri(!air) & (K.good_motion.out(hz, 100000) | K.bad_motion.recent(hz, 5000000));
			const Tri inhibit = ((preflight | Tri(air && !a.terrain)) & !required) | Tri(!tilt);
			const Tri stop = flow & (Tri(!(mask & MASK_USE_OF)) | inhibit) & sure;
			const Tri start = Tri(bool(mask & MASK_USE_OF)) & !flow & !inhibit & yaw & sure;
			flow = (flow & !stop) | start;
			K.of.happen(start, now);
			reset_vel(start & !others);
			reset_pos(start & !others);

			if (!stop.yes()) {
				if (flow.maybe()) {
					const Tri fuse = flow & K.hagl.recent(now, 10000000) & sure;
					const Tri ok = fuse & (differ(a.i.fl, b.i.fl, 2) ? Tri(b.i.flr <= 1) : b.i.flr <= 1 ? Tri::U() : Tri(false));
					K.of.happen(ok, now);
					K.flow_ready = false;
				}

				const Tri lost = flow & K.of.out(now, P.reset_timeout_max) & !others & sure;
				reset_vel(lost);
				reset_pos(lost);
			}

		} else {
			const Tri gone = flow & (hz > K.flow.t + 10000000 + Tm::SLACK ? Tri(true) : hz > K.flow.t + 10000000 - Tm::SLACK ? Tri::U() : Tri(false)) & sure;
			flow = flow & !gone;
		}

		flow = flow.unknown() ? Tri(bool(c.opt_flow)) : flow;
	}

	// ---- GPS
	auto stop_gps = [&](Tri when) {
		gps = gps & !when;
		gyaw = gyaw & !when;
		sel(when & H[1], 0);

		if ((when & H[1]).take(c.baro_hgt && !c0.baro_hgt)) { K.hgt_off = 0; }
	};
	auto gps_others = [&]() { return flow | evp | evv | air_data(); };

	if (gps_ready) {
		// heading from the GPS
		if (!(mask & MASK_USE_GPSYAW) || K.yaw_faulty.yes()) { gyaw = false; }

		else {
			if (std::isfinite(K.gps.d.yaw)) {
				const Tri start = !gyaw & Tri(tilt) & gps_fresh & !K.yaw_faulty;
				K.gpsyaw.happen(start | (gyaw & (a.i.hdg != b.i.hdg || a.i.hdgv != b.i.hdgv ? Tri(b.i.hdgr <= 1 || !air) : Tri::U())), now);
				gyaw = gyaw | start;
				K.gsf_request = K.gsf_request & !start;
				evy = evy & !start;
				yaw = yaw | start;
			}

			const Tri faulty = gyaw & K.gpsyaw.out(now, 5000000);
			K.yaw_faulty = K.yaw_faulty | faulty;
			gyaw = gyaw & !faulty;

			if (gyaw.unknown()) { K.yaw_faulty = Tri::U(); }

			gyaw = gyaw.unknown() ? Tri(bool(c.gps_yaw)) : gyaw;
		}

		const Tri passing = K.gps_fail.out(now, 5000000), failing = K.gps_pass.out(now, 5000000);

		if (mask & MASK_USE_GPS) {
			const Tri can = !gps & Tri(tilt && origin) & passing;
			evy = evy & !(can & Tri(!c.mag_field_disturbed && P.mag_fusion_type != MAG_FUSE_TYPE_NONE));
			const Tri start = can & yaw;
			info[6] = info[6] | start;
			info[1] = info[1] | (start & !flow);
			info[8] = start;
			gps = gps | start;

		} else { gps = false; }

		{
			const Tri stop = gps & failing & gps_others();
			stop_gps(stop);
			reset_pos(stop & evp & Tri(!(mask & MASK_ROTATE_EV)) & ev_fresh);
			warn[0] = stop;
		}

		// heading from the bank of yaw estimators
		const double gv = a.gsf_valid && b.gsf_valid ? a.gsf_var : 1e9, lim = sq_(P.EKFGSF_yaw_err_max);
		const Tri gsf_ok = a.gsf_valid != b.gsf_valid ? Tri::U() : !a.gsf_valid ? Tri(false) : !above(gv, lim, 0.01 * lim);
		auto gsf_reset = [&](Tri when) {
			reset_vel(when);
			reset_pos(when);
			K.gsf.happen(when, now);
			K.gsf_request = K.gsf_request & !when;
			yaw = yaw | when;
			(P.mag_fusion_type == MAG_FUSE_TYPE_NONE ? info[12] : warn[10]) = (P.mag_fusion_type == MAG_FUSE_TYPE_NONE ? info[12] : warn[10]) | when;
		};
		gsf_reset(!gps & K.gsf_request & K.gsf.out(now, 5000000) & gsf_ok);

		if (gps.maybe()) {
			const int64_t T = P.reset_timeout_max;
			const Tri lost_all = (K.hpos.out(now, T) & K.delpos.out(now, T) & K.hvel.out(now, T) & K.of.out(now, T)) | K.hpos.out(now, 2 * T);
			const Tri recent = Tri(air) & !K.ground.out(now, 30000000) & K.hvel.out(now, P.EKFGSF_reset_delay) & K.hvel.after(K.ground);
			const Tri flight = Tri(air) & lost_all & K.hvel.after(K.ground) & K.hpos.after(K.ground);
			Tri angle(false);

			if ((recent | flight).maybe()) {
				const double vo2 = sq_(K.vel_obs.x) + sq_(K.vel_obs.y), vs2 = sq_(a.s.s[4]) + sq_(a.s.s[5]);
				const double to = std::max(16 * 2 * K.vel_obs_var, 1.0), ts = std::max(16.0 * (a.P[4][4] + a.P[5][5]), 1.0);
				const double dot = K.vel_obs.x * a.s.s[4] + K.vel_obs.y * a.s.s[5], ang = std::acos(std::min(1.0, std::max(-1.0, dot / std::sqrt(std::max(vo2 * vs2, 1e-12))))) / DEG;
				angle = above(vo2, to, 0.1 * to + 0.1 * vo2) & above(vs2, ts, 0.15 * ts + 0.1) & above(ang, 25, 3 + 20 / std::sqrt(std::max(vs2, 1.0)));

				// the velocity was just reset: it is not one of the published ones
				if ((info[1] | info[2] | info[3] | info[4]).maybe() || std::isnan(K.vel_obs_var)) { angle = Tri::U(); }

				if (mc::replaying()) { mc::note("t=%.3f navigation failure: recent take-off %d flight %d; obs %.2f of %.2f, speed %.2f of %.2f, angle %.1f -> %d; bank %d var %.4f of %.4f", (now - w.t0) * 1e-6, recent.v, flight.v, vo2, to, vs2, ts, ang, angle.v, a.gsf_valid, gv, lim); }
			}

			const Tri yawfail = (recent | flight) & angle & Tri(K.hvel.hi > 0);
			const Tri lost = prev_gps + 1000000 + Tm::SLACK < now ? Tri(true) : prev_gps + 1000000 >= now + Tm::SLACK ? Tri(false) : Tri::U();
			const int cl = int(P.EKFGSF_reset_count_limit);
			const Tri budget = K.gsf_hi < cl ? Tri(true) : K.gsf_lo >= cl ? Tri(false) : Tri::U();
			const Tri try_yaw = gps & (K.gsf_request | yawfail) & budget & K.gsf.out(now, 5000000) & !lost;
			Tri done = try_yaw & gsf_ok;
			gsf_reset(done);

			if (done.unknown()) { done = Tri(b.warn >> 10 & 1); }

			if (done.yes()) {
				K.gsf_lo++; K.gsf_hi++;

				for (Tm *t : {&K.hpos, &K.delpos, &K.hvel, &K.of}) { t->set(now); }
			}

			const Tri timeout = gps & lost_all & !try_yaw;
			reset_vel(timeout);
			reset_pos(timeout);
			warn[1] = timeout;
			K.hpos.happen(timeout, now);
			K.hvel.happen(timeout, now);
		}

		gps = gps.unknown() ? Tri(bool(c.gps)) : gps;

		if (gps.yes()) {
			K.hvel.happen(Tri(b.i.gvr[0] <= 1), now);
			K.hpos.happen(Tri(b.i.gpr[0] <= 1), now);
			K.vvel_try.set(now);
			K.vvel_ratio = b.i.gv[2] / std::sqrt(std::max(1e-9f, b.i.gvv[2]));
			K.vel_obs = K.gps.d.vel;
			K.vel_obs_var = sq_(std::max(K.gps.d.sacc, P.gps_vel_noise));
		}

	} else {
		auto older = [&](uint64_t to) { return hz - K.gps.t > to + Tm::SLACK ? Tri(true) : hz - K.gps.t > to - Tm::SLACK ? Tri::U() : Tri(false); };
		const Tri dead = gps & older(10000000), alt = gps & !older(10000000) & older(1000000) & gps_others();
		stop_gps(dead | alt);
		warn[2] = dead;
		warn[3] = alt;
		gps = gps.unknown() ? Tri(bool(c.gps)) : gps;
	}

	// ---- air data
	{
		const Tri ta = K.arsp.out(now, 10000000), tb = K.beta.out(now, 10000000);
		wind = wind & !(K.synth | (ta & tb & Tri(!(mask & MASK_USE_DRAG))));
		aspd = aspd & !ta;

		if (tas_ready && air) {
			const Tri use = !K.synth;
			K.arsp.happen(use & !wind, now);
			wind = wind | use;
			const Tri ok = use & Tri(f_tas && b.i.tasr <= 1);
			K.arsp.happen(ok, now);
			aspd = aspd | ok;
		}

		if (beta_on && air) {
			const Tri due = !K.synth & K.beta.out(now, P.beta_avg_ft_us);
			K.beta.happen(due & !wind, now);
			wind = wind | due;
			K.beta.happen(due & Tri(f_beta && b.i.betar <= 1), now);
		}

		if ((mask & MASK_USE_DRAG) && air) { wind = wind | (!K.synth & (P.mag_fusion_type == MAG_FUSE_TYPE_INDOOR ? Tri::U() : Tri(true))); }

		aspd = aspd.unknown() ? Tri(bool(c.fuse_aspd)) : aspd;
		wind = wind.unknown() ? Tri(bool(c.wind)) : wind;
	}

	// ---- height
	{
		// close to the ground, slow and over known terrain
		Tri suit(false);

		if (air && a.terrain) {
			const double h = a.tvp - a.s.s[9], ratio = a.i.hagl * a.i.hagl / std::max(1e-9, double(sq_(P.range_aid_innov_gate)) * a.i.haglv), v = std::hypot(b.s.s[4], b.s.s[5]), dvel = 0.02 + std::hypot(a.s.s[4] - b.s.s[4], a.s.s[5] - b.s.s[5]);
			const double eps = 0.02 + std::fabs(a.s.s[9] - b.s.s[9]);
			const Tri active = gps | flow | evp | evv | air_data();
			const Tri was = !above(h, P.max_hagl_for_range_aid, eps) & !above(ratio, 1, 1e-3) & (!active | !above(v, P.max_vel_for_range_aid, dvel));
			const Tri wasnt = !above(h, 0.7 * P.max_hagl_for_range_aid, eps) & !above(ratio, 0.01, 1e-5) & (!active | !above(v, 0.7 * P.max_vel_for_range_aid, dvel));
			suit = (a.i.haglv > 0 ? Tri(true) : Tri::U()) & K.rng_valid & ((K.suitable & was) | (!K.suitable & wasnt) | (was & wasnt));
		}

		K.suitable = suit;
		const Tri aid = Tri(P.range_aid == 1) & suit;
		Tri fuse(false);

		if (prim == VDIST_SENSOR_RANGE) {
			const Tri r = rng_healthy, bb = !r & H[0] & Tri(baro_ready) & baro_fresh;
			sel(r, 2);
			fuse = r | bb;

			if (r.take(c.rng_hgt && !c0.rng_hgt) && !c0.rng_hgt) { K.hgt_off = !air ? double(P.rng_gnd_clearance) : a.terrain ? double(a.tvp) : K.rng.d.rng * r22 + b.s.s[9]; }

		} else if (prim == VDIST_SENSOR_GPS) {
			const Tri up = Tri(!c0.rng_hgt) & aid & rng_healthy;
			const Tri down = !up & Tri(bool(c0.rng_hgt)) & !aid;
			const Tri dg = down & gps_fresh & K.gps_passed, db = down & !(gps_fresh & K.gps_passed) & baro_fresh;
			const Tri back = !up & !(Tri(bool(c0.rng_hgt)) & !aid) & H[0] & !aid & gps_fresh & K.gps_passed;
			sel(up, 2);
			sel(dg | back, 1);
			sel(db, 0);

			if (up.take(c.rng_hgt && !c0.rng_hgt)) { K.hgt_off = a.tvp; }

			if ((dg | back).take(c.gps_hgt && !c0.gps_hgt) && !c0.gps_hgt) { K.hgt_off = gps_alt() + b.s.s[9]; }

			if (db.take(c.baro_hgt && !c0.baro_hgt)) { K.hgt_off = 0; }

			fuse = (H[1] & Tri(gps_ready)) | (H[2] & rng_healthy) | (H[0] & Tri(baro_ready) & baro_fresh);

		} else if (prim == VDIST_SENSOR_EV) {
			const Tri s = !H[3] & ev_fresh;
			sel(s, 3);
			posD = posD | s;
			velD = velD | s;
			fuse = s | H[3] | (H[0] & Tri(baro_ready) & baro_fresh);

		} else {
			const Tri r = aid & rng_healthy, bb = !r & !aid & Tri(baro_ready) & baro_fresh, g = !r & !bb & H[1] & Tri(gps_ready) & gps_fresh;
			sel(r, 2);
			sel(bb, 0);
			fuse = r | bb | g;

			if (r.take(c.rng_hgt && !c0.rng_hgt) && !c0.rng_hgt) { K.hgt_off = a.tvp; }

			if (bb.take(c.baro_hgt && !c0.baro_hgt)) { K.hgt_off = 0; }

			if (c.gps_hgt && !c0.gps_hgt && g.maybe()) { K.hgt_off = gps_alt() + b.s.s[9]; }
		}

		for (int i = 0; i < 4; i++) { const bool obs = i == 0 ? c.baro_hgt : i == 1 ? c.gps_hgt : i == 2 ? c.rng_hgt : c.ev_hgt; pr_H[i] = H[i]; H[i] = H[i].unknown() ? Tri(obs) : H[i]; }

		if (!H[0].yes() && baro_ready && !std::isnan(K.baro_off)) {
			const double dt = std::min(1.0, (K.baro.t - prev_baro) * 1e-6);
			K.baro_off += dt * std::max(-0.1, std::min(0.1, 0.1 * (K.baro.d + b.s.s[9] - K.baro_off)));
		}

		// on the ground a missing range measurement is replaced by the known clearance
		const Tri fill = H[2] & K.hgt.out(now, 400000) & !rng_healthy & Tri(K.rng_regular && !air);

		if (fill.yes()) { K.rng.d.rng = P.rng_gnd_clearance; K.rng_valid = true; }

		else if (fill.maybe()) { K.rng_valid = Tri::U(); }

		fuse = fuse | fill;
		rng_healthy = rng_healthy | fill;
		const float in = H[0].yes() ? b.i.baro : H[1].yes() ? b.i.gp[2] : H[2].yes() ? b.i.rng : b.i.ep[2], inv = H[0].yes() ? b.i.barov : H[1].yes() ? b.i.gpv[2] : H[2].yes() ? b.i.rngv : b.i.epv[2];
		const float ratio = H[0].yes() ? b.i.baror : H[1].yes() ? b.i.gpr[1] : H[2].yes() ? b.i.rngr : b.i.epr[1];
		const float in0 = H[0].yes() ? a.i.baro : H[1].yes() ? a.i.gp[2] : H[2].yes() ? a.i.rng : a.i.ep[2], inv0 = H[0].yes() ? a.i.barov : H[1].yes() ? a.i.gpv[2] : H[2].yes() ? a.i.rngv : a.i.epv[2];

		if (fuse.unknown()) { fuse = Tri(in != in0 || inv != inv0); }

		// as the alternative of the barometer the GPS height is referenced to the height it is first fused at
		if (prim == VDIST_SENSOR_BARO && c.gps_hgt && !c0.gps_hgt && H[1].yes() && fuse.maybe()) { K.hgt_off = gps_alt() + b.s.s[9]; }

		const bool same_source = c.baro_hgt == c0.baro_hgt && c.gps_hgt == c0.gps_hgt && c.rng_hgt == c0.rng_hgt && c.ev_hgt == c0.ev_hgt;

		if (fuse.yes() && P_E05 && a.r.cnt[3] == b.r.cnt[3] && same_source && !fill.unknown()) {
			// what is fused is the deviation from the height of the source, with the offset fixed when it was taken
			const double z = a.s.s[9] + 0.01 * a.s.s[6];
			double want = z, tol = 0.5 + 2 * std::fabs(b.s.s[9] - z);

			if (H[0].yes()) { want += K.baro.d - K.baro_off; tol += c.gnd_effect ? P.gnd_effect_deadzone : 0; }

			else if (H[1].yes()) { want += K.gps.d.hgt - e_alt() - K.hgt_off; }

			else if (H[2].yes()) { want += std::max(K.rng.d.rng * r22, double(P.rng_gnd_clearance)) - K.hgt_off; tol += r22e * K.rng.d.rng; }

			else { want -= K.ev.d.pos(2); }

			MC_CHECK(std::isnan(want) || std::fabs(want - in) < tol, "height observation", "%s the height innovation is %.2f m, expected %.2f (+-%.2f): baro %d GPS %d range %d vision %d, offset %.2f, baro offset %.2f", where(), in, want, tol, H[0].v, H[1].v, H[2].v, H[3].v, K.hgt_off, K.baro_off);
		}

		if (fuse.yes()) {
			K.vpos_try.set(now);
			K.vpos_ratio = in / std::sqrt(std::max(1e-9f, inv));
			K.hgt.happen(Tri(ratio <= 1 || b.fault.flags.bad_acc_vertical), now);
		}

		hgt_fused = fuse.yes();
	}

	// ---- external vision
	if (ev_ready) {
		const Tri aligned = Tri(tilt) & yaw;
		const Tri ps = Tri(bool(mask & MASK_USE_EVPOS)) & !evp & aligned & ev_fresh;
		evp = evp | ps;
		// not to the last GPS sample from before it stopped
		const Tri gps_now = !gps | (hz - K.gps.t > 1000000 + Tm::SLACK ? Tri(false) : hz - K.gps.t > 1000000 - Tm::SLACK ? Tri::U() : Tri(true));
		reset_pos(ps & gps_now);
		const Tri vs = Tri(bool(mask & MASK_USE_EVVEL)) & !evv & aligned & ev_fresh;
		evv = evv | vs;
		reset_vel(vs & gps_now);
		const Tri ys = !gps & Tri(bool(mask & MASK_USE_EVYAW)) & !evy & Tri(tilt) & ev_fresh;
		evy = evy | ys;
		info[9] = ps;
		info[10] = vs;
		info[11] = ys;
		evp = evp.unknown() ? Tri(bool(c.ev_pos)) : evp;
		evv = evv.unknown() ? Tri(bool(c.ev_vel)) : evv;
		evy = evy.unknown() ? Tri(bool(c.ev_yaw)) : evy;

		if (evp.yes()) {
			const bool odom = mask & MASK_USE_GPS;

			if (!odom) {
				const Tri lost = K.hpos.out(now, P.reset_timeout_max);
				reset_vel(lost & K.of.out(now, 1000000) & K.hvel.out(now, 1000000));
				reset_pos(lost);
			}

			(odom ? K.delpos : K.hpos).happen(Tri(f_evp && b.i.epr[0] <= 1), now);
		}

		if (evv.yes()) {
			const Tri lost = K.hvel.out(now, P.reset_timeout_max);
			reset_vel(lost & K.of.out(now, 1000000) & K.hpos.out(now, 1000000));
			K.hvel.happen(Tri(b.i.evr[0] <= 1), now);
			K.vvel_try.set(now);
			K.vvel_ratio = b.i.ev[2] / std::sqrt(std::max(1e-9f, b.i.evv[2]));
			K.vel_obs_var = NAN;
		}

	} else {
		const Tri gone = (evp | evv | evy) & (K.qev.last + P.reset_timeout_max + Tm::SLACK < now ? Tri(true) : K.qev.last + P.reset_timeout_max >= now + Tm::SLACK ? Tri(false) : Tri::U());
		evp = evp & !gone;
		evv = evv & !gone;
		evy = evy & !gone;
		warn[9] = gone;
	}

	// ---- the fall-back
	{
		const Tri none = !(gps | flow | evp | evv | air_data());
		const Tri due = none & K.fake.out(now, 200000), again = due & K.fake.out(now, 400000);
		reset_pos(again);
		reset_vel(again);
		warn[5] = again & Tri(K.fake.hi > 0);
		K.fake.happen(due, now);
		K.hpos.happen(due, now);
		K.synth = none;
	}

	// ---- terrain
	if (!air) { K.hagl.set(now); }

	else if ((P.terrain_fusion_mode & TerrainFusionMask::TerrainFuseRangeFinder) && rng_healthy.maybe()) { K.hagl.happen(rng_healthy & Tri(b.i.haglr <= 1), now); }

	// ---- what was seen
	velD = velD | info[1] | info[3];
	auto same = [&](bool on, Tri want, bool is, const char *key, const char *what) { if (on && !want.unknown()) { MC_CHECK(want.yes() == is, key, "%s %s: %s, expected %s", where(), what, is ? "yes" : "no", want.yes() ? "yes" : "no"); } };
	auto I = [&](int k) { return bool(b.info >> k & 1); };
	auto W = [&](int k) { return bool(b.warn >> k & 1); };
	same(P_E19, bad_acc, b.fault.flags.bad_acc_vertical, "declared", "vertical acceleration declared bad");
	same(P_E05, pr_H[0], c.baro_hgt, "source", "barometer height used");
	same(P_E05, pr_H[1], c.gps_hgt, "source", "GPS height used");
	same(P_E05, pr_H[2], c.rng_hgt, "source", "range height used");
	same(P_E05, pr_H[3], c.ev_hgt, "source", "vision height used");

	if (user_origin != n_upd) { same(P_E05, posD, a.r.cnt[3] != b.r.cnt[3], "reset", "height reset"); }

	same(P_E05 || P_E19, warn[4], W(4), "reset", "height timeout reported");
	same(P_E18, velD, a.r.cnt[1] != b.r.cnt[1], "vertical velocity", "vertical velocity reset");
	same(P_E09, gps, c.gps, "gps", "GPS used");
	same(P_E09, flow, c.opt_flow, "flow", "optical flow used");
	same(P_E09, evp, c.ev_pos, "vision", "vision position used");
	same(P_E09, evv, c.ev_vel, "vision", "vision velocity used");
	same(P_E12, evy, c.ev_yaw, "vision yaw", "vision heading used");
	same(P_E12, gyaw, c.gps_yaw, "gps yaw", "GPS heading used");
	same(P_E09, aspd, c.fuse_aspd, "air data", "airspeed used");
	same(P_E09, wind, c.wind, "air data", "wind estimated");
	static const char *const iname[13] = {"", "velocity reset to GPS", "velocity reset to flow", "velocity reset to vision", "velocity reset to zero", "position reset to last known", "position reset to GPS", "position reset to vision", "GPS started", "vision position started", "vision velocity started", "vision heading started", "heading aligned to IMU and GPS"};

	for (int k = 1; k <= 7; k++) { same(P_E18, info[k], I(k), "reset", iname[k]); }

	for (int k = 8; k <= 11; k++) { same(P_E09, info[k], I(k), "start", iname[k]); }

	same(P_E12, info[12], I(12), "emergency decision", iname[12]);
	same(P_E12, warn[10], W(10), "emergency decision", "emergency heading reset");
	same(P_E09, warn[0], W(0), "stop", "GPS stopped for bad quality");
	same(P_E18, warn[1], W(1), "reset", "GPS fusion timeout");
	same(P_E09, warn[2], W(2), "stop", "GPS data stopped");
	same(P_E09, warn[3], W(3), "stop", "GPS data stopped, alternative used");
	same(P_E09, warn[5], W(5), "stop", "navigation stopped");
	same(P_E09, warn[9], W(9), "stop", "vision data stopped");

	if (P_E06) { ctl_resets(gps_fresh.yes(), gps_fresh.no(), gps_ready); }

	if (b.i.fl[0] != a.i.fl[0] && c.opt_flow) { K.known = b.s.p(); K.known_tol = 0.05 + (c.gps || c.ev_pos ? std::sqrt(b.P[7][7] + b.P[8][8]) : 0); }

	if (b.info >> 5 & 1 && !c.opt_flow) { K.known = b.s.p(); K.known_tol = 0.1; }
}

// a reset leaves the value and the uncertainty of its source, what else is fused in the same update only narrows it
void Env::ctl_resets(bool gps_fresh, bool gps_stale, bool gps_ready)
{
	Ctl &K = ctl;
	const parameters &P = p();
	auto &c = b.c.flags;
	const Ctl::Flags &c0 = K.c0;
	const unsigned vel = b.info & 0x1e, pos = b.info & 0xe0;
	const int sources = c.gps + c.opt_flow + c.ev_pos + c.ev_vel + (c.fuse_aspd || c.fuse_beta);
	auto var = [&](int i, double want, double low, double high, const char *what) {
		const double v = b.P[i][i];
		MC_CHECK(v <= high * want + 1e-6 && (sources > 1 || v >= low * want - 1e-6), "variance", "%s %s leaves a variance of %.4g for state %d, the source has %.4g", where(), what, v, i, want);
	};

	if (vel == 2) { for (int i = 4; i < 7; i++) { var(i, sq_(K.gps.d.sacc), i == 6 ? 0.1 : 0.3, 1.03, "velocity reset to GPS"); } }

	if (vel == 4) {
		// the terrain and the height may be changed by the same update
		const double tilt = b.s.q().rot({0, 0, 1}).z, gc = P.rng_gnd_clearance;
		const double best = std::max(P.flow_noise, 0.05f), worst = std::max(P.flow_noise_qual_min, 0.05f), wgt = std::max(0.0, std::min(1.0, (double(K.flow.d.quality) - P.flow_qual_min) / (255.0 - P.flow_qual_min)));
		const double R = sq_(wgt * best + (1 - wgt) * worst);
		double lo = 1e9, hi = 0;

		for (double t : {double(a.tvp), double(b.tvp)}) { for (double z : {a.s.s[9], b.s.s[9]}) { const double h = std::max(t - z, gc); lo = std::min(lo, h); hi = std::max(hi, h); } }

		for (int i = 4; i < 6; i++) {
			const double v = b.P[i][i];
			MC_CHECK(v <= 1.2 * sq_(hi / tilt) * R + 1e-6 && (sources > 1 || v >= 0.2 * sq_(lo / tilt) * R - 1e-6), "variance", "%s velocity reset to flow leaves a variance of %.4g for state %d, a flow of variance %.4g at %.2f..%.2f m", where(), v, i, R, lo, hi);
		}

		const Truth tr = w.at(K.flow.t);
		const double r0 = lo / tilt - gc, r1 = hi / tilt - gc, h = hi;
		const bool low = r1 < 0.25, high = r0 > 0.35, heading = std::fabs(wrap(b.s.q().yaw() - tr.q.yaw())) < 0.3;
		const double k = low ? 0 : h / std::max(0.05, -tr.p.z);
		const V3 x = b.s.v() - tr.v * k;

		if ((low || high) && hi - lo < 0.1 * hi && heading && K.flow_gap < 300000 && !(gps_ready && c.gps) && K.flow.d.quality && w.x.v.norm() < 20) { MC_CHECK(x.hnorm() < 0.35 + 0.2 * tr.v.norm() * k + 2 * std::sqrt(b.P[4][4]) + 0.3 * h, "value/velocity flow", "%s velocity reset to flow gives %.2f %.2f at a height of %.2f m (estimated %.2f m), truth %.2f %.2f", where(), b.s.v().x, b.s.v().y, -tr.p.z, h, tr.v.x, tr.v.y); }
	}

	if (vel == 8) { for (int i = 4; i < 7; i++) { var(i, K.ev.d.velCov(0, 0), i == 6 ? 0.1 : 0.2, 1.03, "velocity reset to vision"); } }

	if (vel == 16) { for (int i = 4; i < 6; i++) { var(i, 25, sources ? 0 : 0.8, 1.02, "velocity reset to zero"); } }

	if (pos == 64 && user_origin != n_upd) { for (int i = 7; i < 9; i++) { var(i, sq_(K.gps.d.hacc), 0.1, 1.03, "position reset to GPS"); } }

	if (pos == 128) {
		for (int i = 7; i < 9; i++) { var(i, K.ev.d.posVar(0), 0.2, 1.03, "position reset to vision"); }

		if (P.fusion_mode & MASK_ROTATE_EV) {
			const Q4 r = a.s.q() * q4(K.ev.d.quat).conj();
			const V3 x = r.rot(v3(K.ev.d.pos)) - b.s.p();
			MC_CHECK(x.hnorm() < 0.3 + 0.1 * v3(K.ev.d.pos).norm(), "value/position vision", "%s position reset to vision in a rotated frame gives %.2f %.2f, off by %.2f %.2f", where(), b.s.p().x, b.s.p().y, x.x, x.y);
		}
	}

	if (pos == 32) {
		for (int i = 7; i < 9; i++) { var(i, c.opt_flow ? 0 : sq_(P.pos_noaid_noise), c0.in_air ? 0.3 : 0, 1.03, "position reset to the last known one"); }

		if (c.opt_flow && !c0.opt_flow) {
			const V3 want = c0.in_air ? K.known : V3{};
			const double tol = (c0.in_air ? K.known_tol : 0.02) + 0.05;
			MC_CHECK((b.s.p() - want).hnorm() < tol, "value/position last known", "%s starting with flow only %s leaves the position at %.2f %.2f, expected %.2f %.2f (+-%.2f)", where(), c0.in_air ? "in the air" : "on the ground", b.s.p().x, b.s.p().y, want.x, want.y, tol);

		} else if (!c.opt_flow) {
			MC_CHECK(std::hypot(b.r.pNE[0], b.r.pNE[1]) < 0.01 || (b.s.p() - K.known).hnorm() < K.known_tol + 0.05, "value/position last known", "%s without aiding the position was moved by %.2f %.2f to %.2f %.2f, last known %.2f %.2f", where(), double(b.r.pNE[0]), double(b.r.pNE[1]), b.s.p().x, b.s.p().y, K.known.x, K.known.y);
		}
	}

	const int nz = uint8_t(b.r.cnt[3] - a.r.cnt[3]), nv = uint8_t(b.r.cnt[1] - a.r.cnt[1]);

	if (nz == 1 && user_origin != n_upd && !c.ev_hgt && c0.ev_hgt == c.ev_hgt) {
		const bool one = c.baro_hgt == c0.baro_hgt && c.gps_hgt == c0.gps_hgt;
		const double want = c.baro_hgt ? sq_(P.baro_noise) : c.gps_hgt ? sq_(K.qgps.newest.vacc) : sq_(P.range_noise);

		if (one || b.warn >> 4 & 1) { var(9, want, 0.02, 1.03, "height reset"); }
	}

	if (nv == 1 && nz == 1 && !(vel & 10) && c.gps == c0.gps && user_origin != n_upd) {
		if (c.gps && gps_fresh) {
			const double vz = K.qgps.newest.vel.z;
			var(6, sq_(1.5 * K.qgps.newest.sacc), gps_ready ? 0.1 : 0.7, 1.03, "height reset");
			MC_CHECK(std::fabs(b.s.s[6] - vz) < 0.3 + std::fabs(vz - K.gps.d.vel.z), "value/vertical velocity", "%s a height reset with GPS leaves a vertical velocity of %.2f, GPS has %.2f", where(), b.s.s[6], vz);

		} else if (!c.gps || gps_stale) {
			const bool others = c.ev_vel || c.ev_pos || (c.gps && !gps_stale) || (c.opt_flow && b.i.fl[0] != a.i.fl[0]);

			if (!others) {
				var(6, 10, 0.5, 1.02, "height reset");
				MC_CHECK(std::fabs(b.s.s[6]) < 0.3, "value/vertical velocity", "%s a height reset without GPS leaves a vertical velocity of %.2f", where(), b.s.s[6]);
			}
		}
	}
}
