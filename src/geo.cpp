// geo library: map projection (mode "projection"), great-circle functions (mode "geodesic"), track errors (mode "track").
// The oracle is three-dimensional vector geometry on the sphere in long double.
#include "mc.h"
#include <geo/geo.h>
#include <cmath>
#include <cfloat>

typedef long double LD;
static const LD PI = 3.14159265358979323846264338327950288L;
static const LD R = 6371000.0L;
struct V { LD x, y, z; };
static V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static V operator*(LD s, V a) { return {s * a.x, s * a.y, s * a.z}; }
static LD dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD norm(V a) { return sqrtl(dot(a, a)); }
static V unit(LD lat, LD lon) { const LD p = lat * PI / 180, l = lon * PI / 180; return {cosl(p) *cosl(l), cosl(p) *sinl(l), sinl(p)}; }
static V north(LD lat, LD lon) { const LD p = lat * PI / 180, l = lon * PI / 180; return { -sinl(p) *cosl(l), -sinl(p) *sinl(l), cosl(p)}; }
static V east(LD lon) { const LD l = lon * PI / 180; return { -sinl(l), cosl(l), 0}; }
static LD angle(V a, V b) { return atan2l(norm(cross(a, b)), dot(a, b)); }
// great circle distance and initial bearing
static LD gc(LD la1, LD lo1, LD la2, LD lo2) { return R * angle(unit(la1, lo1), unit(la2, lo2)); }
static LD bearing(LD la1, LD lo1, LD la2, LD lo2) { const V b = unit(la2, lo2); return atan2l(dot(b, east(lo1)), dot(b, north(la1, lo1))); }
static V travel(LD la, LD lo, LD brg, LD dist)
{
	const LD c = dist / R;
	return cosl(c) * unit(la, lo) + sinl(c) * (cosl(brg) * north(la, lo) + sinl(brg) * east(lo));
}
static void latlon(V v, double &la, double &lo) { la = double(atan2l(v.z, hypotl(v.x, v.y)) * 180 / PI); lo = double(atan2l(v.y, v.x) * 180 / PI); }
static LD wrap(LD a) { a = fmodl(a, 2 * PI); if (a > PI) { a -= 2 * PI; } if (a < -PI) { a += 2 * PI; } return a; }
// loss of the arc sine near the poles, in metres
static double asin_loss(double lat) { const double c = std::cos(lat * M_PI / 180); return 6.4e6 * std::min(4e-8, 2e-15 / std::max(c, 1e-12)); }

static const double LATS[] = {-90, -89.9999, -75.25, -45, -33.3, -1e-7, 0, 12.5, 30, 47.397742, 60, 75.123456, 89.5, 89.9999, 90};
static const double LONS[] = {-180, -179.99999, -122.5, -90, -1e-7, 0, 8.545594, 45, 90, 151.2, 179.99999, 180};
static const double DIST[] = {0, 1e-3, 0.5, 7.3, 100, 1234.5, 2e4, 1.5e5, 1e6, 5e6, 10007543.398, 1.2e7, 1.5e7, 1.8e7};
static const int NLA = sizeof(LATS) / sizeof(*LATS), NLO = sizeof(LONS) / sizeof(*LONS), ND = sizeof(DIST) / sizeof(*DIST);

static void projection()
{
	mc::rule("references: 15 latitudes x 12 longitudes (both poles, equator, date line); targets: 14 distances 0..18000 km x 24 (thorough 360) bearings from every reference, and all reference points as "
		 "targets of each other; initialise/re-initialise/query histories of length 4; non-trivial: distance > 0.");
	mc::assume("targets within 18000 km of the reference (the projection is singular at the antipode)");
	const int NB = mc::thorough() ? 360 : 24;

	mc::for_all("projection", NLA * NLO, [&](uint64_t k) {
		const double la0 = LATS[k / NLO], lo0 = LONS[k % NLO];
		map_projection_reference_s ref{};
		mc::Count cnt;
		map_projection_init_timestamped(&ref, la0, lo0, 1000 + k);
		auto one = [&](double la, double lo) {
			cnt.states++;
			cnt.tr += 2;
			const LD d = gc(la0, lo0, la, lo), b = bearing(la0, lo0, la, lo);

			if (d > 1.8001e7L) { return; }

			cnt.add(d > 1e-6);
			float x = 1e9f, y = 1e9f;
			MC_CHECK(map_projection_project(&ref, la, lo, &x, &y) == 0, "project-return", "project failed");
			const double ex = double(d * cosl(b)), ey = double(d * sinl(b)), tol = 3e-7 * double(d) + 3e-8;
			MC_CHECK(std::fabs(x - ex) <= tol && std::fabs(y - ey) <= tol, "project", "reference (%.9g, %.9g), point (%.12g, %.12g): projected to (%.9g, %.9g) m, but it lies %.9g m away at bearing %.9g rad",
				 la0, lo0, la, lo, x, y, double(d), double(b));
			double la2 = 1e9, lo2 = 1e9;
			MC_CHECK(map_projection_reproject(&ref, x, y, &la2, &lo2) == 0, "reproject-return", "reproject failed");
			const LD dx = std::hypot(double(x), double(y));
			double rla, rlo;
			latlon(travel(la0, lo0, atan2l(LD(y), LD(x)), dx), rla, rlo);
			MC_CHECK(std::isfinite(la2) && std::isfinite(lo2) && std::fabs(la2) <= 90.0000001, "reproject-finite", "reference (%.9g, %.9g): (%.9g, %.9g) m becomes (%g, %g)", la0, lo0, x, y, la2, lo2);
			MC_CHECK(double(gc(rla, rlo, la2, lo2)) <= 1e-7 + 1e-15 * double(dx) + asin_loss(la2), "reproject", "reference (%.9g, %.9g): (%.9g, %.9g) m becomes (%.12g, %.12g), expected (%.12g, %.12g)",
				 la0, lo0, x, y, la2, lo2, rla, rlo);
			float x2, y2;
			map_projection_project(&ref, la2, lo2, &x2, &y2);
			const double t2 = 3e-7 * double(dx) + 1e-7 + 3 * asin_loss(la2);
			MC_CHECK(std::fabs(x2 - x) <= t2 && std::fabs(y2 - y) <= t2, "roundtrip", "reference (%.9g, %.9g): (%.9g, %.9g) m -> (%.12g, %.12g) -> (%.9g, %.9g) m", la0, lo0, x, y, la2, lo2, x2, y2);
		};

		for (int i = 0; i < ND; i++) {
			for (int j = 0; j < NB; j++) {
				double la, lo;
				latlon(travel(la0, lo0, 2 * PI * j / NB + (i % 3) * 1e-3L, DIST[i]), la, lo);
				one(la, lo);
				one(la, lo > 0 ? lo - 360 : lo + 360);
			}
		}

		for (double la : LATS) { for (double lo : LONS) { one(la, lo); } }

		// exact axis offsets, including those that step onto and over a pole
		for (double dx : {0., 1e-3, 1., 1e3, 1e6, double(R) * M_PI / 2, double(R) *M_PI / 4, double(R) *(M_PI / 2 - la0 * M_PI / 180)}) {
			for (int s = 0; s < 4; s++) {
				const float x = float(s == 0 ? dx : s == 1 ? -dx : 0), y = float(s == 2 ? dx : s == 3 ? -dx : 0);
				double la = 1e9, lo = 1e9;
				cnt.tr++;
				cnt.states++;
				map_projection_reproject(&ref, x, y, &la, &lo);
				MC_CHECK(std::isfinite(la) && std::isfinite(lo), "reproject-finite", "reference (%.9g, %.9g): (%.9g, %.9g) m becomes (%g, %g)", la0, lo0, x, y, la, lo);
			}
		}

		if (k % 60 == 33) { mc::sample("reference (%.6f, %.6f): %d distances x %d bearings and %d fixed points, forward and back", la0, lo0, ND, NB, NLA * NLO); }
	});
	const uint64_t NP = mc::thorough() ? 180000 : 36000;
	mc::for_all("poles", NP + 1, [&](uint64_t k) {
		mc::Count cnt;
		const double la = -90 + 180. * double(k) / double(NP);
		map_projection_reference_s ref{};
		map_projection_init_timestamped(&ref, la, 8.5, 1);

		for (int s = -1; s <= 1; s += 2) {
			const double dp = (90 - s * la) * M_PI / 180 * 6371000;

			for (int e = -1; e <= 1; e++) {
				const float x = e ? std::nextafterf(float(dp), float(e) * 1e12f) : float(dp);
				double a = NAN, b = NAN;
				map_projection_reproject(&ref, s * x, 0, &a, &b);
				cnt.tr++;
				cnt.states++;
				cnt.add();
				MC_CHECK(std::isfinite(a) && std::isfinite(b) && std::fabs(a - 90 * s) <= (std::fabs(x - dp) + 0.3) / 111194.9, "pole", "reference latitude %.17g: %.9g m towards the pole becomes (%.12g, %.12g)", la, s * x, a, b);
			}
		}
	});
	mc::explore("lifecycle", mc::ODOMETER, [&]() {
		map_projection_reference_s ref{}, other{};
		bool init = false;
		double la = 0, lo = 0;
		uint64_t ts = 0;
		map_projection_init_timestamped(&other, 11., 22., 33);

		for (int k = 0; k < 4; k++) {
			const int c = mc::choose(5);
			mc::transition();

			if (c < 2) {
				la = c ? -33.25 : 47.5;
				lo = c ? 179.5 : 8.25;
				ts = c ? 77 : (1ull << 40);
				map_projection_init_timestamped(&ref, la, lo, ts);
				init = true;

			} else if (c == 2) {
				float x = 5, y = 6;
				const int r = map_projection_project(&ref, 47.5, 8.25, &x, &y);
				MC_CHECK(r == (init ? 0 : -1), "uninitialised", "project returned %d", r);
				MC_CHECK(init || (x == 5 && y == 6), "uninitialised", "project wrote its result without a reference");

			} else if (c == 3) {
				double a = 5, b = 6;
				const int r = map_projection_reproject(&ref, 10, 20, &a, &b);
				MC_CHECK(r == (init ? 0 : -1), "uninitialised", "reproject returned %d", r);
				MC_CHECK(init || (a == 5 && b == 6), "uninitialised", "reproject wrote its result without a reference");

			} else {
				double a = 5, b = 6;
				const int r = map_projection_reference(&ref, &a, &b);
				MC_CHECK(r == (init ? 0 : -1), "uninitialised", "reference returned %d", r);

				if (init) {
					MC_CHECK(std::fabs(a - la * M_PI / 180) < 1e-14 && std::fabs(b - lo * M_PI / 180) < 1e-14, "reference", "reference (%.12g, %.12g) rad, initialised with (%g, %g) deg", a, b, la, lo);

				} else { MC_CHECK(a == 5 && b == 6, "uninitialised", "reference wrote its result without a reference"); }
			}

			MC_CHECK(map_projection_initialized(&ref) == init, "initialised", "initialised reads %d", map_projection_initialized(&ref));

			if (init) { MC_CHECK(map_projection_timestamp(&ref) == ts, "timestamp", "timestamp %llu", (unsigned long long)map_projection_timestamp(&ref)); }

			double a, b;
			map_projection_reference(&other, &a, &b);
			MC_CHECK(map_projection_timestamp(&other) == 33 && std::fabs(a - 11 * M_PI / 180) < 1e-14, "independent", "another reference changed");
			mc::visit(mc::mix(mc::hash_pod(1, la), init));
		}
	}, 2);
}

static void geodesic()
{
	mc::rule("all ordered pairs of 15 x 12 fixed points (poles, equator, date line, antipodes), and from each fixed point 14 distances x 24 (thorough 180) bearings; distances to project 0..18000 km, "
		 "forward and backward; non-trivial: the two points differ.");
	mc::assume("destinations start below 89.9 degrees of latitude (the longitude is ill-conditioned at the poles)");
	const int NB = mc::thorough() ? 180 : 24;

	mc::for_all("geodesic", NLA * NLO, [&](uint64_t k) {
		const double la1 = LATS[k / NLO], lo1 = LONS[k % NLO];
		mc::Count cnt;
		auto pair = [&](double la2, double lo2) {
			const LD d = gc(la1, lo1, la2, lo2);
			cnt.add(d > 1e-6);
			cnt.states++;
			cnt.tr += 6;
			const double slack = 6371000. * (2e-15 + std::min(4e-8, 1e-15 / std::max(1e-9, 1 - double(d) / (M_PI * 6371000.)))); // haversine loses digits near the antipode
			const float g = get_distance_to_next_waypoint(la1, lo1, la2, lo2);
			MC_CHECK(std::fabs(g - double(d)) <= 2e-7 * double(d) + slack, "distance", "distance (%.12g, %.12g) to (%.12g, %.12g) is %.9g m, expected %.9g", la1, lo1, la2, lo2, g, double(d));
			const float gr = get_distance_to_next_waypoint(la2, lo2, la1, lo1);
			MC_CHECK(std::fabs(g - gr) <= 1e-7 * g + slack, "distance-symmetric", "%.9g m there, %.9g m back", g, gr);
			float xy = -1, z = -1;

			for (int h = 0; h < 3; h++) {
				const float a1 = h == 0 ? 100.f : h == 1 ? -50.5f : 3000.f, a2 = h == 0 ? 100.f : h == 1 ? 449.5f : 0.f;
				const float w = get_distance_to_point_global_wgs84(la1, lo1, a1, la2, lo2, a2, &xy, &z);
				const double dz = std::fabs(double(a1) - a2);
				MC_CHECK(std::fabs(xy - double(d)) <= 2e-7 * double(d) + slack && std::fabs(z - dz) <= 1e-6 * dz, "global-distance", "(%.12g, %.12g) to (%.12g, %.12g): horizontal %.9g (expected %.9g), vertical %.9g (expected %.9g)",
					 la1, lo1, la2, lo2, xy, double(d), z, dz);
				MC_CHECK(std::fabs(w - std::hypot(double(d), dz)) <= 4e-7 * std::hypot(double(d), dz) + slack, "global-distance-3d", "3d distance %.9g, expected %.9g", w, std::hypot(double(d), dz));
			}

			const LD c = d / R, b = bearing(la1, lo1, la2, lo2);
			const double sinc = double(sinl(c));
			float vn = 1e9f, ve = 1e9f;
			get_vector_to_next_waypoint(la1, lo1, la2, lo2, &vn, &ve);
			MC_CHECK(std::fabs(vn - double(R * sinc * cosl(b))) <= 2e-7 * 6371000. * sinc + 1e-8 && std::fabs(ve - double(R * sinc * sinl(b))) <= 2e-7 * 6371000. * sinc + 1e-8, "vector",
				 "vector (%.12g, %.12g) to (%.12g, %.12g) is (%.9g, %.9g), expected (%.9g, %.9g)", la1, lo1, la2, lo2, vn, ve, double(R * sinc * cosl(b)), double(R * sinc * sinl(b)));

			if (sinc > 1e-12) {
				const float gb = get_bearing_to_next_waypoint(la1, lo1, la2, lo2);
				MC_CHECK(std::isfinite(gb) && std::fabs(gb) <= 3.1415928f, "bearing-range", "bearing %.9g", gb);
				MC_CHECK(std::fabs(wrap(gb - b)) <= 1e-6 + 2e-15 / sinc, "bearing", "bearing from (%.12g, %.12g) to (%.12g, %.12g) is %.9g rad, expected %.9g", la1, lo1, la2, lo2, gb, double(b));

				if (std::fabs(la1) < 89.9 && (mc::thorough() || k % 7 == 0)) {
					for (float dist : {0.f, 2.5f, -2.5f, 4e4f, -4e4f, 3e6f}) {
						double la, lo, rla, rlo;
						create_waypoint_from_line_and_dist(la1, lo1, la2, lo2, dist, &la, &lo);
						cnt.tr++;
						latlon(travel(la1, lo1, b, dist), rla, rlo);
						const double lateral = std::fabs(dist) * (2e-6 + 2e-15 / sinc);
						MC_CHECK(double(gc(la, lo, rla, rlo)) <= lateral + 1e-7 + asin_loss(la), "line-point", "point %.9g m along the line from (%.12g, %.12g) to (%.12g, %.12g) is (%.12g, %.12g), expected (%.12g, %.12g)",
							 dist, la1, lo1, la2, lo2, la, lo, rla, rlo);
						MC_CHECK(dist != 0 || (la == la1 && lo == lo1), "line-point-zero", "distance zero gives (%.15g, %.15g) from (%.15g, %.15g)", la, lo, la1, lo1);
					}
				}
			}

			// local (fast) vector: first order in the distance, also across the date line
			if (d < 3e4L && std::fabs(la1) < 89) {
				get_vector_to_next_waypoint_fast(la1, lo1, la2, lo2, &vn, &ve);
				const double t = double(d) * (1e-6 + 1.5 * double(c) * (1 + std::fabs(std::tan(la1 * M_PI / 180)))) + 2e-8;
				MC_CHECK(std::fabs(vn - double(d * cosl(b))) <= t && std::fabs(ve - double(d * sinl(b))) <= t, "vector-fast", "fast vector (%.12g, %.12g) to (%.12g, %.12g) is (%.9g, %.9g), expected (%.9g, %.9g)",
					 la1, lo1, la2, lo2, vn, ve, double(d * cosl(b)), double(d * sinl(b)));
				double la, lo;
				add_vector_to_global_position(la1, lo1, vn, ve, &la, &lo);
				MC_CHECK(double(gc(la, lo, la2, lo2)) <= 2e-7 * double(d) + 1e-8, "add-vector", "adding the vector (%.9g, %.9g) to (%.12g, %.12g) gives (%.12g, %.12g), not (%.12g, %.12g)", vn, ve, la1, lo1, la, lo, la2, lo2);
			}
		};

		for (double la : LATS) { for (double lo : LONS) { pair(la, lo); } }

		pair(la1, lo1);
		pair(-la1, lo1 + 180);
		pair(-la1, lo1 - 180);

		for (int i = 0; i < ND; i++) {
			for (int j = 0; j < NB; j++) {
				double la, lo;
				const LD b = 2 * PI * j / NB + (i % 3) * 1e-3L;
				latlon(travel(la1, lo1, b, DIST[i]), la, lo);
				pair(la, lo);

				for (int s = -1; s <= 1; s += 2) {
					for (int turn = -1; turn <= 1; turn++) {
						if (std::fabs(la1) > 89.9) { continue; }

						double wla, wlo, rla, rlo;
						const float fb = float(b) + turn * 6.2831853f, fd = float(s * DIST[i]);
						waypoint_from_heading_and_distance(la1, lo1, fb, fd, &wla, &wlo);
						cnt.tr++;
						latlon(travel(la1, lo1, fb, fd), rla, rlo);
						MC_CHECK(std::isfinite(wla) && std::isfinite(wlo), "destination-finite", "from (%.12g, %.12g) %.9g m at %.9g rad: (%g, %g)", la1, lo1, fd, fb, wla, wlo);
						MC_CHECK(double(gc(wla, wlo, rla, rlo)) <= DIST[i] * 2e-6 + 1e-7 + asin_loss(wla), "destination", "from (%.12g, %.12g) %.9g m at %.9g rad leads to (%.12g, %.12g), expected (%.12g, %.12g)",
							 la1, lo1, fd, fb, wla, wlo, rla, rlo);
					}
				}
			}
		}

		if (k % 60 == 20) { mc::sample("from (%.6f, %.6f): %d fixed points, %d distances x %d bearings", la1, lo1, NLA * NLO + 3, ND, NB); }
	});
	// rounding corners of the inverse functions: every antipode and every pole crossing along a meridian
	const uint64_t NP = mc::thorough() ? 180000 : 36000;
	mc::for_all("antipodes", NP + 1, [&](uint64_t k) {
		mc::Count cnt;
		const double la = -90 + 180. * double(k) / double(NP);

		for (double lo : {0., 8.5, -122.3}) {
			float xy, z;
			const float d = get_distance_to_next_waypoint(la, lo, -la, lo + 180), g = get_distance_to_point_global_wgs84(la, lo, 10, -la, lo + 180, 10, &xy, &z);
			MC_CHECK(std::fabs(d - M_PI * 6371000) < 5 && std::fabs(g - M_PI * 6371000) < 5 && std::fabs(xy - M_PI * 6371000) < 5, "antipode", "distance from (%.17g, %.17g) to its antipode: %g and %g m", la, lo, d, g);
			cnt.tr += 2;
			cnt.states++;
			cnt.add();
		}

		for (int s = -1; s <= 1; s += 2) {
			const double dp = (90 - s * la) * M_PI / 180 * 6371000;

			for (int e = -1; e <= 1; e++) {
				const float x = e ? std::nextafterf(float(dp), float(e) * 1e12f) : float(dp);
				double a = NAN, b = NAN;
				waypoint_from_heading_and_distance(la, 8.5, s > 0 ? 0.f : 3.14159265f, x, &a, &b);
				cnt.tr++;
				cnt.states++;
				cnt.add();
				const double slack = (std::fabs(x - dp) + 0.3 + (s < 0 ? 2e-7 * x : 0)) / 111194.9;
				MC_CHECK(std::isfinite(a) && std::isfinite(b) && std::fabs(a - 90 * s) <= slack, "pole", "from latitude %.17g %.9g m towards the pole: (%.12g, %.12g)", la, x, a, b);
			}
		}
	});
	const float G[] = {0.f, 1.f, -1.f, 3.5f, -20000.f, 1e-3f, 54321.f};
	mc::for_all("local", 343, [&](uint64_t k) {
		mc::Count cnt;
		const float x = G[k % 7], y = G[k / 7 % 7], z = G[k / 49];

		for (float x2 : G) {
			for (float y2 : G) {
				for (float z2 : G) {
					float xy, dz;
					const double dx = double(x) - x2, dy = double(y) - y2, d = double(z) - z2;
					const float r = mavlink_wpm_distance_to_point_local(x, y, z, x2, y2, z2, &xy, &dz);
					cnt.add(dx != 0 || dy != 0 || d != 0);
					cnt.states++;
					cnt.tr++;
					MC_CHECK(std::fabs(xy - std::hypot(dx, dy)) <= 1e-6 * std::hypot(dx, dy) && std::fabs(dz - std::fabs(d)) <= 1e-6 * std::fabs(d)
						 && std::fabs(r - std::sqrt(dx * dx + dy * dy + d * d)) <= 1e-6 * r, "local-distance", "(%g %g %g) to (%g %g %g): %g %g %g", x, y, z, x2, y2, z2, xy, dz, r);
				}
			}
		}
	});
}

static void track()
{
	mc::rule("lines: end points at 9 latitudes x 3 longitudes, 5 lengths 20 m..20 km x 16 directions, vehicle at 11 along-track x 9 cross-track offsets; arcs: centres at the same places, 3 radii, 16 start bearings x 12 "
		 "sweeps (both directions), vehicle at 7 radial x 48 angular positions; cases within a small margin of a decision boundary are skipped for the decision; non-trivial: vehicle off the track.");
	mc::assume("tracks of at most 20 km at latitudes up to 80 degrees; the oracle is plane geometry in the tangent plane with a tolerance for the convergence of meridians");
	static const double LA[] = {-80, -60.5, -33, -1e-6, 0, 10, 47.4, 65, 80}, LO[] = {-180, 8.5, 179.9999};
	static const double LEN[] = {20, 300, 1000, 5000, 20000};

	mc::for_all("line", 27 * 5 * 16, [&](uint64_t k) {
		const double laE = LA[k % 9], loE = LO[k / 9 % 3], L = LEN[k / 27 % 5];
		const LD dir = 2 * PI * (k / 135) / 16 + 0.01L;
		mc::Count cnt;
		double laS, loS;
		latlon(travel(laE, loE, dir + PI, L), laS, loS);

		for (double a : {-3., -1., -0.5, -0.1, 0.001, 0.05, 0.3, 0.7, 1., 1.5, 2.}) {     // distance still to go, in track lengths
			for (double c : {-2., -1., -0.5, -0.01, 0., 0.01, 0.3, 1., 2.}) {         // to the right of the track, in track lengths
				double la, lo;
				const LD along = -a * L, right = c * L;
				const LD dd = hypotl(along, right);
				latlon(travel(laE, loE, dir + atan2l(right, along), dd), la, lo);
				crosstrack_error_s e{};
				e.distance = 777;
				e.bearing = 777;
				e.past_end = true;
				const int r = get_distance_to_line(&e, la, lo, laS, loS, laE, loE);
				cnt.tr++;
				cnt.states++;
				cnt.add(c != 0);
				const double ang = 4e-6 + double((L + dd) / R) * (2 + 2 * std::fabs(std::tan(laE * M_PI / 180)));   // convergence of meridians
				const double tol = double(dd) * ang + 0.01;

				if (dd < 0.09L) { MC_CHECK(r == -1, "line-error", "at the end point: returned %d", r); continue; }

				if (dd < 0.11L) { continue; }

				MC_CHECK(r == 0, "line-return", "returned %d", r);

				if (std::fabs(a) * L > tol) {
					MC_CHECK(e.past_end == (a < 0), "line-past-end", "end (%.9g, %.9g), track direction %.4Lf, vehicle %.4g m before the end and %.4g m right: past_end=%d", laE, loE, dir, a * L, c * L, e.past_end);
				}

				if (!e.past_end) {
					MC_CHECK(std::fabs(e.distance - c * L) <= tol, "line-distance", "end (%.9g, %.9g), length %.5g, vehicle %.4g m before the end and %.4g m right of the track: distance %.6g", laE, loE, L, a * L, c * L, e.distance);

					if (std::fabs(c) * L > tol) {
						MC_CHECK(std::fabs(wrap(e.bearing - (dir + (c > 0 ? -PI / 2 : PI / 2)))) <= ang, "line-bearing", "vehicle %.4g m right of a track heading %.4Lf: bearing to the track %.4g", c * L, dir, e.bearing);
					}

					MC_CHECK(std::fabs(e.bearing) <= 3.1415928f, "line-bearing-range", "bearing %.9g", e.bearing);
				}
			}
		}

		if (k % 700 == 99) { mc::sample("line of %.0f m towards (%.4f, %.4f), direction %.3Lf", L, laE, loE, dir); }
	});
	mc::for_all("arc", 27 * 3 * 16, [&](uint64_t k) {
		const double laC = LA[k % 9], loC = LO[k / 9 % 3];
		static const double RA[] = {15, 400, 5000};
		const double rad = RA[k / 27 % 3];
		const double start = 2 * M_PI * (k / 81) / 16 + (k / 81 == 3 ? 0 : 0.02) - (k / 81 % 2 ? 2 * M_PI : 0);
		mc::Count cnt;

		for (double sweep : {-6.0, -4.5, -3.2, -1.6, -0.7, -0.2, 0.2, 0.7, 1.6, 3.2, 4.5, 6.0}) {
			for (double f : {0.02, 0.3, 0.9, 0.9999, 1.0001, 1.2, 3.}) {
				for (int ai = 0; ai < 48; ai++) {
					const double th = 2 * M_PI * ai / 48 + 0.005;   // bearing of the vehicle seen from the centre
					double la, lo;
					latlon(travel(laC, loC, th, f * rad), la, lo);
					crosstrack_error_s e{};
					e.distance = 777;
					e.bearing = 777;
					e.past_end = true;
					const int r = get_distance_to_arc(&e, la, lo, laC, loC, float(rad), float(start), float(sweep));
					cnt.tr++;
					cnt.states++;
					cnt.add(std::fabs(f - 1) > 1e-3);
					MC_CHECK(r == 0, "arc-return", "returned %d", r);
					// angular position along the arc, from the start in the direction of the sweep, in [0, 2pi)
					double along = std::fmod((sweep > 0 ? th - start : start - th), 2 * M_PI);

					if (along < 0) { along += 2 * M_PI; }

					const double span = std::fabs(sweep), ang = 1e-5 + rad * (1 + f) / 6371000. * (1 + 2 * std::fabs(std::tan(laC * M_PI / 180)));
					const double margin = 2e-3 + 2 * ang;

					if (std::fabs(along - span) < margin || along < margin || along > 2 * M_PI - margin) { continue; }

					const double tol = rad * (1 + f) * ang + 0.01;
					char desc[200];
					snprintf(desc, sizeof(desc), "centre (%.6g, %.6g) radius %.5g start %.4g sweep %.3g, vehicle at %.4f radii, bearing %.4g from the centre", laC, loC, rad, start, sweep, f, th);

					if (along < span) {
						const double inside = rad - f * rad, want = sweep > 0 ? inside : -inside;   // right of the path is positive
						MC_CHECK(!e.past_end, "arc-past-end", "%s: past_end inside the sector", desc);
						MC_CHECK(std::fabs(e.distance - want) <= tol, "arc-distance", "%s: distance %.6g, expected %.6g", desc, e.distance, want);

						if (std::fabs(inside) > 4 * tol) {
							MC_CHECK(std::fabs(wrap(e.bearing - (inside > 0 ? th : th + M_PI))) <= 3 * ang + 2 * ang / std::min(1., f), "arc-bearing", "%s: bearing to the arc %.6g", desc, e.bearing);
						}

					} else {
						// nearest of the two end points
						const double ds = std::sqrt(1 + f * f - 2 * f * std::cos(th - start)) * rad, de = std::sqrt(1 + f * f - 2 * f * std::cos(th - start - sweep)) * rad;

						if (std::fabs(ds - de) < 2 * tol) { continue; }

						const bool to_end = de < ds;
						MC_CHECK(e.past_end == to_end, "arc-past-end", "%s: outside the sector, past_end=%d, distance to start %.5g, to end %.5g", desc, e.past_end, ds, de);
						MC_CHECK(std::fabs(e.distance - std::min(ds, de)) <= tol, "arc-end-distance", "%s: outside the sector, distance %.6g, to start %.6g, to end %.6g", desc, e.distance, ds, de);
						const double pb = to_end ? start + sweep : start;
						const double bx = std::cos(pb) - f * std::cos(th), by = std::sin(pb) - f * std::sin(th);

						if (std::min(ds, de) > 20 * tol) {
							MC_CHECK(std::fabs(wrap(e.bearing - std::atan2(by, bx))) <= 3 * ang + 3 * tol / std::min(ds, de), "arc-end-bearing", "%s: bearing to the nearest end %.6g, expected %.6g", desc, e.bearing, std::atan2(by, bx));
						}
					}

					MC_CHECK(std::fabs(e.bearing) <= 3.1415928f, "arc-bearing-range", "bearing %.9g", e.bearing);
				}
			}
		}

		crosstrack_error_s e{};
		MC_CHECK(get_distance_to_arc(&e, laC, loC, laC, loC, 0.05f, 0.f, 1.f) == -1, "arc-error", "an arc of 5 cm radius was accepted");

		if (k % 400 == 99) { mc::sample("arc of %.0f m around (%.4f, %.4f), start %.3f, 12 sweeps", rad, laC, loC, start); }
	});
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));

	if (mc::mode("projection")) { projection(); }

	if (mc::mode("geodesic")) { geodesic(); }

	if (mc::mode("track")) { track(); }

	return mc::finish();
}
