// Geomagnetic lookup tables: interpolation (mode "interp"), world model (mode "model"), domain and units (mode "domain").
#include "mc.h"
#include "wmm.h"
#include <geo_lookup/geo_mag_declination.h>
#include <cmath>
#include <limits>

static const double PI = 3.14159265358979323846;
enum { DEC, INC, STR };
static float value(int q, float lat, float lon)
{
	return q == DEC ? get_mag_declination_radians(lat, lon) : q == INC ? get_mag_inclination_radians(lat, lon) : get_mag_strength_gauss(lat, lon);
}
static const char *qname[3] = {"declination", "inclination", "strength"};
static double wrap(double a) { while (a > PI) { a -= 2 * PI; } while (a < -PI) { a += 2 * PI; } return a; }

// node values, through the public interface
static double node[3][19][37];
static void load_nodes()
{
	for (int q = 0; q < 3; q++) {
		for (int i = 0; i < 19; i++) {
			for (int j = 0; j < 37; j++) { node[q][i][j] = value(q, -90.f + 10.f * i, -180.f + 10.f * j); }
		}
	}
}

// the coordinates explored along one axis: a regular grid, an incommensurable grid, every node and its float neighbours
static std::vector<float> axis(double lo, double hi, double step)
{
	std::vector<float> v;

	for (long k = 0; lo + k * step <= hi + 1e-9; k++) { v.push_back(float(lo + k * step)); }

	for (double x = lo + 0.377; x < hi; x += step * 3.1415926) { v.push_back(float(x)); }

	for (int k = 0; lo + 10 * k <= hi + 1e-9; k++) {
		const float n = float(lo + 10 * k);
		const float up = std::nextafterf(n, 1e9f), dn = std::nextafterf(n, -1e9f);

		if (n < hi) { v.push_back(up); v.push_back(n + 1e-4f); }

		if (n > lo) { v.push_back(dn); v.push_back(n - 1e-4f); }
	}

	for (float t : {1e-40f, -1e-40f, 1e-30f, -1e-30f, -0.f, 1e-7f, -1e-7f}) { v.push_back(t); }

	return v;
}

static void interp()
{
	mc::rule("all pairs of latitudes and longitudes from a regular grid over [-90,90] x [-180,180] (quick 0.5 deg, thorough 0.1 deg), an incommensurable grid, and the float "
		 "neighbours of every node line, for declination, inclination and strength; a case is non-trivial when it is strictly inside a cell.");
	load_nodes();
	const double step = mc::thorough() ? 0.1 : 0.5;
	const std::vector<float> la = axis(-90, 90, step), lo = axis(-180, 180, step);

	mc::for_all("interpolation", la.size(), [&](uint64_t ii) {
		const float lat = la[ii];
		mc::Count cnt;
		int i = int(std::floor((double(lat) + 90) / 10));

		if (i > 17) { i = 17; }

		const double u = (double(lat) + 90) / 10 - i;

		for (const float lon : lo) {
			int j = int(std::floor((double(lon) + 180) / 10));

			if (j > 35) { j = 35; }

			const double v = (double(lon) + 180) / 10 - j;
			cnt.states++;
			cnt.add(u > 0 && u < 1 && v > 0 && v < 1);

			for (int q = 0; q < 3; q++) {
				cnt.tr++;
				const double sw = node[q][i][j], se = node[q][i][j + 1], nw = node[q][i + 1][j], ne = node[q][i + 1][j + 1];
				const double got = value(q, lat, lon);
				const double tol = (q == STR ? 1e-6 : 4e-6) + 3e-6 * (std::fabs(se - sw) + std::fabs(ne - nw) + std::fabs(nw - sw) + std::fabs(ne - se));

				if (q != DEC) {
					const double want = (1 - u) * ((1 - v) * sw + v * se) + u * ((1 - v) * nw + v * ne);
					MC_CHECK(std::fabs(got - want) <= tol, q == INC ? "inclination" : "strength",
						 "%s(%.9g, %.9g) = %.7g, bilinear interpolation of the surrounding nodes gives %.7g", qname[q], lat, lon, got, want);

				} else {
					// angles: along the shorter arc; where the arc between two corners is within 0.02 rad of half a turn either side counts
					bool ambiguous = false, ok = false;
					double want = 0;
					auto lerp = [&](double a, double b, double f, int alt) {
						double d = wrap(b - a);

						if (PI - std::fabs(d) < 0.02) { ambiguous = true; if (alt) { d = d > 0 ? d - 2 * PI : d + 2 * PI; } }

						return a + f * d;
					};

					for (int alt = 0; alt < 8 && !ok; alt++) {
						ambiguous = false;
						want = lerp(lerp(sw, se, v, alt & 1), lerp(nw, ne, v, alt & 2), u, alt & 4);
						ok = std::fabs(wrap(got - want)) <= tol;

						if (!ambiguous) { break; }
					}

					MC_CHECK(ok, "declination", "declination(%.9g, %.9g) = %.7g rad, interpolation of the surrounding nodes (%.4f %.4f %.4f %.4f) along the shorter arc gives %.7g",
						 lat, lon, got, sw, se, nw, ne, wrap(want));
					MC_CHECK(std::fabs(got) <= PI + 1e-5, "declination-range", "declination(%.9g, %.9g) = %.7g rad is outside +-pi", lat, lon, got);
				}
			}
		}

		if (ii == la.size() / 3) { mc::sample("lat %.6f: %zu longitudes from %.6f to %.6f, all 3 quantities", lat, lo.size(), lo.front(), lo.back()); }
	});
}

static void wmm_field(double la, double lo, double B[3])
{
	const int N = 12;
	const double a = 6371.2, A = 6378.137, f = 1 / 298.257223563, e2 = f * (2 - f);

	if (la > 89.9999) { la = 89.9999; }

	if (la < -89.9999) { la = -89.9999; }

	const double p = la * PI / 180, l = lo * PI / 180;
	const double Rc = A / std::sqrt(1 - e2 * std::sin(p) * std::sin(p));
	const double x = Rc * std::cos(p), z = Rc * (1 - e2) * std::sin(p), r = std::hypot(x, z), pc = std::atan2(z, x), th = PI / 2 - pc;
	const double c = std::cos(th), s = std::sin(th);
	double P[N + 1][N + 1] {}, D[N + 1][N + 1] {}, S[N + 1][N + 1] {};
	P[0][0] = 1;
	S[0][0] = 1;

	for (int n = 1; n <= N; n++) {
		for (int m = 0; m <= n; m++) {
			if (n == m) {
				P[n][m] = s * P[n - 1][m - 1];
				D[n][m] = s * D[n - 1][m - 1] + c * P[n - 1][m - 1];

			} else {
				const double K = n == 1 ? 0 : (double(n - 1) * (n - 1) - m * m) / (double(2 * n - 1) * (2 * n - 3));
				const double P2 = n > 1 ? P[n - 2][m] : 0, D2 = n > 1 ? D[n - 2][m] : 0;
				P[n][m] = c * P[n - 1][m] - K * P2;
				D[n][m] = c * D[n - 1][m] - s * P[n - 1][m] - K * D2;
			}
		}

		S[n][0] = S[n - 1][0] * (2 * n - 1) / n;

		for (int m = 1; m <= n; m++) { S[n][m] = S[n][m - 1] * std::sqrt((n - m + 1) * (m == 1 ? 2. : 1.) / (n + m)); }
	}

	double X = 0, Y = 0, Z = 0;
	int k = 0;

	for (int n = 1; n <= N; n++) {
		const double q = std::pow(a / r, n + 2);

		for (int m = 0; m <= n; m++) {
			for (int h = 0; h < (m ? 2 : 1); h++) {
				const double g = WMM2020[k++];
				const double cs = h ? std::sin(m * l) : std::cos(m * l);
				const double dcs = h ? m * std::cos(m * l) : -m * std::sin(m * l);
				X += g * q * D[n][m] * S[n][m] * cs;
				Y += -g * q * dcs * P[n][m] * S[n][m] / s;
				Z += -g * (n + 1) * q * P[n][m] * S[n][m] * cs;
			}
		}
	}

	const double ps = pc - p;
	B[0] = X * std::cos(ps) - Z * std::sin(ps);
	B[1] = Y;
	B[2] = X * std::sin(ps) + Z * std::cos(ps);
}

static void model()
{
	mc::rule("all 19 x 37 grid nodes (10 degree steps, both date-line columns, both poles); the reference is a degree and order 12 spherical harmonic synthesis of the WMM-2020 main field "
		 "on the WGS-84 ellipsoid at 2021.1; every node is non-trivial.");
	mc::assume("the reference coefficients were recovered by least squares from the shipped table (2109 equations, 168 unknowns, residual 5.6 nT): they describe one smooth potential field, "
		   "so any node that departs from the field all other nodes describe is seen; an error common to the whole table is not");
	mc::for_all("nodes", 19 * 37, [&](uint64_t k) {
		const int i = int(k / 37), j = int(k % 37);
		const float lat = -90.f + 10.f * i, lon = -180.f + 10.f * j;
		mc::Count cnt;
		cnt.states++;
		cnt.tr += 3;
		cnt.add();
		const double d = value(DEC, lat, lon), n = value(INC, lat, lon), F = value(STR, lat, lon) * 1e5;
		double B[3];
		wmm_field(lat, lon, B);
		const double X = F * std::cos(n) * std::cos(d), Y = F * std::cos(n) * std::sin(d), Z = F * std::sin(n);
		const double err = std::sqrt((X - B[0]) * (X - B[0]) + (Y - B[1]) * (Y - B[1]) + (Z - B[2]) * (Z - B[2]));
		MC_CHECK(err < 30, "node", "at lat %.0f lon %.0f the tables give the field (%.0f, %.0f, %.0f) nT, the world model (%.0f, %.0f, %.0f) nT", lat, lon, X, Y, Z, B[0], B[1], B[2]);

		// near the poles the declination hardly moves the field vector in cartesian terms only through H: check angle as well where H is usable
		const double H = std::hypot(B[0], B[1]);
		MC_CHECK(std::fabs(wrap(d - std::atan2(B[1], B[0]))) < 12. / H + 2e-4, "node-declination", "declination at lat %.0f lon %.0f is %.5f rad, the world model gives %.5f", lat, lon, d,
			 std::atan2(B[1], B[0]));
		MC_CHECK(std::fabs(n - std::atan2(B[2], H)) < 12. / std::hypot(H, B[2]) + 2e-4, "node-inclination", "inclination at lat %.0f lon %.0f is %.5f rad, the world model gives %.5f", lat, lon, n,
			 std::atan2(B[2], H));
		MC_CHECK(std::fabs(F - std::hypot(H, B[2])) < 20, "node-strength", "strength at lat %.0f lon %.0f is %.0f nT, the world model gives %.0f", lat, lon, F, std::hypot(H, B[2]));

		if (k % 200 == 77) { mc::sample("lat %.0f lon %.0f: table (%.4f rad, %.4f rad, %.0f nT), vector distance to the model %.1f nT", lat, lon, d, n, F, err); }
	});
}

static void domain()
{
	mc::rule("latitudes over [-90,90] and beyond (up to float max and infinity), longitudes over [-540,540]: one full turn added or removed, units compared; "
		 "non-trivial when the longitude is outside [-180,180] or the latitude outside [-90,90].");
	mc::assume("NaN coordinates and longitudes more than one and a half turns from zero are outside the interface");
	const double step = mc::thorough() ? 0.25 : 1.0;
	std::vector<float> la = axis(-90, 90, step), lo = axis(-180, 180, step);
	const size_t nin = la.size();

	for (float x : {90.00001f, 91.f, 95.f, 100.f, 123.4f, 135.f, 180.f, 270.f, 360.f, 1e4f, 1e10f, std::numeric_limits<float>::max(), std::numeric_limits<float>::infinity()}) {
		la.push_back(x);
		la.push_back(-x);
	}

	mc::for_all("domain", la.size(), [&](uint64_t ii) {
		const float lat = la[ii];
		mc::Count cnt;

		for (const float lon : lo) {
			cnt.states++;
			const bool beyond = ii >= nin;

			for (int turn = -1; turn <= 1; turn++) {
				const float l2 = float(double(lon) + 360. * turn);
				cnt.add(beyond || l2 > 180 || l2 < -180);
				const double eq = std::fabs(double(l2) - (double(lon) + 360. * turn)) * 0.2 + 4e-5; // rounding of the longitude itself
				const float dr = get_mag_declination_radians(lat, l2), dd = get_mag_declination_degrees(lat, l2);
				const float ir = get_mag_inclination_radians(lat, l2), id = get_mag_inclination_degrees(lat, l2);
				const float sg = get_mag_strength_gauss(lat, l2), stl = get_mag_strength_tesla(lat, l2);
				cnt.tr += 6;
				MC_CHECK(std::isfinite(dr) && std::isfinite(ir) && std::isfinite(sg), "finite", "lat %.9g lon %.9g: declination %g inclination %g strength %g", lat, l2, dr, ir, sg);
				MC_CHECK(std::fabs(dr) <= PI + 1e-5 && std::fabs(ir) <= PI / 2 + 1e-5 && sg > 0.2f && sg < 0.7f, "range",
					 "lat %.9g lon %.9g: declination %g inclination %g strength %g outside the physical range", lat, l2, dr, ir, sg);
				MC_CHECK(std::fabs(dd - dr * 180 / PI) <= 1e-5 * (1 + std::fabs(dd)), "units-declination", "lat %.9g lon %.9g: %.7g deg and %.7g rad", lat, l2, dd, dr);
				MC_CHECK(std::fabs(id - ir * 180 / PI) <= 1e-5 * (1 + std::fabs(id)), "units-inclination", "lat %.9g lon %.9g: %.7g deg and %.7g rad", lat, l2, id, ir);
				MC_CHECK(std::fabs(stl - sg * 1e-4) <= 1e-6 * sg * 1e-4 + 1e-12, "units-strength", "lat %.9g lon %.9g: %.7g T and %.7g G", lat, l2, stl, sg);

				if (turn != 0) {
					const float d0 = get_mag_declination_radians(lat, lon), i0 = get_mag_inclination_radians(lat, lon), s0 = get_mag_strength_gauss(lat, lon);
					// inside the cells with a magnetic pole the declination is steep: allow the rounding of the longitude to act on it
					const double steep = std::fabs(double(lat)) > 50 ? 40 : 1;
					MC_CHECK(std::fabs(wrap(double(dr) - d0)) <= eq * steep && std::fabs(ir - i0) <= eq && std::fabs(sg - s0) <= eq, "period",
						 "lat %.9g: lon %.9g gives (%g, %g, %g) but lon %.9g gives (%g, %g, %g)", lat, lon, d0, i0, s0, l2, dr, ir, sg);
				}

				if (beyond) {
					const float edge = lat > 0 ? 90.f : -90.f;
					MC_CHECK(std::fabs(wrap(double(dr) - get_mag_declination_radians(edge, l2))) < 1e-6 && ir == get_mag_inclination_radians(edge, l2)
						 && sg == get_mag_strength_gauss(edge, l2), "clamp", "lat %.9g lon %.9g differs from the value at the pole", lat, l2);
				}
			}

			// date line: both sides agree
			if (lon == 180.f) {
				MC_CHECK(std::fabs(wrap(double(get_mag_declination_radians(lat, 180.f)) - get_mag_declination_radians(lat, -180.f))) < 2.1e-4
					 && std::fabs(get_mag_inclination_radians(lat, 180.f) - get_mag_inclination_radians(lat, -180.f)) < 2.1e-4
					 && std::fabs(get_mag_strength_gauss(lat, 180.f) - get_mag_strength_gauss(lat, -180.f)) < 2.1e-4, "date-line", "lat %.9g: the two sides of the date line differ", lat);
			}
		}

		if (ii % 100 == 50) { mc::sample("lat %.6g with %zu longitudes in three turns", lat, lo.size()); }
	});
}

int main(int argc, char **argv)
{
	mc::init(argc, argv, getenv("MC_PROPERTY"));

	if (mc::mode("interp")) { model(); interp(); } // exact at the nodes: the nodes themselves have to be right

	if (mc::mode("model")) { model(); }

	if (mc::mode("domain")) { domain(); }

	return mc::finish();
}
