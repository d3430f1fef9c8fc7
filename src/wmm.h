// Gauss coefficients of the WMM-2020 main field at 2021.1 (nT, Schmidt semi-normalised), n=1..12, m=0..n: g, then h for m>0.
#pragma once
static const double WMM2020[168] = {
	-29397.2, -1442.2, 4625.1,
	-2512.7, 2974.0, -3025.1, 1674.4, -761.2,
	1367.0, -2387.8, -76.0, 1239.9, 240.7, 512.3, -541.6,
	901.9, 807.6, 282.3, 79.6, -150.8, -303.4, 204.0, 41.8, -356.3,
	-234.7, 363.7, 47.8, 187.0, 211.2, -140.6, -122.3, -149.9, 35.5, 14.8, 99.6,
	65.2, 65.2, -19.0, 73.5, 23.0, -120.0, 51.2, -37.8, -63.4, 13.5, 9.1, -63.8, 69.2,
	80.4, -77.1, -50.8, -8.4, -16.1, 57.3, 1.5, 16.0, 23.2, 5.8, -3.5, -8.1, -26.9, 10.9, -1.6,
	23.5, 9.9, 8.0, -17.6, -14.6, 0.2, 12.6, -21.2, -11.2, 15.8, 14.6, 14.3, 3.0, -16.5, -6.4, 0.2, 2.9,
	4.9, 8.0, -23.6, 2.9, 11.3, -1.0, 9.4, -1.4, -4.6, -13.3, -6.1, 1.4, 7.8, 8.9, 0.2, -9.3, -0.9, -12.3, 9.9,
	-1.9, -6.2, 3.4, -0.1, -0.1, 1.9, 3.2, -1.0, 4.9, 0.4, -8.9, -0.9, -0.0, 1.8, -4.2, 1.2, -3.5, -2.6, 0.1, -3.9, -8.8,
	3.0, -1.5, -0.0, -2.5, 2.7, 2.4, -0.5, -0.9, -0.2, 0.2, 0.6, -0.7, -0.1, -0.1, -1.6, 1.3, -1.6, -0.7, -3.1, 0.1, -2.0, 3.0, -2.6,
	-2.0, -0.1, -1.2, 0.5, 0.5, 1.3, 1.2, -1.2, -1.7, 0.7, 0.1, 0.3, 0.7, 0.5, -0.1, -0.2, 0.7, -0.5, 0.2, 0.1, -0.9, -1.1, -0.0, -0.4, 0.4,
};
