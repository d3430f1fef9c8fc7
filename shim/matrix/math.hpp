// A self-contained stand-in for the PX4/Matrix header library (not available offline),
// covering the API used by PX4/ecl with the same semantics. It is test infrastructure of /verif
// and no part of PX4/ecl: the code under test is compiled unchanged against it.
#pragma once

#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cfloat>
#include <initializer_list>
#include <limits>
#include <type_traits>

#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

namespace matrix
{

template<typename Type, size_t M, size_t N> class Matrix;
template<typename Type, size_t M> class Vector;
template<typename Type> class Vector2;
template<typename Type> class Vector3;
template<typename Type, size_t M> class SquareMatrix;
template<typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice;
template<typename Type, size_t P, size_t Q, size_t M, size_t N> class ConstSlice;
template<typename Type> class Quaternion;
template<typename Type> class Dcm;
template<typename Type> class Euler;
template<typename Type> class AxisAngle;

// ---- helpers -------------------------------------------------------------------------------

template<typename Type> bool is_finite(Type x) { return std::isfinite(x); }

template<typename Type>
bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f))
{
	return (std::fabs(x - y) <= eps)
	       || (std::isnan(x) && std::isnan(y))
	       || (std::isinf(x) && std::isinf(y) && std::isnan(x - y));
}

namespace detail
{
template<typename Floating>
Floating wrap_floating(Floating x, Floating low, Floating high)
{
	if (low <= x && x < high) { return x; }

	const Floating range = high - low;
	const Floating inv_range = Floating(1) / range;
	const Floating num_wraps = std::floor((x - low) * inv_range);
	return x - range * num_wraps;
}
}

inline float wrap(float x, float low, float high) { return detail::wrap_floating(x, low, high); }
inline double wrap(double x, double low, double high) { return detail::wrap_floating(x, low, high); }

template<typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template<typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(2 * M_PI)); }

template<typename T> int sign(T val) { return (T(FLT_EPSILON) < val) - (val < T(FLT_EPSILON)); }

// ---- Matrix ---------------------------------------------------------------------------------

template<typename Type, size_t M, size_t N>
class Matrix
{
	Type _data[M][N] {};

public:
	Matrix() = default;
	explicit Matrix(const Type data_[M * N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[N * i + j]; } }
	}
	explicit Matrix(const Type data_[M][N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[i][j]; } }
	}
	Matrix(const Matrix &) = default;
	Matrix &operator=(const Matrix &) = default;

	template<size_t P, size_t Q> Matrix(const Slice<Type, M, N, P, Q> &s)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = s(i, j); } }
	}
	template<size_t P, size_t Q> Matrix(const ConstSlice<Type, M, N, P, Q> &s)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = s(i, j); } }
	}

	inline const Type &operator()(size_t i, size_t j) const { return _data[i][j]; }
	inline Type &operator()(size_t i, size_t j) { return _data[i][j]; }

	template<size_t MM, size_t NN>
	Matrix<Type, M, NN> operator*(const Matrix<Type, MM, NN> &other) const
	{
		static_assert(MM == N, "inner dimension");
		Matrix<Type, M, NN> res;

		for (size_t i = 0; i < M; i++) {
			for (size_t k = 0; k < NN; k++) {
				for (size_t j = 0; j < N; j++) { res(i, k) += _data[i][j] * other(j, k); }
			}
		}

		return res;
	}

	Matrix emult(const Matrix &o) const
	{
		Matrix r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] * o(i, j); } }

		return r;
	}
	Matrix edivide(const Matrix &o) const
	{
		Matrix r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] / o(i, j); } }

		return r;
	}
	Matrix operator+(const Matrix &o) const { Matrix r = *this; r += o; return r; }
	Matrix operator-(const Matrix &o) const { Matrix r = *this; r -= o; return r; }
	Matrix operator-() const
	{
		Matrix r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = -_data[i][j]; } }

		return r;
	}
	void operator+=(const Matrix &o)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += o(i, j); } }
	}
	void operator-=(const Matrix &o)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] -= o(i, j); } }
	}
	template<size_t NN> void operator*=(const Matrix<Type, N, NN> &o) { static_assert(NN == N, ""); *this = *this * o; }

	Matrix operator*(Type s) const { Matrix r = *this; r *= s; return r; }
	Matrix operator/(Type s) const { return (*this) * (Type(1) / s); }
	Matrix operator+(Type s) const { Matrix r = *this; r += s; return r; }
	Matrix operator-(Type s) const { return (*this) + (-s); }
	void operator*=(Type s) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] *= s; } } }
	void operator/=(Type s) { *this = (*this) * (Type(1) / s); }
	void operator+=(Type s) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += s; } } }
	void operator-=(Type s) { *this += (-s); }

	bool operator==(const Matrix &o) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!isEqualF(_data[i][j], o(i, j))) { return false; } } }

		return true;
	}
	bool operator!=(const Matrix &o) const { return !(*this == o); }

	void copyTo(Type dst[M * N]) const { std::memcpy(dst, _data, sizeof(_data)); }
	void copyToColumnMajor(Type dst[M * N]) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { dst[i + j * M] = _data[i][j]; } }
	}
	const Type *data() const { return &_data[0][0]; }
	Type *data() { return &_data[0][0]; }

	void print() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { std::printf("%g ", double(_data[i][j])); } std::printf("\n"); }
	}

	Matrix<Type, N, M> transpose() const
	{
		Matrix<Type, N, M> r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(j, i) = _data[i][j]; } }

		return r;
	}
	Matrix<Type, N, M> T() const { return transpose(); }

	template<size_t P, size_t Q> ConstSlice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const
	{
		return ConstSlice<Type, P, Q, M, N>(x0, y0, this);
	}
	template<size_t P, size_t Q> Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0)
	{
		return Slice<Type, P, Q, M, N>(x0, y0, this);
	}
	ConstSlice<Type, 1, N, M, N> row(size_t i) const { return ConstSlice<Type, 1, N, M, N>(i, 0, this); }
	Slice<Type, 1, N, M, N> row(size_t i) { return Slice<Type, 1, N, M, N>(i, 0, this); }
	ConstSlice<Type, M, 1, M, N> col(size_t j) const { return ConstSlice<Type, M, 1, M, N>(0, j, this); }
	Slice<Type, M, 1, M, N> col(size_t j) { return Slice<Type, M, 1, M, N>(0, j, this); }

	void setRow(size_t i, const Matrix<Type, N, 1> &r) { for (size_t j = 0; j < N; j++) { _data[i][j] = r(j, 0); } }
	void setRow(size_t i, Type v) { for (size_t j = 0; j < N; j++) { _data[i][j] = v; } }
	void setCol(size_t j, const Matrix<Type, M, 1> &c) { for (size_t i = 0; i < M; i++) { _data[i][j] = c(i, 0); } }
	void setCol(size_t j, Type v) { for (size_t i = 0; i < M; i++) { _data[i][j] = v; } }

	void setZero() { std::memset(_data, 0, sizeof(_data)); }
	void zero() { setZero(); }
	void setAll(Type v) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = v; } } }
	void setOne() { setAll(1); }
	void setNaN() { setAll(std::numeric_limits<Type>::quiet_NaN()); }
	void setIdentity()
	{
		setZero();

		for (size_t i = 0; i < M && i < N; i++) { _data[i][i] = 1; }
	}
	void identity() { setIdentity(); }
	void swapRows(size_t a, size_t b)
	{
		for (size_t j = 0; j < N; j++) { Type t = _data[a][j]; _data[a][j] = _data[b][j]; _data[b][j] = t; }
	}
	void swapCols(size_t a, size_t b)
	{
		for (size_t i = 0; i < M; i++) { Type t = _data[i][a]; _data[i][a] = _data[i][b]; _data[i][b] = t; }
	}

	Matrix abs() const
	{
		Matrix r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = Type(std::fabs(_data[i][j])); } }

		return r;
	}
	Type max() const
	{
		Type v = _data[0][0];

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (_data[i][j] > v) { v = _data[i][j]; } } }

		return v;
	}
	Type min() const
	{
		Type v = _data[0][0];

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (_data[i][j] < v) { v = _data[i][j]; } } }

		return v;
	}
	bool isAllNan() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!std::isnan(_data[i][j])) { return false; } } }

		return true;
	}
	bool isAllFinite() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!std::isfinite(_data[i][j])) { return false; } } }

		return true;
	}
};

template<typename Type, size_t M, size_t N> Matrix<Type, M, N> zeros() { Matrix<Type, M, N> m; m.setZero(); return m; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> ones() { Matrix<Type, M, N> m; m.setOne(); return m; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> nans() { Matrix<Type, M, N> m; m.setNaN(); return m; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> operator*(Type s, const Matrix<Type, M, N> &o) { return o * s; }

template<typename Type, size_t M, size_t N>
bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!isEqualF(x(i, j), y(i, j), eps)) { return false; } } }

	return true;
}

// element-wise helpers (comparison written so that NaN limits and values are handled as in PX4/Matrix)
template<typename Type> Type min(const Type x, const Type y)
{
	const bool xn = std::isnan(x), yn = std::isnan(y);

	if (xn || yn) { return xn ? y : x; }

	return (x < y) ? x : y;
}
template<typename Type> Type max(const Type x, const Type y)
{
	const bool xn = std::isnan(x), yn = std::isnan(y);

	if (xn || yn) { return xn ? y : x; }

	return (x > y) ? x : y;
}
template<typename Type> Type constrain(const Type x, const Type lo, const Type hi)
{
	if (lo > hi) { return std::numeric_limits<Type>::quiet_NaN(); }

	if (std::isnan(x)) { return std::numeric_limits<Type>::quiet_NaN(); }

	return matrix::max(lo, matrix::min(hi, x));
}
#define ECLV_ELEMENTWISE(NAME) \
template<typename Type, size_t M, size_t N> \
Matrix<Type, M, N> NAME(const Matrix<Type, M, N> &x, const typename std::common_type<Type>::type s) \
{ \
	Matrix<Type, M, N> r; \
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = matrix::NAME(x(i, j), s); } } \
	return r; \
} \
template<typename Type, size_t M, size_t N> \
Matrix<Type, M, N> NAME(const typename std::common_type<Type>::type s, const Matrix<Type, M, N> &x) { return matrix::NAME(x, s); } \
template<typename Type, size_t M, size_t N> \
Matrix<Type, M, N> NAME(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y) \
{ \
	Matrix<Type, M, N> r; \
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = matrix::NAME(x(i, j), y(i, j)); } } \
	return r; \
}
ECLV_ELEMENTWISE(min)
ECLV_ELEMENTWISE(max)
#undef ECLV_ELEMENTWISE
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const typename std::common_type<Type>::type lo,
			     const typename std::common_type<Type>::type hi)
{
	Matrix<Type, M, N> r;

	if (lo > hi) { r.setNaN(); return r; }

	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = matrix::constrain(x(i, j), lo, hi); } }

	return r;
}

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &lo, const Matrix<Type, M, N> &hi)
{
	Matrix<Type, M, N> r;

	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = matrix::constrain(x(i, j), lo(i, j), hi(i, j)); } }

	return r;
}

// ---- Slice ----------------------------------------------------------------------------------

template<typename Derived, typename Type, size_t P, size_t Q>
class SliceOps
{
	const Derived &self() const { return *static_cast<const Derived *>(this); }
public:
	Matrix<Type, P, Q> eval() const
	{
		Matrix<Type, P, Q> m;

		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { m(i, j) = self()(i, j); } }

		return m;
	}
	Vector < Type, (P < Q) ? P : Q > diag() const
	{
		Vector < Type, (P < Q) ? P : Q > v;

		for (size_t i = 0; i < ((P < Q) ? P : Q); i++) { v(i) = self()(i, i); }

		return v;
	}
	const Type &operator()(size_t i) const
	{
		static_assert(P == 1 || Q == 1, "vector slice");
		return (Q == 1) ? self()(i, 0) : self()(0, i);
	}
	Matrix<Type, P, Q> operator+(const Matrix<Type, P, Q> &o) const { return eval() + o; }
	Matrix<Type, P, Q> operator-(const Matrix<Type, P, Q> &o) const { return eval() - o; }
	Matrix<Type, P, Q> operator-() const { return -eval(); }
	Matrix<Type, P, Q> operator*(Type s) const { return eval() * s; }
	Matrix<Type, P, Q> operator/(Type s) const { return eval() / s; }
	Matrix<Type, P, Q> operator+(Type s) const { return eval() + s; }
	Matrix<Type, P, Q> operator-(Type s) const { return eval() - s; }
	template<size_t R> Matrix<Type, P, R> operator*(const Matrix<Type, Q, R> &o) const { return eval() * o; }
	Matrix<Type, Q, P> transpose() const { return eval().transpose(); }
	void copyTo(Type dst[P * Q]) const { eval().copyTo(dst); }
	Type norm_squared() const
	{
		Type s = 0;

		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { s += self()(i, j) * self()(i, j); } }

		return s;
	}
	Type norm() const { return Type(std::sqrt(norm_squared())); }
	Type length() const { return norm(); }
	bool longerThan(Type v) const { return norm_squared() > v * v; }
	Type max() const { return eval().max(); }
	Type min() const { return eval().min(); }
	Matrix<Type, P, Q> abs() const { return eval().abs(); }
	bool isAllFinite() const { return eval().isAllFinite(); }
	template<size_t MM> Type dot(const Matrix<Type, MM, 1> &b) const
	{
		static_assert((P == 1 && Q == MM) || (Q == 1 && P == MM), "dimension");
		Type s = 0;

		for (size_t i = 0; i < MM; i++) { s += (*this)(i) * b(i, 0); }

		return s;
	}
	template<typename D2, size_t P2, size_t Q2> Type dot(const SliceOps<D2, Type, P2, Q2> &b) const
	{
		static_assert(P * Q == P2 * Q2, "dimension");
		Type s = 0;

		for (size_t i = 0; i < P * Q; i++) { s += (*this)(i) * b(i); }

		return s;
	}
};

template<typename Type, size_t P, size_t Q, size_t M, size_t N>
class ConstSlice : public SliceOps<ConstSlice<Type, P, Q, M, N>, Type, P, Q>
{
	size_t _x0, _y0;
	const Matrix<Type, M, N> *_m;
public:
	ConstSlice(size_t x0, size_t y0, const Matrix<Type, M, N> *m) : _x0(x0), _y0(y0), _m(m) {}
	using SliceOps<ConstSlice<Type, P, Q, M, N>, Type, P, Q>::operator();
	const Type &operator()(size_t i, size_t j) const { return (*_m)(_x0 + i, _y0 + j); }
	template<size_t R, size_t S> ConstSlice<Type, R, S, M, N> slice(size_t x0, size_t y0) const
	{
		return ConstSlice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _m);
	}
};

template<typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice : public SliceOps<Slice<Type, P, Q, M, N>, Type, P, Q>
{
	size_t _x0, _y0;
	Matrix<Type, M, N> *_m;
public:
	Slice(size_t x0, size_t y0, Matrix<Type, M, N> *m) : _x0(x0), _y0(y0), _m(m) {}
	Slice(const Slice &) = default;
	const Type &operator()(size_t i, size_t j) const { return (*_m)(_x0 + i, _y0 + j); }
	Type &operator()(size_t i, size_t j) { return (*_m)(_x0 + i, _y0 + j); }
	const Type &operator()(size_t i) const { return (Q == 1) ? (*this)(i, 0) : (*this)(0, i); }
	Type &operator()(size_t i) { return (Q == 1) ? (*this)(i, 0) : (*this)(0, i); }
	template<size_t R, size_t S> Slice<Type, R, S, M, N> slice(size_t x0, size_t y0)
	{
		return Slice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _m);
	}
	template<size_t R, size_t S> ConstSlice<Type, R, S, M, N> slice(size_t x0, size_t y0) const
	{
		return ConstSlice<Type, R, S, M, N>(x0 + _x0, y0 + _y0, _m);
	}

	Slice &operator=(const Matrix<Type, P, Q> &o)
	{
		const Matrix<Type, P, Q> c = o;

		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = c(i, j); } }

		return *this;
	}
	Slice &operator=(const Slice &o) { return *this = o.eval(); }
	template<size_t MM, size_t NN> Slice &operator=(const Slice<Type, P, Q, MM, NN> &o) { return *this = o.eval(); }
	template<size_t MM, size_t NN> Slice &operator=(const ConstSlice<Type, P, Q, MM, NN> &o) { return *this = o.eval(); }
	Slice &operator=(const Type &v)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = v; } }

		return *this;
	}
	// column vector assigned to a row slice
	template<size_t MM> Slice &operator=(const Vector<Type, MM> &v)
	{
		static_assert((P == MM && Q == 1) || (P == 1 && Q == MM), "dimension");

		for (size_t i = 0; i < MM; i++) { (*this)(i) = v(i); }

		return *this;
	}
	Slice &operator+=(const Matrix<Type, P, Q> &o) { return *this = this->eval() + o; }
	Slice &operator-=(const Matrix<Type, P, Q> &o) { return *this = this->eval() - o; }
	Slice &operator*=(const Type &s) { return *this = this->eval() * s; }
	Slice &operator/=(const Type &s) { return *this = this->eval() / s; }
	Slice &operator+=(const Type &s) { return *this = this->eval() + s; }
	Slice &operator-=(const Type &s) { return *this = this->eval() - s; }
	void setZero() { *this = Type(0); }
	void setAll(Type v) { *this = v; }
};

template<typename Type, size_t P, size_t Q, size_t M, size_t N>
Matrix<Type, P, Q> operator*(const typename std::common_type<Type>::type s, const Slice<Type, P, Q, M, N> &o) { return o.eval() * s; }
template<typename Type, size_t P, size_t Q, size_t M, size_t N>
Matrix<Type, P, Q> operator*(const typename std::common_type<Type>::type s, const ConstSlice<Type, P, Q, M, N> &o) { return o.eval() * s; }

// ---- SquareMatrix ---------------------------------------------------------------------------

template<typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	SquareMatrix() = default;
	explicit SquareMatrix(const Type d[M][M]) : Matrix<Type, M, M>(d) {}
	explicit SquareMatrix(const Type d[M * M]) : Matrix<Type, M, M>(d) {}
	SquareMatrix(const Matrix<Type, M, M> &o) : Matrix<Type, M, M>(o) {}
	template<size_t P, size_t Q> SquareMatrix(const Slice<Type, M, M, P, Q> &s) : Matrix<Type, M, M>(s) {}
	template<size_t P, size_t Q> SquareMatrix(const ConstSlice<Type, M, M, P, Q> &s) : Matrix<Type, M, M>(s) {}
	SquareMatrix(const SquareMatrix &) = default;
	SquareMatrix &operator=(const SquareMatrix &) = default;
	SquareMatrix &operator=(const Matrix<Type, M, M> &o) { Matrix<Type, M, M>::operator=(o); return *this; }
	template<size_t P, size_t Q> SquareMatrix &operator=(const Slice<Type, M, M, P, Q> &o) { Matrix<Type, M, M>::operator=(Matrix<Type, M, M>(o)); return *this; }

	Vector<Type, M> diag() const
	{
		Vector<Type, M> r;

		for (size_t i = 0; i < M; i++) { r(i) = (*this)(i, i); }

		return r;
	}
	Vector < Type, M *(M + 1) / 2 > upper_right_triangle() const
	{
		Vector < Type, M *(M + 1) / 2 > r;
		size_t idx = 0;

		for (size_t x = 0; x < M; x++) { for (size_t y = x; y < M; y++) { r(idx++) = (*this)(x, y); } }

		return r;
	}
	Type trace() const { Type s = 0; for (size_t i = 0; i < M; i++) { s += (*this)(i, i); } return s; }
	template<size_t Width> Type trace(size_t first) const { Type s = 0; for (size_t i = 0; i < Width; i++) { s += (*this)(first + i, first + i); } return s; }

	template<size_t Width> void uncorrelateCovariance(size_t first)
	{
		Vector<Type, Width> d;

		for (size_t i = 0; i < Width; i++) { d(i) = (*this)(first + i, first + i); }

		uncorrelateCovarianceSetVariance<Width>(first, d);
	}
	template<size_t Width> void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		for (size_t k = first; k < first + Width; k++) {
			for (size_t i = 0; i < M; i++) { (*this)(k, i) = Type(0); (*this)(i, k) = Type(0); }
		}

		for (size_t i = 0; i < Width; i++) { (*this)(first + i, first + i) = vec(i); }
	}
	template<size_t Width> void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		Vector<Type, Width> v;
		v.setAll(val);
		uncorrelateCovarianceSetVariance<Width>(first, v);
	}
	template<size_t Width> void makeBlockSymmetric(size_t first)
	{
		for (size_t r = first; r < first + Width; r++) {
			for (size_t c = first; c < r; c++) {
				const Type t = ((*this)(r, c) + (*this)(c, r)) / Type(2);
				(*this)(r, c) = t;
				(*this)(c, r) = t;
			}
		}
	}
	template<size_t Width> void makeRowColSymmetric(size_t first)
	{
		makeBlockSymmetric<Width>(first);

		for (size_t r = first; r < first + Width; r++) {
			for (size_t c = 0; c < M; c++) {
				if (c >= first && c < first + Width) { continue; }

				const Type t = ((*this)(r, c) + (*this)(c, r)) / Type(2);
				(*this)(r, c) = t;
				(*this)(c, r) = t;
			}
		}
	}
	template<size_t Width> bool isBlockSymmetric(size_t first, const Type eps = Type(1e-8f)) const
	{
		for (size_t r = first; r < first + Width; r++) { for (size_t c = first; c < r; c++) { if (!isEqualF((*this)(r, c), (*this)(c, r), eps)) { return false; } } }

		return true;
	}
	template<size_t Width> bool isRowColSymmetric(size_t first, const Type eps = Type(1e-8f)) const
	{
		for (size_t r = first; r < first + Width; r++) { for (size_t c = 0; c < M; c++) { if (!isEqualF((*this)(r, c), (*this)(c, r), eps)) { return false; } } }

		return true;
	}
	bool I(SquareMatrix &out) const // Gauss-Jordan with partial pivoting
	{
		SquareMatrix a = *this;
		out.setIdentity();

		for (size_t c = 0; c < M; c++) {
			size_t p = c;

			for (size_t r = c + 1; r < M; r++) { if (std::fabs(a(r, c)) > std::fabs(a(p, c))) { p = r; } }

			if (!(std::fabs(a(p, c)) > Type(0)) || !std::isfinite(a(p, c))) { return false; }

			a.swapRows(p, c);
			out.swapRows(p, c);
			const Type inv = Type(1) / a(c, c);

			for (size_t j = 0; j < M; j++) { a(c, j) *= inv; out(c, j) *= inv; }

			for (size_t r = 0; r < M; r++) {
				if (r == c) { continue; }

				const Type f = a(r, c);

				for (size_t j = 0; j < M; j++) { a(r, j) -= f * a(c, j); out(r, j) -= f * out(c, j); }
			}
		}

		return out.isAllFinite();
	}
	SquareMatrix I() const { SquareMatrix r; if (!I(r)) { r.setZero(); } return r; }
};
typedef SquareMatrix<float, 3> SquareMatrix3f;
typedef SquareMatrix<float, 3> Matrix3f;
typedef SquareMatrix<double, 3> Matrix3d;

template<typename Type, size_t M> SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template<typename Type, size_t M> SquareMatrix<Type, M> inv(const SquareMatrix<Type, M> &A) { return A.I(); }
template<typename Type, size_t M> SquareMatrix<Type, M> diag(const Vector<Type, M> &d)
{
	SquareMatrix<Type, M> m;

	for (size_t i = 0; i < M; i++) { m(i, i) = d(i); }

	return m;
}

// ---- Vector ---------------------------------------------------------------------------------

template<typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
	typedef Matrix<Type, M, 1> MatrixM1;
public:
	Vector() = default;
	Vector(const MatrixM1 &o) : MatrixM1(o) {}
	Vector(const Vector &) = default;
	Vector &operator=(const Vector &) = default;
	Vector &operator=(const MatrixM1 &o) { MatrixM1::operator=(o); return *this; }
	explicit Vector(const Type d[M]) : MatrixM1(d) {}
	template<size_t P, size_t Q> Vector(const Slice<Type, M, 1, P, Q> &s) : MatrixM1(s) {}
	template<size_t P, size_t Q> Vector(const ConstSlice<Type, M, 1, P, Q> &s) : MatrixM1(s) {}
	template < size_t P, size_t Q, size_t DM = M, typename std::enable_if < DM != 1, int >::type = 0 >
	Vector(const Slice<Type, 1, M, P, Q> &s) { for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); } }
	template < size_t P, size_t Q, size_t DM = M, typename std::enable_if < DM != 1, int >::type = 0 >
	Vector(const ConstSlice<Type, 1, M, P, Q> &s) { for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); } }

	using MatrixM1::operator();
	inline const Type &operator()(size_t i) const { return MatrixM1::operator()(i, 0); }
	inline Type &operator()(size_t i) { return MatrixM1::operator()(i, 0); }

	Type dot(const MatrixM1 &b) const { Type s = 0; for (size_t i = 0; i < M; i++) { s += (*this)(i) * b(i, 0); } return s; }
	using MatrixM1::operator*;
	Type operator*(const MatrixM1 &b) const { return dot(b); }
	Vector operator*(Type s) const { return Vector(MatrixM1::operator*(s)); }

	Type norm() const { return Type(std::sqrt(dot(*this))); }
	Type norm_squared() const { return dot(*this); }
	Type length() const { return norm(); }
	void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5f)) const { const Type n = norm(); return n > eps ? Vector((*this) / n) : Vector(); }
	Vector normalized() const { return unit(); }
	bool longerThan(Type v) const { return norm_squared() > v * v; }
	Vector sqrt() const { Vector r; for (size_t i = 0; i < M; i++) { r(i) = std::sqrt((*this)(i)); } return r; }
	Vector abs() const { return Vector(MatrixM1::abs()); }
	Vector emult(const MatrixM1 &o) const { return Vector(MatrixM1::emult(o)); }
	Vector edivide(const MatrixM1 &o) const { return Vector(MatrixM1::edivide(o)); }
};
typedef Vector<float, 4> Vector4f;

template<typename Type, size_t M>
Vector<Type, M> operator*(const typename std::common_type<Type>::type s, const Vector<Type, M> &v) { return v * s; }

template<typename Type>
class Vector2 : public Vector<Type, 2>
{
public:
	typedef Matrix<Type, 2, 1> Matrix21;
	Vector2() = default;
	Vector2(const Matrix21 &o) : Vector<Type, 2>(o) {}
	explicit Vector2(const Type d[2]) : Vector<Type, 2>(d) {}
	Vector2(Type x, Type y) { (*this)(0) = x; (*this)(1) = y; }
	template<size_t P, size_t Q> Vector2(const Slice<Type, 2, 1, P, Q> &s) : Vector<Type, 2>(s) {}
	template<size_t P, size_t Q> Vector2(const ConstSlice<Type, 2, 1, P, Q> &s) : Vector<Type, 2>(s) {}
	template<size_t P, size_t Q> Vector2(const Slice<Type, 1, 2, P, Q> &s) : Vector<Type, 2>(s) {}
	template<size_t P, size_t Q> Vector2(const ConstSlice<Type, 1, 2, P, Q> &s) : Vector<Type, 2>(s) {}
	explicit Vector2(const Vector3<Type> &o) { (*this)(0) = o(0); (*this)(1) = o(1); }
	Type cross(const Matrix21 &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const Matrix21 &b) const { return cross(b); }
};
typedef Vector2<float> Vector2f;
typedef Vector2<double> Vector2d;

template<typename Type>
class Vector3 : public Vector<Type, 3>
{
public:
	typedef Matrix<Type, 3, 1> Matrix31;
	Vector3() = default;
	Vector3(const Matrix31 &o) : Vector<Type, 3>(o) {}
	explicit Vector3(const Type d[3]) : Vector<Type, 3>(d) {}
	Vector3(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	template<size_t P, size_t Q> Vector3(const Slice<Type, 3, 1, P, Q> &s) : Vector<Type, 3>(s) {}
	template<size_t P, size_t Q> Vector3(const ConstSlice<Type, 3, 1, P, Q> &s) : Vector<Type, 3>(s) {}
	template<size_t P, size_t Q> Vector3(const Slice<Type, 1, 3, P, Q> &s) : Vector<Type, 3>(s) {}
	template<size_t P, size_t Q> Vector3(const ConstSlice<Type, 1, 3, P, Q> &s) : Vector<Type, 3>(s) {}

	Vector3 cross(const Matrix31 &b) const
	{
		const Vector3 &a = *this;
		return Vector3(a(1) * b(2, 0) - a(2) * b(1, 0), -a(0) * b(2, 0) + a(2) * b(0, 0), a(0) * b(1, 0) - a(1) * b(0, 0));
	}
	Vector3 operator%(const Matrix31 &b) const { return cross(b); }
	using Vector<Type, 3>::operator*;
	Vector3 operator*(Type s) const { return Vector3(Matrix31::operator*(s)); }
	Type operator*(const Matrix31 &b) const { return this->dot(b); }
	Vector3 operator+(const Matrix31 &o) const { return Vector3(Matrix31::operator+(o)); }
	Vector3 operator-(const Matrix31 &o) const { return Vector3(Matrix31::operator-(o)); }
	using Matrix31::operator+;
	using Matrix31::operator-;
	Vector3 operator-() const { return Vector3(Matrix31::operator-()); }
	Vector3 unit() const { return Vector3(Vector<Type, 3>::unit()); }
	Vector3 normalized() const { return unit(); }
	Vector3 emult(const Matrix31 &o) const { return Vector3(Matrix31::emult(o)); }
	Vector3 edivide(const Matrix31 &o) const { return Vector3(Matrix31::edivide(o)); }
	Slice<Type, 2, 1, 3, 1> xy() { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	ConstSlice<Type, 2, 1, 3, 1> xy() const { return ConstSlice<Type, 2, 1, 3, 1>(0, 0, this); }
	Dcm<Type> hat() const;
};
typedef Vector3<float> Vector3f;
typedef Vector3<double> Vector3d;

// ---- SparseVector ---------------------------------------------------------------------------

template<typename Type, size_t M, size_t... Idxs>
class SparseVector
{
	static constexpr size_t N = sizeof...(Idxs);
	static constexpr size_t _indices[sizeof...(Idxs)] = {Idxs...};
	Type _data[N] {};

	static constexpr int find(size_t i)
	{
		return findFrom(i, 0);
	}
	static constexpr int findFrom(size_t i, size_t k)
	{
		return k >= N ? -1 : (_indices[k] == i ? int(k) : findFrom(i, k + 1));
	}
public:
	SparseVector() = default;
	explicit SparseVector(const Type d[N]) { std::memcpy(_data, d, sizeof(_data)); }
	explicit SparseVector(const Vector<Type, M> &v) { for (size_t i = 0; i < N; i++) { _data[i] = v(_indices[i]); } }

	static constexpr size_t non_zeros() { return N; }
	static constexpr size_t index(size_t i) { return _indices[i]; }
	Type atCompressedIndex(size_t i) const { return _data[i]; }
	Type &atCompressedIndex(size_t i) { return _data[i]; }
	template<size_t i> Type at() const { static_assert(find(i) >= 0, "index"); return _data[find(i)]; }
	template<size_t i> Type &at() { static_assert(find(i) >= 0, "index"); return _data[find(i)]; }
	void setZero() { for (size_t i = 0; i < N; i++) { _data[i] = Type(0); } }
	Type dot(const Vector<Type, M> &o) const { Type s = 0; for (size_t i = 0; i < N; i++) { s += _data[i] * o(_indices[i]); } return s; }
	Type norm_squared() const { Type s = 0; for (size_t i = 0; i < N; i++) { s += _data[i] * _data[i]; } return s; }
	Type norm() const { return std::sqrt(norm_squared()); }
	bool longerThan(Type v) const { return norm_squared() > v * v; }
};
template<typename Type, size_t M, size_t... Idxs>
constexpr size_t SparseVector<Type, M, Idxs...>::_indices[sizeof...(Idxs)];
template<size_t M, size_t... Idxs> using SparseVectorf = SparseVector<float, M, Idxs...>;

// ---- Dcm / Euler / Quaternion / AxisAngle ----------------------------------------------------

template<typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	typedef Matrix<Type, 3, 1> Vector31;
	Dcm() { this->setIdentity(); }
	explicit Dcm(const Type d[3][3]) : SquareMatrix<Type, 3>(d) {}
	explicit Dcm(const Type d[9]) : SquareMatrix<Type, 3>(d) {}
	Dcm(const Matrix<Type, 3, 3> &o) : SquareMatrix<Type, 3>(o) {}
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &r = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		const Type aa = a * a, ab = a * b, ac = a * c, ad = a * d, bb = b * b, bc = b * c, bd = b * d, cc = c * c, cd = c * d, dd = d * d;
		r(0, 0) = aa + bb - cc - dd;
		r(0, 1) = Type(2) * (bc - ad);
		r(0, 2) = Type(2) * (ac + bd);
		r(1, 0) = Type(2) * (bc + ad);
		r(1, 1) = aa - bb + cc - dd;
		r(1, 2) = Type(2) * (cd - ab);
		r(2, 0) = Type(2) * (bd - ac);
		r(2, 1) = Type(2) * (ab + cd);
		r(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &e)
	{
		Dcm &r = *this;
		const Type cp = std::cos(e.phi()), sp = std::sin(e.phi());
		const Type ct = std::cos(e.theta()), st = std::sin(e.theta());
		const Type cy = std::cos(e.psi()), sy = std::sin(e.psi());
		r(0, 0) = ct * cy;
		r(0, 1) = -cp * sy + sp * st * cy;
		r(0, 2) = sp * sy + cp * st * cy;
		r(1, 0) = ct * sy;
		r(1, 1) = cp * cy + sp * st * sy;
		r(1, 2) = -sp * cy + cp * st * sy;
		r(2, 0) = -st;
		r(2, 1) = sp * ct;
		r(2, 2) = cp * ct;
	}
	Dcm(const AxisAngle<Type> &aa) : Dcm(Quaternion<Type>(aa)) {}

	Vector<Type, 3> vee() const { Vector<Type, 3> v; v(0) = -(*this)(1, 2); v(1) = (*this)(0, 2); v(2) = -(*this)(0, 1); return v; }
	void renormalize()
	{
		for (size_t r = 0; r < 3; r++) {
			Type n = 0;

			for (size_t c = 0; c < 3; c++) { n += (*this)(r, c) * (*this)(r, c); }

			n = std::sqrt(n);

			for (size_t c = 0; c < 3; c++) { (*this)(r, c) /= n; }
		}
	}
	Dcm transpose() const { return Dcm(Matrix<Type, 3, 3>::transpose()); }
};
typedef Dcm<float> Dcmf;
typedef Dcm<double> Dcmd;

template<typename Type> Dcm<Type> Vector3<Type>::hat() const
{
	const Vector3 &v = *this;
	Dcm<Type> A;
	A(0, 0) = 0; A(0, 1) = -v(2); A(0, 2) = v(1);
	A(1, 0) = v(2); A(1, 1) = 0; A(1, 2) = -v(0);
	A(2, 0) = -v(1); A(2, 1) = v(0); A(2, 2) = 0;
	return A;
}

template<typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &o) : Vector<Type, 3>(o) {}
	Euler(const Matrix<Type, 3, 1> &o) : Vector<Type, 3>(o) {}
	Euler(Type phi_, Type theta_, Type psi_) { phi() = phi_; theta() = theta_; psi() = psi_; }
	Euler(const Dcm<Type> &dcm)
	{
		theta() = std::asin(-dcm(2, 0));

		if (std::fabs(theta() - Type(M_PI / 2)) < Type(1.0e-3)) {
			phi() = 0;
			psi() = std::atan2(dcm(1, 2), dcm(0, 2));

		} else if (std::fabs(theta() + Type(M_PI / 2)) < Type(1.0e-3)) {
			phi() = 0;
			psi() = std::atan2(-dcm(1, 2), -dcm(0, 2));

		} else {
			phi() = std::atan2(dcm(2, 1), dcm(2, 2));
			psi() = std::atan2(dcm(1, 0), dcm(0, 0));
		}
	}
	Euler(const Quaternion<Type> &q) : Euler(Dcm<Type>(q)) {}
	Type phi() const { return (*this)(0); }
	Type theta() const { return (*this)(1); }
	Type psi() const { return (*this)(2); }
	Type &phi() { return (*this)(0); }
	Type &theta() { return (*this)(1); }
	Type &psi() { return (*this)(2); }
};
typedef Euler<float> Eulerf;
typedef Euler<double> Eulerd;

template<typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	typedef Matrix<Type, 4, 1> Matrix41;
	typedef Matrix<Type, 3, 1> Matrix31;
	Quaternion() { (*this)(0) = 1; (*this)(1) = 0; (*this)(2) = 0; (*this)(3) = 0; }
	explicit Quaternion(const Type d[4]) : Vector<Type, 4>(d) {}
	Quaternion(const Matrix41 &o) : Vector<Type, 4>(o) {}
	Quaternion(Type a, Type b, Type c, Type d) { (*this)(0) = a; (*this)(1) = b; (*this)(2) = c; (*this)(3) = d; }
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R.trace();

		if (t > Type(0)) {
			t = std::sqrt(Type(1) + t);
			q(0) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(0, 2) - R(2, 0)) * t;
			q(3) = (R(1, 0) - R(0, 1)) * t;

		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = std::sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2));
			q(1) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(0, 2) + R(2, 0)) * t;

		} else if (R(1, 1) > R(2, 2)) {
			t = std::sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2));
			q(2) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t;
			q(1) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(2, 1) + R(1, 2)) * t;

		} else {
			t = std::sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2));
			q(3) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t;
			q(1) = (R(0, 2) + R(2, 0)) * t;
			q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}
	Quaternion(const Euler<Type> &e)
	{
		Quaternion &q = *this;
		const Type c1 = std::cos(e.phi() / Type(2)), s1 = std::sin(e.phi() / Type(2));
		const Type c2 = std::cos(e.theta() / Type(2)), s2 = std::sin(e.theta() / Type(2));
		const Type c3 = std::cos(e.psi() / Type(2)), s3 = std::sin(e.psi() / Type(2));
		q(0) = c1 * c2 * c3 + s1 * s2 * s3;
		q(1) = s1 * c2 * c3 - c1 * s2 * s3;
		q(2) = c1 * s2 * c3 + s1 * c2 * s3;
		q(3) = c1 * c2 * s3 - s1 * s2 * c3;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		const Type angle = aa.norm();
		const Vector<Type, 3> axis = aa / (angle > Type(0) ? angle : Type(1));

		if (angle < Type(1e-10)) {
			q(0) = 1; q(1) = q(2) = q(3) = 0;

		} else {
			const Type m = std::sin(angle / Type(2));
			q(0) = std::cos(angle / Type(2));
			q(1) = axis(0) * m;
			q(2) = axis(1) * m;
			q(3) = axis(2) * m;
		}
	}
	Quaternion(const Vector3<Type> &src, const Vector3<Type> &dst, const Type eps = Type(1e-5))
	{
		Quaternion &q = *this;
		Vector3<Type> cr = src.cross(dst);
		const Type dt = src.dot(dst);

		if (cr.norm() < eps && dt < 0) {
			cr = src.abs();

			if (cr(0) < cr(1)) { cr = (cr(0) < cr(2)) ? Vector3<Type>(1, 0, 0) : Vector3<Type>(0, 0, 1); }

			else { cr = (cr(1) < cr(2)) ? Vector3<Type>(0, 1, 0) : Vector3<Type>(0, 0, 1); }

			q(0) = 0;
			cr = src.cross(cr);

		} else {
			q(0) = dt + std::sqrt(src.norm_squared() * dst.norm_squared());
		}

		q(1) = cr(0); q(2) = cr(1); q(3) = cr(2);
		q.normalize();
	}

	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return Quaternion(q(0) * p(0) - q(1) * p(1) - q(2) * p(2) - q(3) * p(3),
				  q(0) * p(1) + q(1) * p(0) + q(2) * p(3) - q(3) * p(2),
				  q(0) * p(2) - q(1) * p(3) + q(2) * p(0) + q(3) * p(1),
				  q(0) * p(3) + q(1) * p(2) - q(2) * p(1) + q(3) * p(0));
	}
	void operator*=(const Quaternion &o) { *this = *this * o; }
	Quaternion operator*(Type s) const { return Quaternion(Matrix41::operator*(s)); }
	void operator*=(Type s) { *this = *this * s; }

	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		const Type n = this->dot(q);
		return Quaternion(q(0) / n, -q(1) / n, -q(2) / n, -q(3) / n);
	}
	void invert() { *this = inversed(); }
	Quaternion conjugate() const { const Quaternion &q = *this; return Quaternion(q(0), -q(1), -q(2), -q(3)); }
	Quaternion canonical() const
	{
		for (size_t i = 0; i < 4; i++) {
			if (std::fabs((*this)(i)) > Type(FLT_EPSILON)) { return (*this)(i) < Type(0) ? Quaternion((*this) * Type(-1)) : *this; }
		}

		return *this;
	}
	void canonicalize() { *this = canonical(); }
	Quaternion normalized() const { return Quaternion(Vector<Type, 4>::unit()); }
	Quaternion unit() const { return normalized(); }
	void rotate(const AxisAngle<Type> &v) { *this = (*this) * Quaternion(v); this->normalize(); }
	Vector3<Type> rotateVector(const Vector3<Type> &v) const
	{
		const Quaternion p = (*this) * Quaternion(Type(0), v(0), v(1), v(2)) * inversed();
		return Vector3<Type>(p(1), p(2), p(3));
	}
	Vector3<Type> conjugate(const Vector3<Type> &v) const { return rotateVector(v); }
	Vector3<Type> rotateVectorInverse(const Vector3<Type> &v) const { return inversed().rotateVector(v); }
	Vector3<Type> conjugate_inversed(const Vector3<Type> &v) const { return rotateVectorInverse(v); }
	Vector3<Type> imag() const { return Vector3<Type>((*this)(1), (*this)(2), (*this)(3)); }
	Vector3<Type> dcm_z() const { const Dcm<Type> R(*this); return Vector3<Type>(R(0, 2), R(1, 2), R(2, 2)); }
};
typedef Quaternion<float> Quatf;
typedef Quaternion<float> Quaternionf;
typedef Quaternion<double> Quatd;

template<typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	AxisAngle() = default;
	explicit AxisAngle(const Type d[3]) : Vector<Type, 3>(d) {}
	AxisAngle(const Vector<Type, 3> &o) : Vector<Type, 3>(o) {}
	AxisAngle(const Matrix<Type, 3, 1> &o) : Vector<Type, 3>(o) {}
	AxisAngle(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	AxisAngle(const Vector3<Type> &axis, Type angle) { for (size_t i = 0; i < 3; i++) { (*this)(i) = axis(i) * angle; } }
	AxisAngle(const Quaternion<Type> &q)
	{
		const Type mag = q.imag().norm();

		if (std::fabs(mag) >= Type(1e-10)) {
			const Vector<Type, 3> v = q.imag() * (Type(2) * std::atan2(mag, q(0)) / mag);
			*this = AxisAngle(v);

		} else {
			const Vector<Type, 3> v = q.imag() * (q(0) < 0 ? Type(-2) : Type(2));
			*this = AxisAngle(v);
		}
	}
	AxisAngle(const Dcm<Type> &R) : AxisAngle(Quaternion<Type>(R)) {}
	AxisAngle(const Euler<Type> &e) : AxisAngle(Quaternion<Type>(e)) {}
	Vector<Type, 3> axis() const { const Type n = this->norm(); if (n > Type(0)) { return (*this) / n; } Vector<Type, 3> v; v(0) = 1; return v; }
	Type angle() const { return this->norm(); }
};
typedef AxisAngle<float> AxisAnglef;

} // namespace matrix
