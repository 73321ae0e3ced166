// Executable reference semantics, written from the documentation of the formats and from
// /verif/properties.jsonl, independently of the code under test. Used by the native drivers as the
// oracle that confirms (or produces) concrete failing inputs.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <limits>
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>

namespace orc
{
using vfc::ElementLayout;
using vfc::ElementType;

struct Field { int comp, bit, width; };
struct LayoutInfo { const char* name; const char* color; int bytes; int n; Field f[4]; int kind; };
// kind: 8, 10 (2/10/10/10), 16, 32, 64: component class; 1: 11/11/10 float; 2: shared exponent
static const LayoutInfo layouts[] = {
	{"X8", "R8", 1, 1, {{0,0,8}}, 8},
	{"X8Y8", "R8G8", 2, 2, {{0,0,8},{1,8,8}}, 8},
	{"X8Y8Z8", "R8G8B8", 3, 3, {{0,0,8},{1,8,8},{2,16,8}}, 8},
	{"X8Y8Z8W8", "R8G8B8A8", 4, 4, {{0,0,8},{1,8,8},{2,16,8},{3,24,8}}, 8},
	{"W2X10Y10Z10", "A2R10G10B10", 4, 4, {{0,20,10},{1,10,10},{2,0,10},{3,30,2}}, 10},
	{"W2Z10Y10X10", "A2B10G10R10", 4, 4, {{0,0,10},{1,10,10},{2,20,10},{3,30,2}}, 10},
	{"X16", "R16", 2, 1, {{0,0,16}}, 16},
	{"X16Y16", "R16G16", 4, 2, {{0,0,16},{1,16,16}}, 16},
	{"X16Y16Z16", "R16G16B16", 6, 3, {{0,0,16},{1,16,16},{2,32,16}}, 16},
	{"X16Y16Z16W16", "R16G16B16A16", 8, 4, {{0,0,16},{1,16,16},{2,32,16},{3,48,16}}, 16},
	{"X32", "R32", 4, 1, {{0,0,32}}, 32},
	{"X32Y32", "R32G32", 8, 2, {{0,0,32},{1,32,32}}, 32},
	{"X32Y32Z32", "R32G32B32", 12, 3, {{0,0,32},{1,32,32},{2,64,32}}, 32},
	{"X32Y32Z32W32", "R32G32B32A32", 16, 4, {{0,0,32},{1,32,32},{2,64,32},{3,96,32}}, 32},
	{"X64", "R64", 8, 1, {{0,0,64}}, 64},
	{"X64Y64", "R64G64", 16, 2, {{0,0,64},{1,64,64}}, 64},
	{"X64Y64Z64", "R64G64B64", 24, 3, {{0,0,64},{1,64,64},{2,128,64}}, 64},
	{"X64Y64Z64W64", "R64G64B64A64", 32, 4, {{0,0,64},{1,64,64},{2,128,64},{3,192,64}}, 64},
	{"Z10Y11X11_UFloat", "B10G11R11_UFloat", 4, 3, {{0,0,11},{1,11,11},{2,22,10}}, 1},
	{"E5Z9Y9X9_UFloat", "E5B9G9R9_UFloat", 4, 3, {{0,0,9},{1,9,9},{2,18,9}}, 2}
};
static const int layoutCount = 20, typeCount = 5;
static const char* const typeNames[] = {"UNorm", "SNorm", "UInt", "SInt", "Float"};
static const char* const primNames[] = {"PointList", "LineList", "LineStrip", "TriangleList",
	"TriangleStrip", "TriangleFan", "PatchList"};

inline bool valid(int layout, int type)
{
	if (layout < 0 || layout >= layoutCount || type < 0 || type >= typeCount)
		return false;
	switch (layouts[layout].kind)
	{
		case 8: case 10: return type != 4;
		case 16: return true;
		case 32: case 64: return type >= 2;
		default: return type == 4;
	}
}
// fromData/toData additionally accept 32/64-bit normalised data; those are not supported elements
// and no property speaks about them.
inline bool unspecified(int layout, int type)
{
	return layout >= 10 && layout <= 17 && (type == 0 || type == 1);
}

inline std::uint64_t getBits(const std::uint8_t* d, int bit, int width)
{
	std::uint64_t v = 0;
	if (bit % 8 == 0 && width % 8 == 0)
	{
		std::memcpy(&v, d + bit/8, width/8);
		return v;
	}
	for (int i = 0; i < width; ++i)
		v |= std::uint64_t((d[(bit + i) >> 3] >> ((bit + i) & 7)) & 1) << i;
	return v;
}
inline void setBits(std::uint8_t* d, int bit, int width, std::uint64_t v)
{
	if (bit % 8 == 0 && width % 8 == 0)
	{
		std::memcpy(d + bit/8, &v, width/8);
		return;
	}
	for (int i = 0; i < width; ++i)
	{
		int b = bit + i;
		d[b >> 3] = std::uint8_t((d[b >> 3] & ~(1 << (b & 7))) | (((v >> i) & 1) << (b & 7)));
	}
}
inline std::int64_t signExtend(std::uint64_t v, int width)
{
	if (width < 64 && (v >> (width - 1)) & 1)
		v |= ~std::uint64_t(0) << width;
	return std::int64_t(v);
}
// Small float: expBits exponent (bias 15), manBits mantissa, optional sign.
inline double smallFloat(std::uint64_t v, int manBits, bool sign)
{
	std::uint64_t m = v & ((1u << manBits) - 1);
	int e = int((v >> manBits) & 31);
	double s = sign && ((v >> (manBits + 5)) & 1) ? -1.0 : 1.0;
	if (e == 31)
		return m ? std::numeric_limits<double>::quiet_NaN() : s*std::numeric_limits<double>::infinity();
	if (e == 0)
		return s*std::ldexp(double(m), -14 - manBits);
	return s*std::ldexp(double(m + (1u << manBits)), e - 15 - manBits);
}

// Decodes an element. out has all four components.
inline bool decode(double out[4], const std::uint8_t* data, int layout, int type)
{
	if (!valid(layout, type))
		return false;
	const LayoutInfo& l = layouts[layout];
	out[0] = out[1] = out[2] = 0;
	out[3] = 1;
	for (int i = 0; i < l.n; ++i)
	{
		std::uint64_t code = getBits(data, l.f[i].bit, l.f[i].width);
		int w = l.f[i].width;
		double& o = out[l.f[i].comp];
		if (l.kind == 1)
			o = smallFloat(code, w - 5, false);
		else if (l.kind == 2)
			o = std::ldexp(double(code), int(getBits(data, 27, 5)) - 15 - 9);
		else switch (type)
		{
			case 0:
				o = double(code)/double((std::uint64_t(1) << w) - 1);
				break;
			case 1:
			{
				double unit = double(signExtend(code, w) + (std::int64_t(1) << (w - 1)))/
					double((std::uint64_t(1) << w) - 1);
				o = 2*unit - 1;
				break;
			}
			case 2:
				o = double(code);
				break;
			case 3:
				o = double(signExtend(code, w));
				break;
			case 4:
				if (w == 16)
					o = smallFloat(code, 10, true);
				else if (w == 32)
				{
					std::uint32_t u = std::uint32_t(code);
					float f;
					std::memcpy(&f, &u, 4);
					o = f;
				}
				else
					std::memcpy(&o, &code, 8);
				break;
		}
	}
	return true;
}

inline bool sameDouble(double a, double b)
{
	if (std::isnan(a) || std::isnan(b))
		return std::isnan(a) && std::isnan(b);
	return a == b && std::signbit(a) == std::signbit(b);
}

// Is `code` an acceptable encoding of real value x (already scaled to code units, in long double),
// i.e. nearest integer, with slack for the double-precision scaling. halfUp: x is an exact half (the
// only doubles that scale to one are 0.5 for UNorm and 0 for SNorm), which goes up.
inline bool nearest(long double code, long double x, bool halfUp)
{
	long double d = code - x;
	if (d == 0.5L)
		return true;
	if (d == -0.5L)
		return !halfUp;
	long double slack = 1e-9L + std::fabs(x)*1e-15L;
	return std::fabs(d) <= 0.5L + slack;
}

// Checks one component code against the value; returns an error text or null.
inline const char* checkCode(std::uint64_t code, int w, int type, double v)
{
	if (type == 0)
	{
		double c = v < 0 ? 0 : v > 1 ? 1 : v;
		long double max = (long double)((std::uint64_t(1) << w) - 1);
		return nearest((long double)code, (long double)c*max, c == 0.5) ? nullptr : "unorm code";
	}
	if (type == 1)
	{
		double c = v < -1 ? -1 : v > 1 ? 1 : v;
		long double max = (long double)((std::uint64_t(1) << w) - 1);
		long double x = ((long double)c + 1)/2*max;
		long double got = (long double)(signExtend(code, w) + (std::int64_t(1) << (w - 1)));
		return nearest(got, x, c == 0) ? nullptr : "snorm code";
	}
	if (type == 2)
	{
		long double max = w == 64 ? 18446744073709551615.0L :
			(long double)((std::uint64_t(1) << w) - 1);
		long double c = v < 0 ? 0 : (long double)v > max ? max : (long double)v;
		return (long double)code == std::round(c) ? nullptr : "uint code";
	}
	if (type == 3)
	{
		long double max = w == 64 ? 9223372036854775807.0L :
			(long double)((std::int64_t(1) << (w - 1)) - 1);
		long double min = -max - 1;
		long double c = (long double)v < min ? min : (long double)v > max ? max : (long double)v;
		return (long double)signExtend(code, w) == std::round(c) ? nullptr : "sint code";
	}
	return nullptr;
}

// Is the half `h` nearest to single f?
inline bool nearestHalf(std::uint16_t h, float f)
{
	if (bool(h & 0x8000) != bool(std::signbit(f)))
		return false;
	double a = std::fabs((double)f);
	unsigned m = h & 0x7fff;
	if (a >= 65520.0)
		return m == 0x7c00 || (a == 65520.0 && m == 0x7bff);
	if (m >= 0x7c00)
		return false;
	double v = smallFloat(m, 10, false);
	double lo = m == 0 ? -1 : smallFloat(m - 1, 10, false);
	double hi = m == 0x7bff ? 65536.0 : smallFloat(m + 1, 10, false);
	double e = std::fabs(v - a);
	return e <= std::fabs(hi - a) && (m == 0 || e <= std::fabs(lo - a));
}
inline bool nearestFloat(float r, double v)
{
	if (std::isinf(v))
		return r == v;
	if (std::signbit(r) != std::signbit(v))
		return false;
	double a = std::fabs(v), maxf = std::numeric_limits<float>::max();
	double lim = 0x1.ffffffp127; // tie between max float and 2^128
	if (a >= lim)
		return std::isinf(r);
	if (std::isinf(r) || std::isnan(r))
		return false;
	float m = std::fabs(r);
	double e = std::fabs((double)m - a);
	double up = m == (float)maxf ? 0x1p128 : (double)std::nextafter(m, INFINITY);
	if (e > std::fabs(up - a))
		return false;
	return m == 0 || e <= std::fabs((double)std::nextafter(m, 0.0f) - a);
}

// Checks the encoding of v. data: the produced element bytes. Packed float layouts are checked
// for components inside the range where the underlying conversion is exact (see pkClass).
// hw: ties of half floats accepted either way in both cases.
inline const char* checkEncode(const std::uint8_t* data, int layout, int type, const double v[4])
{
	const LayoutInfo& l = layouts[layout];
	for (int i = 0; i < l.n; ++i)
	{
		std::uint64_t code = getBits(data, l.f[i].bit, l.f[i].width);
		int w = l.f[i].width;
		double x = v[l.f[i].comp];
		if (type != 4)
		{
			if (const char* e = checkCode(code, w, type, x))
				return e;
		}
		else if (w == 16)
		{
			if (!nearestHalf(std::uint16_t(code), (float)x))
				return "half";
		}
		else if (w == 32)
		{
			std::uint32_t u = std::uint32_t(code);
			float f;
			std::memcpy(&f, &u, 4);
			if (!nearestFloat(f, x))
				return "float";
		}
		else if (w == 64)
		{
			double d;
			std::memcpy(&d, &code, 8);
			if (!sameDouble(d, x))
				return "double";
		}
	}
	return nullptr;
}
inline std::string txt(const char* f, ...)
{
	char buf[1024];
	va_list ap;
	va_start(ap, f);
	std::vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}
inline double packedLimit(int mb)
{
	return mb == 6 ? 65024.0 : 64512.0;
}
// Packed unsigned floats: within one unit in the last place of the value clamped to the format's range.
inline bool encodePacked(const std::uint8_t* d, int layout, const double v[4])
{
	const LayoutInfo& l = layouts[layout];
	if (l.kind == 1)
	{
		for (int i = 0; i < 3; ++i)
		{
			double f = v[i] > 0 ? v[i] : 0.0;
			int mb = i == 2 ? 5 : 6;
			std::uint32_t code = std::uint32_t(getBits(d, l.f[i].bit, l.f[i].width));
			double got = smallFloat(code, mb, false);
			if (f > packedLimit(mb))
			{
				// the largest value, or infinity when the value lies beyond it
				if (got != packedLimit(mb) && !(std::isinf(got) && f >= 65504))
					return false;
				continue;
			}
			int ex = -13;
			if (f >= 0x1p-14)
				std::frexp(f, &ex);
			if (!(std::fabs(got - f) < std::ldexp(1.0, ex - 1 - mb)))
				return false;
		}
		return true;
	}
	// shared exponent
	double f[3], m = 0;
	for (int i = 0; i < 3; ++i)
	{
		f[i] = std::min(v[i] > 0 ? v[i] : 0.0, 65408.0);
		m = std::max(m, f[i]);
	}
	int e = -16;
	if (m > 0)
		e = std::max(-16, std::ilogb(m));
	e += 16;
	if (std::floor(m/std::ldexp(1.0, e - 24) + 0.5) >= 512)
		++e;
	double ulp = std::ldexp(1.0, e - 24);
	double got[4];
	decode(got, d, layout, 4);
	for (int i = 0; i < 3; ++i)
		if (!(std::fabs(got[i] - f[i]) < ulp))
			return false;
	return true;
}

// Checks a normalised encoding relative to bounds lo <= v <= hi.
inline const char* checkBounded(const std::uint8_t* d, int layout, int type, const double v[4], const double lo[4],
	const double hi[4])
{
	const LayoutInfo& l = layouts[layout];
	for (int i = 0; i < l.n; ++i)
	{
		int c = l.f[i].comp, w = l.f[i].width;
		std::uint64_t code = getBits(d, l.f[i].bit, w);
		double range = hi[c] - lo[c];
		if (std::isinf(range))
			continue;
		std::int64_t unit = type == 0 ? std::int64_t(code) :
			signExtend(code, w) + (std::int64_t(1) << (w - 1));
		std::int64_t max = (std::int64_t(1) << w) - 1;
		if (std::fabs(range) < std::numeric_limits<double>::epsilon())
		{
			if (checkCode(code, w, type, c == 3 ? 1.0 : 0.0))
				return "component with an empty range is not the default";
			continue;
		}
		if (v[c] == lo[c] && unit != 0)
			return "component at its minimum is not the lowest code";
		if (v[c] == hi[c] && unit != max)
			return "component at its maximum is not the highest code";
		long double num = (long double)v[c] - (long double)lo[c];
		long double x = num/((long double)hi[c] - (long double)lo[c])*max;
		// differences are rounded to double by the code: allow for that
		long double slack = 1e-9L + 4e-16L*max*(1 + (std::fabs((long double)v[c]) + std::fabs((long double)lo[c]) +
			std::fabs((long double)hi[c]))/std::fabs((long double)range)*1e-0L);
		if (std::fabs((long double)unit - x) > 0.5L + slack)
			return "component is not the linear mapping of its bounds";
	}
	return nullptr;
}
} // namespace orc
