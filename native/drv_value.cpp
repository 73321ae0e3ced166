// Native driver for C01 (decode), C02 (encode), C03 (round trip) and the value level of C04
// (bounds-normalised encode): runs the real VertexValue code against the oracle.
#include "common.h"
#include "oracle.h"
using namespace drv;
using namespace orc;

static vfc::ElementLayout L(int l) { return static_cast<vfc::ElementLayout>(l); }
static vfc::ElementType T(int t) { return static_cast<vfc::ElementType>(t); }

// ---- current case -------------------------------------------------------------------------
enum Kind { Decode, Encode, Round, Bounds };
static struct Case
{
	Kind kind; int layout, type, align; std::uint8_t bytes[32]; double v[4], lo[4], hi[4];
} cur;
static std::string describeCase()
{
	std::string s;
	auto dbl = [](const double* d) { return fmt("%a %a %a %a", d[0], d[1], d[2], d[3]); };
	int n = cur.layout >= 0 && cur.layout < layoutCount ? layouts[cur.layout].bytes : 0;
	switch (cur.kind)
	{
		case Decode: s = fmt("decode %d %d %d ", cur.layout, cur.type, cur.align) + hex(cur.bytes, n); break;
		case Round: s = fmt("round %d %d %d ", cur.layout, cur.type, cur.align) + hex(cur.bytes, n); break;
		case Encode: s = fmt("encode %d %d %d ", cur.layout, cur.type, cur.align) + dbl(cur.v); break;
		case Bounds: s = fmt("bounds %d %d %d ", cur.layout, cur.type, cur.align) + dbl(cur.v) + " " +
			dbl(cur.lo) + " " + dbl(cur.hi); break;
	}
	return "case " + s;
}

// Exact-size heap element so that ASan sees any access outside it.
struct Slot
{
	std::uint8_t* mem; std::uint8_t* p; int n;
	Slot(int align, int n_) : mem(static_cast<std::uint8_t*>(std::malloc(align + n_))), p(mem + align), n(n_) {}
	~Slot() { std::free(mem); }
	Slot(const Slot&) = delete;
};

static void checkDecode(const std::uint8_t* bytes, int layout, int type, Slot& slot)
{
	++evals();
	const LayoutInfo& l = layouts[layout];
	cur.kind = Decode; cur.layout = layout; cur.type = type;
	std::memcpy(cur.bytes, bytes, l.bytes);
	std::memcpy(slot.p, bytes, l.bytes);
	vfc::VertexValue v(0x1.23p3, -7, 11, 13);
	bool ok = v.fromData(slot.p, L(layout), T(type));
	if (!ok)
		fail("decoding refused for a supported combination");
	if (std::memcmp(slot.p, bytes, l.bytes) != 0)
		fail("decoding changed its input");
	double e[4];
	decode(e, bytes, layout, type);
	for (int i = 0; i < 4; ++i)
	{
		const vfc::VertexValue& cv = v;
		if (sameDouble(cv[i], e[i]))
			continue;
		fail(fmt("component %d decodes to %a, expected %a", i, cv[i], e[i]));
	}
}

static void checkRefuse(int layout, int type)
{
	if (unspecified(layout, type))
		return;
	++evals();
	std::uint8_t bytes[64];
	std::memset(bytes, 0x5a, sizeof bytes);
	cur.kind = Decode; cur.layout = layout; cur.type = type;
	bool sup = valid(layout, type);
	vfc::VertexValue v(1.5, 2.5, 3.5, 4.5), o = v;
	if (v.fromData(nullptr, L(layout), T(type)) || v != o)
		fail("null data decoded");
	if (!sup && (v.fromData(bytes, L(layout), T(type)) || v != o))
		fail("unsupported combination decoded or value changed");
	cur.kind = Encode;
	for (int i = 0; i < 4; ++i) cur.v[i] = v[i];
	if (v.toData(nullptr, L(layout), T(type)) || v.toData(nullptr, L(layout), T(type), v, v))
		fail("encoded to null");
	if (!sup)
	{
		vfc::VertexValue lo(0, 0, 0, 0), hi(9, 9, 9, 9);
		for (int k = 0; k < 2; ++k)
		{
			if (k ? v.toData(bytes, L(layout), T(type), lo, hi) : v.toData(bytes, L(layout), T(type)))
				fail("unsupported combination encoded");
			for (std::uint8_t b : bytes)
				if (b != 0x5a)
					fail("refused encoding wrote data");
		}
	}
}

static void checkEncodeCase(const double v[4], int layout, int type, Slot& slot)
{
	++evals();
	const LayoutInfo& l = layouts[layout];
	cur.kind = Encode; cur.layout = layout; cur.type = type;
	std::memcpy(cur.v, v, sizeof cur.v);
	std::uint8_t buf[8 + 32 + 8 + 8];
	int at = 8 + cur.align;
	std::memset(buf, 0xa5, sizeof buf);
	const vfc::VertexValue val(v[0], v[1], v[2], v[3]);
	if (!val.toData(buf + at, L(layout), T(type)))
		fail("encoding refused for a supported combination");
	for (int i = 0; i < (int)sizeof buf; ++i)
		if ((i < at || i >= at + l.bytes) && buf[i] != 0xa5)
			fail(fmt("encoding wrote outside the element (byte %d)", i - at));
	std::memset(slot.p, 0x3c, l.bytes);
	if (!val.toData(slot.p, L(layout), T(type)) || std::memcmp(slot.p, buf + at, l.bytes) != 0)
		fail("encoding leaves some of the element's bytes unwritten");
	for (int i = 0; i < 4; ++i)
		if (!sameDouble(val[i], v[i]))
			fail("encoding changed the value");
	const char* err = l.kind >= 8 ? checkEncode(buf + at, layout, type, v) :
		encodePacked(buf + at, layout, v) ? nullptr : "packed float component";
	if (err)
		fail(fmt("bytes %s: wrong %s", hex(buf + at, l.bytes).c_str(), err));
}

static void checkRound(const std::uint8_t* bytes, int layout, int type, Slot& slot)
{
	const LayoutInfo& l = layouts[layout];
	double e[4];
	decode(e, bytes, layout, type);
	bool exact = l.kind != 2;
	for (int i = 0; i < l.n; ++i)
	{
		if (std::isnan(e[l.f[i].comp]))
			return;
		if (l.kind == 64 && (type == 2 || type == 3) && std::fabs(e[l.f[i].comp]) > 0x1p53)
			return;
	}
	++evals();
	cur.kind = Round; cur.layout = layout; cur.type = type;
	std::memcpy(cur.bytes, bytes, l.bytes);
	vfc::VertexValue v;
	if (!v.fromData(bytes, L(layout), T(type)))
		fail("decode refused");
	std::memset(slot.p, 0xee, l.bytes);
	if (!v.toData(slot.p, L(layout), T(type)))
		fail("encode refused");
	if (exact)
	{
		if (std::memcmp(slot.p, bytes, l.bytes) != 0)
			fail("round trip gives " + hex(slot.p, l.bytes));
	}
	else
	{
		vfc::VertexValue v2;
		v2.fromData(slot.p, L(layout), T(type));
		if (v2 != v)
			fail("round trip decodes to another value: " + hex(slot.p, l.bytes));
	}
}

static void checkBounds(const double v[4], const double lo[4], const double hi[4], int layout, int type)
{
	++evals();
	const LayoutInfo& l = layouts[layout];
	cur.kind = Bounds; cur.layout = layout; cur.type = type;
	std::memcpy(cur.v, v, sizeof cur.v);
	std::memcpy(cur.lo, lo, sizeof cur.lo);
	std::memcpy(cur.hi, hi, sizeof cur.hi);
	std::uint8_t buf[64], ref[64];
	std::memset(buf, 0xa5, sizeof buf);
	std::memset(ref, 0xa5, sizeof ref);
	const vfc::VertexValue val(v[0], v[1], v[2], v[3]), mn(lo[0], lo[1], lo[2], lo[3]),
		mx(hi[0], hi[1], hi[2], hi[3]);
	if (!val.toData(buf + 8, L(layout), T(type), mn, mx))
		fail("bounded encoding refused");
	for (int i = 0; i < 64; ++i)
		if ((i < 8 || i >= 8 + l.bytes) && buf[i] != 0xa5)
			fail("bounded encoding wrote outside the element");
	if (type > 1)
	{
		val.toData(ref + 8, L(layout), T(type));
		if (std::memcmp(buf, ref, sizeof buf) != 0)
			fail("bounds affected a target that is not normalised");
		return;
	}
	if (const char* e = checkBounded(buf + 8, layout, type, v, lo, hi))
		fail(e);
}

static const double specials[] = {0.0, -0.0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.25, 0.49999999999999994,
	-0.49999999999999994, 1e-300, -1e-300, 4.9e-324, 1e300, -1e300, 127, 128, 127.5, -127.5, -128, -128.5, -129, 255,
	254.5, 255.5, 256, 511, 511.5, 512, -511.5, -512, -512.5, -513, 1023, 1023.5, 1024, 1, 2, 3, 3.5, 4, -2, -3,
	32767, 32767.5, 32768, -32768, -32768.5, -32769, 65535, 65535.5, 65536, 65504, 65519.999, 65520, 65024, 65408,
	2147483647, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483649.0, 4294967295.0, 4294967295.5,
	4294967296.0, 4294967294.5, 9007199254740992.0, -9007199254740992.0, 9007199254740991.0, 4503599627370497.5,
	9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0,
	18446744073709549568.0, 18446744073709551616.0, 3.4028234663852886e38, 3.4028235677973366e38, 3.5e38, -3.5e38,
	1.1754943508222875e-38, 1.4012984643248171e-45, 7e-46, 6.103515625e-05, 6.0975551605224609e-05,
	5.9604644775390625e-08, 2.98023223876953125e-08, 2.9e-08, 3.1e-08, 1.000488281250, 1.0004882812500002, 1.00146484375,
	INFINITY, -INFINITY, 32768.5, 40000, 1e-6, 3e-5, 0.1, 0.3333333333333333, 0.7, 0.9999999, 1.0000001, -0.9999999};

static double randomDouble(Rng& r, int type, int width)
{
	switch (r.below(6))
	{
		case 0: return specials[r.below(sizeof specials/sizeof *specials)];
		case 1:
		{
			std::uint64_t u = r.next();
			double d;
			std::memcpy(&d, &u, 8);
			return std::isnan(d) ? 1.25 : d;
		}
		case 2: return double(std::int64_t(r.next()) >> r.below(64)) + (r.chance(1, 2) ? 0.5 : 0);
		case 3: return std::ldexp(double(std::int64_t(r.next()) >> 11), int(r.below(80)) - 80);
		case 4:
		{
			// around a code boundary
			if (type <= 1 && width <= 16)
			{
				double max = double((1u << width) - 1);
				double c = double(r.below((1u << width) + 2)) - 1 + 0.5;
				double u = c/max + (double(r.below(5)) - 2)*1e-9;
				return type == 0 ? u : 2*u - 1;
			}
			float f;
			std::uint32_t u = std::uint32_t(r.next());
			std::memcpy(&f, &u, 4);
			return std::isnan(f) ? 0.75 : (double)f*(1 + (double(r.below(5)) - 2)*0x1p-25);
		}
		default: return double(std::int64_t(r.next() >> 11))*0x1p-52 - 1;
	}
}

static int classCodes(const LayoutInfo& l, int i) { return l.f[i].width <= 16 ? 1 << l.f[i].width : 0; }

static void runCodes(bool round, Rng& rng, double until)
{
	// Every code of every component of up to 16 bits, with random bits elsewhere.
	for (int layout = 0; layout < layoutCount; ++layout)
		for (int type = 0; type < typeCount; ++type)
		{
			if (!valid(layout, type))
				continue;
			const LayoutInfo& l = layouts[layout];
			for (int i = 0; i < l.n; ++i)
			{
				cur.align = int(rng.below(4));
				Slot slot(cur.align, l.bytes);
				std::uint8_t b[32];
				int n = classCodes(l, i);
				int count = n ? n : 20000;
				for (int c = 0; c < count; ++c)
				{
					for (auto& x : b)
						x = std::uint8_t(rng.next() >> 13);
					if (rng.chance(1, 4))
						std::memset(b, rng.chance(1, 2) ? 0 : 0xff, sizeof b);
					int w = l.f[i].width;
					std::uint64_t code = n ? std::uint64_t(c) : rng.next() >> rng.below(64);
					if (!n && rng.chance(1, 4))
						code = (std::uint64_t(1) << rng.below(64)) - rng.below(3);
					if (!n && type == 4 && round && w == 64 && rng.chance(1, 2))
						code = rng.next();
					setBits(b, l.f[i].bit, w, code);
					std::uint64_t before = evals();
					if (round)
						checkRound(b, layout, type, slot);
					else
						checkDecode(b, layout, type, slot);
					if (evals() == before)
						continue;
					if (n)
						++distinctCount();
					else
						countDistinct(fnv(b, l.bytes, layout*8 + type + 99));
				}
				if (i == 0)
					sample(describeCase());
			}
		}
	std::uint64_t k = 0;
	while (now() < until)
		for (int rep = 0; rep < 2000; ++rep, ++k)
		{
			int layout = int(rng.below(layoutCount)), type = int(rng.below(typeCount));
			if (!valid(layout, type))
				continue;
			std::uint8_t b[32];
			for (auto& x : b)
				x = std::uint8_t(rng.next() >> 13);
			cur.align = int(rng.below(4));
			Slot slot(cur.align, layouts[layout].bytes);
			std::uint64_t before = evals();
			if (round) checkRound(b, layout, type, slot); else checkDecode(b, layout, type, slot);
			if (evals() != before)
				countDistinct(fnv(b, layouts[layout].bytes, layout*8 + type + 99));
		}
}

static void runEncode(Rng& rng, double until)
{
	for (int layout = 0; layout < layoutCount; ++layout)
		for (int type = 0; type < typeCount; ++type)
		{
			if (!valid(layout, type))
				continue;
			const LayoutInfo& l = layouts[layout];
			for (int i = 0; i < l.n; ++i)
			{
				cur.align = int(rng.below(4));
				Slot slot(cur.align, l.bytes);
				double v[4];
				auto others = [&]() { for (double& d : v) d = randomDouble(rng, type, l.f[i].width); };
				for (double s : specials)
				{
					others();
					v[l.f[i].comp] = s;
					checkEncodeCase(v, layout, type, slot);
					++distinctCount();
				}
				int n = classCodes(l, i), w = l.f[i].width;
				for (int c = 0; n && c < n; ++c)
				{
					// The value of every code, and both sides of every rounding boundary.
					std::uint8_t b[32] = {};
					setBits(b, l.f[i].bit, w, c);
					double e[4], x;
					decode(e, b, layout, type);
					if (std::isnan(e[l.f[i].comp]))
						continue;
					for (int k = 0; k < 3; ++k)
					{
						x = e[l.f[i].comp];
						if (type == 0) x += (k - 1)*0.4999999/((1u << w) - 1);
						else if (type == 1) x += (k - 1)*0.9999998/((1u << w) - 1);
						else if (type < 4) x += (k - 1)*0.49999999;
						else x *= 1 + (k - 1)*0x1p-12;
						others();
						v[l.f[i].comp] = x;
						checkEncodeCase(v, layout, type, slot);
						++distinctCount();
					}
				}
				if (i == 0)
					sample(describeCase());
			}
		}
	do
		for (int rep = 0; rep < 2000; ++rep)
		{
			int layout = int(rng.below(layoutCount)), type = int(rng.below(typeCount));
			if (!valid(layout, type))
				continue;
			double v[4];
			for (double& d : v)
				d = randomDouble(rng, type, layouts[layout].f[0].width);
			cur.align = int(rng.below(4));
			Slot slot(cur.align, layouts[layout].bytes);
			checkEncodeCase(v, layout, type, slot);
			countDistinct(fnv(v, sizeof v, layout*8 + type + 99));
		}
	while (now() < until);
}

static void runBounds(Rng& rng, double until)
{
	std::uint64_t k = 0;
	do
		for (int rep = 0; rep < 500; ++rep)
			for (int layout = 0; layout < layoutCount; ++layout)
				for (int type = 0; type < typeCount; ++type, ++k)
				{
					if (!valid(layout, type) || (type > 1 && k % 16))
						continue;
					double v[4], lo[4], hi[4];
					for (int i = 0; i < 4; ++i)
					{
						double a = randomDouble(rng, type, 8), b = randomDouble(rng, type, 8);
						if (rng.chance(1, 2))
						{
							a = double(int(rng.below(2001)) - 1000)/8;
							b = double(int(rng.below(2001)) - 1000)/8;
						}
						if (std::isinf(a)) a = 3;
						if (std::isinf(b)) b = -2;
						if (rng.chance(1, 6)) b = a;
						if (rng.chance(1, 12)) b = a + 1e-17;
						if (rng.chance(1, 12)) { a = 0; b = rng.chance(1, 2) ? 2e-16 : 3e-16; }
						lo[i] = std::min(a, b);
						hi[i] = std::max(a, b);
						switch (rng.below(4))
						{
							case 0: v[i] = lo[i]; break;
							case 1: v[i] = hi[i]; break;
							default:
								v[i] = lo[i] + (hi[i] - lo[i])*(double(rng.below(1000))/1000);
								if (!(v[i] >= lo[i])) v[i] = lo[i];
								if (!(v[i] <= hi[i])) v[i] = hi[i];
						}
					}
					checkBounds(v, lo, hi, layout, type);
					countDistinct(fnv(v, sizeof v, fnv(lo, sizeof lo, layout*8 + type + 99)));
					if (rep == 0)
						sample(describeCase());
				}
	while (now() < until);
}

static int replay()
{
	FILE* f = std::fopen(opt().replay.c_str(), "r");
	if (!f)
		return 2;
	char line[4096];
	while (std::fgets(line, sizeof line, f))
	{
		char kind[32], h[128];
		int layout, type, align;
		double d[12];
		if (std::sscanf(line, "case %31s %d %d %d", kind, &layout, &type, &align) != 4)
			continue;
		cur.align = align;
		std::string k = kind;
		if (!valid(layout, type))
		{
			checkRefuse(layout, type);
			continue;
		}
		Slot slot(align, layouts[layout].bytes);
		if (k == "decode" || k == "round")
		{
			if (std::sscanf(line, "case %*s %*d %*d %*d %127s", h) != 1)
				continue;
			auto b = unhex(h);
			b.resize(32);
			if (k == "decode") checkDecode(b.data(), layout, type, slot);
			else checkRound(b.data(), layout, type, slot);
		}
		else if (std::sscanf(line, "case %*s %*d %*d %*d %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf %lf", d, d + 1,
			d + 2, d + 3, d + 4, d + 5, d + 6, d + 7, d + 8, d + 9, d + 10, d + 11) >= 4)
		{
			if (k == "encode") checkEncodeCase(d, layout, type, slot);
			else checkBounds(d, d + 4, d + 8, layout, type);
		}
	}
	report();
	return 0;
}

int main(int argc, char** argv)
{
	if (!parse(argc, argv))
		return 2;
	install();
	describer() = describeCase;
	if (!opt().replay.empty())
		return replay();
	Rng rng(opt().seed*7919 + 17);
	double until = now() + opt().budget;
	if (opt().prop == "C01" || opt().prop == "C02")
		for (int layout = -2; layout < layoutCount + 2; ++layout)
			for (int type = -2; type < typeCount + 2; ++type)
				checkRefuse(layout, type);
	if (opt().prop == "C01")
		runCodes(false, rng, until);
	else if (opt().prop == "C02")
		runEncode(rng, until);
	else if (opt().prop == "C03")
		runCodes(true, rng, until);
	else if (opt().prop == "C04")
		runBounds(rng, until);
	else
		return 2;
	report();
	return 0;
}
