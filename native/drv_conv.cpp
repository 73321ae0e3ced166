// Native driver for C04 (transforms through the converter) and C08-C13: builds random converters
// and input streams, runs the real Converter and judges everything observable against the oracle.
#include "common.h"
#include "oracle.h"
#include <VFC/Converter.h>
#include <VFC/IndexData.h>
#include <algorithm>
#include <memory>
using namespace drv;
using namespace orc;

struct Elem { int name, layout, type, transform; };
struct Stream
{
	std::vector<Elem> elems;
	int stride = 0;
	std::uint32_t vertexCount = 0;
	int indexType = 0;
	std::vector<std::uint32_t> indices;
	std::vector<std::uint8_t> data;
	bool nullData = false, nullIndices = false;
	bool accepted = false;
};
struct Case
{
	std::uint64_t seed; int mode;
	std::vector<std::vector<Elem>> out;
	std::vector<Stream> streams;
	int prim, patch, outIndex;
	std::uint32_t maxIndex;
	bool defaultMax, single, moved;
};
static Case cs;
static const char* elemName(int n)
{
	static const char* const names[] = {"pos", "nrm", "Pos", "uv0", "uv1", "a name that is longer than any small string buffer", "", "col",
		"e8", "e9", "e10", "e11", "e12", "e13", "e14", "e15"};
	return names[n & 15];
}
static std::string describeCase()
{
	std::string s = fmt("case conv %llu %d\n# prim=%s patch=%d outIndex=%d maxIndex=%u%s%s\n", (unsigned long long)cs.seed, cs.mode,
		cs.prim >= 0 && cs.prim < 7 ? primNames[cs.prim] : "invalid", cs.patch, cs.outIndex, cs.maxIndex,
		cs.defaultMax ? " (default)" : "", cs.moved ? " moved" : "");
	auto el = [](const Elem& e) { return fmt("%s:%s/%s/t%d ", elemName(e.name), layouts[e.layout].name, typeNames[e.type], e.transform); };
	for (auto& o : cs.out)
	{
		s += "# out ";
		for (auto& e : o)
			s += el(e);
		s += "\n";
	}
	for (auto& st : cs.streams)
	{
		s += fmt("# in vertices=%u indexType=%d%s%s ", st.vertexCount, st.indexType, st.nullData ? " null data" : "", st.nullIndices ? " null indices" : "");
		for (auto& e : st.elems)
			s += el(e);
		if (st.indices.size() <= 64)
		{
			s += fmt("indices(%zu)", st.indices.size());
			for (auto i : st.indices)
				s += fmt(" %u", i);
		}
		if (st.data.size() <= 256)
			s += " data " + hex(st.data.data(), st.data.size());
		s += "\n";
	}
	return s;
}

// A failure of property `prop`: fatal only when that is the property under test.
static bool g_other;
static void failP(const char* prop, const std::string& why)
{
	if (opt().prop == prop)
		fail(why);
	g_other = true;
}

// ---- generation --------------------------------------------------------------------------------
static const float floatPool[] = {0, 1, -1, 0.5f, -0.5f, 0.25f, 2, 3.5f, -7.25f, 100, 0.1f, -0.3f, 1000, 1e-3f};
static const std::uint16_t halfPool[] = {0, 0x3c00, 0xbc00, 0x3800, 0xb800, 0x4000, 0x4500, 0xc700, 0x2e66};
static void randomElementData(std::uint8_t* d, int layout, int type, Rng& r, bool lowEntropy)
{
	const LayoutInfo& l = layouts[layout];
	for (int i = 0; i < l.n; ++i)
	{
		int w = l.f[i].width;
		std::uint64_t code = r.next();
		if (lowEntropy)
			code = r.chance(1, 2) ? (std::uint64_t(1) << (w - 1)) : r.below(2);
		if (type == 4)
		{
			if (w == 16)
				code = halfPool[lowEntropy ? r.below(2) : r.below(9)];
			else if (w == 32)
			{
				float f = floatPool[lowEntropy ? r.below(2) : r.below(14)];
				if (!lowEntropy && r.chance(1, 2))
					f = float(int(r.below(4001)) - 2000)/64;
				std::uint32_t u;
				std::memcpy(&u, &f, 4);
				code = u;
			}
			else if (w == 64)
			{
				double f = floatPool[lowEntropy ? r.below(2) : r.below(14)];
				if (!lowEntropy && r.chance(1, 2))
					f = double(int(r.below(4001)) - 2000)/48;
				std::memcpy(&code, &f, 8);
			}
			else if (l.kind == 1)
				code = ((1 + r.below(lowEntropy ? 2 : 28)) << (w - 5)) | r.below(lowEntropy ? 1 : 1u << (w - 5));
		}
		setBits(d, l.f[i].bit, w, code);
	}
	if (l.kind == 2)
		setBits(d, 27, 5, lowEntropy ? 15 : r.below(28));
}

static Elem randomElem(int name, Rng& r)
{
	Elem e{name, 0, 0, 0};
	do
	{
		e.layout = int(r.below(layoutCount));
		e.type = int(r.below(typeCount));
	} while (!valid(e.layout, e.type));
	return e;
}
static std::uint32_t minIndices(int prim, int patch)
{
	switch (prim)
	{
		case 0: return 1;
		case 1: case 2: return 2;
		case 3: case 4: case 5: return 3;
		case 6: return std::max(patch, 1);
		default: return 1;
	}
}
static bool countOk(int prim, std::uint32_t n, int patch)
{
	switch (prim)
	{
		case 0: return true;
		case 1: return n % 2 == 0;
		case 2: return n != 1;
		case 3: return n % 3 == 0;
		case 4: case 5: return n == 0 || n >= 3;
		case 6: return patch > 0 && n % patch == 0;
		default: return false;
	}
}
static bool isStrip(int prim) { return prim == 2 || prim == 4 || prim == 5; }
static std::uint32_t restartOf(int indexType) { return indexType == 1 ? 0xFFFFu : 0xFFFFFFFFu; }

// mode 0: mostly well formed; 1: construction and stream sequences with defects (C08); 2: hostile
// indices (C13); 3: large (natural 16-bit split)
static void generate(std::uint64_t seed, int mode)
{
	Rng r(seed*0x9E3779B97F4A7C15ULL + mode);
	cs = Case();
	cs.seed = seed;
	cs.mode = mode;
	cs.prim = int(r.below(7));
	if (r.chance(1, 3))
		cs.prim = 4 + int(r.below(2));
	cs.patch = cs.prim == 6 ? 1 + int(r.below(5)) : int(r.below(3));
	cs.outIndex = r.chance(1, 7) ? 0 : 1 + int(r.below(2));
	cs.defaultMax = r.chance(1, 4) || mode == 3;
	cs.moved = r.chance(1, 6);
	std::uint32_t need = minIndices(cs.prim, cs.patch);
	cs.maxIndex = need - 1 + r.below(r.chance(1, 2) ? 4 : 12);
	if (cs.defaultMax)
		cs.maxIndex = cs.outIndex == 1 ? 0xFFFE : cs.outIndex == 2 ? 0xFFFFFFFE : 0;

	int nOut = 1 + r.below(3), name = 0;
	bool wantOne = mode == 3;
	if (wantOne)
		nOut = 1 + r.below(2);
	for (int i = 0; i < nOut; ++i)
	{
		cs.out.emplace_back();
		int n = 1 + r.below(wantOne ? 1 : r.chance(1, 2) ? 2 : 4);
		for (int j = 0; j < n; ++j)
		{
			Elem e = randomElem(name++, r);
			if (wantOne)
				e = Elem{e.name, 11, 2, 0};
			e.transform = r.chance(1, 2) || wantOne ? 0 : int(r.below(4));
			cs.out.back().push_back(e);
		}
	}
	int total = name;
	cs.single = nOut == 1 && r.chance(1, 2);

	// positions
	std::uint32_t n;
	if (mode == 3)
		n = 66000 + r.below(3000);
	else
		n = r.below(r.chance(1, 12) ? 200 : r.chance(1, 2) ? 14 : 40);
	if (!countOk(cs.prim, n, cs.patch))
	{
		if (cs.prim == 6) n = n/cs.patch*cs.patch;
		else if (cs.prim == 1) n &= ~1u;
		else if (cs.prim == 3) n = n/3*3;
		else n = need;
	}
	// partition of the elements over input streams
	int nIn = 1 + r.below(std::min(total, 4));
	std::vector<std::vector<int>> part(nIn);
	for (int i = 0; i < total; ++i)
		part[i < nIn ? i : r.below(nIn)].push_back(i);
	bool anyRestart = isStrip(cs.prim) && (cs.outIndex != 0 || r.chance(1, 8)) && r.chance(2, 3) && mode != 3;
	std::vector<bool> restarts(n, false);
	if (anyRestart)
	{
		std::uint32_t every = 2 + r.below(9);
		for (std::uint32_t i = 0; i < n; ++i)
			restarts[i] = r.chance(1, every);
	}
	for (int s = 0; s < nIn; ++s)
	{
		Stream st;
		for (int id : part[s])
		{
			Elem e = randomElem(id, r);
			// often the same format or the same value class as the target, so values are not all clamped
			for (auto& o : cs.out)
				for (auto& oe : o)
					if (oe.name == id && r.chance(1, 3))
						e = oe;
			if (mode == 3)
				e = Elem{id, 11, 2, 0};
			st.elems.push_back(e);
		}
		if (r.chance(1, 4))
			st.elems.push_back(randomElem(12 + s, r)); // not in the output
		for (std::size_t i = st.elems.size(); i > 1; --i)
			std::swap(st.elems[i - 1], st.elems[r.below(std::uint32_t(i))]);
		for (auto& e : st.elems)
			st.stride += layouts[e.layout].bytes;
		st.indexType = r.chance(1, 4) ? 0 : 1 + int(r.below(2));
		if (mode == 3)
			st.indexType = 0;
		bool low = r.chance(1, 2);
		if (st.indexType == 0)
		{
			st.vertexCount = n;
			if (anyRestart && r.chance(3, 4))
			{
				st.indexType = 1 + int(r.below(2));
			}
		}
		if (st.indexType != 0)
		{
			st.vertexCount = 1 + r.below(r.chance(1, 30) ? 70000 : r.chance(1, 2) ? 6 : 40);
			std::uint32_t run = r.below(4);
			for (std::uint32_t i = 0; i < n; ++i)
			{
				std::uint32_t v = run == 0 ? i % st.vertexCount : run == 1 && i ? std::min(st.vertexCount - 1, r.below(3) + i/2) : r.below(st.vertexCount);
				if (st.indexType == 1)
					v &= 0xFFFF;
				if (v >= st.vertexCount || (isStrip(cs.prim) && v == restartOf(st.indexType)))
					v = 0;
				if (restarts[i] && r.chance(7, 8))
					v = restartOf(st.indexType);
				st.indices.push_back(v);
			}
		}
		st.data.resize(std::size_t(st.vertexCount)*st.stride);
		for (std::uint32_t v = 0; v < st.vertexCount; ++v)
		{
			if (low && v && r.chance(1, 3))
			{
				std::uint32_t from = r.below(v);
				std::memcpy(&st.data[std::size_t(v)*st.stride], &st.data[std::size_t(from)*st.stride], st.stride);
				if (r.chance(1, 2))
				{
					// differ in the last element only
					int off = st.stride - layouts[st.elems.back().layout].bytes;
					randomElementData(&st.data[std::size_t(v)*st.stride + off], st.elems.back().layout, st.elems.back().type, r, false);
				}
				continue;
			}
			std::uint8_t* d = &st.data[std::size_t(v)*st.stride];
			for (auto& e : st.elems)
			{
				randomElementData(d, e.layout, e.type, r, low);
				d += layouts[e.layout].bytes;
			}
		}
		if (mode == 3)
		{
			for (std::uint32_t v = 0; v < st.vertexCount; ++v)
				std::memcpy(&st.data[std::size_t(v)*st.stride], &v, 4);
		}
		cs.streams.push_back(std::move(st));
	}
	if (mode == 1)
	{
		// defects in construction
		if (r.chance(1, 3))
		{
			switch (r.below(7))
			{
				case 0: cs.out.clear(); cs.single = false; break;
				case 1: cs.out[r.below(nOut)].clear(); break;
				case 2: cs.prim = -1; break;
				case 3: cs.prim = 6; cs.patch = 0; break;
				case 4: cs.maxIndex = need >= 2 ? need - 2 : 0; cs.defaultMax = false; break;
				case 5: cs.maxIndex = cs.outIndex == 1 ? 0x10000 : 0xFFFFFFFF; cs.defaultMax = false; break;
				case 6: cs.maxIndex = cs.outIndex == 1 ? 0xFFFF : 0xFFFFFFFF; cs.defaultMax = false; break;
			}
		}
		// extra and defective streams
		std::vector<Stream> seq;
		for (auto& st : cs.streams)
		{
			if (r.chance(2, 3))
			{
				Stream bad = st;
				switch (r.below(8))
				{
					case 0: bad.nullData = true; break;
					case 1: bad.nullIndices = true; if (bad.indexType == 0) bad.indexType = 2; break;
					case 2:
						// a different number of positions
						if (bad.indexType)
						{
							if (r.chance(1, 2) && !bad.indices.empty()) bad.indices.pop_back();
							else for (std::uint32_t k = 1 + r.below(6); k--;) bad.indices.push_back(0);
						}
						else if (bad.vertexCount > 1)
						{
							bad.vertexCount -= 1 + r.below(std::min(bad.vertexCount - 1, 4u));
							bad.data.resize(std::size_t(bad.vertexCount)*bad.stride);
						}
						break;
					case 3:
						// duplicate of an earlier stream's element
						if (!seq.empty() && !seq[0].elems.empty())
						{
							bad = seq[r.below(std::uint32_t(seq.size()))];
						}
						break;
					case 4:
						for (auto& e : bad.elems)
							e.name = 12 + (e.name & 3);
						bad.elems.resize(1);
						bad.stride = layouts[bad.elems[0].layout].bytes;
						bad.data.resize(std::size_t(bad.vertexCount)*bad.stride);
						break;
					case 5:
						bad.indexType = 0;
						bad.indices.clear();
						break;
					case 6:
						if (bad.indexType)
							bad.indices.clear();
						else
						{
							bad.vertexCount = 0;
						}
						break;
					case 7:
						// one new element, one that is present already
						if (!seq.empty() && !seq[0].elems.empty() && std::none_of(bad.elems.begin(), bad.elems.end(),
								[&](const Elem& e) { return e.name == seq[0].elems[0].name; }))
						{
							bad.elems.push_back(seq[0].elems[0]);
							bad.stride += layouts[bad.elems.back().layout].bytes;
							bad.data.assign(std::size_t(bad.vertexCount)*bad.stride, 0);
						}
						break;
				}
				if (bad.indexType == 0)
					bad.indices.clear();
				seq.push_back(bad);
			}
			if (!r.chance(1, 12))
				seq.push_back(st);
		}
		if (r.chance(1, 6) && !seq.empty())
			seq.push_back(seq[r.below(std::uint32_t(seq.size()))]);
		cs.streams = std::move(seq);
	}
	if (mode == 2 && !cs.streams.empty())
	{
		int k = 1 + r.below(2);
		while (k--)
		{
			Stream& st = cs.streams[r.below(std::uint32_t(cs.streams.size()))];
			if (st.indexType && !st.indices.empty() && r.chance(3, 4))
			{
				std::uint32_t at = r.chance(1, 3) ? std::uint32_t(st.indices.size()) - 1 : r.below(std::uint32_t(st.indices.size()));
				static const std::uint32_t vals[] = {0xFFFFFFFF, 0xFFFE, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE};
				std::uint32_t v = r.chance(1, 2) ? st.vertexCount + r.below(2) : vals[r.below(6)];
				if (st.indexType == 1)
					v &= 0xFFFF;
				st.indices[at] = v;
			}
			else if (!st.indexType && st.vertexCount > 1 && r.chance(1, 3))
				st.vertexCount = st.vertexCount; // nothing hostile possible
		}
		if (r.chance(1, 4))
		{
			// an element without a source
			Stream& st = cs.streams[r.below(std::uint32_t(cs.streams.size()))];
			st.elems[0].name = 15;
		}
		if (r.chance(1, 6))
			cs.outIndex = 0;
	}
}

// ---- evaluation --------------------------------------------------------------------------------
struct Buf // exact-size heap copy
{
	std::uint8_t* p = nullptr;
	explicit Buf(const void* d, std::size_t n) { p = static_cast<std::uint8_t*>(std::malloc(n ? n : 1)); if (n) std::memcpy(p, d, n); size = n;
		if (!n) { std::free(p); p = static_cast<std::uint8_t*>(std::malloc(0)); } }
	std::size_t size;
	~Buf() { std::free(p); }
	Buf(const Buf&) = delete;
};

static int g_errors;
static vfc::VertexFormat makeFormat(const std::vector<Elem>& el)
{
	vfc::VertexFormat f;
	for (auto& e : el)
		f.appendElement(elemName(e.name), static_cast<vfc::ElementLayout>(e.layout), static_cast<vfc::ElementType>(e.type));
	return f;
}

struct Source { int stream = -1, elem = 0, offset = 0; };
struct OutElem { Elem e; Source src; int offset; double lo[4], hi[4]; };

static std::uint32_t indexAt(const Stream& s, std::uint32_t k) { return s.indexType ? s.indices[k] : k; }

static void readElem(double v[4], const OutElem& o, std::uint32_t k)
{
	const Stream& s = cs.streams[o.src.stream];
	const Elem& e = s.elems[o.src.elem];
	decode(v, &s.data[std::size_t(indexAt(s, k))*s.stride + o.src.offset], e.layout, e.type);
}

// Does output vertex `v` hold position k?
struct Model
{
	std::vector<std::vector<OutElem>> out;
	std::vector<int> strides;
	std::uint32_t n = 0;
	bool seenPositions = false;
	const vfc::Converter* conv = nullptr;
	const char* firstBad = nullptr;
	bool transformBad = false;

	bool elemMatches(const OutElem& o, const std::uint8_t* d, std::uint32_t k) const
	{
		double v[4];
		readElem(v, o, k);
		switch (o.e.transform)
		{
			case 1:
				if (o.e.type <= 1)
					return checkBounded(d, o.e.layout, o.e.type, v, o.lo, o.hi) == nullptr;
				break;
			case 2:
				for (double& x : v)
					x = x*2 - 1;
				break;
			case 3:
				for (double& x : v)
					x = x*0.5 + 0.5;
				break;
		}
		if (layouts[o.e.layout].kind < 8)
			return encodePacked(d, o.e.layout, v);
		return checkEncode(d, o.e.layout, o.e.type, v) == nullptr;
	}
	bool matches(std::uint32_t vertex, std::uint32_t k) const
	{
		for (std::size_t i = 0; i < out.size(); ++i)
		{
			const std::uint8_t* d = conv->getVertices()[i].data() + std::size_t(vertex)*strides[i];
			for (auto& o : out[i])
				if (!elemMatches(o, d + o.offset, k))
					return false;
		}
		return true;
	}
};

struct Prim { std::uint32_t v[8]; int n; int strip; int buffer; };

// Assembles primitives from a sequence with restarts marked as RESTART.
static const std::uint32_t RESTART = 0xFFFFFFFF;
static void assemble(std::vector<Prim>& outp, const std::vector<std::uint32_t>& seq, int buffer, int& strip)
{
	int per = cs.prim == 0 ? 1 : cs.prim == 1 ? 2 : cs.prim == 3 ? 3 : cs.prim == 6 ? cs.patch : 0;
	if (per)
	{
		for (std::size_t i = 0; i + per <= seq.size(); i += per)
		{
			Prim p{};
			p.n = per;
			p.buffer = buffer;
			for (int j = 0; j < per; ++j)
				p.v[j] = seq[i + j];
			outp.push_back(p);
		}
		return;
	}
	std::size_t start = 0;
	for (std::size_t i = 0; i <= seq.size(); ++i)
	{
		if (i < seq.size() && seq[i] != RESTART)
		{
			std::size_t c = i - start;
			Prim p{};
			p.buffer = buffer;
			p.strip = strip;
			if (cs.prim == 2 && c >= 1)
			{
				p.n = 2;
				p.v[0] = seq[i - 1];
				p.v[1] = seq[i];
			}
			else if (cs.prim == 4 && c >= 2)
			{
				p.n = 3;
				bool odd = (c - 2) & 1;
				p.v[0] = seq[i - 2 + odd];
				p.v[1] = seq[i - 1 - odd];
				p.v[2] = seq[i];
			}
			else if (cs.prim == 5 && c >= 2)
			{
				p.n = 3;
				p.v[0] = seq[start];
				p.v[1] = seq[i - 1];
				p.v[2] = seq[i];
			}
			if (p.n)
				outp.push_back(p);
		}
		else
		{
			start = i + 1;
			if (i < seq.size())
				++strip;
		}
	}
}

static bool primMatches(const Model& m, const Prim& o, const Prim& e, bool flip)
{
	if (o.n != e.n)
		return false;
	int rots = cs.prim >= 3 && cs.prim <= 5 ? 3 : 1;
	for (int r = 0; r < rots; ++r)
	{
		bool ok = true;
		for (int i = 0; i < o.n && ok; ++i)
		{
			int k = (i + r) % o.n;
			ok = m.matches(o.v[flip ? (k == 0 ? 1 : k == 1 ? 0 : k) : k], e.v[i]);
		}
		if (ok)
			return true;
	}
	return false;
}

static void verifyOutput(const vfc::Converter& conv, Model& m)
{
	m.conv = &conv;
	const auto& verts = conv.getVertices();
	if (verts.size() != cs.out.size())
		return failP("C09", "wrong number of output vertex streams");
	std::uint32_t count = 0;
	for (std::size_t i = 0; i < verts.size(); ++i)
	{
		if (verts[i].size() % m.strides[i] != 0)
			return failP("C09", "vertex data is not a whole number of vertices");
		auto c = std::uint32_t(verts[i].size()/m.strides[i]);
		if (i && c != count)
			return failP("C09", "output streams hold different numbers of vertices");
		count = c;
	}
	if (conv.getVertexCount() != count)
		return failP("C09", "reported vertex count is wrong");

	// bounds
	for (std::size_t i = 0; i < m.out.size(); ++i)
		for (std::size_t j = 0; j < m.out[i].size(); ++j)
		{
			const OutElem& o = m.out[i][j];
			vfc::VertexValue lo(7, 7, 7, 7), hi(7, 7, 7, 7), lo2, hi2;
			conv.getVertexElementBounds(lo, hi, i, j);
			const vfc::VertexValue &clo = lo, &chi = hi;
			for (int c = 0; c < 4; ++c)
				if (clo[c] != o.lo[c] || chi[c] != o.hi[c])
					return failP("C12", fmt("element '%s' component %d bounds [%g, %g], expected [%g, %g]", elemName(o.e.name), c,
						clo[c], chi[c], o.lo[c], o.hi[c]));
			if (!conv.getVertexElementBounds(lo2, hi2, elemName(o.e.name)) || lo2 != lo || hi2 != hi ||
				!conv.getVertexElementBounds(lo2, hi2, std::string(elemName(o.e.name))) || lo2 != lo || hi2 != hi)
				return failP("C12", fmt("bounds of '%s' by name differ", elemName(o.e.name)));
		}
	vfc::VertexValue dummy;
	if (conv.getVertexElementBounds(dummy, dummy, "no such element") || conv.getVertexElementBounds(dummy, dummy, "POS"))
		return failP("C12", "bounds of an unknown element reported");

	// restarts of the input
	std::vector<std::uint32_t> seq(m.n);
	std::uint32_t restartCount = 0;
	for (std::uint32_t k = 0; k < m.n; ++k)
	{
		seq[k] = k;
		if (isStrip(cs.prim))
			for (auto& os : m.out)
				for (auto& o : os)
				{
					const Stream& s = cs.streams[o.src.stream];
					if (s.indexType && s.indices[k] == restartOf(s.indexType))
						seq[k] = RESTART;
				}
		restartCount += seq[k] == RESTART;
	}
	const char* content = nullptr;
	const auto& bufs = conv.getIndices();
	if (cs.outIndex == 0)
	{
		if (!bufs.empty())
			return failP("C10", "index buffers without output indices");
		if (count != m.n)
			return failP("C09", fmt("%u vertices for %u positions", count, m.n));
		for (std::uint32_t k = 0; k < m.n; ++k)
			if (!m.matches(k, k))
				return failP(m.transformBad ? "C04" : "C09", fmt("vertex %u does not hold its source values", k));
		cover("unindexed output");
		return;
	}
	// index buffers
	unsigned w = cs.outIndex == 1 ? 2 : 4;
	if (bufs.empty())
		return failP("C10", "no index buffer");
	std::uint32_t restart = restartOf(cs.outIndex);
	std::vector<std::vector<std::uint32_t>> lists; // absolute vertex numbers, RESTART
	const std::uint8_t* prevEnd = nullptr;
	std::int64_t prevBase = 0;
	std::uint64_t totalIndices = 0;
	for (auto& b : bufs)
	{
		if ((int)b.type != cs.outIndex)
			return failP("C10", "index buffer of the wrong type");
		auto p = static_cast<const std::uint8_t*>(b.data);
		if (b.count && (!p || p < prevEnd))
			return failP("C10", "index buffers overlap");
		if (b.baseVertex < prevBase || (&b == &bufs.front() && b.baseVertex != 0))
			return failP("C10", "base vertices decrease or do not start at zero");
		prevBase = b.baseVertex;
		if (b.count)
			prevEnd = p + std::size_t(b.count)*w;
		totalIndices += b.count;
		lists.emplace_back();
		std::vector<std::pair<std::uint32_t, std::uint64_t>> used;
		for (std::uint32_t i = 0; i < b.count; ++i)
		{
			std::uint32_t v = 0;
			std::memcpy(&v, p + std::size_t(i)*w, w); // ASan checks that the run is inside the index data
			if (isStrip(cs.prim) && v == restart)
			{
				lists.back().push_back(RESTART);
				continue;
			}
			if (v > cs.maxIndex)
				return failP("C10", fmt("index %u above the maximum %u", v, cs.maxIndex));
			std::uint64_t abs = std::uint64_t(v) + std::uint32_t(b.baseVertex);
			if (abs >= count)
				return failP("C10", fmt("index %u + base %d beyond the %u vertices", v, b.baseVertex, count));
			lists.back().push_back(std::uint32_t(abs));
			std::uint64_t h = 1469598103934665603ULL;
			for (std::size_t s = 0; s < verts.size(); ++s)
				h = fnv(verts[s].data() + abs*m.strides[s], m.strides[s], h);
			used.push_back({std::uint32_t(abs), h});
		}
		std::sort(used.begin(), used.end());
		used.erase(std::unique(used.begin(), used.end()), used.end());
		std::sort(used.begin(), used.end(), [](auto& a, auto& b) { return a.second < b.second; });
		for (std::size_t i = 1; i < used.size(); ++i)
			if (used[i].second == used[i - 1].second)
			{
				bool same = true;
				for (std::size_t s = 0; s < verts.size(); ++s)
					same = same && std::memcmp(verts[s].data() + std::size_t(used[i].first)*m.strides[s],
						verts[s].data() + std::size_t(used[i - 1].first)*m.strides[s], m.strides[s]) == 0;
				if (same)
					return failP("C10", fmt("vertices %u and %u of one buffer are identical", used[i - 1].first, used[i].first));
			}
	}
	if (bufs.size() > 1)
		cover("split output");
	if (bufs.size() > 2)
		cover("several splits");
	if (restartCount)
		cover("restarts");
	if (restartCount && bufs.size() > 1)
		cover("restarts and splits");

	// C09: align the index sequence with the positions
	{
		std::size_t b = 0;
		// possible number of positions consumed so far
		std::set<std::uint32_t> at{0};
		auto itemOk = [&](std::uint32_t item, std::uint32_t k) {
			if (k >= m.n)
				return false;
			if (seq[k] == RESTART || item == RESTART)
				return seq[k] == RESTART && item == RESTART;
			return m.matches(item, k);
		};
		for (; b < lists.size(); ++b)
		{
			auto& l = lists[b];
			std::set<std::pair<std::uint32_t, std::size_t>> starts; // position, skip
			for (std::uint32_t pos : at)
			{
				starts.insert({pos, 0});
				if (b == 0 || !isStrip(cs.prim))
					continue;
				auto repeats = [&](std::size_t i, std::uint32_t k) {
					return i < l.size() && l[i] != RESTART && k < m.n && seq[k] != RESTART && m.matches(l[i], k);
				};
				// vertices repeated to continue the strip: the last one or two, for fans the first and the last
				std::uint32_t s = pos;
				while (s > 0 && seq[s - 1] != RESTART)
					--s;
				auto prefix = [&](std::uint32_t p) {
					// p: positions [s, p) came before
					if (p == s)
						return;
					if (cs.prim == 5)
					{
						if (p - s >= 2 && repeats(0, s) && repeats(1, p - 1))
							starts.insert({p, 2});
						if (p - s == 1 && repeats(0, s))
							starts.insert({p, 1});
					}
					else
					{
						if (repeats(0, p - 1) && (cs.prim == 2 || p - s == 1))
							starts.insert({p, 1});
						if (cs.prim == 4 && p - s >= 2 && repeats(0, p - 2) && repeats(1, p - 1))
							starts.insert({p, 2});
					}
				};
				prefix(pos);
			}
			std::set<std::uint32_t> next;
			for (auto& st : starts)
			{
				std::uint32_t k = st.first;
				std::size_t i = st.second;
				for (; i < l.size(); ++i, ++k)
					if (!itemOk(l[i], k))
						break;
				if (i >= l.size())
					next.insert(k);
			}
			at = next;
			if (at.empty())
			{
				failP("C09", fmt("index buffer %zu does not follow the input positions with their source values", b));
				break;
			}
		}
		if (!at.empty() && !at.count(m.n))
			failP("C09", fmt("only %u of %u positions are present in the output", *at.rbegin(), m.n));
		if (g_other && opt().prop == "C04")
			fail("output vertex does not hold the transformed value");
	}
	(void)content;

	// C11: primitives
	std::vector<Prim> want, got;
	int strip = 0;
	assemble(want, seq, 0, strip);
	for (std::size_t b = 0; b < lists.size(); ++b)
	{
		strip = 0;
		assemble(got, lists[b], int(b), strip);
	}
	if (want.size() != got.size())
		return failP("C11", fmt("%zu primitives in, %zu out", want.size(), got.size()));
	bool plain = true;
	std::size_t bad = 0;
	for (std::size_t i = 0; i < want.size() && plain; ++i)
		if (!primMatches(m, got[i], want[i], false))
		{
			plain = false;
			bad = i;
		}
	if (!plain)
	{
		// The listed finding: a triangle strip continued in a new index buffer after an odd number of
		// vertices has its winding flipped; nothing else may differ.
		bool listed = cs.prim == 4;
		bool flip = false;
		std::size_t inBuffer = 0; // triangles of this strip in the current buffer
		for (std::size_t i = 0; i < want.size() && listed; ++i)
		{
			if (i == 0 || want[i].strip != want[i - 1].strip)
			{
				flip = false;
				inBuffer = 0;
			}
			else if (got[i].buffer != got[i - 1].buffer)
			{
				flip ^= inBuffer & 1;
				inBuffer = 0;
			}
			++inBuffer;
			listed = primMatches(m, got[i], want[i], flip);
		}
		if (!listed)
			return failP("C11", fmt("primitive %zu differs from the input", bad));
		if (opt().prop == "C11")
			known("C11-strip-winding", "a TriangleStrip that is continued in a new index buffer after an odd number of vertices has the "
				"winding of its triangles flipped in that buffer (the index count is asserted by the existing test)");
	}
	if (!want.empty())
		cover("primitives compared");
}

static void evaluate()
{
	++evals();
	g_other = false;
	alarm(60);
	using vfc::Converter;
	Model m;
	g_errors = 0;
	auto errFn = [](const char* msg) { if (msg && *msg) ++g_errors; };
	std::vector<vfc::VertexFormat> outFormat;
	for (auto& o : cs.out)
		outFormat.push_back(makeFormat(o));
	auto it = static_cast<vfc::IndexType>(cs.outIndex);
	auto pt = static_cast<vfc::PrimitiveType>(cs.prim);
	std::unique_ptr<Converter> conv;
	if (cs.single && cs.out.size() == 1)
		conv.reset(cs.defaultMax ? new Converter(outFormat[0], it, pt, cs.patch, errFn) :
			new Converter(outFormat[0], it, pt, cs.patch, cs.maxIndex, errFn));
	else
		conv.reset(cs.defaultMax ? new Converter(outFormat, it, pt, cs.patch, errFn) :
			new Converter(outFormat, it, pt, cs.patch, cs.maxIndex, errFn));
	std::uint32_t maxIndex = cs.defaultMax ? vfc::maxIndexValue(it) : cs.maxIndex;
	cs.maxIndex = maxIndex;

	bool okCtor = !cs.out.empty();
	for (auto& o : cs.out)
		okCtor = okCtor && !o.empty();
	okCtor = okCtor && cs.prim >= 0 && !(cs.prim == 6 && cs.patch == 0);
	if (cs.outIndex != 0)
		okCtor = okCtor && maxIndex + std::uint64_t(1) >= minIndices(cs.prim, cs.patch) && maxIndex <= restartOf(cs.outIndex);
	if (conv->isValid() != okCtor || bool(*conv) != okCtor)
		failP("C08", fmt("converter validity is %d, expected %d", conv->isValid(), okCtor));
	if (conv->isValid() != okCtor)
		return;
	if (!okCtor && g_errors == 0)
		failP("C08", "invalid construction without an error message");
	if (okCtor && g_errors != 0)
		failP("C08", "error message for a valid construction");
	if (okCtor && (conv->getIndexType() != it || conv->getPrimitiveType() != pt || conv->getPatchPoints() != unsigned(cs.patch) ||
		conv->getMaxIndexValue() != maxIndex || conv->getVertexFormat() != outFormat))
		failP("C08", "the converter does not report its parameters");
	if (!okCtor)
		cover("invalid converter");

	m.out.resize(cs.out.size());
	if (okCtor)
		for (std::size_t i = 0; i < cs.out.size(); ++i)
		{
			int off = 0;
			for (auto& e : cs.out[i])
			{
				OutElem o{e, {}, off, {}, {}};
				off += layouts[e.layout].bytes;
				m.out[i].push_back(o);
			}
			m.strides.push_back(off);
		}
	std::vector<std::unique_ptr<Buf>> keep;
	bool countKnown = false, looseCount = false;
	std::uint32_t n = 0;
	int idx = -1;
	for (auto& st : cs.streams)
	{
		++idx;
		keep.emplace_back(new Buf(st.data.data(), st.data.size()));
		std::uint8_t* data = keep.back()->p;
		std::vector<std::uint8_t> raw;
		for (std::uint32_t v : st.indices)
			for (int b = 0; b < (st.indexType == 1 ? 2 : 4); ++b)
				raw.push_back(std::uint8_t(v >> (8*b)));
		keep.emplace_back(new Buf(raw.data(), raw.size()));
		const void* ind = keep.back()->p;
		if (st.indexType == 0 && cs.seed & 1)
			ind = nullptr;
		std::uint32_t count = st.indexType ? std::uint32_t(st.indices.size()) : st.vertexCount;
		bool ok = okCtor && !st.nullData && !(st.indexType && st.nullIndices);
		bool either = false;
		if (ok && countKnown && count != n)
		{
			ok = false;
			either = looseCount; // only streams without positions and without elements so far
		}
		if (!countOk(cs.prim, count, cs.patch))
		{
			ok = false;
			either = false;
		}
		bool has = false, dup = false;
		std::set<std::string> names;
		for (auto& e : st.elems)
			names.insert(elemName(e.name));
		for (auto& os : m.out)
			for (auto& o : os)
				if (names.count(elemName(o.e.name)))
				{
					has = true;
					dup = dup || o.src.stream >= 0;
				}
		if (dup)
		{
			ok = false;
			either = false;
		}
		int before = g_errors;
		bool got;
		if (st.indexType == 0 && cs.seed % 3 == 0)
			got = conv->addVertexStream(makeFormat(st.elems), st.nullData ? nullptr : data, st.vertexCount);
		else
			got = conv->addVertexStream(makeFormat(st.elems), st.nullData ? nullptr : data, st.vertexCount,
				static_cast<vfc::IndexType>(st.indexType), st.nullIndices ? nullptr : ind,
				st.indexType ? std::uint32_t(st.indices.size()) : 12345);
		if (got != ok && !either)
		{
			failP("C08", fmt("adding stream %d returned %d, expected %d", idx, got, ok));
			return;
		}
		ok = got;
		if (!ok && g_errors == before)
			failP("C08", "stream refused without an error message");
		if (ok && g_errors != before)
			failP("C08", "error message for an accepted stream");
		cover(ok ? "stream accepted" : "stream refused");
		if (!ok)
			continue;
		looseCount = (!countKnown || looseCount) && count == 0 && !has;
		countKnown = true;
		n = count;
		std::set<std::string> done;
		int off = 0;
		for (std::size_t k = 0; k < st.elems.size(); ++k)
		{
			// makeFormat drops repeated names, so the first one counts
			if (done.insert(elemName(st.elems[k].name)).second)
			{
				for (auto& os : m.out)
					for (auto& o : os)
						if (std::strcmp(elemName(o.e.name), elemName(st.elems[k].name)) == 0 && o.src.stream < 0)
							o.src = Source{idx, int(k), off};
				off += layouts[st.elems[k].layout].bytes;
			}
			else
				failP("C08", "internal: repeated input name");
		}
		if (cs.moved && okCtor)
		{
			std::unique_ptr<Converter> c2(new Converter(std::move(*conv)));
			conv = std::move(c2);
		}
	}
	m.n = n;
	// transforms
	if (okCtor)
	{
		for (std::size_t i = 0; i < m.out.size(); ++i)
			for (std::size_t j = 0; j < m.out[i].size(); ++j)
			{
				auto& o = m.out[i][j];
				if (conv->getElementTransform(i, j) != Converter::Transform::Identity)
					failP("C04", "transform is not the identity by default");
				auto t = static_cast<Converter::Transform>(o.e.transform);
				bool r = true;
				switch ((cs.seed + j) % 3)
				{
					case 0: r = conv->setElementTransform(elemName(o.e.name), t); break;
					case 1: r = conv->setElementTransform(std::string(elemName(o.e.name)), t); break;
					default: conv->setElementTransform(i, j, t); break;
				}
				if (!r)
					failP("C04", "setting the transform of a known element failed");
			}
		if (conv->setElementTransform("no such element", Converter::Transform::Bounds) ||
			conv->setElementTransform(std::string("POS"), Converter::Transform::UNormToSNorm))
			failP("C04", "setting the transform of an unknown element succeeded");
		for (std::size_t i = 0; i < m.out.size(); ++i)
			for (std::size_t j = 0; j < m.out[i].size(); ++j)
			{
				auto t = static_cast<Converter::Transform>(m.out[i][j].e.transform);
				if (conv->getElementTransform(i, j) != t || conv->getElementTransform(elemName(m.out[i][j].e.name)) != t ||
					conv->getElementTransform(std::string(elemName(m.out[i][j].e.name))) != t)
					failP("C04", fmt("transform of element %zu.%zu reads back wrong", i, j));
			}
		if (conv->getElementTransform("no such element") != Converter::Transform::Identity)
			failP("C04", "unknown element has a transform");
	}

	// expectation for convert()
	bool ok = okCtor;
	for (auto& os : m.out)
		for (auto& o : os)
			ok = ok && o.src.stream >= 0;
	if (ok)
		for (auto& os : m.out)
			for (auto& o : os)
			{
				Stream& s = cs.streams[o.src.stream];
				for (int c = 0; c < 4; ++c)
				{
					o.lo[c] = std::numeric_limits<double>::max();
					o.hi[c] = -std::numeric_limits<double>::max();
				}
				for (std::uint32_t k = 0; k < n; ++k)
				{
					std::uint32_t i = indexAt(s, k);
					if (s.indexType && isStrip(cs.prim) && i == restartOf(s.indexType))
					{
						if (cs.outIndex == 0)
							ok = false;
						continue;
					}
					if (i >= s.vertexCount)
					{
						ok = false;
						continue;
					}
					double v[4];
					readElem(v, o, k);
					for (int c = 0; c < 4; ++c)
					{
						o.lo[c] = std::min(o.lo[c], v[c]);
						o.hi[c] = std::max(o.hi[c], v[c]);
					}
				}
			}
	int before = g_errors;
	bool got = conv->convert();
	if (got != ok)
	{
		failP("C13", fmt("conversion returned %d, expected %d", got, ok));
		return;
	}
	if (!ok && g_errors == before)
		failP("C13", "conversion failed without an error message");
	if (ok && g_errors != before)
		failP("C13", "error message for a successful conversion");
	cover(ok ? "conversion succeeded" : "conversion refused");
	if (!ok)
	{
		if (!conv->getVertices().empty() || !conv->getIndices().empty() || conv->getVertexCount() != 0)
			failP("C13", "failed conversion left output behind");
		if (conv->convert())
			failP("C13", "repeating a failed conversion succeeded");
		return;
	}
	verifyOutput(*conv, m);
	auto v = conv->getVertices();
	std::size_t nb = conv->getIndices().size();
	before = g_errors;
	if (conv->convert() || g_errors == before || conv->getVertices() != v || conv->getIndices().size() != nb)
		failP("C13", "second conversion not refused cleanly");
	// the inputs are untouched
	std::size_t k = 0;
	for (auto& st : cs.streams)
	{
		if (keep[k]->size && std::memcmp(keep[k]->p, st.data.data(), st.data.size()) != 0)
			failP("C13", "conversion changed its input data");
		k += 2;
	}
	alarm(0);
}

static void runOne(std::uint64_t seed, int mode)
{
	generate(seed, mode);
	evaluate();
	alarm(0);
	std::uint64_t h = fnv(&cs.prim, sizeof cs.prim, cs.maxIndex + cs.outIndex*77);
	for (auto& s : cs.streams)
	{
		h = fnv(s.data.data(), s.data.size(), h);
		h = fnv(s.indices.data(), s.indices.size()*4, h);
	}
	for (auto& o : cs.out)
		h = fnv(o.data(), o.size()*sizeof(Elem), h);
	countDistinct(h);
}

// A maximum equal to the restart value must not make a vertex look like a restart: needs 65536 distinct vertices.
static void restartMaximum()
{
	describer() = [] { return std::string("case restartmax\n"); };
	++evals();
	vfc::VertexFormat f;
	f.appendElement("pos", vfc::ElementLayout::X32, vfc::ElementType::UInt);
	std::vector<std::uint32_t> data(65540);
	for (std::size_t i = 0; i < data.size(); ++i)
		data[i] = std::uint32_t(i);
	vfc::Converter c(f, vfc::IndexType::UInt16, vfc::PrimitiveType::LineStrip, 0, 0xFFFF, [](const char*) {});
	if (!c || !c.addVertexStream(f, data.data(), std::uint32_t(data.size())) || !c.convert())
		return;
	auto& b = c.getIndices()[0];
	for (std::uint32_t i = 0; i < b.count; ++i)
		if (vfc::getIndexValue(b.type, b.data, i) == 0xFFFF)
			fail("a line strip of 65540 distinct vertices with maximum index 65535 uses index 65535, which means "
				"restart, for a vertex");
	describer() = describeCase;
}

static int replay()
{
	FILE* f = std::fopen(opt().replay.c_str(), "r");
	if (!f)
		return 2;
	static char line[1 << 16];
	unsigned long long seed;
	int mode;
	while (std::fgets(line, sizeof line, f))
		if (std::sscanf(line, "case conv %llu %d", &seed, &mode) == 2)
			runOne(seed, mode);
		else if (std::strncmp(line, "case restartmax", 15) == 0)
			restartMaximum();
	report();
	return 0;
}

int main(int argc, char** argv)
{
	if (!parse(argc, argv))
		return 2;
	install();
	describer() = describeCase;
	if (!opt().replay.empty())
		return replay();
	double until = now() + opt().budget;
	std::uint64_t base = opt().seed*1000003ULL;
	const std::string& p = opt().prop;
	// which modes to run, in rounds
	std::vector<int> modes = p == "C08" ? std::vector<int>{1, 1, 1, 0} : p == "C13" ? std::vector<int>{2, 2, 1, 0} :
		std::vector<int>{0, 0, 0, 2};
	if (p == "C11" && opt().seed % 8 == 0)
		restartMaximum();
	for (std::uint64_t k = 0; k < 4 || now() < until; ++k)
	{
		if (k == 3 && p != "C08" && p != "C04")
			for (int i = 0; i < 3; ++i)
				runOne(base + i, 3);
		for (int rep = 0; rep < 64; ++rep)
			runOne(base + k*64 + rep, modes[rep % modes.size()]);
		if (k < 12)
			sample(fmt("seed %llu: %s", (unsigned long long)cs.seed, describeCase().substr(0, 400).c_str()));
	}
	report();
	return 0;
}
