// Native driver for C05 (vertex formats), C06 (name/size/validity tables), C07 (index access).
#include "common.h"
#include "oracle.h"
#include <VFC/IndexData.h>
#include <algorithm>
#include <strings.h>
using namespace drv;
using namespace orc;

static std::string g_case;
static std::string describeCase() { return "case " + g_case; }

// ---- C05 -------------------------------------------------------------------------------------
struct Op { int kind; int name, layout, type; };
static const char* const namePool[] = {"a", "A", "b", "ab", "", "position", "Position", "position ", "x0", "x1", "x2",
	"a_rather_long_element_name_that_does_not_fit_small_strings", "a_rather_long_element_name_that_does_not_fit_small_string",
	"\xc3\xa9", "\xc3\x89"};
static const int namePoolSize = sizeof namePool/sizeof *namePool;

static void runOps(const std::vector<Op>& ops)
{
	++evals();
	g_case = "ops";
	for (const Op& o : ops)
		g_case += fmt(" %d,%d,%d,%d", o.kind, o.name, o.layout, o.type);
	vfc::VertexFormat f;
	std::vector<vfc::VertexElement> model;
	std::uint32_t stride = 0;
	for (const Op& o : ops)
	{
		const char* name = namePool[o.name];
		if (o.kind == 0)
		{
			auto r = f.appendElement(name, static_cast<vfc::ElementLayout>(o.layout), static_cast<vfc::ElementType>(o.type));
			auto want = vfc::VertexFormat::AddResult::Succeeded;
			if (!valid(o.layout, o.type))
				want = vfc::VertexFormat::AddResult::ElementInvalid;
			else
				for (auto& e : model)
					if (e.name == name)
						want = vfc::VertexFormat::AddResult::NameNotUnique;
			if (r != want)
				fail(fmt("append of '%s' returned %d, expected %d", name, (int)r, (int)want));
			if (want == vfc::VertexFormat::AddResult::Succeeded)
			{
				model.push_back({name, static_cast<vfc::ElementLayout>(o.layout), static_cast<vfc::ElementType>(o.type), stride});
				stride += layouts[o.layout].bytes;
			}
		}
		else if (o.kind == 1)
		{
			f.clear();
			model.clear();
			stride = 0;
		}
		else
		{
			// a copy that goes its own way must not disturb the original
			vfc::VertexFormat g = f;
			if (!(g == f) || g != f)
				fail("a copy differs");
			if (g.appendElement("copy", vfc::ElementLayout::X32Y32, vfc::ElementType::Float) ==
				vfc::VertexFormat::AddResult::Succeeded && (g == f || !(g != f)))
				fail("formats of different size compare equal");
			vfc::VertexFormat h;
			for (std::size_t i = 0; i < model.size(); ++i)
			{
				if (h.containsElements(f) != (model.size() == i && true))
				{
					bool all = true;
					for (auto& e : model)
						all = all && h.find(e.name) != h.end();
					if (h.containsElements(f) != all)
						fail("containsElements disagrees with the element lists");
				}
				if (!f.containsElements(h))
					fail("containsElements misses a contained prefix");
				h.appendElement(model[i].name, model[i].layout, model[i].type);
				if ((h == f) != (i + 1 == model.size()))
					fail("equality disagrees with the element lists");
			}
			if (!model.empty())
			{
				// same shape, one attribute different
				vfc::VertexFormat k;
				for (std::size_t i = 0; i < model.size(); ++i)
					k.appendElement(i + 1 == model.size() ? model[i].name + "'" : model[i].name, model[i].layout, model[i].type);
				if (k == f || f == k || k.containsElements(f))
					fail("formats with different names compare equal or contained");
				// every other valid layout/type for one element
				std::size_t at = evals() % model.size();
				for (int l = 0; l < layoutCount; ++l)
					for (int ty = 0; ty < typeCount; ++ty)
					{
						const vfc::VertexElement& m = model[at];
						if (!valid(l, ty) || (l == (int)m.layout && ty == (int)m.type))
							continue;
						vfc::VertexFormat v;
						for (std::size_t i = 0; i < model.size(); ++i)
							v.appendElement(model[i].name, i == at ? static_cast<vfc::ElementLayout>(l) : model[i].layout,
								i == at ? static_cast<vfc::ElementType>(ty) : model[i].type);
						if (v == f || f == v || !(v != f) || !(f != v))
							fail(fmt("formats that differ in element %zu (layout %d type %d) compare equal", at, l, ty));
						if (!v.containsElements(f) || !f.containsElements(v))
							fail("containment depends on more than the names");
						vfc::VertexElement a = m, b = m;
						b.offset += 1;
						if (a == b || !(a != b) || v[at] == m || !(v[at] != m))
							fail("different elements compare equal");
					}
			}
		}
		if (f.size() != model.size() || f.empty() != model.empty() || f.stride() != stride)
			fail(fmt("size %zu stride %u, expected %zu %u", f.size(), f.stride(), model.size(), stride));
		std::size_t i = 0;
		for (auto& e : f)
		{
			const vfc::VertexElement& m = model[i];
			if (e.name != m.name || e.layout != m.layout || e.type != m.type || e.offset != m.offset)
				fail(fmt("element %zu differs from what was appended (offset %u, expected %u)", i, e.offset, m.offset));
			if (e != model[i] || !(f[i] == model[i]) || f.at(i) != model[i])
				fail(fmt("element %zu differs from what was appended (offset %u, expected %u)", i, e.offset, model[i].offset));
			++i;
		}
		for (int n = 0; n < namePoolSize; ++n)
		{
			auto it = std::find_if(model.begin(), model.end(), [&](const vfc::VertexElement& e) { return e.name == namePool[n]; });
			auto got = f.find(namePool[n]), got2 = f.find(std::string(namePool[n]));
			if (got - f.begin() != it - model.begin() || got2 != got)
				fail(fmt("find('%s') is wrong", namePool[n]));
		}
		if (!model.empty() && (f.front() != model.front() || f.back() != model.back()))
			fail("front/back wrong");
	}
	countDistinct(fnv(g_case.data(), g_case.size()));
}

static void runFormat(Rng& rng, double until)
{
	for (int l = -2; l < layoutCount + 2; ++l)
		for (int t = -1; t < typeCount; ++t)
			runOps({{0, 0, l, t}, {0, 0, l, t}, {0, 1, l, t}, {2, 0, 0, 0}, {0, 0, l, t}, {1, 0, 0, 0}, {0, 0, l, t}});
	do
		for (int rep = 0; rep < 50; ++rep)
		{
			std::vector<Op> ops;
			int n = 1 + rng.below(rng.chance(1, 4) ? 40 : 10);
			for (int i = 0; i < n; ++i)
			{
				Op o{rng.chance(1, 14) ? 1 : rng.chance(1, 8) ? 2 : 0, int(rng.below(namePoolSize)),
					int(rng.below(layoutCount + 2)) - 1, int(rng.below(typeCount + 1)) - 1};
				ops.push_back(o);
			}
			ops.push_back({2, 0, 0, 0});
			runOps(ops);
			if (evals() % 997 == 0)
				sample(g_case);
		}
	while (now() < until);
	sample(g_case);
}

// ---- C06 -------------------------------------------------------------------------------------
static int lookupLayout(const char* s)
{
	for (int i = 0; i < layoutCount; ++i)
		if (strcasecmp(s, layouts[i].name) == 0 || strcasecmp(s, layouts[i].color) == 0)
			return i;
	return -1;
}
static int lookupType(const char* s)
{
	for (int i = 0; i < typeCount; ++i)
		if (strcasecmp(s, typeNames[i]) == 0)
			return i;
	return -1;
}
static int lookupPrim(const char* s)
{
	for (int i = 0; i < 7; ++i)
		if (strcasecmp(s, primNames[i]) == 0)
			return i;
	return -1;
}
static void checkName(const std::string& s)
{
	++evals();
	g_case = "name " + hex(s.data(), s.size());
	const char* c = s.c_str();
	if ((int)vfc::elementLayoutFromName(c) != lookupLayout(c))
		fail(fmt("layout of '%s' is %d, expected %d", c, (int)vfc::elementLayoutFromName(c), lookupLayout(c)));
	if ((int)vfc::elementTypeFromName(c) != lookupType(c))
		fail(fmt("type of '%s' is %d, expected %d", c, (int)vfc::elementTypeFromName(c), lookupType(c)));
	if ((int)vfc::primitiveTypeFromName(c) != lookupPrim(c))
		fail(fmt("primitive of '%s' is %d, expected %d", c, (int)vfc::primitiveTypeFromName(c), lookupPrim(c)));
	countDistinct(fnv(s.data(), s.size()));
}
static bool eq(const char* a, const char* b) { return a == b || (a && b && std::strcmp(a, b) == 0); }
static void runTables(Rng& rng, double until)
{
	for (int l = -128; l < 128; ++l)
	{
		++evals();
		g_case = fmt("layout %d", l);
		auto e = static_cast<vfc::ElementLayout>(l);
		bool in = l >= 0 && l < layoutCount;
		if (!eq(vfc::elementLayoutName(e), in ? layouts[l].name : nullptr) ||
			!eq(vfc::elementLayoutName(e, true), in ? layouts[l].color : nullptr))
			fail("layout name");
		if (vfc::elementLayoutSize(e) != (in ? (unsigned)layouts[l].bytes : 0u))
			fail("layout size");
		for (int t = -128; t < 128; ++t)
			if (vfc::isElementValid(e, static_cast<vfc::ElementType>(t)) != valid(l, t) &&
				t >= -1 && t < typeCount)
				fail(fmt("validity of layout %d type %d", l, t));
		if (!eq(vfc::elementTypeName(static_cast<vfc::ElementType>(l)), l >= 0 && l < typeCount ? typeNames[l] : nullptr))
			fail("type name");
		if (!eq(vfc::primitiveTypeName(static_cast<vfc::PrimitiveType>(l)), l >= 0 && l < 7 ? primNames[l] : nullptr))
			fail("primitive name");
		++distinctCount();
	}
	if (vfc::elementLayoutFromName(nullptr) != vfc::ElementLayout::Invalid ||
		vfc::elementTypeFromName(nullptr) != vfc::ElementType::Invalid ||
		vfc::primitiveTypeFromName(nullptr) != vfc::PrimitiveType::Invalid)
		fail("null name");
	std::vector<std::string> names;
	for (auto& l : layouts)
	{
		names.push_back(l.name);
		names.push_back(l.color);
	}
	for (auto t : typeNames)
		names.push_back(t);
	for (auto t : primNames)
		names.push_back(t);
	for (auto& n : names)
	{
		std::string lo = n, up = n;
		for (char& c : lo) c = char(std::tolower((unsigned char)c));
		for (char& c : up) c = char(std::toupper((unsigned char)c));
		checkName(n);
		checkName(lo);
		checkName(up);
		// every prefix, every one-letter deletion, every one-character change
		for (std::size_t i = 0; i <= n.size(); ++i)
		{
			checkName(n.substr(0, i));
			checkName(n.substr(i));
			if (i < n.size())
				checkName(n.substr(0, i) + n.substr(i + 1));
			for (int c = 1; c < 256; ++c)
			{
				std::string m = n;
				if (i < n.size())
					m[i] = char(c);
				else
					m += char(c);
				checkName(m);
				std::string ins = n.substr(0, i) + char(c) + n.substr(i);
				checkName(ins);
			}
			for (int rep = 0; rep < 8; ++rep)
			{
				std::string m = n;
				for (char& c : m)
					c = char(rng.chance(1, 2) ? std::tolower((unsigned char)c) : std::toupper((unsigned char)c));
				checkName(m);
			}
		}
		sample(g_case + " (" + n + " variants)");
	}
	do
		for (int rep = 0; rep < 2000; ++rep)
		{
			std::string m;
			if (rng.chance(1, 2))
			{
				m = names[rng.below(names.size())];
				for (char& c : m)
					c = char(rng.chance(1, 2) ? std::tolower((unsigned char)c) : std::toupper((unsigned char)c));
				if (rng.chance(1, 2))
					m[rng.below(m.size())] ^= char(1 << rng.below(8));
				if (m.find('\0') != std::string::npos)
					continue;
			}
			else
			{
				static const char* parts[] = {"X", "Y", "Z", "W", "R", "G", "B", "A", "8", "16", "32", "64", "10", "11", "2", "5",
					"9", "E", "_", "UFloat", "x", "y", "r", "float", "norm", "s", "u", "int", "list", "Strip", "Triangle"};
				int n = rng.below(9);
				while (n--)
					m += parts[rng.below(sizeof parts/sizeof *parts)];
			}
			checkName(m);
		}
	while (now() < until);
}

// ---- C07 -------------------------------------------------------------------------------------
static void checkIndex(int type, int n, int i, std::uint32_t value, std::uint32_t def, std::uint64_t seed)
{
	++evals();
	g_case = fmt("index %d %d %d %u %u %llu", type, n, i, value, def, (unsigned long long)seed);
	using vfc::IndexType;
	auto t = static_cast<IndexType>(type);
	unsigned w = type == 1 ? 2 : type == 2 ? 4 : 0;
	if (vfc::indexSize(t) != w)
		fail("index size");
	if (vfc::maxIndexValue(t) != (type == 1 ? 0xFFFEu : type == 2 ? 0xFFFFFFFEu : 0u))
		fail("largest index");
	if (vfc::primitiveRestartIndexValue(t) != (type == 1 ? 0xFFFFu : 0xFFFFFFFFu))
		fail("restart value");
	std::size_t bytes = std::size_t(n)*(w ? w : 4);
	auto mem = static_cast<std::uint8_t*>(std::malloc(bytes ? bytes : 1));
	Rng r(seed);
	std::vector<std::uint8_t> ref(bytes);
	for (std::size_t k = 0; k < bytes; ++k)
		mem[k] = ref[k] = std::uint8_t(r.next());
	auto refGet = [&](std::size_t k) {
		std::uint32_t v = 0;
		for (unsigned b = 0; b < w; ++b)
			v |= std::uint32_t(ref[k*w + b]) << (8*b);
		return v;
	};
	std::uint32_t got = vfc::getIndexValue(t, mem, i, def);
	if (got != (w ? refGet(i) : def))
		fail(fmt("read %u", got));
	got = vfc::getIndexValue(t, mem, i);
	if (got != (w ? refGet(i) : 0xFFFFFFFFu))
		fail(fmt("read with default: %u", got));
	if (vfc::getIndexValue(t, nullptr, i, def) != def)
		fail("read of null data is not the default");
	if (vfc::setIndexValue(t, nullptr, i, value))
		fail("write to null data reported success");
	if (vfc::setIndexValue(t, mem, i, value) != (w != 0))
		fail("write result");
	for (unsigned b = 0; b < w; ++b)
		ref[std::size_t(i)*w + b] = std::uint8_t(value >> (8*b));
	if (bytes && std::memcmp(mem, ref.data(), bytes) != 0)
		fail("write changed the wrong bytes");
	std::free(mem);
	countDistinct(fnv(g_case.data(), g_case.size()));
}
static void runIndex(Rng& rng, double until)
{
	for (std::uint32_t v : {0u, 1u, 255u, 256u, 32767u, 32768u, 65534u, 65535u, 65536u, 65537u, 0x7FFFFFFFu, 0x80000000u,
			0xFFFFFFFEu, 0xFFFFFFFFu, 0x12345678u})
		for (int t = 0; t < 3; ++t)
			for (int n = 1; n < 6; ++n)
				for (int i = 0; i < n; ++i)
					checkIndex(t, n, i, v, ~v, v + n);
	do
		for (int rep = 0; rep < 500; ++rep)
		{
			int n = 1 + rng.below(rng.chance(1, 50) ? 70000 : 40);
			checkIndex(rng.below(4) ? 1 + rng.below(2) : rng.below(3), n, rng.chance(1, 3) ? n - 1 : rng.below(n), std::uint32_t(rng.next() >> rng.below(32)),
				std::uint32_t(rng.next()), rng.next());
			if (rep == 0)
				sample(g_case);
		}
	while (now() < until);
}

static int replay()
{
	FILE* f = std::fopen(opt().replay.c_str(), "r");
	if (!f)
		return 2;
	static char line[1 << 16];
	while (std::fgets(line, sizeof line, f))
	{
		std::string s = line;
		if (s.compare(0, 5, "case ") != 0)
			continue;
		s = s.substr(5);
		int a, b, c, d;
		unsigned v, w;
		unsigned long long q;
		if (s.compare(0, 4, "ops ") == 0)
		{
			std::vector<Op> ops;
			char* p = line + 8;
			int n;
			while (std::sscanf(p, " %d,%d,%d,%d%n", &a, &b, &c, &d, &n) == 4)
			{
				ops.push_back({a, b, c, d});
				p += n;
			}
			runOps(ops);
		}
		else if (s.compare(0, 5, "name ") == 0)
		{
			auto b2 = unhex(s.substr(5, s.find('\n') - 5));
			checkName(std::string(b2.begin(), b2.end()));
		}
		else if (std::sscanf(s.c_str(), "index %d %d %d %u %u %llu", &a, &b, &c, &v, &w, &q) == 6)
			checkIndex(a, b, c, v, w, q);
		else if (s.compare(0, 6, "layout") == 0)
		{
			Rng r(1);
			runTables(r, 0);
		}
	}
	report();
	return 0;
}

int main(int argc, char** argv)
{
	if (!parse(argc, argv))
		return 2;
	install();
	describer() = describeCase;
	if (!opt().replay.empty())
		return replay();
	Rng rng(opt().seed*104729 + 3);
	double until = now() + opt().budget;
	if (opt().prop == "C05") runFormat(rng, until);
	else if (opt().prop == "C06") runTables(rng, until);
	else if (opt().prop == "C07") runIndex(rng, until);
	else return 2;
	report();
	return 0;
}
