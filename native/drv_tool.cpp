// Native driver for the tool: C14 (base64), C15 (paths), C16 (configuration file) and C17 (the vfc
// executable end to end, compared with the library called directly).
#include "common.h"
#include "oracle.h"
#include <Base64.h>
#include <ConfigFile.h>
#include <Path.h>
#include <VFC/Converter.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace drv;

static std::string g_case;
static std::string describeCase() { return g_case; }

// ---- C14 ----------------------------------------------------------------------------------------
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refEncode(const std::vector<std::uint8_t>& d)
{
	std::string r;
	std::size_t bits = d.size()*8;
	for (std::size_t b = 0; b < bits; b += 6)
	{
		unsigned v = 0;
		for (std::size_t i = b; i < b + 6; ++i)
			v = v << 1 | (i < bits ? (d[i/8] >> (7 - i % 8)) & 1 : 0);
		r += alphabet[v];
	}
	while (r.size() % 4)
		r += '=';
	return r;
}
static bool refDecode(std::vector<std::uint8_t>& out, const std::string& s)
{
	if (s.size() % 4)
		return false;
	std::size_t n = s.size(), pad = 0;
	while (pad < 2 && n && s[n - 1] == '=')
	{
		--n;
		++pad;
	}
	std::vector<unsigned> code;
	for (std::size_t i = 0; i < n; ++i)
	{
		const char* p = s[i] ? std::strchr(alphabet, s[i]) : nullptr;
		if (!p)
			return false;
		code.push_back(unsigned(p - alphabet));
	}
	std::size_t bytes = s.size()/4*3 - pad;
	for (std::size_t i = 0; i < bytes; ++i)
	{
		unsigned v = 0;
		for (std::size_t b = i*8; b < i*8 + 8; ++b)
			v = v << 1 | ((code[b/6] >> (5 - b % 6)) & 1);
		out.push_back(std::uint8_t(v));
	}
	return true;
}
static void checkBase64Encode(const std::vector<std::uint8_t>& d)
{
	++evals();
	g_case = "case encode " + hex(d.data(), d.size()) + "\n";
	std::unique_ptr<std::uint8_t[]> copy(new std::uint8_t[d.size()]);
	std::copy(d.begin(), d.end(), copy.get());
	std::string got = base64::encode(copy.get(), d.size());
	if (got != refEncode(d))
		fail("encoded text is '" + got + "', expected '" + refEncode(d) + "'");
	std::vector<std::uint8_t> back{1, 2, 3};
	if (!base64::decode(back, got.c_str()) || back.size() != d.size() + 3 || back[0] != 1 || back[2] != 3 ||
			!std::equal(d.begin(), d.end(), back.begin() + 3))
		fail("decoding the encoded text does not append the data");
	countDistinct(fnv(d.data(), d.size()));
}
static void checkBase64Decode(const std::string& s)
{
	++evals();
	g_case = "case decode " + hex(s.data(), s.size()) + "\n# \"" + s + "\"\n";
	std::unique_ptr<char[]> copy(new char[s.size() + 1]);
	std::copy(s.begin(), s.end(), copy.get());
	copy[s.size()] = 0;
	std::vector<std::uint8_t> want, got{9};
	bool ok = refDecode(want, s);
	bool r = base64::decode(got, copy.get());
	if (r != ok)
		fail(fmt("decode returned %d, expected %d", r, ok));
	if (ok && (got.size() != want.size() + 1 || got[0] != 9 || !std::equal(want.begin(), want.end(), got.begin() + 1)))
		fail("decoded bytes differ");
	cover(ok ? "decoded" : "refused");
	countDistinct(fnv(s.data(), s.size(), 77));
}
static void runBase64(Rng& r)
{
	if (!base64::encode(nullptr, 5).empty() || !base64::encode("x", 0).empty())
		fail("encoding no data is not empty");
	std::vector<std::uint8_t> none;
	if (base64::decode(none, nullptr))
		fail("decoding null succeeded");
	// exhaustive: up to two bytes; all one-group strings over a reduced alphabet with every character class
	checkBase64Encode({});
	for (int a = 0; a < 256; ++a)
	{
		checkBase64Encode({std::uint8_t(a)});
		for (int b = 0; b < 256; ++b)
			checkBase64Encode({std::uint8_t(a), std::uint8_t(b)});
	}
	// every byte in every position of the group and of a second group
	for (int pos = 0; pos < 8; ++pos)
		for (int c = 1; c < 256; ++c)
			for (const char* base : {"QUJDREVG", "QUJDREU=", "QUJDRA=="})
			{
				std::string s = base;
				s[pos] = char(c);
				checkBase64Decode(s);
			}
	static const char few[] = {'A', '/', '+', '9', 'z', '=', '-', '_'};
	for (int len = 0; len <= 5; ++len)
	{
		int total = 1;
		for (int i = 0; i < len; ++i)
			total *= 8;
		for (int k = 0; k < total; ++k)
		{
			std::string s;
			for (int i = 0, x = k; i < len; ++i, x /= 8)
				s += few[x % 8];
			checkBase64Decode(s);
		}
	}
	for (double until = now() + opt().budget; now() < until;)
	{
		for (int i = 0; i < 200; ++i)
		{
			std::vector<std::uint8_t> d(r.below(r.chance(1, 10) ? 3000 : 40));
			for (auto& b : d)
				b = std::uint8_t(r.next());
			checkBase64Encode(d);
			std::string s = refEncode(d);
			int edits = int(r.below(3));
			while (edits--)
			{
				std::size_t at = s.empty() ? 0 : r.below(4) ? r.below(std::uint32_t(s.size())) : s.size() - 1 - r.below(std::min<std::uint32_t>(4, std::uint32_t(s.size())));
				switch (r.below(4))
				{
					case 0: if (!s.empty()) s.erase(at, 1); break;
					case 1: s.insert(s.begin() + long(at), r.chance(1, 2) ? '=' : char(1 + r.below(255))); break;
					case 2: if (!s.empty()) s[at] = r.chance(1, 2) ? '=' : char(1 + r.below(255)); break;
					case 3: s += r.chance(1, 2) ? "====" : "QQ=="; break;
				}
			}
			checkBase64Decode(s);
		}
		sample(g_case.substr(0, 200));
	}
}

// ---- C15 ----------------------------------------------------------------------------------------
static void checkPath(const std::string& p, const std::string& q)
{
	++evals();
	g_case = "case path " + hex(p.data(), p.size()) + " " + hex(q.data(), q.size()) + "\n# '" + p + "' '" + q + "'\n";
	bool abs = p.size() > 0 && p[0] == '/';
	if (path::isAbsolute(p) != abs)
		fail("isAbsolute is wrong");
	std::size_t last = p.size();
	while (last > 0 && p[last - 1] != '/')
		--last;
	std::string file = p.substr(last);
	std::string parent = last == 0 ? "" : last == 1 ? "/" : p.substr(0, last - 1);
	if (path::getFileName(p) != file)
		fail("getFileName gives '" + path::getFileName(p) + "', expected '" + file + "'");
	if (path::getParentDirectory(p) != parent)
		fail("getParentDirectory gives '" + path::getParentDirectory(p) + "', expected '" + parent + "'");
	bool qabs = !q.empty() && q[0] == '/';
	std::string want = qabs || p.empty() ? q : q.empty() ? p : p.back() == '/' ? p + q : p + "/" + q;
	if (path::join(p, q) != want)
		fail("join gives '" + path::join(p, q) + "', expected '" + want + "'");
	countDistinct(fnv(p.data(), p.size(), fnv(q.data(), q.size())));
}
static void runPath(Rng& r)
{
	static const char few[] = {'a', '/', '.', '\\', ':'};
	std::vector<std::string> all;
	for (int len = 0; len <= 5; ++len)
	{
		int total = 1;
		for (int i = 0; i < len; ++i)
			total *= 5;
		for (int k = 0; k < total; ++k)
		{
			std::string s;
			for (int i = 0, x = k; i < len; ++i, x /= 5)
				s += few[x % 5];
			all.push_back(s);
		}
	}
	for (auto& s : all)
		checkPath(s, all[r.below(std::uint32_t(all.size()))]);
	for (std::size_t i = 0; i < 31; ++i)
		for (std::size_t j = 0; j < 31; ++j)
			checkPath(all[i], all[j]);
	for (int c = 0; c < 256; ++c)
		for (const char* s : {"ab/?cd", "?", "?x", "x?", "/?", "a/b?"})
		{
			std::string t = s;
			t[t.find('?')] = char(c);
			checkPath(t, t);
			checkPath("a", t);
			checkPath(t, "b");
		}
	for (double until = now() + opt().budget; now() < until;)
	{
		for (int i = 0; i < 500; ++i)
		{
			std::string s[2];
			for (auto& x : s)
			{
				std::uint32_t n = r.below(r.chance(1, 20) ? 300 : 20);
				while (n--)
					x += r.chance(1, 4) ? '/' : char(1 + r.below(255));
			}
			checkPath(s[0], s[1]);
		}
	}
	sample(g_case.substr(0, 300));
}

// ---- JSON ---------------------------------------------------------------------------------------
struct J
{
	enum Kind { Null, Bool, Num, Str, Arr, Obj } k = Null;
	std::string s; // string value or number text
	bool b = false;
	std::vector<J> items;
	std::vector<std::pair<std::string, J>> mem;
	static J str(const std::string& v) { J j; j.k = Str; j.s = v; return j; }
	static J num(const std::string& v) { J j; j.k = Num; j.s = v; return j; }
	static J arr() { J j; j.k = Arr; return j; }
	static J obj() { J j; j.k = Obj; return j; }
	static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
	void add(const std::string& n, const J& v) { mem.emplace_back(n, v); }
	const J* find(const char* n) const
	{
		for (auto& m : mem)
			if (m.first == n)
				return &m.second;
		return nullptr;
	}
};
static void writeString(std::string& o, const std::string& s, Rng& r)
{
	o += '"';
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += char(c);
		}
		else if (c == '\n' && r.chance(1, 2))
			o += "\\n";
		else if (c < 0x20 || (c < 0x7f && r.chance(1, 40)))
			o += fmt(r.chance(1, 2) ? "\\u%04x" : "\\u%04X", c);
		else if (c == '/' && r.chance(1, 8))
			o += "\\/";
		else
			o += char(c);
	}
	o += '"';
}
static void ws(std::string& o, Rng& r)
{
	static const char* const w[] = {"", "", "", "", " ", "\n", "\t", "\r\n", "  "};
	o += w[r.below(9)];
}
static void writeJson(std::string& o, const J& j, Rng& r)
{
	ws(o, r);
	switch (j.k)
	{
		case J::Null: o += "null"; break;
		case J::Bool: o += j.b ? "true" : "false"; break;
		case J::Num: o += j.s; break;
		case J::Str: writeString(o, j.s, r); break;
		case J::Arr:
			o += '[';
			for (std::size_t i = 0; i < j.items.size(); ++i)
			{
				if (i) o += ',';
				writeJson(o, j.items[i], r);
			}
			ws(o, r);
			o += ']';
			break;
		case J::Obj:
			o += '{';
			for (std::size_t i = 0; i < j.mem.size(); ++i)
			{
				if (i) o += ',';
				ws(o, r);
				writeString(o, j.mem[i].first, r);
				ws(o, r);
				o += ':';
				writeJson(o, j.mem[i].second, r);
			}
			ws(o, r);
			o += '}';
			break;
	}
	ws(o, r);
}
// Strict parser for the tool's output.
struct Parser
{
	const std::string& t;
	std::size_t p = 0;
	bool ok = true;
	explicit Parser(const std::string& s) : t(s) {}
	void sp() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
	bool eat(char c) { sp(); if (p < t.size() && t[p] == c) { ++p; return true; } return false; }
	J value()
	{
		sp();
		J j;
		if (p >= t.size()) { ok = false; return j; }
		char c = t[p];
		if (c == '{')
		{
			++p;
			j.k = J::Obj;
			if (eat('}')) return j;
			do
			{
				sp();
				J n = value();
				if (!ok || n.k != J::Str || !eat(':')) { ok = false; return j; }
				J v = value();
				if (!ok) return j;
				j.add(n.s, v);
			} while (eat(','));
			if (!eat('}')) ok = false;
		}
		else if (c == '[')
		{
			++p;
			j.k = J::Arr;
			if (eat(']')) return j;
			do
			{
				j.items.push_back(value());
				if (!ok) return j;
			} while (eat(','));
			if (!eat(']')) ok = false;
		}
		else if (c == '"')
		{
			++p;
			j.k = J::Str;
			while (p < t.size() && t[p] != '"')
			{
				unsigned char x = (unsigned char)t[p];
				if (x < 0x20) { ok = false; return j; }
				if (x != '\\') { j.s += t[p++]; continue; }
				++p;
				if (p >= t.size()) break;
				char e = t[p++];
				switch (e)
				{
					case 'n': j.s += '\n'; break;
					case 't': j.s += '\t'; break;
					case 'r': j.s += '\r'; break;
					case 'b': j.s += '\b'; break;
					case 'f': j.s += '\f'; break;
					case 'u':
						if (p + 4 > t.size()) { ok = false; return j; }
						j.s += char(std::strtoul(t.substr(p, 4).c_str(), nullptr, 16));
						p += 4;
						break;
					case '"': case '\\': case '/': j.s += e; break;
					default: ok = false; return j;
				}
			}
			if (p >= t.size()) { ok = false; return j; }
			++p;
		}
		else if (c == '-' || (c >= '0' && c <= '9'))
		{
			j.k = J::Num;
			while (p < t.size() && std::strchr("+-0123456789.eE", t[p]))
				j.s += t[p++];
		}
		else if (t.compare(p, 4, "null") == 0) p += 4;
		else if (t.compare(p, 4, "true") == 0) { p += 4; j = J::boolean(true); }
		else if (t.compare(p, 5, "false") == 0) { p += 5; j = J::boolean(false); }
		else ok = false;
		return j;
	}
};

// ---- C16 model ----------------------------------------------------------------------------------
struct MElem { std::string name; int layout, type; };
struct MStream { std::vector<MElem> format; int indexType = 0; std::string vertexData, indexData; };
struct MConfig
{
	std::vector<std::vector<MElem>> format;
	int indexType = 0, prim = 3;
	std::uint32_t patch = 0;
	std::vector<MStream> streams;
	std::vector<std::pair<std::string, int>> transforms;
};
static std::string lower(std::string s)
{
	for (auto& c : s)
		if (c >= 'A' && c <= 'Z')
			c = char(c + 32);
	return s;
}
static int findName(const std::string& s, int n, const std::function<std::vector<const char*>(int)>& names)
{
	for (int i = 0; i < n; ++i)
		for (const char* x : names(i))
			if (lower(x) == lower(s))
				return i;
	return -1;
}
static const char* const transformNames[] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};
static bool mFormat(std::vector<MElem>& out, const J& v)
{
	if (v.k != J::Arr)
		return false;
	for (auto& e : v.items)
	{
		if (e.k != J::Obj)
			return false;
		const J *n = e.find("name"), *l = e.find("layout"), *t = e.find("type");
		if (!n || n->k != J::Str || !l || l->k != J::Str || !t || t->k != J::Str)
			return false;
		MElem m;
		m.name = n->s;
		m.layout = findName(l->s, orc::layoutCount, [](int i) { return std::vector<const char*>{orc::layouts[i].name, orc::layouts[i].color}; });
		m.type = findName(t->s, orc::typeCount, [](int i) { return std::vector<const char*>{orc::typeNames[i]}; });
		if (m.layout < 0 || m.type < 0 || !orc::valid(m.layout, m.type))
			return false;
		for (auto& o : out)
			if (o.name == m.name)
				return false;
		out.push_back(m);
	}
	return !out.empty();
}
static bool mIndexType(int& out, const J& o)
{
	const J* v = o.find("indexType");
	out = 0;
	if (!v || v->k == J::Null)
		return true;
	if (v->k != J::Str)
		return false;
	out = lower(v->s) == "uint16" ? 1 : lower(v->s) == "uint32" ? 2 : 0;
	return out != 0;
}
static bool mConfig(MConfig& c, const J& root)
{
	if (root.k != J::Obj)
		return false;
	const J* f = root.find("vertexFormat");
	if (!f || f->k != J::Arr || f->items.empty())
		return false;
	std::set<std::string> names;
	for (auto& i : f->items)
	{
		c.format.emplace_back();
		if (!mFormat(c.format.back(), i))
			return false;
		for (auto& e : c.format.back())
			if (!names.insert(e.name).second)
				return false;
	}
	if (!mIndexType(c.indexType, root))
		return false;
	const J* p = root.find("primitiveType");
	if (p && p->k != J::Null)
	{
		if (p->k != J::Str)
			return false;
		c.prim = findName(p->s, 7, [](int i) { return std::vector<const char*>{orc::primNames[i]}; });
		if (c.prim < 0)
			return false;
		if (c.prim == 6)
		{
			const J* pp = root.find("patchPoints");
			if (!pp || pp->k != J::Num || pp->s.find_first_of(".eE") != std::string::npos || pp->s.size() > 11)
				return false;
			long v = std::strtol(pp->s.c_str(), nullptr, 10);
			if (v <= 0 || v > 0x7FFFFFFFL)
				return false;
			c.patch = std::uint32_t(v);
		}
	}
	const J* s = root.find("vertexStreams");
	if (!s || s->k != J::Arr || s->items.empty())
		return false;
	for (auto& i : s->items)
	{
		MStream m;
		if (i.k != J::Obj)
			return false;
		const J *vf = i.find("vertexFormat"), *vd = i.find("vertexData"), *id = i.find("indexData");
		if (!vf || !mFormat(m.format, *vf) || !vd || vd->k != J::Str || !mIndexType(m.indexType, i))
			return false;
		m.vertexData = vd->s;
		if (m.indexType)
		{
			if (!id || id->k != J::Str)
				return false;
			m.indexData = id->s;
		}
		c.streams.push_back(m);
	}
	if (const J* t = root.find("vertexTransforms"))
	{
		if (t->k != J::Arr)
			return false;
		for (auto& i : t->items)
		{
			if (i.k != J::Obj)
				return false;
			const J *n = i.find("name"), *x = i.find("transform");
			if (!n || n->k != J::Str || !x || x->k != J::Str)
				return false;
			int k = findName(x->s, 4, [](int q) { return std::vector<const char*>{transformNames[q]}; });
			if (k < 0)
				return false;
			c.transforms.emplace_back(n->s, k);
		}
	}
	return true;
}

static std::string mixCase(const std::string& s, Rng& r)
{
	std::string o = s;
	int mode = int(r.below(4));
	for (auto& c : o)
		if (mode == 1 || (mode == 2 && r.chance(1, 2)))
			c = char(std::toupper((unsigned char)c));
		else if (mode == 3)
			c = char(std::tolower((unsigned char)c));
	return o;
}
static std::string randomName(Rng& r)
{
	static const char* const n[] = {"position", "normal", "Position", "uv", "tex coord", "", "a/b\"c\\", "line\nbreak", "name with more than sixteen characters", "\xc3\xa9t\xc3\xa9", "x"};
	return n[r.below(11)];
}
static J randomFormat(Rng& r, std::set<std::string>& used)
{
	J a = J::arr();
	int n = 1 + int(r.below(4));
	while (n--)
	{
		std::string name = randomName(r);
		if (!used.insert(name).second && !r.chance(1, 30))
		{
			name += fmt("%u", r.below(1000000));
			used.insert(name);
		}
		int l, t;
		do
		{
			l = int(r.below(orc::layoutCount));
			t = int(r.below(orc::typeCount));
		} while (!orc::valid(l, t) && !r.chance(1, 60));
		J e = J::obj();
		std::vector<std::pair<std::string, J>> m{{"name", J::str(name)},
			{"layout", J::str(mixCase(r.chance(1, 2) ? orc::layouts[l].name : orc::layouts[l].color, r))}, {"type", J::str(mixCase(orc::typeNames[t], r))}};
		if (r.chance(1, 8))
			m.emplace_back("extra", J::num("1.5"));
		for (std::size_t i = m.size(); i > 1; --i)
			std::swap(m[i - 1], m[r.below(std::uint32_t(i))]);
		e.mem = m;
		a.items.push_back(e);
	}
	return a;
}
static J randomConfig(Rng& r)
{
	J root = J::obj();
	std::set<std::string> used;
	J vf = J::arr();
	for (int n = 1 + int(r.below(3)); n--;)
		vf.items.push_back(randomFormat(r, used));
	root.add("vertexFormat", vf);
	if (r.chance(2, 3))
		root.add("indexType", r.chance(1, 6) ? J() : J::str(mixCase(r.chance(1, 2) ? "UInt16" : "UInt32", r)));
	if (r.chance(2, 3))
	{
		int p = int(r.below(7));
		root.add("primitiveType", r.chance(1, 8) ? J() : J::str(mixCase(orc::primNames[p], r)));
		if (p == 6 || r.chance(1, 6))
		{
			static const char* const pp[] = {"1", "2", "16", "2147483647", "0", "-1", "2147483648", "3.0", "1e1", "-0"};
			root.add("patchPoints", J::num(pp[r.below(r.chance(1, 3) ? 10 : 4)]));
		}
	}
	J vs = J::arr();
	for (int n = 1 + int(r.below(3)); n--;)
	{
		J s = J::obj();
		std::set<std::string> u2;
		s.add("vertexFormat", randomFormat(r, u2));
		static const char* const data[] = {"base64:AAAA", "file.dat", "", "BASE64:=", "dir/with \"quotes\"/f"};
		s.add("vertexData", J::str(data[r.below(5)]));
		if (r.chance(1, 2))
		{
			s.add("indexType", r.chance(1, 6) ? J() : J::str(mixCase(r.chance(1, 2) ? "UInt16" : "UInt32", r)));
			s.add("indexData", J::str(data[r.below(5)]));
		}
		else if (r.chance(1, 6))
			s.add("indexData", r.chance(1, 2) ? J() : J::str("unused"));
		for (std::size_t i = s.mem.size(); i > 1; --i)
			std::swap(s.mem[i - 1], s.mem[r.below(std::uint32_t(i))]);
		vs.items.push_back(s);
	}
	root.add("vertexStreams", vs);
	if (r.chance(1, 2))
	{
		J t = J::arr();
		for (int n = int(r.below(4)); n--;)
		{
			J x = J::obj();
			x.add("name", J::str(randomName(r)));
			x.add("transform", J::str(mixCase(transformNames[r.below(4)], r)));
			t.items.push_back(x);
		}
		root.add("vertexTransforms", t);
	}
	if (r.chance(1, 6))
		root.add("comment", J::str("unknown members are ignored"));
	for (std::size_t i = root.mem.size(); i > 1; --i)
		std::swap(root.mem[i - 1], root.mem[r.below(std::uint32_t(i))]);
	return root;
}
static void collect(std::vector<J*>& out, J& j)
{
	out.push_back(&j);
	for (auto& i : j.items)
		collect(out, i);
	for (auto& m : j.mem)
		collect(out, m.second);
}
static void mutate(J& root, Rng& r)
{
	std::vector<J*> all;
	collect(all, root);
	J& n = *all[r.below(std::uint32_t(all.size()))];
	switch (r.below(7))
	{
		case 0: // another kind
		{
			static const J::Kind kinds[] = {J::Null, J::Bool, J::Num, J::Str, J::Arr, J::Obj};
			J v;
			v.k = kinds[r.below(6)];
			v.s = v.k == J::Num ? "3" : "text";
			n = v;
			break;
		}
		case 1: // drop a member
			if (n.k == J::Obj && !n.mem.empty())
				n.mem.erase(n.mem.begin() + long(r.below(std::uint32_t(n.mem.size()))));
			break;
		case 2: // empty
			n.items.clear();
			n.mem.clear();
			break;
		case 3: // near-miss text
			if (n.k == J::Str)
			{
				if (r.chance(1, 2) || n.s.empty()) n.s += r.chance(1, 2) ? " " : "x";
				else n.s.erase(n.s.size() - 1);
			}
			break;
		case 4: // repeat an item
			if (n.k == J::Arr && !n.items.empty())
				n.items.push_back(n.items[r.below(std::uint32_t(n.items.size()))]);
			break;
		case 5: // a repeated member: the first one counts
			if (n.k == J::Obj && !n.mem.empty())
			{
				auto m = n.mem[r.below(std::uint32_t(n.mem.size()))];
				m.second = J::str("second");
				n.mem.push_back(m);
			}
			break;
		case 6: // misspelled member
			if (n.k == J::Obj && !n.mem.empty())
			{
				auto& m = n.mem[r.below(std::uint32_t(n.mem.size()))];
				m.first = r.chance(1, 2) ? m.first + "s" : lower(m.first) == m.first ? m.first + "_" : lower(m.first);
			}
			break;
	}
}
static bool sameFormat(const vfc::VertexFormat& f, const std::vector<MElem>& m)
{
	if (f.size() != m.size())
		return false;
	std::uint32_t off = 0;
	for (std::size_t i = 0; i < m.size(); ++i)
	{
		if (f[i].name != m[i].name || int(f[i].layout) != m[i].layout || int(f[i].type) != m[i].type || f[i].offset != off)
			return false;
		off += std::uint32_t(orc::layouts[m[i].layout].bytes);
	}
	return f.stride() == off;
}
static void checkConfig(const std::string& text, bool okWanted, const MConfig& want, int via)
{
	++evals();
	alarm(60);
	g_case = fmt("case config %d ", okWanted) + hex(text.data(), text.size()) + "\n# " + text.substr(0, 1500) + "\n";
	int errors = 0;
	std::string last;
	vfc::Converter::ErrorFunction fn = [&](const char* m) { ++errors; last = m; };
	ConfigFile c;
	bool got;
	if (via == 1)
	{
		std::istringstream in(text);
		got = c.load(in, "test.json", fn);
	}
	else
		got = c.load(text.c_str(), "test.json", fn);
	alarm(0);
	if (got != okWanted)
		fail(fmt("load returned %d, expected %d (%s)", got, okWanted, last.c_str()));
	if (errors != (got ? 0 : 1))
		fail(fmt("%d error messages reported, expected %d", errors, got ? 0 : 1));
	cover(got ? "accepted" : "refused");
	if (!got)
		return;
	if (c.getVertexFormat().size() != want.format.size())
		fail("number of output streams");
	for (std::size_t i = 0; i < want.format.size(); ++i)
		if (!sameFormat(c.getVertexFormat()[i], want.format[i]))
			fail(fmt("output format %zu differs", i));
	if (int(c.getIndexType()) != want.indexType)
		fail("index type differs");
	if (int(c.getPrimitiveType()) != want.prim)
		fail("primitive type differs");
	if (c.getPatchPoints() != want.patch)
		fail("patch points differ");
	if (c.getVertexStreams().size() != want.streams.size())
		fail("number of vertex streams");
	for (std::size_t i = 0; i < want.streams.size(); ++i)
	{
		auto& s = c.getVertexStreams()[i];
		if (!sameFormat(s.vertexFormat, want.streams[i].format) || int(s.indexType) != want.streams[i].indexType ||
				s.vertexData != want.streams[i].vertexData || s.indexData != want.streams[i].indexData)
			fail(fmt("vertex stream %zu differs", i));
	}
	if (c.getTransforms().size() != want.transforms.size())
		fail("number of transforms");
	for (std::size_t i = 0; i < want.transforms.size(); ++i)
		if (c.getTransforms()[i].first != want.transforms[i].first || int(c.getTransforms()[i].second) != want.transforms[i].second)
			fail(fmt("transform %zu differs", i));
}
static void runConfigOne(std::uint64_t seed)
{
	Rng r(seed);
	J root = randomConfig(r);
	for (int m = r.chance(1, 3) ? 0 : int(r.below(3)); m--;)
		mutate(root, r);
	MConfig want;
	bool ok = mConfig(want, root);
	std::string text;
	writeJson(text, root, r);
	if (r.chance(1, 10))
	{
		// break the document itself: cut it short, add something after it, damage a delimiter
		std::size_t end = text.find_last_not_of(" \t\r\n");
		switch (r.below(4))
		{
			case 0: text.resize(root.k == J::Num ? 0 : r.below(std::uint32_t(end + 1))); ok = false; break;
			case 1: text += r.chance(1, 2) ? "x" : "{}"; ok = false; break;
			case 2: if (text[end] == '}' || text[end] == ']') { text.insert(end, ","); ok = false; } break;
			case 3: if (text[end] == '}' || text[end] == ']') { text[end] = text[end] == '}' ? ']' : '}'; ok = false; } break;
		}
		if (text.empty())
			ok = false;
		cover("damaged document");
	}
	checkConfig(text, ok, want, int(seed & 1));
	countDistinct(fnv(text.data(), text.size()));
	if (seed % 997 == 0)
		sample(fmt("%s: ", ok ? "accepted" : "refused") + text.substr(0, 300));
}
static void runConfig()
{
	// every layout in both spellings, every type, every primitive, every transform, upper and lower case
	std::uint64_t base = opt().seed*7777777ULL;
	for (int l = 0; l < orc::layoutCount; ++l)
		for (int t = 0; t < orc::typeCount; ++t)
			for (int color = 0; color < 2; ++color)
			{
				Rng r(base + l*100 + t*10 + color);
				J root = J::obj(), e = J::obj(), f = J::arr(), ff = J::arr(), s = J::obj(), ss = J::arr();
				e.add("name", J::str("n"));
				e.add("layout", J::str(mixCase(color ? orc::layouts[l].color : orc::layouts[l].name, r)));
				e.add("type", J::str(mixCase(orc::typeNames[t], r)));
				f.items.push_back(e);
				ff.items.push_back(f);
				root.add("vertexFormat", ff);
				s.add("vertexFormat", f);
				s.add("vertexData", J::str(""));
				ss.items.push_back(s);
				root.add("vertexStreams", ss);
				MConfig want;
				bool ok = mConfig(want, root);
				if (ok != orc::valid(l, t))
					fail("internal: model");
				std::string text;
				writeJson(text, root, r);
				checkConfig(text, ok, want, 0);
			}
	// every node of several documents replaced by every kind, and every member removed
	for (int k = 0; k < 6; ++k)
	{
		Rng r0(base + 5000 + k);
		J doc = randomConfig(r0);
		std::vector<J*> nodes;
		collect(nodes, doc);
		for (std::size_t n = 0; n < nodes.size(); ++n)
			for (int kind = 0; kind < 9; ++kind)
			{
				J copy = doc;
				std::vector<J*> ns;
				collect(ns, copy);
				J v;
				static const J::Kind kinds[] = {J::Null, J::Bool, J::Num, J::Num, J::Num, J::Str, J::Str, J::Arr, J::Obj};
				static const char* const texts[] = {"", "", "3", "0", "1.0", "text", "", "", ""};
				v.k = kinds[kind];
				v.s = texts[kind];
				*ns[n] = v;
				MConfig want;
				bool ok = mConfig(want, copy);
				std::string text;
				writeJson(text, copy, r0);
				checkConfig(text, ok, want, 0);
			}
		for (std::size_t n = 0; n < nodes.size(); ++n)
			for (std::size_t m = 0; m < nodes[n]->mem.size(); ++m)
			{
				J copy = doc;
				std::vector<J*> ns;
				collect(ns, copy);
				ns[n]->mem.erase(ns[n]->mem.begin() + long(m));
				MConfig want;
				bool ok = mConfig(want, copy);
				std::string text;
				writeJson(text, copy, r0);
				checkConfig(text, ok, want, 1);
			}
	}
	std::uint64_t k = 0;
	for (double until = now() + opt().budget; now() < until || k < 1000;)
		for (int i = 0; i < 50; ++i)
			runConfigOne(base + 100000 + k++);
}

// ---- C17 ----------------------------------------------------------------------------------------
static std::string g_tool, g_dir;
struct Run { int status; std::string out, err; };
static Run runTool(const std::vector<std::string>& args, const std::string& input, const std::string& cwd, long fileLimit)
{
	int in[2], out[2], err[2];
	if (pipe(in) || pipe(out) || pipe(err))
		_exit(3);
	pid_t pid = fork();
	if (pid == 0)
	{
		dup2(in[0], 0);
		dup2(out[1], 1);
		dup2(err[1], 2);
		for (int fd : {in[0], in[1], out[0], out[1], err[0], err[1]})
			close(fd);
		if (chdir(cwd.c_str()) != 0)
			_exit(99);
		alarm(30);
		if (fileLimit >= 0)
		{
			std::signal(SIGXFSZ, SIG_IGN);
			struct rlimit rl{rlim_t(fileLimit), rlim_t(fileLimit)};
			setrlimit(RLIMIT_FSIZE, &rl);
		}
		std::vector<char*> argv{const_cast<char*>(g_tool.c_str())};
		for (auto& a : args)
			argv.push_back(const_cast<char*>(a.c_str()));
		argv.push_back(nullptr);
		execv(g_tool.c_str(), argv.data());
		_exit(98);
	}
	close(in[0]);
	close(out[1]);
	close(err[1]);
	Run r;
	std::size_t sent = 0;
	fcntl(in[1], F_SETFL, O_NONBLOCK);
	if (input.empty())
	{
		close(in[1]);
		in[1] = -1;
	}
	bool o = true, e = true;
	char buf[65536];
	while (o || e)
	{
		struct pollfd fds[3] = {{out[0], short(o ? POLLIN : 0), 0}, {err[0], short(e ? POLLIN : 0), 0}, {in[1], POLLOUT, 0}};
		if (!o) fds[0].fd = -1;
		if (!e) fds[1].fd = -1;
		poll(fds, 3, 1000);
		if (o && fds[0].revents)
		{
			ssize_t n = read(out[0], buf, sizeof buf);
			if (n <= 0) o = false; else r.out.append(buf, std::size_t(n));
		}
		if (e && fds[1].revents)
		{
			ssize_t n = read(err[0], buf, sizeof buf);
			if (n <= 0) e = false; else r.err.append(buf, std::size_t(n));
		}
		if (in[1] >= 0 && fds[2].revents)
		{
			ssize_t n = write(in[1], input.data() + sent, input.size() - sent);
			if (n > 0) sent += std::size_t(n);
			if (n <= 0 || sent == input.size())
			{
				close(in[1]);
				in[1] = -1;
			}
		}
	}
	if (in[1] >= 0)
		close(in[1]);
	close(out[0]);
	close(err[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	return r;
}
static void writeAll(const std::string& path, const std::string& d)
{
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f.write(d.data(), std::streamsize(d.size()));
}
static bool readAll(std::string& d, const std::string& path)
{
	std::ifstream f(path, std::ios::binary);
	if (!f.is_open())
		return false;
	d.assign(std::istreambuf_iterator<char>(f), {});
	return true;
}
static std::string bytes(const std::vector<std::uint8_t>& v) { return std::string(v.begin(), v.end()); }
static vfc::VertexFormat toFormat(const std::vector<MElem>& m)
{
	vfc::VertexFormat f;
	for (auto& e : m)
		f.appendElement(e.name, static_cast<vfc::ElementLayout>(e.layout), static_cast<vfc::ElementType>(e.type));
	return f;
}
static bool isNum(const J* j, double v) { return j && j->k == J::Num && std::strtod(j->s.c_str(), nullptr) == v; }
static bool isStr(const J* j, const std::string& v) { return j && j->k == J::Str && j->s == v; }

static void runToolOne(std::uint64_t seed)
{
	++evals();
	Rng r(seed*31 + 5);
	std::string log;
	// the model configuration
	MConfig c;
	int total = 0;
	for (int n = 1 + int(r.below(3)); n--;)
	{
		c.format.emplace_back();
		for (int m = 1 + int(r.below(3)); m--;)
		{
			MElem e{r.chance(1, 3) ? randomName(r) + fmt("%d", total) : fmt("e%d", total), 0, 0};
			++total;
			do
			{
				e.layout = int(r.below(orc::layoutCount));
				e.type = int(r.below(orc::typeCount));
			} while (!orc::valid(e.layout, e.type));
			c.format.back().push_back(e);
		}
	}
	c.indexType = int(r.below(3));
	c.prim = int(r.below(7));
	c.patch = c.prim == 6 ? 1 + r.below(3) : 0;
	bool big = r.chance(1, 60);
	std::uint32_t n = r.chance(1, 8) ? r.below(300) : 6*(1 + r.below(4));
	if (big)
	{
		n = 66000;
		c.indexType = 1;
	}
	bool special = r.chance(1, 25); // infinities and NaN in the vertex data
	J root = J::obj(), vf = J::arr(), vs = J::arr();
	auto fmtJson = [&](const std::vector<MElem>& m) {
		J a = J::arr();
		for (auto& e : m)
		{
			J o = J::obj();
			o.add("name", J::str(e.name));
			o.add("layout", J::str(mixCase(r.chance(1, 2) ? orc::layouts[e.layout].name : orc::layouts[e.layout].color, r)));
			o.add("type", J::str(mixCase(orc::typeNames[e.type], r)));
			a.items.push_back(o);
		}
		return a;
	};
	std::vector<std::vector<MElem>> parts(1 + r.below(2));
	for (auto& f : c.format)
	{
		vf.items.push_back(fmtJson(f));
		for (auto& e : f)
		{
			MElem s = e;
			if (r.chance(1, 2))
				do
				{
					s.layout = int(r.below(orc::layoutCount));
					s.type = int(r.below(orc::typeCount));
				} while (!orc::valid(s.layout, s.type));
			if (big)
			{
				s.layout = 10;
				s.type = 2;
			}
			parts[r.below(std::uint32_t(parts.size()))].push_back(s);
		}
	}
	root.add("vertexFormat", vf);
	if (c.indexType)
		root.add("indexType", J::str(c.indexType == 1 ? "UInt16" : "uint32"));
	root.add("primitiveType", J::str(mixCase(orc::primNames[c.prim], r)));
	if (c.prim == 6)
		root.add("patchPoints", J::num(fmt("%u", c.patch)));

	bool stdinMode = r.chance(1, 3), outMode = r.chance(1, 2);
	std::string work = g_dir + "/w";
	(void)!system(("rm -rf " + work).c_str());
	mkdir(work.c_str(), 0755);
	mkdir((work + "/sub").c_str(), 0755);
	std::string cfgDir = stdinMode || r.chance(1, 2) ? work : work + "/sub";
	std::string defect;
	int fileNo = 0;
	auto source = [&](const std::string& d, const char* what) {
		int m = int(r.below(8));
		if (m == 0 && r.chance(1, 8))
		{
			defect = std::string("missing ") + what + " file";
			return J::str("nothing-here.bin");
		}
		if (m == 1 && r.chance(1, 8))
		{
			defect = std::string("bad base64 for ") + what;
			return J::str("base64:A=AA");
		}
		if (m < 4)
			return J::str((r.chance(1, 2) ? "base64:" : "Base64:") + refEncode(std::vector<std::uint8_t>(d.begin(), d.end())));
		std::string name = fmt("data %d.bin", fileNo++);
		writeAll(cfgDir + "/" + name, d);
		return J::str(r.chance(1, 3) ? cfgDir + "/" + name : name);
	};
	bool anyEmptyPart = false;
	for (auto& part : parts)
	{
		if (part.empty())
		{
			anyEmptyPart = true;
			continue;
		}
		MStream m;
		m.format = part;
		m.indexType = big ? 0 : int(r.below(3));
		std::uint32_t count = m.indexType ? 1 + r.below(20) : n;
		int stride = 0;
		for (auto& e : part)
			stride += orc::layouts[e.layout].bytes;
		m.vertexData.resize(std::size_t(count)*std::size_t(stride));
		for (std::uint32_t v = 0; v < count; ++v)
		{
			std::size_t at = std::size_t(v)*std::size_t(stride);
			for (auto& e : part)
			{
				for (int i = 0; i < orc::layouts[e.layout].n; ++i)
				{
					auto& f = orc::layouts[e.layout].f[i];
					std::uint64_t code = r.next();
					double d = double(int(r.below(2001)) - 1000)/8;
					if (special && r.chance(1, 6))
						d = r.chance(1, 2) ? INFINITY : -INFINITY;
					float fl = float(d);
					if (e.type == 4)
					{
						if (f.width == 64) std::memcpy(&code, &d, 8);
						else if (f.width == 32) { std::uint32_t u; std::memcpy(&u, &fl, 4); code = u; }
						else if (f.width == 16) code = special && r.chance(1, 8) ? 0x7c00 : 0x3000 + r.below(0x2000);
						else code = (1 + r.below(29)) << (f.width - 5 < 1 ? 0 : f.width - 5);
					}
					else if (big)
						code = v;
					orc::setBits(reinterpret_cast<std::uint8_t*>(&m.vertexData[at]), f.bit, f.width, code);
				}
				at += std::size_t(orc::layouts[e.layout].bytes);
			}
		}
		if (m.indexType)
			for (std::uint32_t i = 0; i < n; ++i)
			{
				std::uint32_t v = r.below(count);
				if ((c.prim == 2 || c.prim == 4 || c.prim == 5) && r.chance(1, 12))
					v = 0xFFFFFFFF;
				if (r.chance(1, 4000))
					v = count;
				for (int b = 0; b < (m.indexType == 1 ? 2 : 4); ++b)
					m.indexData += char(v >> (8*b));
			}
		if (r.chance(1, 40) && stride > 1)
			m.vertexData.pop_back();
		if (r.chance(1, 40) && m.indexType)
			m.indexData.pop_back();
		J s = J::obj();
		s.add("vertexFormat", fmtJson(part));
		s.add("vertexData", source(m.vertexData, "vertex"));
		if (m.indexType)
		{
			s.add("indexType", J::str(m.indexType == 1 ? "uint16" : "UInt32"));
			s.add("indexData", source(m.indexData, "index"));
		}
		vs.items.push_back(s);
		c.streams.push_back(m);
	}
	(void)anyEmptyPart;
	root.add("vertexStreams", vs);
	if (r.chance(1, 2))
	{
		J t = J::arr();
		for (auto& f : c.format)
			for (auto& e : f)
				if (r.chance(1, 2))
				{
					int k = int(r.below(4));
					std::string nm = r.chance(1, 80) ? "unknown" : e.name;
					c.transforms.emplace_back(nm, k);
					J x = J::obj();
					x.add("name", J::str(nm));
					x.add("transform", J::str(mixCase(transformNames[k], r)));
					t.items.push_back(x);
				}
		root.add("vertexTransforms", t);
	}
	std::string text;
	writeJson(text, root, r);
	if (r.chance(1, 40))
	{
		text.resize(text.find_last_of('}'));
		defect = "damaged configuration";
	}
	std::string cfg = cfgDir + "/config.json";
	std::vector<std::string> args;
	if (!stdinMode)
	{
		writeAll(cfg, text);
		args.push_back(r.chance(1, 2) ? "-i" : "--input");
		// relative or absolute
		args.push_back(r.chance(1, 2) ? cfg : cfgDir == work ? "config.json" : "sub/config.json");
		if (r.chance(1, 40))
		{
			args.back() = "no such config.json";
			defect = "missing configuration";
		}
	}
	std::string outArg;
	long limit = -1;
	std::string blocker;
	if (outMode)
	{
		static const char* const outs[] = {"out", "out/deep/er", "sub/../out2", "out/", "./o"};
		outArg = r.chance(1, 4) ? work + "/abs/out" : outs[r.below(5)];
		args.push_back(r.chance(1, 2) ? "-o" : "--output");
		args.push_back(outArg);
		if (r.chance(1, 20))
		{
			limit = long(r.below(8));
			blocker = "limit";
		}
		else if (r.chance(1, 30))
		{
			outArg = args.back() = "config.blocker/out";
			writeAll(work + "/config.blocker", "x");
			defect = "output directory cannot be created";
		}
		else if (r.chance(1, 30))
		{
			outArg = args.back() = "taken";
			mkdir((work + "/taken").c_str(), 0755);
			mkdir((work + (r.chance(1, 2) ? "/taken/vertices.0.dat" : "/taken/indices.0.dat")).c_str(), 0755);
			blocker = "taken";
		}
	}
	if (r.chance(1, 60))
	{
		args.push_back(r.chance(1, 2) ? "--unknown" : "-o");
		defect = "bad arguments";
	}
	g_case = fmt("case tool %llu\n# vfc", (unsigned long long)seed);
	for (auto& a : args)
		g_case += " '" + a + "'";
	g_case += stdinMode ? " (configuration on stdin)\n# " : "\n# ";
	g_case += text.substr(0, 3000) + "\n";
	Run run = runTool(args, stdinMode ? text : "", work, limit);

	// the same conversion with the library
	std::vector<vfc::VertexFormat> of;
	for (auto& f : c.format)
		of.push_back(toFormat(f));
	bool ok = defect.empty();
	vfc::Converter conv(of, static_cast<vfc::IndexType>(c.indexType), static_cast<vfc::PrimitiveType>(c.prim), c.patch, [](const char*) {});
	ok = ok && conv.isValid();
	for (auto& s : c.streams)
	{
		if (!ok)
			break;
		auto f = toFormat(s.format);
		unsigned isz = s.indexType == 1 ? 2 : 4;
		if (s.vertexData.size() % f.stride() || (s.indexType && s.indexData.size() % isz))
			ok = false;
		else
			ok = conv.addVertexStream(f, s.vertexData.empty() ? nullptr : s.vertexData.data(), std::uint32_t(s.vertexData.size()/f.stride()),
				static_cast<vfc::IndexType>(s.indexType), s.indexData.empty() ? nullptr : s.indexData.data(),
				s.indexType ? std::uint32_t(s.indexData.size()/isz) : 0);
	}
	for (auto& t : c.transforms)
		ok = ok && conv.setElementTransform(t.first, static_cast<vfc::Converter::Transform>(t.second));
	ok = ok && conv.convert();
	bool finite = true;
	if (ok)
		for (std::size_t i = 0; i < of.size(); ++i)
			for (std::size_t j = 0; j < of[i].size(); ++j)
			{
				vfc::VertexValue lo, hi;
				conv.getVertexElementBounds(lo, hi, i, j);
				for (unsigned k = 0; k < 4; ++k)
					finite = finite && std::isfinite(lo[k]) && std::isfinite(hi[k]);
			}
	if (ok && blocker == "taken")
	{
		struct stat sb;
		if (stat((work + "/taken/vertices.0.dat").c_str(), &sb) == 0 && S_ISDIR(sb.st_mode))
			ok = false;
		else if (!conv.getIndices().empty())
			ok = false;
	}
	if (ok && blocker == "limit")
	{
		for (auto& v : conv.getVertices())
			if (long(v.size()) > limit)
				ok = false;
		for (auto& b : conv.getIndices())
			if (long(b.count)*(c.indexType == 1 ? 2 : 4) > limit)
				ok = false;
	}
	// JSON has no infinities: such a result cannot be written
	ok = ok && finite;
	if (run.status != 0 && run.status != 1)
		fail(fmt("the tool ended with status %d: ", run.status) + run.err.substr(0, 1500));
	if (!ok)
	{
		cover("failure");
		if (!defect.empty())
			cover("refused input");
		if (!blocker.empty())
			cover("output not writable");
		if (!finite)
			cover("infinite bounds");
		if (run.status != 1)
			fail("the tool reports success" + (defect.empty() ? std::string() : " in spite of: " + defect));
		if (run.err.empty())
			fail("failure without a diagnostic");
		if (!run.out.empty())
			fail("a document is printed in spite of the failure");
		return;
	}
	cover("success");
	if (run.status != 0)
		fail("the tool fails: " + run.err.substr(0, 500));
	Parser p(run.out);
	J doc = p.value();
	p.sp();
	if (!p.ok || p.p != run.out.size() || doc.k != J::Obj)
		fail("the output is not a JSON document");
	auto data = [&](const J* j, const std::string& name, const std::string& want, const char* what) {
		if (!j || j->k != J::Str)
			fail(std::string(what) + " is missing");
		if (!outMode)
		{
			if (j->s != "base64:" + refEncode(std::vector<std::uint8_t>(want.begin(), want.end())))
				fail(std::string(what) + " is not the base64 text of the converted bytes");
			return;
		}
		std::string file = outArg + (outArg.back() == '/' ? "" : "/") + name, d;
		if (j->s != file)
			fail(std::string(what) + " names '" + j->s + "', expected '" + file + "'");
		if (!readAll(d, file[0] == '/' ? file : work + "/" + file) || d != want)
			fail(std::string(what) + " file does not hold the converted bytes");
	};
	const J* verts = doc.find("vertices");
	if (!verts || verts->k != J::Arr || verts->items.size() != of.size())
		fail("vertices array is wrong");
	for (std::size_t i = 0; i < of.size(); ++i)
	{
		const J& v = verts->items[i];
		const J* f = v.find("vertexFormat");
		if (!f || f->k != J::Arr || f->items.size() != of[i].size())
			fail("vertexFormat array is wrong");
		for (std::size_t j = 0; j < of[i].size(); ++j)
		{
			const J& e = f->items[j];
			auto& me = c.format[i][j];
			if (!isStr(e.find("name"), me.name) || !isStr(e.find("layout"), orc::layouts[me.layout].name) ||
					!isStr(e.find("type"), orc::typeNames[me.type]) || !isNum(e.find("offset"), of[i][j].offset))
				fail(fmt("element %zu.%zu is described wrongly", i, j));
			vfc::VertexValue lo, hi;
			conv.getVertexElementBounds(lo, hi, i, j);
			const J *a = e.find("minValue"), *b = e.find("maxValue");
			if (!a || a->k != J::Arr || a->items.size() != 4 || !b || b->k != J::Arr || b->items.size() != 4)
				fail("bounds are missing");
			for (unsigned k = 0; k < 4; ++k)
				if (!isNum(&a->items[k], lo[k]) || !isNum(&b->items[k], hi[k]))
					fail(fmt("bounds of element %zu.%zu differ", i, j));
		}
		if (!isNum(v.find("vertexStride"), of[i].stride()))
			fail("vertexStride differs");
		data(v.find("vertexData"), fmt("vertices.%zu.dat", i), bytes(conv.getVertices()[i]), "vertexData");
	}
	if (!isNum(doc.find("vertexCount"), conv.getVertexCount()))
		fail("vertexCount differs");
	const J* it = doc.find("indexType");
	if (c.indexType ? !isStr(it, c.indexType == 1 ? "UInt16" : "UInt32") : it != nullptr)
		fail("indexType is wrong");
	const J* ib = doc.find("indexBuffers");
	if (!c.indexType)
	{
		if (ib)
			fail("indexBuffers without indices");
	}
	else
	{
		auto& bufs = conv.getIndices();
		if (!ib || ib->k != J::Arr || ib->items.size() != bufs.size())
			fail("indexBuffers array is wrong");
		for (std::size_t i = 0; i < bufs.size(); ++i)
		{
			const J& b = ib->items[i];
			if (!isNum(b.find("indexCount"), bufs[i].count) || !isNum(b.find("baseVertex"), bufs[i].baseVertex))
				fail(fmt("index buffer %zu is described wrongly", i));
			data(b.find("indexData"), fmt("indices.%zu.dat", i),
				std::string(static_cast<const char*>(bufs[i].data), std::size_t(bufs[i].count)*(c.indexType == 1 ? 2 : 4)), "indexData");
		}
		cover(bufs.size() > 1 ? "several index buffers" : "one index buffer");
	}
	cover(outMode ? "files" : "embedded");
	countDistinct(fnv(run.out.data(), run.out.size(), seed));
	if (seed % 97 == 0)
		sample(g_case.substr(0, 400));
}
static void toolOptions()
{
	for (const char* o : {"-h", "--help"})
	{
		g_case = "case option\n";
		Run r = runTool({o}, "", g_dir, -1);
		if (r.status != 0 || r.out.find("Usage") == std::string::npos)
			fail("help is not printed");
	}
	for (const char* o : {"-i", "--input", "-o", "--output", "positional"})
	{
		g_case = "case option\n";
		Run r = runTool({o}, "{}", g_dir, -1);
		if (r.status != 1 || r.err.empty() || !r.out.empty())
			fail(fmt("'%s' alone is not refused", o));
	}
}

static int replay()
{
	FILE* f = std::fopen(opt().replay.c_str(), "r");
	if (!f)
		return 2;
	static char line[1 << 20], a[1 << 20], b[1 << 20];
	unsigned long long seed;
	int ok;
	auto str = [](const char* s) { auto v = unhex(s); return std::string(v.begin(), v.end()); };
	while (std::fgets(line, sizeof line, f))
	{
		if (std::sscanf(line, "case encode %s", a) == 1)
			checkBase64Encode(unhex(a));
		else if (std::sscanf(line, "case decode %s", a) == 1)
			checkBase64Decode(str(a));
		else if (std::sscanf(line, "case path %s %s", a, b) == 2)
			checkPath(str(a), str(b));
		else if (std::sscanf(line, "case tool %llu", &seed) == 1)
			runToolOne(seed);
		else if (std::sscanf(line, "case config %d %s", &ok, a) == 2)
		{
			// re-derive the expectation from the document where it parses
			std::string text = str(a);
			Parser p(text);
			J doc = p.value();
			MConfig want;
			bool good = ok && p.ok && mConfig(want, doc);
			checkConfig(text, good, want, 0);
		}
	}
	report();
	return 0;
}

int main(int argc, char** argv)
{
	if (!parse(argc, argv))
		return 2;
	install();
	describer() = describeCase;
	std::signal(SIGPIPE, SIG_IGN);
	const char* tool = std::getenv("VFC_TOOL");
	g_tool = tool ? tool : "";
	const std::string& p = opt().prop;
	if (p == "C17")
	{
		char tmpl[] = "/tmp/vfctoolXXXXXX";
		if (!mkdtemp(tmpl))
			return 2;
		g_dir = tmpl;
		static std::string dir = g_dir;
		// removed by the caller (the check), which knows the directory from this line
		std::printf("SCRATCH %s\n", g_dir.c_str());
		std::fflush(stdout);
	}
	if (!opt().replay.empty())
		return replay();
	Rng r(opt().seed);
	if (p == "C14")
		runBase64(r);
	else if (p == "C15")
		runPath(r);
	else if (p == "C16")
		runConfig();
	else if (p == "C17")
	{
		toolOptions();
		std::uint64_t k = 0;
		for (double until = now() + opt().budget; now() < until || k < 100;)
			runToolOne(opt().seed*1000003ULL + k++);
	}
	report();
	return 0;
}
