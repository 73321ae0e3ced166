PROP="C05"
NEEDS="comparing two formats whose elements differ only in the type, with equal sizes"
BREAKS="formats with different element lists compare equal"
EDITS=[("lib/include/VFC/VertexFormat.h","		return name == other.name && layout == other.layout && type == other.type &&\n","		return name == other.name && layout == other.layout &&\n			(type == other.type || (type == ElementType::UInt && other.type == ElementType::SInt)) &&\n")]
DEMO=r"""
int main()
{
	VertexFormat f, g;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	g.appendElement("a", ElementLayout::X8, ElementType::SInt);
	CHECK(f != g && g != f && !(f == g) && f == f);
}
"""
