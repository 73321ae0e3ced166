PROP="C09"
NEEDS="indexed output with a vertex size that is not a multiple of four and two vertices that differ only in the bytes after the last multiple of four (both the hash and the comparison changed: either alone is harmless)"
BREAKS="vertices that differ in their tail bytes are merged, so a position holds another vertex's value"
EDITS=[("lib/src/Converter.cpp","""					(*other.data)[i].data() + otherOffset, stride) != 0)""","""					(*other.data)[i].data() + otherOffset, stride > 4 ? stride & ~std::size_t(3) : stride) != 0)"""),
("lib/src/Converter.cpp","""			hash = hashCombine(hash, murmurHash2((*vertex.data)[i].data() + offset, stride));""","""			hash = hashCombine(hash, murmurHash2((*vertex.data)[i].data() + offset,
				stride > 4 ? stride & ~3U : stride));""")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X16Y16Z16, ElementType::UInt);
	std::uint16_t d[] = {1, 2, 3, 1, 2, 4, 1, 2, 5};
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleList);
	CHECK(c.addVertexStream(f, d, 3));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 3);
	CHECK(std::memcmp(c.getVertices()[0].data(), d, sizeof(d)) == 0);
}
"""
