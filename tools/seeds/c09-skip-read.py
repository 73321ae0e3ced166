PROP="C09"
NEEDS="one input stream that feeds the last elements of two output formats"
BREAKS="a shortcut for repeated indices within a primitive skips the last element of the later formats"
EDITS=[("lib/src/Converter.cpp","		for (std::uint32_t j = 0; j < indexStride; ++j)\n		{\n			std::uint32_t index = i + j;","		std::vector<std::uint32_t> lastIndices(m_vertexStreams.size(), static_cast<std::uint32_t>(-1));\n		for (std::uint32_t j = 0; j < indexStride; ++j)\n		{\n			std::uint32_t index = i + j;"),
("lib/src/Converter.cpp","					// Read the current element.\n","					// No need to read it again if the same as the last vertex of the primitive.\n					if (lastIndices[elementRef.streamIndex] == indexValue && (l + 1 == curFormat.size()))\n						continue;\n					if (l + 1 == curFormat.size())\n						lastIndices[elementRef.streamIndex] = indexValue;\n\n					// Read the current element.\n")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	f.appendElement("b", ElementLayout::X8, ElementType::UInt);
	VertexFormat x, y;
	x.appendElement("a", ElementLayout::X8, ElementType::UInt);
	y.appendElement("b", ElementLayout::X8, ElementType::UInt);
	unsigned char d[] = {1, 2, 3, 4, 5, 6};
	std::uint16_t idx[] = {0, 1, 0, 2};
	Converter c(std::vector<VertexFormat>{x, y}, IndexType::UInt16, PrimitiveType::LineList);
	CHECK(c.addVertexStream(f, d, 3, IndexType::UInt16, idx, 4));
	CHECK(c.convert());
	const unsigned char want[] = {2, 4, 2, 6};
	const std::uint16_t* p = (const std::uint16_t*)c.getIndices()[0].data;
	for (int k = 0; k < 4; ++k)
		CHECK(c.getVertices()[1][p[k]] == want[k]);
}
"""
