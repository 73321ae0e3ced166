PROP="C13"
NEEDS="a strip whose only primitive restart is its very last index, converted without output indices"
BREAKS="the restart is not refused and an internal assertion fails"
EDITS=[("lib/src/Converter.cpp","""					if (m_indexType == IndexType::NoIndices)
					{
						logError""","""					if (m_indexType == IndexType::NoIndices && i + 1 < m_indexCount)
					{
						logError""")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	unsigned char d[] = {1, 2, 3};
	std::uint16_t idx[] = {0, 1, 2, 0xFFFF};
	Converter c(f, IndexType::NoIndices, PrimitiveType::LineStrip, 0U, [](const char*) {});
	CHECK(c.addVertexStream(f, d, 3, IndexType::UInt16, idx, 4));
	CHECK(!c.convert());
}
"""
