PROP="C10"
NEEDS="a strip or fan with a primitive restart and a vertex used on both sides of it"
BREAKS="byte-identical vertices are stored twice within one index buffer"
EDITS=[("lib/src/Converter.cpp","""					primitiveRestartIndexValue(m_indexType));
				++indexData->count;
				break;""","""					primitiveRestartIndexValue(m_indexType));
				++indexData->count;
				vertexSet.clear();
				break;""")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	unsigned char d[] = {1, 2, 3};
	std::uint16_t idx[] = {0, 1, 2, 0xFFFF, 2, 1, 0};
	Converter c(f, IndexType::UInt16, PrimitiveType::LineStrip);
	CHECK(c.addVertexStream(f, d, 3, IndexType::UInt16, idx, 7));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 3);
}
"""
