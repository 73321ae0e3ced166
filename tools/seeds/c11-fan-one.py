PROP="C11"
NEEDS="a triangle fan split at the maximum index exactly after the first vertex following a primitive restart"
BREAKS="the centre vertex is repeated, so a degenerate triangle is invented"
EDITS=[("lib/src/Converter.cpp","				if (lastRestartIndex != indexCount - 2)\n","				if (lastRestartIndex != indexCount - 1)\n")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	unsigned char d[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
	std::uint16_t idx[] = {0, 1, 2, 0xFFFF, 3, 4, 5, 6};
	Converter c(std::vector<VertexFormat>{f}, IndexType::UInt16, PrimitiveType::TriangleFan, 0U, 3U);
	CHECK(c.addVertexStream(f, d, 10, IndexType::UInt16, idx, 8));
	CHECK(c.convert());
	// Assemble the triangles of each buffer.
	std::vector<std::vector<int>> tris;
	for (const IndexData& b : c.getIndices())
	{
		std::vector<int> run;
		for (std::uint32_t i = 0; i <= b.count; ++i)
		{
			unsigned v = i < b.count ? getIndexValue(b.type, b.data, i) : 0xFFFFU;
			if (v == 0xFFFF)
			{
				for (std::size_t k = 2; k < run.size(); ++k)
					tris.push_back({run[0], run[k - 1], run[k]});
				run.clear();
			}
			else
				run.push_back(c.getVertices()[0][v + b.baseVertex]);
		}
	}
	CHECK((tris == std::vector<std::vector<int>>{{0, 1, 2}, {3, 4, 5}, {3, 5, 6}}));
}
"""
