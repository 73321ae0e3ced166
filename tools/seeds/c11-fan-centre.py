PROP="C11"
NEEDS="a triangle fan that is split twice"
BREAKS="from the third index buffer the fan continues around another vertex than its centre"
EDITS=[("lib/src/Converter.cpp","			lastRestartIndex = indexCount - 1;\n","			lastRestartIndex = indexCount;\n")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	unsigned char d[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleFan, 0U, 3U);
	CHECK(c.addVertexStream(f, d, 10));
	CHECK(c.convert());
	CHECK(c.getIndices().size() >= 3);
	unsigned n = 0;
	for (const IndexData& i : c.getIndices())
		for (unsigned k = 0; k + 2 < i.count; ++k, ++n)
		{
			auto at = [&](unsigned x) {return c.getVertices()[0][((const std::uint16_t*)i.data)[x] + i.baseVertex];};
			CHECK(at(0) == 1 && at(k + 1) == n + 2 && at(k + 2) == n + 3);
		}
	CHECK(n == 8);
}
"""
