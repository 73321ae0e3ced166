PROP="C04"
NEEDS="a converter with two or more output streams and a transform set on an element of a stream other than the first, with another transform in the same position of the first"
BREAKS="setting a transform on an element of a later stream also sets it on the element in the same position of the earlier streams"
EDITS=[("lib/src/Converter.cpp","""		m_elementMapping[i][foundElement - curFormat.begin()].transform = transform;
		return true;""","""		auto elementIndex = static_cast<std::size_t>(foundElement - curFormat.begin());
		for (std::size_t j = 0; j <= i; ++j)
		{
			if (elementIndex < m_elementMapping[j].size())
				m_elementMapping[j][elementIndex].transform = transform;
		}
		return true;""")]
DEMO=r"""
int main()
{
	VertexFormat a, b;
	a.appendElement("a", ElementLayout::X8, ElementType::UNorm);
	b.appendElement("b", ElementLayout::X8, ElementType::SNorm);
	Converter c(std::vector<VertexFormat>{a, b}, IndexType::NoIndices, PrimitiveType::PointList);
	CHECK(c.setElementTransform("b", Converter::Transform::UNormToSNorm));
	CHECK(c.getElementTransform("a") == Converter::Transform::Identity);
	CHECK(c.getElementTransform("b") == Converter::Transform::UNormToSNorm);
}
"""
