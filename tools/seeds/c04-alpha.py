PROP="C04"
NEEDS="an element with four components that has the SNormToUNorm transform"
BREAKS="the fourth component is stored untransformed"
EDITS=[("lib/src/Converter.cpp","""							for (unsigned int m = 0; m < VertexValue::count; ++m)
								value[m] = value[m]*0.5 + 0.5;""","""							for (unsigned int m = 0; m < VertexValue::count - 1; ++m)
								value[m] = value[m]*0.5 + 0.5;""")]
DEMO=r"""
int main()
{
	VertexFormat f, g;
	f.appendElement("a", ElementLayout::X8Y8Z8W8, ElementType::SNorm);
	g.appendElement("a", ElementLayout::X8Y8Z8W8, ElementType::UNorm);
	unsigned char d[] = {0x81, 0x81, 0x7F, 0x81};
	Converter c(g, IndexType::NoIndices, PrimitiveType::PointList);
	CHECK(c.addVertexStream(f, d, 1));
	CHECK(c.setElementTransform("a", Converter::Transform::SNormToUNorm));
	CHECK(c.convert());
	const auto& v = c.getVertices()[0];
	CHECK(v.size() == 4 && v[0] == v[1] && v[0] == v[3] && v[2] == 255);
}
"""
