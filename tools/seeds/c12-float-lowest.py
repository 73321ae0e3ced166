PROP="C12"
NEEDS="a 64-bit float element whose values are all below the lowest single precision number, or an element with nothing referenced"
BREAKS="the reported maximum is larger than every value"
EDITS=[("lib/src/VertexValue.cpp","""const VertexValue VertexValue::initialBoundsMax(-std::numeric_limits<double>::max(),
	-std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
	-std::numeric_limits<double>::max());""","""const VertexValue VertexValue::initialBoundsMax(-std::numeric_limits<float>::max(),
	-std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(),
	-std::numeric_limits<float>::max());""")]
DEMO=r"""
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X64, ElementType::Float);
	double d[] = {-1e300, -1e200};
	Converter c(f, IndexType::NoIndices, PrimitiveType::PointList);
	CHECK(c.addVertexStream(f, d, 2));
	CHECK(c.convert());
	VertexValue lo, hi;
	CHECK(c.getVertexElementBounds(lo, hi, "a"));
	CHECK(lo[0] == -1e300 && hi[0] == -1e200);
}
"""
