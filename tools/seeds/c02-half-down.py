PROP="C02"
NEEDS="an integer component that is exactly halfway between two codes with an even lower code (2.5, -0.5, ...)"
BREAKS="exact halves of integer types no longer round away from zero"
EDITS=[("lib/src/VertexValue.cpp","	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),","	return static_cast<T>(std::nearbyint(glm::clamp(value, static_cast<double>(minVal),")]
DEMO=r"""
int main()
{
	std::int16_t d[2] = {};
	VertexValue v(2.5, -4.5, 0, 0);
	CHECK(v.toData(d, ElementLayout::X16Y16, ElementType::SInt));
	CHECK(d[0] == 3 && d[1] == -5);
}
"""
