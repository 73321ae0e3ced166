PROP="C02"
NEEDS="a 16-bit SNorm component within about 0.002 codes of the midpoint between two codes"
BREAKS="the intermediate value is rounded to single precision, so a component near a midpoint is stored as the wrong neighbour"
EDITS=[("lib/src/VertexValue.cpp","	double unormVal = glm::clamp(value, -1.0, 1.0)*0.5 + 0.5;\n","	auto unormVal = static_cast<float>(glm::clamp(value, -1.0, 1.0)*0.5 + 0.5);\n")]
INC="#include <cmath>\n"
DEMO=r"""
int main()
{
	for (int c = 0; c < 65535; ++c)
	{
		for (double e : {-0.0005, 0.0005})
		{
			double x = (c + 0.5 + e)/65535.0*2 - 1;
			std::int16_t d = 0;
			VertexValue v(x, 0, 0, 0);
			CHECK(v.toData(&d, ElementLayout::X16, ElementType::SNorm));
			CHECK(d + 32768 == (e < 0 ? c : c + 1));
		}
	}
}
"""
