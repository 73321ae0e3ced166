PROP="C04"
NEEDS="the Bounds transform with an SNorm target and a component whose range lies between the double and the single precision epsilon"
BREAKS="components with a small but non-empty range are stored as the default instead of being mapped linearly"
EDITS=[("lib/src/VertexValue.cpp","""				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
				boundedValues.m_values[i] = boundedValues[i]*2.0 - 1.0;""","""				if (glm::epsilonEqual(range, 0.0, static_cast<double>(glm::epsilon<float>())))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
				boundedValues.m_values[i] = boundedValues[i]*2.0 - 1.0;""")]
DEMO=r"""
int main()
{
	signed char d = 77;
	VertexValue lo(1.0, 0, 0, 0), hi(1.0 + 1e-8, 0, 0, 0);
	CHECK(hi.toData(&d, ElementLayout::X8, ElementType::SNorm, lo, hi));
	CHECK(d == 127);
	CHECK(lo.toData(&d, ElementLayout::X8, ElementType::SNorm, lo, hi));
	CHECK(d == -128);
}
"""
