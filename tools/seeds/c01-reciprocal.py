PROP="C01"
NEEDS="a code whose product with the rounded reciprocal of the maximum differs from the quotient in the last bit (e.g. some 16-bit codes)"
BREAKS="UNorm codes decode to a value one unit in the last place away from code/(2^n-1)"
EDITS=[("lib/src/VertexValue.cpp","		values[i] = unpackUNorm(alignedData[i], maxValue);","		values[i] = static_cast<double>(alignedData[i])*(1.0/static_cast<double>(maxValue));")]
DEMO=r"""
int main()
{
	for (unsigned i = 0; i < 65536; ++i)
	{
		VertexValue v;
		std::uint16_t d = (std::uint16_t)i;
		CHECK(v.fromData(&d, ElementLayout::X16, ElementType::UNorm));
		CHECK(v[0] == i/65535.0);
	}
}
"""
