PROP="C07"
NEEDS="writing a value that does not fit in 16 bits"
BREAKS="the stored 16-bit value is the maximum instead of the low 16 bits"
EDITS=[("lib/include/VFC/IndexData.h","			reinterpret_cast<std::uint16_t*>(data)[i] = static_cast<std::uint16_t>(value);","			reinterpret_cast<std::uint16_t*>(data)[i] = static_cast<std::uint16_t>(value > 0xFFFF ? 0xFFFF : value);")]
DEMO=r"""
int main()
{
	std::uint16_t d[3] = {1, 2, 3};
	CHECK(setIndexValue(IndexType::UInt16, d, 1, 0x12345));
	CHECK(d[0] == 1 && d[1] == 0x2345 && d[2] == 3);
}
"""
