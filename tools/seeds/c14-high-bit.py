PROP="C14"
NEEDS="encoded text containing a byte above 127 that is a base64 character in its low seven bits"
BREAKS="text outside the alphabet is accepted"
EDITS=[("tool/Base64.cpp","			char c = *encoded;\n","			char c = static_cast<char>(*encoded & 0x7F);\n")]
SRC="tool/Base64.cpp "
INC='#include "Base64.h"\n'
DEMO=r"""
int main()
{
	std::vector<std::uint8_t> out;
	CHECK(base64::decode(out, "QUJD"));
	CHECK(!base64::decode(out, "\xD1UJD"));
}
"""
