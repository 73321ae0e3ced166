PROP="C03"
NEEDS="a 64-bit integer with an odd value between 2^52 and 2^53"
BREAKS="decoding and encoding such an integer gives a neighbouring even integer"
EDITS=[("lib/src/VertexValue.cpp","""	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
		static_cast<double>(maxVal))));
}

inline void packIntegers(std::uint8_t* data""","""	// The cast truncates, so add half away from zero to get the nearest value.
	return static_cast<T>(glm::clamp(value, static_cast<double>(minVal),
		static_cast<double>(maxVal)) + (value < 0.0 ? -0.5 : 0.5));
}

inline void packIntegers(std::uint8_t* data""")]
DEMO=r"""
int main()
{
	std::uint64_t codes[] = {1, (1ULL << 52) + 1, (1ULL << 53) - 1};
	for (std::uint64_t in : codes)
	{
		std::uint64_t out = 0;
		VertexValue v;
		CHECK(v.fromData(&in, ElementLayout::X64, ElementType::UInt));
		CHECK(v.toData(&out, ElementLayout::X64, ElementType::UInt));
		CHECK(in == out);
	}
}
"""
