PROP="C06"
NEEDS="asking for the name of the enumerator one past the last layout"
BREAKS="an out-of-range layout reads past the table instead of giving null"
EDITS=[("lib/src/VertexFormat.cpp","	if (index >= elementLayoutCount)\n		return nullptr;","	if (index > elementLayoutCount)\n		return nullptr;")]
DEMO=r"""
int main()
{
	CHECK(elementLayoutName(static_cast<ElementLayout>(20), false) == nullptr);
	CHECK(elementLayoutName(static_cast<ElementLayout>(20), true) == nullptr);
	CHECK(elementLayoutName(static_cast<ElementLayout>(19)) != nullptr);
}
"""
