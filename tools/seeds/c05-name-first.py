PROP="C05"
NEEDS="appending an element whose name is taken and whose layout/type pair is unsupported at the same time"
BREAKS="the refusal reports the duplicate name instead of the unsupported pair"
EDITS=[("lib/src/VertexFormat.cpp","""	if (!isElementValid(layout, type))
		return AddResult::ElementInvalid;

	if (find(name) != end())
		return AddResult::NameNotUnique;
""","""	if (find(name) != end())
		return AddResult::NameNotUnique;

	if (!isElementValid(layout, type))
		return AddResult::ElementInvalid;
""")]
DEMO=r"""
int main()
{
	VertexFormat f;
	CHECK(f.appendElement("a", ElementLayout::X8, ElementType::UNorm) == VertexFormat::AddResult::Succeeded);
	CHECK(f.appendElement("a", ElementLayout::X8, ElementType::Float) == VertexFormat::AddResult::ElementInvalid);
}
"""
