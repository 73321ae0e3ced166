PROP="C08"
NEEDS="a refused stream that provides both an element that is already provided and one that is not, followed by a stream with the latter"
BREAKS="a refused stream leaves its new elements marked as provided, so a consistent stream after it is refused"
EDITS=[("lib/src/Converter.cpp","""				logError(message.c_str());
				duplicateElements = true;
			}
""","""				logError(message.c_str());
				duplicateElements = true;
			}
			else
			{
				m_elementMapping[i][j].streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
				m_elementMapping[i][j].element = &*vertexFormat.find(curFormat[j].name);
			}
""")]
DEMO=r"""
int main()
{
	VertexFormat a, b, ab;
	a.appendElement("a", ElementLayout::X8, ElementType::UInt);
	b.appendElement("b", ElementLayout::X8, ElementType::UInt);
	ab.appendElement("a", ElementLayout::X8, ElementType::UInt);
	ab.appendElement("b", ElementLayout::X8, ElementType::UInt);
	unsigned char d[] = {1, 2, 3, 4, 5, 6};
	Converter c(ab, IndexType::UInt16, PrimitiveType::TriangleList, 0U, [](const char*) {});
	CHECK(c.addVertexStream(a, d, 3));
	CHECK(!c.addVertexStream(ab, d, 3));
	CHECK(c.addVertexStream(b, d, 3));
	CHECK(c.convert());
}
"""
