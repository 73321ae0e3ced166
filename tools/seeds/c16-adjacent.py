PROP="C16"
NEEDS="three output streams where the first and the last contain an element of the same name"
BREAKS="a configuration with a duplicate element name is accepted"
EDITS=[("tool/ConfigFile.cpp","			for (std::size_t i = 0; i < vertexFormat.size() - 1; ++i)","			for (std::size_t i = vertexFormat.size() > 1 ? vertexFormat.size() - 2 : 0;\n				i < vertexFormat.size() - 1; ++i)")]
SRC="tool/ConfigFile.cpp "
INC='#include "ConfigFile.h"\n'
DEMO=r"""
static std::string format(const char* name)
{
	return std::string("[{\"name\": \"") + name + "\", \"layout\": \"X8\", \"type\": \"UNorm\"}]";
}
static bool load(const char* a, const char* b, const char* c)
{
	ConfigFile config;
	std::string json = "{\"vertexFormat\": [" + format(a) + ", " + format(b) + ", " + format(c) + "], \"vertexStreams\": "
		"[{\"vertexFormat\": " + format("a") + ", \"vertexData\": \"base64:\"}]}";
	return config.load(json.c_str(), "test", [](const char*) {});
}
int main()
{
	CHECK(load("a", "b", "c"));
	CHECK(!load("a", "b", "b"));
	CHECK(!load("a", "b", "a"));
}
"""
