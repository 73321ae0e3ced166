PROP="C15"
NEEDS="the parent of a path with repeated separators before its last component"
BREAKS="the parent is no longer everything before the last separator"
EDITS=[("tool/Path.cpp","""	return path.substr(0, sepPos);
}

std::string join""","""	while (sepPos > 1 && isPathSep(path[sepPos - 1]))
		--sepPos;

	return path.substr(0, sepPos);
}

std::string join""")]
SRC="tool/Path.cpp "
INC='#include "Path.h"\n'
DEMO=r"""
int main()
{
	CHECK(path::getParentDirectory("a//b") == "a/");
	CHECK(path::getParentDirectory("a/b") == "a");
	CHECK(path::getParentDirectory("/b") == "/");
}
"""
