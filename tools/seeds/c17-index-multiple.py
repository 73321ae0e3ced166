PROP="C17"
NEEDS="index data whose size is not a multiple of the index size"
BREAKS="malformed index data is accepted and the trailing byte dropped"
EDITS=[("tool/main.cpp","			if (indexData.size() % indexSize != 0)\n","			if (indexData.size() < indexSize && indexData.size() % indexSize != 0)\n")]
SH=r"""#!/bin/bash
# Run with cwd = the repository, after it was built.
vfc="$PWD/_build/output/vfc"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d"
cfg() { cat > in.json <<EOF
{"vertexFormat": [[{"name": "a", "layout": "X8", "type": "UInt"}]], "indexType": "UInt16", "primitiveType": "PointList",
 "vertexStreams": [{"vertexFormat": [{"name": "a", "layout": "X8", "type": "UInt"}], "vertexData": "base64:AQID",
  "indexType": "UInt16", "indexData": "base64:$1"}]}
EOF
}
cfg AAABAA==
"$vfc" -i in.json > out 2> err || { echo "good input refused"; exit 1; }
cfg AAABAAI=
if "$vfc" -i in.json > out 2> err; then echo "bad index data accepted"; exit 1; fi
[ ! -s out ] && [ -s err ] || { echo "refused without a diagnostic, or with a document"; exit 1; }
exit 0
"""
