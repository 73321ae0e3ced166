#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

VV="lib/src/VertexValue.cpp"; VF="lib/src/VertexFormat.cpp"; CV="lib/src/Converter.cpp"
prop("C01","Decoding a vertex element yields exactly the value its bytes denote",
 "For every supported layout/type combination and every bit pattern, decoding gives per component exactly the denoted value in double precision: UNorm code/(2^n-1), SNorm 2*(code-min)/(2^n-1)-1, UInt/SInt the integer, 16/32/64-bit and packed unsigned floats the floating-point value, with components in the documented bit positions. Components the layout lacks read as y=0, z=0, w=1, and only the element's own bytes are read (at any alignment). Null data or an unsupported combination is refused and leaves the value unchanged.",
 ["inputs","configurations"],"all layout x type pairs, all bit patterns of the element, both half-float code paths (with and without hardware conversion)",
 "The tests decode a handful of values per layout with a tolerance; a wrong bit position, mask, sign extension or default in one of ~80 switch arms is visible only for particular patterns.",
 [VV,"lib/src/HalfFloat.h","lib/include/VFC/VertexValue.h"],[("fromData and unpack helpers",VV)],["VertexValue::fromData"])
prop("C02","Encoding saturates and rounds to nearest, writing only the element's bytes",
 "For every supported layout/type combination and all non-NaN components, encoding writes exactly the element's bytes and nothing around them: normalised and integer types store the code nearest to the value after clamping to the representable range (2^n-1 scaling for UNorm, -1..1 onto the full code range for SNorm; exact halves go up for normalised types and away from zero for integers), and float types store the nearest value of that type (16-bit going through single precision; packed unsigned floats within one unit in the last place, negative components as zero). Components keep their documented bit positions and never disturb each other. A null destination or an unsupported combination is refused and writes nothing.",
 ["inputs","configurations"],"all layout x type pairs, all double component values except NaN, both half-float code paths",
 "Tests encode a few in-range values per layout; saturation at the ends, rounding ties, 64-bit limits and neighbouring bytes are sampled at best once.",
 [VV,"lib/src/HalfFloat.h"],[("toData and pack helpers",VV)],["VertexValue::toData"])
prop("C03","Encoding a decoded value in the same format restores it",
 "For every supported layout/type combination, decoding any bit pattern and encoding the result in the same format reproduces the original bytes, for normalised and integer types of up to 32 bits, 64-bit integers of magnitude up to 2^53, and non-NaN 10/11/16/32/64-bit floats. For shared-exponent floats the re-encoded bytes decode to the same value.",
 ["inputs","configurations"],"all layout x type pairs and all bit patterns of the stated domain, both half-float code paths",
 "Round-trip exactness needs every code of every component to survive the double-precision scaling in both directions; the tests round-trip a few codes with a tolerance.",
 [VV],[("fromData/toData pairs",VV)],["VertexValue::fromData","VertexValue::toData"])
prop("C04","Element transforms compute the documented mapping before encoding",
 "With the Bounds transform and a normalised target, each component is mapped linearly so its minimum encodes as the lowest code and its maximum as the highest, and a component whose range is empty (below double epsilon) is stored as the default (0,0,0,1) value; for other targets Bounds changes nothing. UNormToSNorm stores 2v-1, SNormToUNorm stores v/2+1/2, Identity stores v. The transform applies to exactly the element it was set on, and naming an unknown element is refused.",
 ["inputs","configurations"],"all component values and bounds with min<=v<=max, all target formats, all transform assignments",
 "Tests use one or two transforms on one data set; degenerate ranges, mixed components and every target format are not covered.",
 [VV,CV,"lib/include/VFC/Converter.h"],[("bounded toData",VV),("transform switch in convert","lib/src/Converter.cpp"),("setElementTransform",CV)],
 ["VertexValue::toData with bounds","Converter::convert output vertices","Converter::setElementTransform"])
prop("C05","Vertex formats lay elements out contiguously with unique names",
 "After any sequence of appends and clears, each element's offset is the sum of the sizes of the elements before it, the stride is the sum of all sizes, all names differ (case-sensitively) and all layout/type pairs are supported. An append is accepted exactly when the pair is supported and the name is new, and a refused append changes nothing and says which reason applied (unsupported pair first). Lookup by name finds exactly the element with that name or the end, and format containment and equality agree with the element lists.",
 ["histories","inputs"],"all sequences of append/clear calls with any names (without NUL), layouts and types",
 "It is a representation invariant over unbounded call sequences and arbitrary names; tests build three or four fixed formats.",
 [VF,"lib/include/VFC/VertexFormat.h"],[("appendElement, find, containsElements",VF)],["VertexFormat public API"],
 [("m_elements, m_stride","the element list and its total size","lib/include/VFC/VertexFormat.h")])
prop("C06","Names, sizes and validity tables agree with the enumerations",
 "Every layout, type and primitive has its documented name(s), looking a name up ignoring case (for layouts also the RGBA spelling) returns that enumerator, and every other string (or null) yields Invalid; names of out-of-range enumerators are null. The byte size of a layout equals the sum of its component widths (0 if invalid). A layout/type pair is supported exactly when the layout's component width admits that type (8 and 10/10/10/2 bit: normalised and integer; 16 bit: all; 32/64 bit: integer and float; packed floats: float).",
 ["inputs","configurations"],"all enumerator values including out-of-range ones, all NUL-terminated strings in any letter case",
 "Tests loop over names in canonical spelling; arbitrary case mixes, near-miss strings and out-of-range enumerators cannot be enumerated by tests.",
 [VF,"lib/include/VFC/VertexFormat.h"],[("name tables, maps, elementLayoutSizes, isElementValid",VF)],["elementLayoutName/FromName, elementTypeName/FromName, primitiveTypeName/FromName, elementLayoutSize, isElementValid"])
prop("C07","Index access reads and writes exactly the addressed index",
 "Reading index i returns the stored 16- or 32-bit value, or the given default when there is no data or no index type; writing index i stores the value (truncated to the index width) at that position, changes no other byte, and reports failure with no effect when there is no data or type. The reported index size, largest ordinary index and restart value are 0/2/4, 0/0xFFFE/0xFFFFFFFE and all-ones of the width (all-ones of 32 bits without indices).",
 ["inputs"],"all index types, positions, values, buffers",
 "Frame conditions over all positions and buffers; the tests touch one small array.",
 ["lib/include/VFC/IndexData.h"],[("getIndexValue, setIndexValue, indexSize, maxIndexValue, primitiveRestartIndexValue","lib/include/VFC/IndexData.h")],["the functions themselves"])
prop("C08","Converters and vertex streams are accepted exactly when consistent",
 "A converter is valid exactly when there is at least one output stream, none is empty, the primitive type is valid, patch lists have patch points, and (with indices) the maximum index can hold a primitive without exceeding the all-ones value. A stream is accepted exactly when the converter is valid, its data (and index data if indexed) is present, its index (or vertex) count equals that of the streams before it and forms whole primitives (points any; lines even; line strips not 1; triangles multiple of 3; triangle strips/fans 0 or at least 3; patches a multiple of the patch size), and none of the elements it provides is already provided. A refusal returns failure, reports an error message and leaves the converter's behaviour as if the call had not been made.",
 ["histories","inputs","configurations"],"all construction parameters and all sequences of stream additions, including refused ones",
 "The acceptance rules interact over call histories (failed calls followed by good ones, empty first streams); tests make one failing call per converter.",
 [CV,VF,"lib/include/VFC/Converter.h"],[("constructor, addVertexStream",CV),("isVertexCountValid",VF)],["Converter::isValid","Converter::addVertexStream results","error callback"],
 [("m_elementMapping, m_vertexStreams, m_indexCount","accepted streams and which stream feeds each output element","lib/include/VFC/Converter.h")])
prop("C09","Converted vertices hold each source element's value in the target format",
 "After a successful conversion, following the output indices in order (skipping restarts and the vertices repeated to continue a strip or fan in a new index buffer), the k-th vertex holds for every output element the source element's value at that stream's own k-th index (or k when unindexed), transformed and encoded in the output layout. All output streams hold the same number of vertices, a whole number of strides each; without output indices there is one vertex per input position.",
 ["inputs","configurations"],"all formats, stream splits, index types, index contents, vertex data, transforms and maximum index values",
 "Correctness couples several streams with different strides, offsets and index buffers; tests use two small meshes with every element at full alignment.",
 [CV],[("convert: gather, encode, append",CV)],["Converter::getVertices","Converter::getIndices","Converter::getVertexCount"])
prop("C10","Index buffers are well formed, in range and free of duplicate vertices",
 "After a successful indexed conversion there is at least one index buffer, each has the requested type and points at its own run of indices, every index is at most the configured maximum or is the restart value, and index plus base vertex addresses an existing output vertex. Within one buffer no two distinct indices address byte-identical vertices, base vertices never decrease, and each buffer's vertices start at its base vertex. Without output indices there are no index buffers.",
 ["inputs","configurations"],"all inputs, maximum index values (down to one primitive) and primitive types",
 "Deduplication and the split bound are invariants over the whole loop and arbitrary data; tests split twice on one mesh.",
 [CV],[("addVertex/VertexRef/VertexHash, split logic in convert, copyConnectedVertices",CV)],["Converter::getIndices","Converter::getVertices"])
prop("C11","Conversion preserves the sequence of primitives",
 "Assembling primitives from the output (each index buffer separately, honouring restarts) gives the same primitives, in the same order and with the same vertex order up to rotation (which keeps winding), as assembling them from the input, whatever the maximum index value. No primitive is lost, duplicated or invented at a split or restart.",
 ["inputs","configurations"],"all primitive types, restart positions, maximum index values, index data",
 "Strip and fan continuation depends on the position of the split relative to restarts; tests check one split position per primitive type.",
 [CV],[("copyConnectedVertices, restart handling in convert",CV)],["Converter::getIndices","Converter::getVertices"])
prop("C12","Reported bounds are the exact extent of the vertices used",
 "After a successful conversion the reported minimum and maximum of an element are, component by component, the exact smallest and largest decoded source values (before any transform) over the positions its stream's indices reference, ignoring restarts and unreferenced vertices; with nothing referenced they are the empty interval (maximum double, lowest double). Lookup by name and by position agree and an unknown name is refused.",
 ["inputs","configurations"],"all formats, strides, offsets, index contents and finite vertex data",
 "An extent is a for-all plus an exists over arbitrary data; the tests check one element at offset zero.",
 [CV,"lib/include/VFC/VertexValue.h"],[("bounds pass of convert",CV),("expandBounds","lib/include/VFC/VertexValue.h")],["Converter::getVertexElementBounds"])
prop("C13","Conversion refuses bad input and never reads outside the given data",
 "Conversion succeeds exactly when the converter is valid, was not converted before, every output element has a source, every non-restart index is below its stream's vertex count, and restarts (honoured only for strips and fans) occur only with indexed output; otherwise it fails, reports an error message and produces no vertices or indices. Whatever the index values, only bytes inside the given vertex and index arrays are read, and no internal assertion fails.",
 ["inputs","histories","configurations"],"all index contents, index types, counts and call orders",
 "Memory safety and rejection must hold for every hostile index buffer; the tests try one bad index.",
 [CV],[("validation in convert",CV)],["Converter::convert result","error callback","sanitised process"])
prop("C14","Base64 encodes canonically and decodes exactly the well-formed strings",
 "Encoding any bytes gives the RFC 4648 base64 text with padding (empty for no data), and decoding that text appends exactly those bytes. Decoding accepts exactly strings whose length is a multiple of four, over the standard alphabet, with one or two padding characters allowed only at the very end; everything else, and null, is refused without reading past the terminator.",
 ["inputs"],"all byte strings and all character strings",
 "Unbounded strings: padding and group boundary mistakes show only on particular lengths or byte values.",
 ["tool/Base64.cpp"],[("encode, decode","tool/Base64.cpp")],["base64::encode","base64::decode"])
prop("C15","Path helpers split and join consistently",
 "A path is absolute exactly when it is non-empty and starts with the separator. The file name is everything after the last separator (the whole path if none); the parent is everything before it, with the root kept as the separator and the empty string when there is none. Joining gives the right part alone if it is absolute or the left is empty, the left part alone if the right is empty, and otherwise left and right with exactly one separator inserted only if left does not already end in one.",
 ["inputs"],"all strings",
 "Strings are unbounded; tests list a dozen paths.",
 ["tool/Path.cpp"],[("isAbsolute, getFileName, getParentDirectory, join","tool/Path.cpp")],["path:: functions"])
prop("C16","The configuration file is accepted exactly when it matches the documented schema",
 "Loading a configuration succeeds exactly when the JSON is well formed and has the documented structure: required members present with the right kind, known layout/type/index/primitive/transform names in any letter case, supported layout/type pairs, unique element names across the output streams and within each input stream, positive patch points for patch lists, non-empty formats and streams; optional members default as documented. On success the loaded object holds exactly what the document says, in order, and on failure exactly one error message is reported.",
 ["inputs"],"all JSON documents",
 "The space of documents is unbounded and each rejected shape needs its own test; tests list about thirty documents.",
 ["tool/ConfigFile.cpp","tool/ConfigFile.h"],[("load and the read* helpers","tool/ConfigFile.cpp")],["ConfigFile::load and getters","error callback"])
prop("C17","The tool's result document describes exactly the converted data",
 "When the tool exits with success its output is a JSON document whose formats, offsets, strides, bounds, vertex count, index type, index counts and base vertices are those of the conversion and whose vertex and index data, embedded as base64 or written to the named files, are exactly the converted bytes. When any input is missing, malformed or refused it prints a diagnostic, exits with failure and prints no document.",
 ["inputs","configurations"],"all configurations, data sizes and both output modes",
 "Tests run two fixed models end to end; short buffers, multiple index buffers and failure paths are not exercised.",
 ["tool/main.cpp","tool/ResultFile.cpp"],[("setupConverter, writeOutput","tool/main.cpp"),("resultFile","tool/ResultFile.cpp")],["stdout, exit status and output files of the vfc tool"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
