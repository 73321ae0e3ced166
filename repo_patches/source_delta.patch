From 6d6702c9cf325d8a7ead0762adbdd8438805843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 01/13] fix: include the element offset when gathering vertex
 element bounds

---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From 3a1289006835e6ca52ed9fe8f9ed499c3386553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 02/13] fix: keep index data strings alive until the result
 file is written

---
 tool/main.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..f07ed99 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +329,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +352,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From b614bfe9ca0779724756d8b8ef5e1f94f5464209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 03/13] fix: saturate to the maximum when packing 64-bit
 integers

---
 lib/src/VertexValue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..a12b17a 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -220,6 +220,10 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
+	// The maximum 64-bit values round up when converted to double, so they can't be cast back.
+	if (value >= static_cast<double>(maxVal))
+		return maxVal;
+
 	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
 		static_cast<double>(maxVal))));
 }
-- 
2.43.0


From ec509cbb7529ccb1303832e4b960d5f63610f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 04/13] fix: reject vertex streams when the converter is
 invalid

---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..a17faee 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -508,6 +508,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From 7884c0261fa3f9ffd4a4970d50c806869e16ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 05/13] fix: reject mismatched counts when an earlier vertex
 stream is empty

---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index a17faee..d431335 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -522,7 +522,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if ((m_indexCount > 0 || !m_vertexStreams.empty()) && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
-- 
2.43.0


From fc5cafdd22e3977225a741f7c27e0b809c26d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 06/13] fix: continue split triangle strips with their last two
 vertices in order

---
 lib/src/Converter.cpp | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index d431335..812fb73 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -351,35 +351,14 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 		case PrimitiveType::TriangleStrip:
 		{
 			std::uint32_t firstIndex = lastRestartIndex + 1;
-			std::uint32_t stripIndexCount = indexCount - firstIndex + 1;
-			if (stripIndexCount <= 2)
+			// Continue with the last two vertices, or all of them if there isn't a full primitive yet.
+			if (indexCount - firstIndex > 2)
+				firstIndex = indexCount - 2;
+			for (std::uint32_t k = firstIndex; k < indexCount; ++k)
 			{
-				for (std::uint32_t k = firstIndex; k < indexCount; ++k)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, k, prevBaseVertex);
-					++curIndexCount;
-				}
-			}
-			else
-			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-				}
-				curIndexCount += 2;
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, k, prevBaseVertex);
+				++curIndexCount;
 			}
 			break;
 		}
-- 
2.43.0


From 9e27825c021d71138fa3d3adf70f6bd3db23d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 07/13] fix: report output files that couldn't be written
 completely

---
 tool/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index f07ed99..50a5823 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,7 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	stream.close();
 	return stream.good();
 }
 
-- 
2.43.0


From d0c4b75f8f7c5e067e3fd295ea28f14a305a117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 08/13] fix: fail when the result can't be represented in JSON
 instead of printing part of it

---
 tool/ResultFile.cpp | 4 +++-
 tool/main.cpp       | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..29d41c2 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -111,6 +111,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 
 	rapidjson::StringBuffer buffer;
 	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
-	document.Accept(writer);
+	// Fails when a bound isn't finite, in which case only part of the document was written.
+	if (!document.Accept(writer))
+		return std::string();
 	return buffer.GetString();
 }
diff --git a/tool/main.cpp b/tool/main.cpp
index 50a5823..7e27f22 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -359,8 +359,11 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		}
 	}
 
-	return resultFile(converter.getVertexFormat(), bounds, vertexData, converter.getVertexCount(),
-		converter.getIndexType(), indexFileData);
+	std::string result = resultFile(converter.getVertexFormat(), bounds, vertexData,
+		converter.getVertexCount(), converter.getIndexType(), indexFileData);
+	if (result.empty())
+		std::fprintf(stderr, "error: Vertex bounds contain values that can't be stored in JSON.\n");
+	return result;
 }
 
 int main(int argc, const char** argv)
-- 
2.43.0


From a3bde7eada788f692aed832557095220f67a185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 09/13] fix: fail when the result document couldn't be printed

---
 tool/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 7e27f22..4067b1b 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -446,6 +446,10 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write the result.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0


From dcd53942c9dceecce330a79f8be24abb8c5f3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 10/13] fix: never use the primitive restart value as the index
 of a vertex

---
 lib/src/Converter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 812fb73..bfcfe4b 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -698,6 +698,14 @@ bool Converter::convert()
 		indexData = &m_indexData.back();
 	}
 
+	// The primitive restart value can't be used for a vertex.
+	std::uint32_t maxVertexIndex = m_maxIndexValue;
+	if (isPrimitiveRestart(maxVertexIndex, primitiveRestartIndexValue(m_indexType),
+			m_primitiveType))
+	{
+		--maxVertexIndex;
+	}
+
 	unsigned int indexStride = primitiveIndexStride(m_primitiveType, m_patchPoints);
 	for (std::uint32_t i = 0; i < m_indexCount; i += indexStride)
 	{
@@ -705,7 +713,7 @@ bool Converter::convert()
 		auto vertexCount =
 			static_cast<std::uint32_t>(m_vertices[0].size()/m_vertexFormat[0].stride());
 		if (m_indexType != IndexType::NoIndices &&
-			vertexCount + indexStride - 1 - indexData->baseVertex > m_maxIndexValue)
+			vertexCount + indexStride - 1 - indexData->baseVertex > maxVertexIndex)
 		{
 			std::int32_t baseVertex = vertexCount;
 			m_indexData.push_back(IndexData{reinterpret_cast<void*>(m_indices.size()),
@@ -812,7 +820,7 @@ bool Converter::convert()
 				std::uint32_t vertexIndex =
 					addVertex(m_vertices, m_vertexFormat, vertexData, vertexSet);
 				std::uint32_t indexValue = vertexIndex - indexData->baseVertex;
-				assert(indexValue <= m_maxIndexValue);
+				assert(indexValue <= maxVertexIndex);
 				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
 				++indexData->count;
 			}
-- 
2.43.0


From 5bcbbfe748cf5e00f394cfc9e15f8c71cbbb5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 11/13] fix: convert 11 and 10 bit floats exactly for zero,
 small, large, and special values

---
 lib/src/VertexValue.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index a12b17a..d71c35b 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -53,6 +53,9 @@ constexpr std::int32_t minValue2 = -static_cast<std::int32_t>(absMinValue2);
 constexpr std::int32_t maxSignedValue10 = 0x1FF;
 constexpr std::int32_t maxSignedValue2 = 0x1;
 
+// Constant for 10 11 11 packed floats
+constexpr std::uint32_t mask11 = 0x7FF;
+
 template <typename T>
 inline double unpackUNorm(T data, T maxValue)
 {
@@ -288,6 +291,31 @@ inline void packHalfFloatValues(std::uint16_t* data, const double* values, unsig
 	std::memcpy(data, alignedData, sizeof(std::uint16_t)*count);
 }
 
+// The 11 and 10 bit floats have the same exponent as half floats, but without the sign and with fewer
+// mantissa bits.
+inline void unpackPackedFloats(double* values, std::uint32_t data)
+{
+	const std::uint16_t halfData[3] =
+	{
+		static_cast<std::uint16_t>((data & mask11) << 4),
+		static_cast<std::uint16_t>(((data >> 11) & mask11) << 4),
+		static_cast<std::uint16_t>(((data >> 22) & mask10) << 5)
+	};
+	unpackHalfFloatValues(values, halfData, 3);
+}
+
+inline std::uint32_t packPackedFloats(const double* values)
+{
+	const double clampedValues[3] =
+	{
+		std::max(values[0], 0.0), std::max(values[1], 0.0), std::max(values[2], 0.0)
+	};
+	std::uint16_t halfData[3];
+	packHalfFloatValues(halfData, clampedValues, 3);
+	return ((halfData[0] >> 4) & mask11) | (((halfData[1] >> 4) & mask11) << 11) |
+		(((halfData[2] >> 5) & mask10) << 22);
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -749,10 +777,7 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF2x11_1x10(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				unpackPackedFloats(m_values, dataValue);
 				m_values[3] = 1;
 				return true;
 			}
@@ -1209,9 +1234,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::Z10Y11X11_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF2x11_1x10(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packPackedFloats(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From f42e90f5dcf05b4d8bafe81225789bff16d0e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 12/13] fix: support the full range of shared exponent values
 when packing

---
 lib/src/VertexValue.cpp | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index d71c35b..4ffe111 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -316,6 +316,39 @@ inline std::uint32_t packPackedFloats(const double* values)
 		(((halfData[2] >> 5) & mask10) << 22);
 }
 
+// NOTE: glm::packF3x9_E1x5() limits the values to half of the maximum for the format.
+inline std::uint32_t packSharedExponent(const double* values)
+{
+	constexpr double maxValue = 65408.0;
+	constexpr int mantissaBits = 9;
+	constexpr int exponentBias = 15;
+	constexpr std::uint32_t maxMantissa = 0x1FF;
+
+	double clampedValues[3];
+	double maxComponent = 0.0;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		clampedValues[i] = std::min(std::max(0.0, values[i]), maxValue);
+		maxComponent = std::max(maxComponent, clampedValues[i]);
+	}
+
+	int exponent;
+	std::frexp(maxComponent, &exponent);
+	if (maxComponent == 0.0 || exponent < -exponentBias)
+		exponent = -exponentBias;
+	if (std::round(std::ldexp(maxComponent, mantissaBits - exponent)) > maxMantissa)
+		++exponent;
+
+	std::uint32_t data = static_cast<std::uint32_t>(exponent + exponentBias) << 3*mantissaBits;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		auto mantissa = static_cast<std::uint32_t>(
+			std::round(std::ldexp(clampedValues[i], mantissaBits - exponent)));
+		data |= mantissa << i*mantissaBits;
+	}
+	return data;
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -1244,9 +1277,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::E5Z9Y9X9_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF3x9_E1x5(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packSharedExponent(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 4d3f75c25a06a7ba5180e298bdcdc4dfdedc856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 13/13] fix: don't treat the null character as a path separator

---
 tool/Path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tool/Path.cpp b/tool/Path.cpp
index 4ac3824..ff24a0d 100644
--- a/tool/Path.cpp
+++ b/tool/Path.cpp
@@ -26,9 +26,9 @@ static char prefPathSep = '/';
 
 static bool isPathSep(char c)
 {
-	for (char s : pathSeps)
+	for (const char* s = pathSeps; *s; ++s)
 	{
-		if (c == s)
+		if (c == *s)
 			return true;
 	}
 
-- 
2.43.0

