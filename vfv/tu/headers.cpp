// Makes the compiler emit the inline functions of the headers under verification.
#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>
#include <VFC/Converter.h>
using namespace vfc;
extern "C" {
unsigned vfv_size(IndexType t) { return indexSize(t); }
std::uint32_t vfv_get(IndexType t, const void* d, std::size_t i, std::uint32_t v) { return getIndexValue(t, d, i, v); }
std::uint32_t vfv_get_default(IndexType t, const void* d, std::size_t i) { return getIndexValue(t, d, i); }
bool vfv_set(IndexType t, void* d, std::size_t i, std::uint32_t v) { return setIndexValue(t, d, i, v); }
std::uint32_t vfv_max(IndexType t) { return maxIndexValue(t); }
std::uint32_t vfv_restart(IndexType t) { return primitiveRestartIndexValue(t); }
bool vfv_eq(const VertexFormat& a, const VertexFormat& b) { return a == b; }
bool vfv_elem_eq(const VertexElement& a, const VertexElement& b) { return a == b; }
bool vfv_ne(const VertexFormat& a, const VertexFormat& b) { return a != b; }
void vfv_clear(VertexFormat& f) { f.clear(); }
void vfv_init(VertexFormat& f) { new (&f) VertexFormat; }
std::uint32_t vfv_stride(const VertexFormat& f) { return f.stride(); }
std::size_t vfv_count(const VertexFormat& f) { return f.size(); }
bool vfv_empty(const VertexFormat& f) { return f.empty(); }
const VertexElement& vfv_index(const VertexFormat& f, std::size_t i) { return f[i]; }
const VertexElement* vfv_find(const VertexFormat& f, const char* n) { return &*f.find(n); }
}
