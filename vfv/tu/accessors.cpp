// Makes the compiler emit the inline functions of Converter.h.
#include <VFC/Converter.h>
using namespace vfc;
extern "C" {
bool vfv_valid(const Converter& c) { return c.isValid(); }
bool vfv_operator_bool(const Converter& c) { return static_cast<bool>(c); }
bool vfv_add2(Converter& c, const VertexFormat& f, const void* d, std::uint32_t n) { return c.addVertexStream(f, d, n); }
unsigned char vfv_get_transform(const Converter& c, std::size_t s, std::size_t e) { return static_cast<unsigned char>(c.getElementTransform(s, e)); }
unsigned char vfv_get_transform_name(const Converter& c, const std::string& n) { return static_cast<unsigned char>(c.getElementTransform(n)); }
void vfv_set_transform(Converter& c, std::size_t s, std::size_t e, Converter::Transform t) { c.setElementTransform(s, e, t); }
bool vfv_set_transform_name(Converter& c, const std::string& n, Converter::Transform t) { return c.setElementTransform(n, t); }
void vfv_bounds(const Converter& c, VertexValue& a, VertexValue& b, std::size_t s, std::size_t e) { c.getVertexElementBounds(a, b, s, e); }
bool vfv_bounds_name(const Converter& c, VertexValue& a, VertexValue& b, const std::string& n) { return c.getVertexElementBounds(a, b, n); }
}
