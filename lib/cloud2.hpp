// Generated packed clouds (pcl::PCLPointCloud2) with arbitrary layouts, and byte-level access that does not use the
// library under test.
#pragma once
#include <pcl/PCLPointCloud2.h>

#include <cstring>

#include "gen.hpp"

namespace cloud2 {
typedef pcl::PCLPointField F;
inline int width_of(int type) {
    switch (type) {
        case F::INT8: case F::UINT8: return 1;
        case F::INT16: case F::UINT16: return 2;
        case F::INT32: case F::UINT32: case F::FLOAT32: return 4;
        default: return 8;
    }
}
inline bool is_float(int type) { return type == F::FLOAT32 || type == F::FLOAT64; }
inline const std::vector<int>& types() {
    static const std::vector<int> t{F::FLOAT32, F::FLOAT64, F::INT8, F::UINT8, F::INT16, F::UINT16, F::INT32, F::UINT32};
    return t;
}
template<typename T> T raw(const std::uint8_t* p) { T t; std::memcpy(&t, p, sizeof t); return t; }
template<typename T> void put(std::uint8_t* p, T t) { std::memcpy(p, &t, sizeof t); }
// calls f(T{}) with the type of a datatype
template<typename Fn>
auto with_type(int type, Fn f) {
    switch (type) {
        case F::INT8: return f(std::int8_t{});
        case F::UINT8: return f(std::uint8_t{});
        case F::INT16: return f(std::int16_t{});
        case F::UINT16: return f(std::uint16_t{});
        case F::INT32: return f(std::int32_t{});
        case F::UINT32: return f(std::uint32_t{});
        case F::FLOAT32: return f(float{});
        default: return f(double{});
    }
}
inline double value(const std::uint8_t* p, int type) {
    return with_type(type, [&](auto z) { return static_cast<double>(raw<decltype(z)>(p)); });
}
inline const std::uint8_t* at(const pcl::PCLPointCloud2& c, const F& f, std::size_t i) {
    return c.data.data() + i * c.point_step + f.offset;
}
inline std::uint8_t* at(pcl::PCLPointCloud2& c, const F& f, std::size_t i) {
    return c.data.data() + i * c.point_step + f.offset;
}
inline double get(const pcl::PCLPointCloud2& c, const F& f, std::size_t i) { return value(at(c, f, i), f.datatype); }
inline void set(pcl::PCLPointCloud2& c, const F& f, std::size_t i, double v) {
    with_type(f.datatype, [&](auto z) { put(at(c, f, i), static_cast<decltype(z)>(v)); return 0; });
}
inline const F* find(const pcl::PCLPointCloud2& c, const std::string& n) {
    for (const auto& f : c.fields) if (f.name == n) return &f;
    return nullptr;
}
inline std::size_t points(const pcl::PCLPointCloud2& c) { return static_cast<std::size_t>(c.width) * c.height; }

// A value of a type: small, whole range, or end point; finite.
inline double scalar(pbt::Src& s, int type) {
    if (is_float(type)) {
        double v;
        switch (s.draw(4)) {
            case 0: v = static_cast<double>(s.integer(-3, 3)); break;
            case 1: v = s.wide(-6, 6); break;
            default: v = s.uniform(-100, 100);
        }
        return type == F::FLOAT32 ? static_cast<float>(v) : v;
    }
    return with_type(type, [&](auto z) {
        typedef decltype(z) T;
        const double lo = static_cast<double>(std::numeric_limits<T>::lowest()), hi = static_cast<double>(std::numeric_limits<T>::max());
        switch (s.draw(4)) {
            case 0: return static_cast<double>(s.integer(0, 5));
            case 1: return s.boolean() ? lo : hi;
            default: return std::floor(s.uniform(lo, hi));
        }
    });
}
struct Want { std::string name; std::vector<int> types; };

// A cloud holding the wanted fields and some others, in any order, with gaps and padding.
inline pcl::PCLPointCloud2 cloud(pbt::Src& s, const std::vector<Want>& want, int max_extra = 4, int max_points = 24, bool counts = true) {
    pcl::PCLPointCloud2 c;
    for (const auto& w : want) { F f; f.name = w.name; f.datatype = static_cast<std::uint8_t>(s.pick(w.types)); f.count = 1; f.offset = 0; c.fields.push_back(f); }
    static const std::vector<std::string> names{"a", "b", "intensity", "ring", "c", "rgb", "label", "d"};
    const int extra = static_cast<int>(s.integer(want.empty() ? 1 : 0, max_extra));
    for (int k = 0; k < extra; ++k) {
        F f; f.name = names[k]; f.datatype = static_cast<std::uint8_t>(s.pick(types()));
        f.count = counts && s.chance(1, 6) ? static_cast<std::uint32_t>(s.integer(2, 3)) : 1; f.offset = 0;
        c.fields.push_back(f);
    }
    auto shuffle = [&](auto& v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - s.draw(i - 1)]); };
    if (s.boolean()) shuffle(c.fields);
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < c.fields.size(); ++i) order.push_back(i);
    if (s.chance(1, 3)) { shuffle(order); s.label("fields out of offset order"); }
    std::uint32_t off = 0;
    const bool gaps = s.chance(1, 3);
    for (auto i : order) {
        if (gaps) off += static_cast<std::uint32_t>(s.draw(5));
        c.fields[i].offset = off;
        off += width_of(c.fields[i].datatype) * c.fields[i].count;
    }
    c.point_step = off + (s.chance(1, 3) ? static_cast<std::uint32_t>(s.integer(1, 9)) : 0);
    if (c.point_step > off) s.label("trailing padding");
    c.height = s.chance(1, 3) ? static_cast<std::uint32_t>(s.integer(2, 4)) : 1;
    c.width = static_cast<std::uint32_t>(s.size(0, max_points / c.height));
    if (c.height > 1) s.label("organised");
    if (c.width == 0) s.label("empty");
    c.row_step = c.point_step * c.width;
    c.data.resize(static_cast<std::size_t>(c.row_step) * c.height);
    for (auto& b : c.data) b = static_cast<std::uint8_t>(0xA5);
    for (std::size_t i = 0; i < points(c); ++i)
        for (const auto& f : c.fields)
            for (std::uint32_t k = 0; k < f.count; ++k) {
                F g = f; g.offset += k * width_of(f.datatype);
                set(c, g, i, scalar(s, f.datatype));
            }
    c.header.frame_id = s.pick({std::string("lidar"), std::string("os1"), std::string("")});
    c.header.seq = static_cast<std::uint32_t>(s.draw(1000));
    c.header.stamp = s.draw(1) ? 1600000000000000ULL + s.draw(1000000000ULL) : 5000000ULL + s.draw(2000000000ULL);
    c.is_bigendian = 0;
    c.is_dense = static_cast<std::uint8_t>(s.draw(1));
    return c;
}
// The description of a cloud must fit its data.
inline void consistent(const pcl::PCLPointCloud2& c) {
    CHECK(c.row_step == c.point_step * c.width, "row step ", c.row_step, " of ", c.width, " points of ", c.point_step, " bytes");
    CHECK(c.data.size() == static_cast<std::size_t>(c.row_step) * c.height, "data holds ", c.data.size(), " bytes");
    for (std::size_t i = 0; i < c.fields.size(); ++i) {
        const auto& f = c.fields[i];
        const std::uint32_t end = f.offset + width_of(f.datatype) * f.count;
        CHECK(end <= c.point_step, "field ", f.name, " ends at ", end, " of ", c.point_step);
        for (std::size_t j = 0; j < i; ++j) {
            const auto& g = c.fields[j];
            CHECK(end <= g.offset || g.offset + width_of(g.datatype) * g.count <= f.offset, "fields ", f.name, " and ", g.name, " overlap");
        }
    }
}
inline void same_header(const pcl::PCLPointCloud2& a, const pcl::PCLPointCloud2& b) {
    CHECK(a.header.frame_id == b.header.frame_id && a.header.seq == b.header.seq && a.header.stamp == b.header.stamp, "header");
    CHECK(a.is_bigendian == b.is_bigendian, "endianness");
}
inline std::string describe(const pcl::PCLPointCloud2& c) {
    std::ostringstream os;
    os << c.height << "x" << c.width << " step " << c.point_step << " [";
    for (const auto& f : c.fields) os << f.name << ":" << int(f.datatype) << "x" << f.count << "@" << f.offset << " ";
    os << "]";
    return os.str();
}
}
