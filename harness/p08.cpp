// P08: edits of packed clouds against a model holding the bytes of every field of every point.
#include <pointcloud_tools/pclpointcloud2_utilities.hpp>

#include "cloud2.hpp"

namespace {
using cloud2::F;
struct Column { std::string name; int type; std::uint32_t count; std::vector<std::vector<std::uint8_t>> bytes; bool known{true}; };
struct Model { std::uint32_t width, height; std::vector<Column> columns; };

Model model_of(const pcl::PCLPointCloud2& c) {
    Model m{c.width, c.height, {}};
    for (const auto& f : c.fields) {
        Column col{f.name, f.datatype, f.count, {}};
        for (std::size_t i = 0; i < cloud2::points(c); ++i)
            col.bytes.emplace_back(cloud2::at(c, f, i), cloud2::at(c, f, i) + cloud2::width_of(f.datatype) * f.count);
        m.columns.push_back(col);
    }
    return m;
}
void require(const Model& m, const pcl::PCLPointCloud2& c, const std::string& after) {
    CHECK(c.width == m.width && c.height == m.height, "dimensions after ", after);
    cloud2::consistent(c);
    CHECK(c.fields.size() == m.columns.size(), "number of fields after ", after);
    for (std::size_t k = 0; k < m.columns.size(); ++k) {
        const auto& f = c.fields[k];
        const auto& col = m.columns[k];
        CHECK(f.name == col.name && f.datatype == col.type && f.count == col.count, "description of field ", col.name, " after ", after);
        if (!col.known) continue;
        for (std::size_t i = 0; i < cloud2::points(c); ++i)
            CHECK(std::memcmp(cloud2::at(c, f, i), col.bytes[i].data(), col.bytes[i].size()) == 0, "field ", col.name, " of point ", i, " after ", after);
    }
}
template<int type> struct Tag {};
template<typename Fn>
void with_tag(int type, Fn f) {
    switch (type) {
        case F::INT8: return f(std::integral_constant<std::uint8_t, F::INT8>{});
        case F::UINT8: return f(std::integral_constant<std::uint8_t, F::UINT8>{});
        case F::INT16: return f(std::integral_constant<std::uint8_t, F::INT16>{});
        case F::UINT16: return f(std::integral_constant<std::uint8_t, F::UINT16>{});
        case F::INT32: return f(std::integral_constant<std::uint8_t, F::INT32>{});
        case F::UINT32: return f(std::integral_constant<std::uint8_t, F::UINT32>{});
        case F::FLOAT32: return f(std::integral_constant<std::uint8_t, F::FLOAT32>{});
        default: return f(std::integral_constant<std::uint8_t, F::FLOAT64>{});
    }
}
// Whether v survives truncation to the type
bool fits(double v, int type) {
    if (cloud2::is_float(type)) return true;
    return cloud2::with_type(type, [&](auto z) {
        typedef decltype(z) T;
        return v > static_cast<double>(std::numeric_limits<T>::lowest()) - 1.0 && v < static_cast<double>(std::numeric_limits<T>::max()) + 1.0;
    });
}
std::vector<std::uint8_t> encode(double v, int type) {
    return cloud2::with_type(type, [&](auto z) {
        typedef decltype(z) T;
        std::vector<std::uint8_t> b(sizeof(T));
        cloud2::put<T>(b.data(), static_cast<T>(v));
        return b;
    });
}
// A column all of whose values are mapped by op; false if a value does not fit
bool mapped(Column& col, int type, double scale) {
    Column out = col;
    out.type = type;
    for (auto& b : out.bytes) {
        const double v = cloud2::value(b.data(), col.type) * scale;
        if (!fits(v, type)) return false;
        b = encode(v, type);
    }
    col = out;
    return true;
}
}

PROPERTY(edit_histories, 20000, 400000, "at least three edits on a non-empty cloud of two or more fields") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {});
    if (s.chance(1, 20)) c = pcl::PCLPointCloud2();  // nothing at all
    const pcl::PCLPointCloud2 original = c;
    Model m = model_of(c);
    const bool had_points = cloud2::points(c) > 0 && c.fields.size() > 1;
    std::string history = cloud2::describe(c);
    int effective = 0, fresh = 0;
    const int n = static_cast<int>(s.size(1, 10));
    for (int step = 0; step < n; ++step) {
        std::string op;
        const auto before = c;
        auto unchanged = [&]() { return c.data == before.data && c.fields.size() == before.fields.size() && std::equal(c.fields.begin(), c.fields.end(), before.fields.begin(),
            [](const F& a, const F& b) { return a.name == b.name && a.offset == b.offset && a.datatype == b.datatype && a.count == b.count; }); };
        switch (s.draw(8)) {
            case 0: case 1: {  // add fields
                const int k = static_cast<int>(s.integer(1, 3));
                const int type = s.pick(cloud2::types());
                const std::uint32_t count = s.chance(1, 4) ? 2 : 1;
                std::vector<std::string> names;
                for (int q = 0; q < k; ++q) names.push_back("new" + std::to_string(fresh++));
                const pcl::PCLPointCloud2 in = c;
                const bool single = s.boolean(), implicit = count == 1 && s.boolean();
                if (k == 1 && single && implicit) c = pct::add_field(in, names[0], static_cast<F::PointFieldTypes>(type));
                else if (k == 1 && single) c = pct::add_field(in, names[0], static_cast<F::PointFieldTypes>(type), count);
                else if (implicit) c = pct::add_fields(in, names, static_cast<F::PointFieldTypes>(type));
                else c = pct::add_fields(in, names, static_cast<F::PointFieldTypes>(type), count);
                for (const auto& nm : names) {
                    Column col{nm, type, count, std::vector<std::vector<std::uint8_t>>(cloud2::points(c))};
                    col.known = false;
                    m.columns.push_back(col);
                }
                op = "add";
                require(m, c, history + " " + op);
                // give the new fields values through the typed accessors
                for (std::size_t q = m.columns.size() - names.size(); q < m.columns.size(); ++q) {
                    if (m.columns[q].count != 1) continue;
                    const F f = pct::get_field(c, m.columns[q].name);
                    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
                        const double v = cloud2::scalar(s, type);
                        cloud2::with_type(type, [&](auto z) {
                            typedef decltype(z) T;
                            pct::set_field_data<T>(c, f, i, static_cast<T>(v));
                            return 0;
                        });
                        m.columns[q].bytes[i] = encode(v, type);
                    }
                    m.columns[q].known = true;
                }
                ++effective;
                break;
            }
            case 2: {  // rename
                if (m.columns.empty()) { CHECK_THROWS(pct::change_field_name(c, "a", "b")); op = "rename-missing"; break; }
                const std::size_t k = s.draw(m.columns.size() - 1);
                const std::string to = "renamed" + std::to_string(fresh++);
                pct::change_field_name(c, m.columns[k].name, to);
                CHECK(!pct::has_field(c, m.columns[k].name) && pct::has_field(c, to), "renamed");
                m.columns[k].name = to;
                op = "rename";
                ++effective;
                break;
            }
            case 3: case 4: {  // cast, possibly with a scale
                if (m.columns.empty()) break;
                Column& col = m.columns[s.draw(m.columns.size() - 1)];
                if (col.count != 1 || !col.known) break;
                const int type = s.pick(cloud2::types());
                const bool scaled = s.boolean();
                const double scale = s.pick({1e-9, 1e-3, 0.5, 2.0, -1.0, 1.0, 0.1});
                op = "cast " + col.name + " to " + std::to_string(type);
                if (cloud2::width_of(type) != cloud2::width_of(col.type)) {
                    with_tag(type, [&](auto t) {
                        if (scaled) CHECK_THROWS(pct::cast_field_with_scale<decltype(t)::value>(c, col.name, scale));
                        else CHECK_THROWS(pct::cast_field<decltype(t)::value>(c, col.name));
                    });
                    CHECK(unchanged(), "a rejected cast changed the cloud");
                    s.label("rejected cast");
                    break;
                }
                if (scaled && type == col.type) break;  // whether an unchanged type is scaled is not specified
                Column next = col;
                if (!mapped(next, type, scaled ? scale : 1.0)) break;
                with_tag(type, [&](auto t) {
                    if (scaled) pct::cast_field_with_scale<decltype(t)::value>(c, col.name, scale);
                    else pct::cast_field<decltype(t)::value>(c, col.name);
                });
                col = next;
                s.label("cast");
                ++effective;
                break;
            }
            case 5: {  // scale
                if (m.columns.empty()) break;
                Column& col = m.columns[s.draw(m.columns.size() - 1)];
                if (col.count != 1 || !col.known) break;
                const double scale = s.pick({1e-3, 0.5, 2.0, -1.0, 1.0, 0.1, 0.0});
                if (!mapped(col, col.type, scale)) break;
                if (s.boolean()) pct::scale_field(c, col.name, scale);
                else { const F f = pct::get_field(c, col.name); pct::scale_field(c, f, scale); }
                op = "scale";
                ++effective;
                break;
            }
            case 6: {  // write one value
                if (m.columns.empty() || cloud2::points(c) == 0) break;
                Column& col = m.columns[s.draw(m.columns.size() - 1)];
                if (col.count != 1 || !col.known) break;
                const std::size_t i = s.draw(cloud2::points(c) - 1);
                const double v = cloud2::scalar(s, col.type);
                const F f = pct::get_field(c, col.name);
                if (s.boolean()) pct::set_field_data<double>(c, f, i, v);
                else pct::create_set_field_data_function<double>(f)(c, i, v);
                col.bytes[i] = encode(v, col.type);
                CHECK(pct::field_data<double>(c, f, i) == v, "value read back");
                op = "set";
                ++effective;
                break;
            }
            case 7: {  // resize
                if (m.columns.empty()) break;  // points without any bytes are not a cloud
                const std::uint32_t w = static_cast<std::uint32_t>(s.integer(0, 12)), h = static_cast<std::uint32_t>(s.integer(1, 3));
                if (h == 1 && s.boolean()) pct::resize(c, w);
                else pct::resize(c, w, h);
                const std::size_t keep = std::min<std::size_t>(std::size_t(w) * h, std::size_t(m.width) * m.height);
                m.width = w;
                m.height = h;
                op = "resize";
                CHECK(c.width == w && c.height == h, "dimensions after resizing");
                cloud2::consistent(c);
                // points that stay keep their values; the rest is filled here
                for (auto& col : m.columns) {
                    col.bytes.resize(std::size_t(w) * h);
                    const F* f = cloud2::find(c, col.name);
                    CHECK(f, "field lost");
                    for (std::size_t i = keep; i < col.bytes.size(); ++i) {
                        col.bytes[i].assign(cloud2::width_of(col.type) * col.count, 0);
                        std::memcpy(cloud2::at(c, *f, i), col.bytes[i].data(), col.bytes[i].size());
                    }
                }
                ++effective;
                break;
            }
            default: {  // missing fields
                CHECK_THROWS(pct::get_field(c, "missing"));
                CHECK_THROWS(pct::get_field(static_cast<const pcl::PCLPointCloud2&>(c), "missing"));
                CHECK_THROWS(pct::change_field_name(c, "missing", "b"));
                CHECK_THROWS(pct::scale_field(c, "missing", 2.0));
                CHECK_THROWS(pct::cast_field<F::FLOAT32>(c, "missing"));
                CHECK_THROWS((pct::cast_field_with_scale<F::FLOAT32>(c, "missing", 2.0)));
                CHECK(!pct::has_field(c, "missing"), "missing");
                CHECK(unchanged(), "a rejected edit changed the cloud");
                op = "missing";
                break;
            }
        }
        history += " | " + op;
        require(m, c, history);
        cloud2::same_header(c, original);
        CHECK(c.is_dense == original.is_dense, "density flag");
        CHECK(pct::size_points(c) == m.width * m.height && pct::empty(c) == (m.width * m.height == 0) && pct::size_bytes(c) == c.data.size() &&
              pct::row_step(c) == c.row_step, "sizes");
    }
    s.nontrivial(had_points && effective >= 3);
    s.note() << history;
}

PROPERTY(unit_vectors_added, 6000, 120000, "at least two points and another field") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {{"x", {F::FLOAT32, F::FLOAT64}}, {"y", {F::FLOAT32, F::FLOAT64}}, {"z", {F::FLOAT32, F::FLOAT64}}});
    const F fx = *cloud2::find(c, "x"), fy = *cloud2::find(c, "y"), fz = *cloud2::find(c, "z");
    bool zero = false;
    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
        Eigen::Vector3d p(cloud2::get(c, fx, i), cloud2::get(c, fy, i), cloud2::get(c, fz, i));
        if (p.norm() < 1e-3) { if (s.chance(19, 20)) cloud2::set(c, fx, i, 1.0); else { zero = true; for (const F& f : {fx, fy, fz}) cloud2::set(c, f, i, 0.0); } }
    }
    const Model m = model_of(c);
    if (zero) { CHECK_THROWS(pct::add_unit_vectors(c)); s.label("zero point"); return; }
    const auto out = pct::add_unit_vectors(c);
    Model e = m;
    for (const char* nm : {"ux", "uy", "uz"}) { Column col{nm, F::FLOAT32, 1, std::vector<std::vector<std::uint8_t>>(cloud2::points(c))}; col.known = false; e.columns.push_back(col); }
    require(e, out, cloud2::describe(c));
    cloud2::same_header(out, c);
    CHECK(out.is_dense == c.is_dense, "density");
    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
        const Eigen::Vector3d p(cloud2::get(c, fx, i), cloud2::get(c, fy, i), cloud2::get(c, fz, i));
        const Eigen::Vector3d u(cloud2::get(out, *cloud2::find(out, "ux"), i), cloud2::get(out, *cloud2::find(out, "uy"), i), cloud2::get(out, *cloud2::find(out, "uz"), i));
        CHECK((u - p.normalized()).norm() < 1e-5, "unit vector of point ", i, ": ", u.transpose(), " for ", p.transpose());
    }
    s.nontrivial(cloud2::points(c) >= 2 && c.fields.size() > 3);
    s.note() << cloud2::describe(c);
}

PROPERTY(typed_access, 10000, 200000, "a non-empty cloud of two or more fields") {
    pcl::PCLPointCloud2 c = cloud2::cloud(s, {});
    const Model m = model_of(c);
    for (std::size_t k = 0; k < c.fields.size(); ++k) {
        const F f = c.fields[k];
        CHECK(pct::point_step(f) == f.offset + cloud2::width_of(f.datatype) * f.count, "end of a field");
        CHECK(pct::has_field(c, f.name) && pct::get_field(c, f.name).offset == f.offset, "field lookup");
        CHECK(pct::is_8bit(f.datatype) == (cloud2::width_of(f.datatype) == 1) && pct::is_16bit(f.datatype) == (cloud2::width_of(f.datatype) == 2) &&
              pct::is_32bit(f.datatype) == (cloud2::width_of(f.datatype) == 4) && pct::is_64bit(f.datatype) == (cloud2::width_of(f.datatype) == 8), "bit depth");
        for (int type : cloud2::types()) {
            with_tag(type, [&](auto t) {
                constexpr auto tag = static_cast<F::PointFieldTypes>(decltype(t)::value);
                const std::size_t w = cloud2::width_of(type);
                CHECK(pct::is_same_bit_depth<decltype(t)::value>(f.datatype) == (w == cloud2::width_of(f.datatype)), "same bit depth");
                CHECK(pct::is_8bit_type<tag>::value == (w == 1) && pct::is_16bit_type<tag>::value == (w == 2) &&
                      pct::is_32bit_type<tag>::value == (w == 4) && pct::is_64bit_type<tag>::value == (w == 8), "bit depth of a type");
                CHECK(pct::is_8bit(tag) == (w == 1) && pct::is_16bit(tag) == (w == 2) && pct::is_32bit(tag) == (w == 4) &&
                      pct::is_64bit(tag) == (w == 8), "bit depth of a type at run time");
            });
            cloud2::with_type(type, [&](auto z) {
                typedef decltype(z) T;
                if (type == f.datatype) {
                    auto get = pct::create_get_field_data_function<double, T>(f);
                    auto own = pct::create_get_field_data_function<T, T>(f);
                    auto set = pct::create_set_field_data_function<double, T>(f);
                    for (std::size_t i = 0; i < cloud2::points(c); ++i) {
                        CHECK(get(c, i) == cloud2::get(c, f, i) && own(c, i) == cloud2::raw<T>(cloud2::at(c, f, i)), "typed read of ", f.name);
                        set(c, i, cloud2::get(c, f, i));
                    }
                } else {
                    CHECK_THROWS((pct::create_get_field_data_function<double, T>(f)), "type mismatch");
                    CHECK_THROWS((pct::create_get_field_data_function<T, T>(f)), "type mismatch");
                    CHECK_THROWS((pct::create_set_field_data_function<double, T>(f)), "type mismatch");
                    CHECK_THROWS((pct::create_set_field_data_function<T, T>(f)), "type mismatch");
                }
                return 0;
            });
        }
        auto get = pct::create_get_field_data_function<double>(f);
        auto set = pct::create_set_field_data_function<double>(f);
        auto getf = pct::create_get_field_data_function<float>(f);
        for (std::size_t i = 0; i < cloud2::points(c); ++i) {
            const double v = cloud2::get(c, f, i);
            CHECK(get(c, i) == v && pct::field_data<double>(c, f, i) == v, "run-time typed read of ", f.name);
            CHECK(getf(c, i) == static_cast<float>(v) || std::abs(getf(c, i) - v) <= 1e-6 * std::abs(v), "float read of ", f.name);
            set(c, i, v);
        }
    }
    require(m, c, "writing every value back");
    F bad;
    bad.name = "bad"; bad.offset = 0; bad.count = 1; bad.datatype = static_cast<std::uint8_t>(s.pick({0, 100, 200, 255}));
    CHECK_THROWS(pct::create_get_field_data_function<double>(bad));
    CHECK_THROWS(pct::create_set_field_data_function<double>(bad));
    CHECK_THROWS(pct::field_type_to_string(bad.datatype));
    CHECK_THROWS(pct::is_8bit(bad.datatype));
    s.nontrivial(cloud2::points(c) > 0 && c.fields.size() > 1);
    s.note() << cloud2::describe(c);
}
