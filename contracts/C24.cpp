// C21: fields of binary point clouds are read, written, added, cast and scaled without touching anything else.
// @sources: pointcloud_tools/src/pclpointcloud2_utilities.cpp
// @libs: -lpcl_common
// @flags: -DPCL_NO_PRECOMPILE -Icontracts/stubs -Wno-c++11-narrowing
// @bounded: {"n":1}
// @bounded: {"n":2}
#include "vp_cloud2.hpp"
// a field of type T at an odd place, between two others
template <typename T>
struct Scene {
    static constexpr long offset = 8, before = 0, after = 16, step = 24;
    long n;
    Cloud2 c;
    Scene() : n(vp_len("n", 1, 5)) {
        c.fields = {field("before", before, Field::FLOAT64), field("it", offset, type_of<T>()), field("after", after, Field::INT32)};
        c.point_step = step;
        allot(c, n);
        for (long i = 0; i < n; ++i) {
            store<double>(c, i, before, value<double>("before", i));
            store<T>(c, i, offset, value<T>("it", i));
            store<std::int32_t>(c, i, after, value<std::int32_t>("after", i));
        }
    }
    void others_kept(const Cloud2& c, long k, const char* label) const {
        vp_eq(stored<double>(c, k, before), value<double>("before", k), label);
        vp_ieq(stored<std::int32_t>(c, k, after), value<std::int32_t>("after", k), label);
        vp_ieq(c.width, n, label);
        vp_ieq(c.height, 1, label);
        vp_ieq(c.point_step, step, label);
        vp_ieq(c.row_step, step * n, label);
        vp_ieq(long(c.data.size()), step * n, label);
    }
};
template <typename T>
static void access() {
    Scene<T> s;
    const long j = vp_any_index("j", s.n);
    const Field f = pct::get_field(s.c, "it");
    vp_eq(pct::create_get_field_data_function<double>(f)(s.c, j), double(value<T>("it", j)), "value-as-double");
    vp_eq(pct::create_get_field_data_function<T>(f)(s.c, j), value<T>("it", j), "value");
    vp_eq(pct::field_data<T>(s.c, f, j), value<T>("it", j), "field-data");
    Cloud2 c = s.c;
    const T x = value<T>("new", 0);
    pct::create_set_field_data_function<T>(f)(c, j, x);
    const long k = vp_any_index("k", s.n);
    vp_eq(stored<T>(c, k, s.offset), k == j ? x : value<T>("it", k), "value-set");
    s.others_kept(c, k, "others-kept-by-set");
}
CONTRACT(access_float) { access<float>(); }
CONTRACT(access_double) { access<double>(); }
CONTRACT(access_int8) { access<std::int8_t>(); }
CONTRACT(access_uint8) { access<std::uint8_t>(); }
CONTRACT(access_int16) { access<std::int16_t>(); }
CONTRACT(access_uint16) { access<std::uint16_t>(); }
CONTRACT(access_int32) { access<std::int32_t>(); }
CONTRACT(access_uint32) { access<std::uint32_t>(); }
