// Point clouds in binary form (pcl::PCLPointCloud2) with given fields and any number of points holding arbitrary values.
#pragma once
#include <cstring>
#include <limits>
#include <string>
#include "vp_eigen.hpp"
#include "pointcloud_tools/pclpointcloud2_utilities.hpp"
using Cloud2 = pcl::PCLPointCloud2;
using Field = pcl::PCLPointField;
static Field field(const char* name, std::uint32_t offset, std::uint8_t type, std::uint32_t count = 1) {
    Field f;
    f.name = name;
    f.offset = offset;
    f.datatype = type;
    f.count = count;
    return f;
}
template <typename T>
static T value(const char* name, long i) {
    if constexpr (std::is_integral_v<T>) {
        return T(vp_int_i(name, i, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
    } else {
        return T(vp_real_near_i(name, i, -100, 100));
    }
}
template <typename T>
static T stored(const Cloud2& c, long i, long offset) {
    T t;
    std::memcpy(&t, c.data.data() + i * c.point_step + offset, sizeof(T));
    return t;
}
template <typename T>
static void store(Cloud2& c, long i, long offset, T t) { std::memcpy(c.data.data() + i * c.point_step + offset, &t, sizeof(T)); }
static void allot(Cloud2& c, long width, long height = 1) {
    c.width = std::uint32_t(width);
    c.height = std::uint32_t(height);
    c.row_step = c.point_step * c.width;
    c.data.resize(c.point_step * width * height);
}
template <typename T>
static constexpr std::uint8_t type_of() { return pcl::traits::asEnum<T>::value; }
