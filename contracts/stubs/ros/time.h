// Stand-in for the ROS header of this name: only what the code under contract uses.
#pragma once
#include <cmath>
#include <cstdint>
#include <ostream>
// time as one count of nanoseconds: the code under contract only compares, subtracts, adds and converts to seconds
namespace ros {
struct Duration {
    std::int64_t ns = 0;
    Duration() = default;
    explicit Duration(double s) : ns(std::int64_t(std::floor(s * 1e9 + 0.5))) {}
    double toSec() const { return double(ns) / 1e9; }
    std::int64_t toNSec() const { return ns; }
    bool isZero() const { return ns == 0; }
    Duration operator+(const Duration& o) const { return of(ns + o.ns); }
    Duration operator-(const Duration& o) const { return of(ns - o.ns); }
    Duration operator-() const { return of(-ns); }
    Duration operator*(double f) const { return Duration(toSec() * f); }
    bool operator==(const Duration& o) const { return ns == o.ns; }
    bool operator!=(const Duration& o) const { return ns != o.ns; }
    bool operator<(const Duration& o) const { return ns < o.ns; }
    bool operator>(const Duration& o) const { return ns > o.ns; }
    bool operator<=(const Duration& o) const { return ns <= o.ns; }
    bool operator>=(const Duration& o) const { return ns >= o.ns; }
    static Duration of(std::int64_t n) {
        Duration d;
        d.ns = n;
        return d;
    }
    bool sleep() const;
};
struct Time {
    std::int64_t ns = 0;
    Time() = default;
    explicit Time(double s) : ns(std::int64_t(std::floor(s * 1e9 + 0.5))) {}
    double toSec() const { return double(ns) / 1e9; }
    std::uint64_t toNSec() const { return std::uint64_t(ns); }
    bool isZero() const { return ns == 0; }
    Duration operator-(const Time& o) const { return Duration::of(ns - o.ns); }
    Time operator-(const Duration& d) const { return of(ns - d.ns); }
    Time operator+(const Duration& d) const { return of(ns + d.ns); }
    static Time of(std::int64_t n) {
        Time t;
        t.ns = n;
        return t;
    }
    bool operator==(const Time& o) const { return ns == o.ns; }
    bool operator!=(const Time& o) const { return ns != o.ns; }
    bool operator<(const Time& o) const { return ns < o.ns; }
    bool operator>(const Time& o) const { return ns > o.ns; }
    bool operator<=(const Time& o) const { return ns <= o.ns; }
    bool operator>=(const Time& o) const { return ns >= o.ns; }
};
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.toSec(); }
bool ok();
}
