// Stand-in for rostime (same integer seconds / nanoseconds semantics). Sleeping is a scheduling point owned by the harness.
#pragma once
#include <quiet.h>
#include <cmath>
#include <cstdint>
#include <functional>
#include <ostream>
#include <iomanip>
#include <stdexcept>

namespace shim {
// Called instead of sleeping: the harness delivers further messages here, or stops the node.
inline std::function<void(double)>& on_sleep() { static std::function<void(double)> f; return f; }
inline bool& node_ok() { static bool ok = true; return ok; }
}

namespace ros {

class Duration {
public:
    int32_t sec{0}, nsec{0};
    Duration() {}
    Duration(int32_t s, int32_t n) { norm(s, n); }
    explicit Duration(double t) { fromSec(t); }
    Duration& fromSec(double t) {
        const int64_t s = static_cast<int64_t>(std::floor(t));
        norm(s, static_cast<int64_t>(std::llround((t - static_cast<double>(s)) * 1e9)));
        return *this;
    }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    int64_t toNSec() const { return static_cast<int64_t>(sec) * 1000000000LL + static_cast<int64_t>(nsec); }
    Duration& fromNSec(int64_t t) { norm(0, t); return *this; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    Duration operator+(const Duration& r) const { Duration d; d.norm(int64_t(sec) + r.sec, int64_t(nsec) + r.nsec); return d; }
    Duration operator-(const Duration& r) const { Duration d; d.norm(int64_t(sec) - r.sec, int64_t(nsec) - r.nsec); return d; }
    Duration operator-() const { Duration d; d.norm(-int64_t(sec), -int64_t(nsec)); return d; }
    Duration operator*(double s) const { return Duration(toSec() * s); }
    Duration& operator+=(const Duration& r) { *this = *this + r; return *this; }
    Duration& operator-=(const Duration& r) { *this = *this - r; return *this; }
    bool operator==(const Duration& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const Duration& r) const { return !(*this == r); }
    bool operator<(const Duration& r) const { return toNSec() < r.toNSec(); }
    bool operator>(const Duration& r) const { return toNSec() > r.toNSec(); }
    bool operator<=(const Duration& r) const { return toNSec() <= r.toNSec(); }
    bool operator>=(const Duration& r) const { return toNSec() >= r.toNSec(); }
    bool sleep() const { if (shim::on_sleep()) shim::on_sleep()(toSec()); else shim::node_ok() = false; return true; }
private:
    void norm(int64_t s, int64_t n) {
        int64_t ns = n % 1000000000LL;
        int64_t ss = s + n / 1000000000LL;
        if (ns < 0) { ns += 1000000000LL; --ss; }
        if (ss < INT32_MIN || ss > INT32_MAX) throw std::runtime_error("Duration is out of dual 32-bit range");
        sec = static_cast<int32_t>(ss);
        nsec = static_cast<int32_t>(ns);
    }
};
typedef Duration WallDuration;

class Time {
public:
    uint32_t sec{0}, nsec{0};
    Time() {}
    Time(uint32_t s, uint32_t n) { set(int64_t(s) * 1000000000LL + n); }
    explicit Time(double t) { fromSec(t); }
    Time& fromSec(double t) {
        const int64_t s = static_cast<int64_t>(std::floor(t));
        if (s < 0 || s > UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
        set(s * 1000000000LL + static_cast<int64_t>(std::llround((t - static_cast<double>(s)) * 1e9)));
        return *this;
    }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ULL + static_cast<uint64_t>(nsec); }
    Time& fromNSec(uint64_t t) { set(static_cast<int64_t>(t)); return *this; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    bool is_zero() const { return isZero(); }
    Time operator+(const Duration& d) const { Time t; t.set(int64_t(toNSec()) + d.toNSec()); return t; }
    Time operator-(const Duration& d) const { Time t; t.set(int64_t(toNSec()) - d.toNSec()); return t; }
    Duration operator-(const Time& r) const { Duration d; d.fromNSec(int64_t(toNSec()) - int64_t(r.toNSec())); return d; }
    Time& operator+=(const Duration& d) { *this = *this + d; return *this; }
    Time& operator-=(const Duration& d) { *this = *this - d; return *this; }
    bool operator==(const Time& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const Time& r) const { return !(*this == r); }
    bool operator<(const Time& r) const { return toNSec() < r.toNSec(); }
    bool operator>(const Time& r) const { return toNSec() > r.toNSec(); }
    bool operator<=(const Time& r) const { return toNSec() <= r.toNSec(); }
    bool operator>=(const Time& r) const { return toNSec() >= r.toNSec(); }
    static Time& clock() { static Time t(1000, 0); return t; }
    static Time now() { shim::Quiet quiet; return clock(); }
private:
    void set(int64_t ns) {
        if (ns < 0 || ns / 1000000000LL > UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
        sec = static_cast<uint32_t>(ns / 1000000000LL);
        nsec = static_cast<uint32_t>(ns % 1000000000LL);
    }
};
class WallTime : public Time {
public:
    using Time::Time;
    static WallTime now() { return WallTime(1.0); }
};
inline std::ostream& operator<<(std::ostream& os, const Time& t) {
    return os << t.sec << "." << std::setw(9) << std::setfill('0') << t.nsec << std::setfill(' ');
}
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }
}
