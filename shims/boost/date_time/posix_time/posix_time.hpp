// Model of the part of Boost.DateTime that EigenIPC may use: absolute times and durations in microseconds.
#pragma once
extern "C" long long mdl_utc_us(int advance);
namespace boost { namespace posix_time {
struct time_duration { long long us; time_duration() : us(0) {} explicit time_duration(long long u, int) : us(u) {} long long total_milliseconds() const { return us / 1000; } long long total_microseconds() const { return us; } long long total_seconds() const { return us / 1000000; } long long total_nanoseconds() const { return us * 1000; } time_duration operator-(const time_duration &o) const { return time_duration(us - o.us, 0); } time_duration operator-() const { return time_duration(-us, 0); } time_duration operator*(int k) const { return time_duration(us * k, 0); } time_duration operator/(int k) const { return time_duration(us / k, 0); } time_duration &operator+=(const time_duration &o) { us += o.us; return *this; } time_duration &operator-=(const time_duration &o) { us -= o.us; return *this; } bool operator==(const time_duration &o) const { return us == o.us; } bool operator!=(const time_duration &o) const { return us != o.us; } bool operator>(const time_duration &o) const { return us > o.us; } bool operator<=(const time_duration &o) const { return us <= o.us; } bool operator>=(const time_duration &o) const { return us >= o.us; } time_duration operator+(const time_duration &o) const { return time_duration(us + o.us, 0); } bool operator<(const time_duration &o) const { return us < o.us; } bool is_negative() const { return us < 0; } };
struct microseconds : time_duration { template <class T> explicit microseconds(T v) : time_duration((long long)v, 0) {} };
struct milliseconds : time_duration { template <class T> explicit milliseconds(T v) : time_duration((long long)v * 1000, 0) {} };
struct seconds : time_duration { template <class T> explicit seconds(T v) : time_duration((long long)v * 1000000, 0) {} };
struct hours : time_duration { template <class T> explicit hours(T v) : time_duration((long long)v * 3600000000ll, 0) {} };
struct minutes : time_duration { template <class T> explicit minutes(T v) : time_duration((long long)v * 60000000, 0) {} };
typedef milliseconds millisec; typedef microseconds microsec;
struct ptime { long long us; ptime() : us(0) {} explicit ptime(long long u, int) : us(u) {} ptime operator+(const time_duration &d) const { return ptime(us + d.us, 0); } ptime operator-(const time_duration &d) const { return ptime(us - d.us, 0); } time_duration operator-(const ptime &o) const { return time_duration(us - o.us, 0); } bool operator==(const ptime &o) const { return us == o.us; } bool operator!=(const ptime &o) const { return us != o.us; } ptime &operator-=(const time_duration &d) { us -= d.us; return *this; } ptime &operator+=(const time_duration &d) { us += d.us; return *this; } bool operator<(const ptime &o) const { return us < o.us; } bool operator>(const ptime &o) const { return us > o.us; } bool operator<=(const ptime &o) const { return us <= o.us; } bool operator>=(const ptime &o) const { return us >= o.us; } };
struct microsec_clock { static ptime universal_time() { return ptime(mdl_utc_us(1), 0); } static ptime local_time() { return ptime(mdl_utc_us(1) + 3600ll * 1000000, 0); } static long long peek() { return mdl_utc_us(0); } };
struct second_clock { static ptime universal_time() { return ptime(mdl_utc_us(1) / 1000000 * 1000000, 0); } static ptime local_time() { return ptime(mdl_utc_us(1) / 1000000 * 1000000 + 3600ll * 1000000, 0); } };
}}
