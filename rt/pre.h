// Forced include for symbolic-execution builds: number-to-text conversions go through the stream model.
#pragma once
#define to_string pfs_libstdcxx_to_string
#include <string>
#undef to_string
#include <bits/pfs_ios.h>
namespace std
{
inline namespace __cxx11
{
inline string __pfs_ts(bool neg, unsigned long long m)
{
    char b[40];
    size_t n = 0;
    if (neg) b[n++] = '-';
    n += pfs_fmt_uint(b + n, m, 10, 0);
    return string(b, n);
}
inline string __pfs_td(double v)
{
    char b[600];
    return string(b, pfs_fmt_double(b, v, 'f', 6, 0));
}
inline string to_string(int v) { return __pfs_ts(v < 0, v < 0 ? -(unsigned long long)v : v); }
inline string to_string(long v) { return __pfs_ts(v < 0, v < 0 ? -(unsigned long long)v : v); }
inline string to_string(long long v) { return __pfs_ts(v < 0, v < 0 ? -(unsigned long long)v : v); }
inline string to_string(unsigned v) { return __pfs_ts(false, v); }
inline string to_string(unsigned long v) { return __pfs_ts(false, v); }
inline string to_string(unsigned long long v) { return __pfs_ts(false, v); }
inline string to_string(double v) { return __pfs_td(v); }
inline string to_string(float v) { return __pfs_td(v); }
}
}
