// scalar oracles of the binary operators and the operand pairs for which they are defined
#ifndef VT_SCALAROPS_H
#define VT_SCALAROPS_H
#include "vt.h"
namespace vt
{
template <class T, bool F = std::is_floating_point<T>::value> struct Oracle;
template <class T> struct Oracle<T, true> {
    struct Base { bool valid(T, T) const { return true; } };
    struct add : Base { T operator()(T a, T b) const { volatile T x = a + b; return x; } };
    struct sub : Base { T operator()(T a, T b) const { volatile T x = a - b; return x; } };
    struct mul : Base { T operator()(T a, T b) const { volatile T x = a * b; return x; } };
    struct div : Base { T operator()(T a, T b) const { volatile T x = a / b; return x; } };
};
template <class T> struct Oracle<T, false> {
    using W = __int128;
    // the operation is carried out in the promoted type; its result wraps to T
    using P = typename std::conditional<(sizeof(T) < sizeof(int)), int, T>::type;
    static bool fits(W x) { return std::is_unsigned<T>::value || (x >= std::numeric_limits<P>::min() && x <= std::numeric_limits<P>::max()); }
    struct add { T operator()(T a, T b) const { return T(W(a) + b); } bool valid(T a, T b) const { return fits(W(a) + b); } };
    struct sub { T operator()(T a, T b) const { return T(W(a) - b); } bool valid(T a, T b) const { return fits(W(a) - b); } };
    struct mul { T operator()(T a, T b) const { return T((unsigned __int128)(W(a)) * (unsigned __int128)(W(b))); } bool valid(T a, T b) const { return fits(W(a) * W(b)); } };
    struct div { T operator()(T a, T b) const { return T(W(a) / b); } bool valid(T a, T b) const { return b != 0 && fits(W(a) / b); } };
    struct mod { T operator()(T a, T b) const { return T(W(a) % b); } bool valid(T a, T b) const { return b != 0 && fits(W(a) / b); } };
    struct and_ { T operator()(T a, T b) const { return T(a & b); } bool valid(T, T) const { return true; } };
    struct or_ { T operator()(T a, T b) const { return T(a | b); } bool valid(T, T) const { return true; } };
    struct xor_ { T operator()(T a, T b) const { return T(a ^ b); } bool valid(T, T) const { return true; } };
    static const int bits = sizeof(T) * 8;
    struct shl { T operator()(T a, T b) const { return T((unsigned long long)(a) << b); } bool valid(T a, T b) const { return b >= 0 && b < bits && (std::is_unsigned<T>::value || (a >= 0 && fits(W(a) << b))); } };
    struct shr { T operator()(T a, T b) const { return T((long long)(a) >> b); } bool valid(T, T b) const { return b >= 0 && b < bits; } };
};
}
#endif
