// Contract language: declarations shared by the symbolic (verifier) and native (replay / confirmation) builds.
#pragma once
#include <string>
#include <cstdint>
extern "C" {
double vp_real(const char* name);                       // any finite real
double vp_real_any(const char* name);                   // any value, including non-finite
double vp_real_i(const char* name, long i);             // i-th member of a family of finite reals
double vp_real_any_i(const char* name, long i);
double vp_real_ij(const char* name, long i, long j);
// any finite real, as the above; the range only guides what the native runs sample
double vp_real_near(const char* name, double lo, double hi);
double vp_real_near_i(const char* name, long i, double lo, double hi);
double vp_real_near_ij(const char* name, long i, long j, double lo, double hi);
long vp_int(const char* name, long lo, long hi);
long vp_int_i(const char* name, long i, long lo, long hi);
long vp_enum(const char* name, long lo, long hi) noexcept;  // as vp_int, one proof case per value
long vp_increasing(const char* name, long i, long lo, long hi);  // strictly increasing in i
bool vp_bool(const char* name);
bool vp_bool_i(const char* name, long i);
long vp_len(const char* name, long lo, long sample_hi); // length >= lo; unbounded for the proof
long vp_any_index(const char* name, long n);            // arbitrary index in [0, n); path ends if n == 0
void vp_assume(bool c);                                 // precondition
void vp_ensure(bool c, const char* label);              // postcondition
void vp_eq(double a, double b, const char* label);      // postcondition a == b over the reals
void vp_eqf(double a, double b, const char* label);     // same, computed in single precision natively
void vp_same(double a, double b, const char* label);    // identical value (also when non-finite)
void vp_ieq(long a, long b, const char* label);
void vp_cover(const char* label);                       // vacuity guard: must be reached
void vp_unit4(const char* name, double* out);           // arbitrary unit quaternion x y z w
void vp_unit3(const char* name, double* out);           // arbitrary unit vector
bool vp_finite(double x);
void vp_note(const char* text);
void vp_print(const char* name, double v);
double vp_fn1(const char* name, double x);              // arbitrary function of one / two reals
double vp_fn2(const char* name, double x, double y);
double vp_fn3(const char* name, double x, double y, double z);
double vp_fn4(const char* name, double x, double y, double z, double w);
void vp_map(const char* name, const double* in, long n, double* out, long m);     // m arbitrary functions of n reals
long vp_ifn3(const char* name, double x, double y, double z, long lo, long hi);   // arbitrary function with values in [lo, hi]
bool vp_native();                                       // false for the verifier, true in native runs
void vp_string_impl(const char* name, void* s);
}
// arbitrary integer in [lo, hi], one proof case per value
inline long vp_case_(long v, long k, long hi) { return v == k || k >= hi ? k : vp_case_(v, k + 1, hi); }
inline long vp_case(const char* name, long lo, long hi) { return vp_case_(vp_int(name, lo, hi), lo, hi); }
inline void vp_string(const char* name, std::string& s) { vp_string_impl(name, &s); }
#define CONTRACT(name) extern "C" void vp_contract_##name()
