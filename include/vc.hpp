// Contract intrinsics. Symbolically executed by vc/symex.py; natively implemented by vc/vc_native.cpp (replay of counterexamples).
#ifndef VC_HPP_
#define VC_HPP_
#include <cstddef>
#include <cstdint>
extern "C" {
double vc_real(const char* name);                              // arbitrary real
double vc_real_in(const char* name, double lo, double hi);     // arbitrary real in [lo, hi]
long vc_int(const char* name, long lo, long hi);               // arbitrary integer in [lo, hi]
uint64_t vc_u64(const char* name);
uint32_t vc_u32(const char* name);
uint16_t vc_u16(const char* name);
uint8_t vc_u8(const char* name);
bool vc_bool(const char* name);
void vc_unit(const char* name, double* out, size_t n);         // arbitrary unit vector of n components
double vc_uf(const char* name, size_t n, const double* args);  // arbitrary (uninterpreted) function of n reals
void vc_bytes(const char* name, void* p, size_t n, size_t element_size);
void vc_assume(bool c);                                        // precondition
void vc_check(const char* label, bool c);                      // postcondition / invariant
void vc_lemma(const char* label, bool c);                      // proved, then usable
void vc_eq(const char* label, double a, double b);             // postcondition a = b over the reals
void vc_eqs(const char* label, double a, double b, double scale);  // same; scale is used only for the native tolerance
void vc_trust(const char* why, bool c);                        // assumption, reported in the evidence
void vc_option(const char* o);
void vc_assumption(const char* text);
void vc_inv(bool c);                                           // conjunct of a loop invariant
int vc_same(const double* a, const double* b, int n);             // the same recorded terms (no case split)
int vc_near(double a, double b);                               // the same linear combination of terms up to 1e-11 in the coefficients
void vc_loop_field(void* p, int bytes);                        // loops under contract may modify these scalars
void vc_loop_frame(void* p);                                   // loops under contract may modify this object (a symbolic array)
int vc_is_symbolic();
void vc_print(const char* what, double v);
void vc_forget(const char* name, double* p);
}
static inline double vc_abs(double x) { return x < 0 ? -x : x; }
#endif
