// Contract language of the verifier.  A contract unit is an extern "C" function made by VC_UNIT: it builds an
// arbitrary state satisfying the precondition (vc_real / vc_int / vc_choose / vc_assume), calls the REAL function from
// /repo and states the postcondition (vc_assert / vc_assert_eq).  The verifier executes the unit symbolically over the
// LLVM IR clang produces for it; the very same unit compiled natively (vc_native.cpp) replays a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
  double vc_real(const char* name);                       // arbitrary finite real
  int64_t vc_int(const char* name, int64_t lo, int64_t hi);     // arbitrary integer in [lo,hi], symbolic
  int64_t vc_choose(const char* name, int64_t lo, int64_t hi);  // every integer in [lo,hi], case split
  void vc_assume(bool);
  void vc_assert(bool, const char* label);
  void vc_assert_eq(double, double, const char* label);
  void vc_reach(const char* label);
  bool vc_symbolic();
  double vc_uf(const char* name, double);                 // uninterpreted spec functions
  double vc_uf2(const char* name, double, double);
  void vc_contract(void* target, void* stub);             // calls to target are replaced by its contract
  void vc_uncontract(void* target);
  void vc_call_real(void* target);                        // the next call to target runs the real body
  bool vc_identical(double, double);                      // equal as normal forms (no case split)
  void vc_loop(void* fn, void* invariant);                // cut the outermost loop of fn: invariant(args of fn) asserts it
  void vc_invariants(const char* mangled_prefix);         // find the loop invariants of these functions automatically
  void vc_term(const double*);                            // a value the invariants may mention
  void vc_freeze();                                       // frame: existing heap objects must not be modified
  void vc_unfreeze();
  void vc_freeze_range(const void*);
  void vc_print(const char*, int64_t);
  void vc_prints(const char*);
  int64_t vc_native_random(int64_t lo, int64_t hi);       // native replay only
}
#define VC_UNIT(prop, name) extern "C" void vcu_##prop##__##name()
template<class A, class B> inline void vc_contract_fn(A target, B stub) { vc_contract((void*)target, (void*)stub); }
inline bool vc_same(double a, double b) {     // equality of exact reals; natively up to rounding
  if (vc_symbolic()) return a == b;
  double d = a - b, m = 1 + (a < 0 ? -a : a) + (b < 0 ? -b : b);
  return a == b || (d < 0 ? -d : d) <= 1e-6 * m;
}
inline bool vc_le(double a, double b) { return a <= b || vc_same(a, b); }
inline bool vc_lt(double a, double b) { return a < b || (!vc_symbolic() && vc_same(a, b)); }
inline bool vc_ne(double a, double b) { return a != b || !vc_symbolic(); }
