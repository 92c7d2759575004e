// Contract / harness interface.  Proof mode: these calls are interpreted by the VC generator (engine/models.py).
// Native mode: implemented by native/vc_native.cpp (counterexample replay and bounded falsification).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
bool vc_bool(const char* n);
uint8_t vc_u8(const char* n); uint16_t vc_u16(const char* n); uint32_t vc_u32(const char* n); uint64_t vc_u64(const char* n);
int8_t vc_i8(const char* n); int16_t vc_i16(const char* n); int32_t vc_i32(const char* n); int64_t vc_i64(const char* n);
double vc_f64(const char* n); float vc_f32(const char* n);
void* vc_buf(uint64_t size, const char* n);              // fresh object of exactly `size` bytes, arbitrary contents
uint8_t vc_initial(const void* buf, uint64_t off);       // byte of a vc_buf object as it was when created
void vc_assume(bool c);                                  // precondition
void vc_assert(bool c, const char* name);                // obligation
void vc_case_at(int32_t inner, int32_t outer);                     // proof hint: case split on the loop counters
void vc_case(bool c);                                    // proof hint: case split
void vc_cover(const char* name);                         // must be reachable (vacuity guard)
typedef bool (*vc_inv_t)(void* ctx, uint64_t k, uint64_t k_outer);
void vc_loop_inv(int depth, vc_inv_t fn, void* ctx, const char* name);
void vc_loop_clear();
typedef uint64_t (*vc_val_t)(void* ctx, uint64_t k, uint64_t k_outer);
void vc_loop_val(int depth, vc_val_t fn, void* ctx);     // closed form of a local variable of the loop; used where it can be shown, otherwise ignored
void vc_assume_forall(int depth, vc_inv_t fn, void* ctx);  // precondition 'for all k: fn(ctx,k)', instantiated at the loop counter of that loop
void vc_replace(void* fn, void* contract);               // use the contract instead of the callee's body
void vc_replace_name(const char* rx, void* contract);
void vc_replace_rec(const char* rx, void* contract);       // the contract stands for recursive calls only
void vc_havoc(void* p, uint64_t n);
void vc_abstract_mul(int mode);   // 0 off, 1 linear decomposition, 2 opaque but commutative
bool vc_is_proof();
bool vc_is_fuzz();                                       // native random mode (not replay, not proof)
void vc_opt(const char* n, int v);
void vc_writable(const void* p, uint64_t n, const char* what);
bool vc_same_obj(const void*, const void*);
uint64_t vc_obj_size(const void*);
void vc_path_end();
// hint for the native falsifier only: values of this input are mostly drawn from [lo,hi] (no effect on the proof)
void vc_hint(const char* n, int64_t lo, int64_t hi);
}
#define VC_U8(n,lo,hi)  (vc_hint(n,lo,hi), vc_u8(n))
#define VC_U16(n,lo,hi) (vc_hint(n,lo,hi), vc_u16(n))
#define VC_U32(n,lo,hi) (vc_hint(n,lo,hi), vc_u32(n))
#define VC_U64(n,lo,hi) (vc_hint(n,lo,hi), vc_u64(n))
#define VC_I32(n,lo,hi) (vc_hint(n,lo,hi), vc_i32(n))
#define VC_I64(n,lo,hi) (vc_hint(n,lo,hi), vc_i64(n))
