// Contract language: pre = vf_assume, post/frame/invariant = vf_assert, inputs = vf_*.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_u64(const char *name);
uint32_t vf_u32(const char *name);
uint16_t vf_u16(const char *name);
uint8_t  vf_u8(const char *name);
bool     vf_bool(const char *name);
void     vf_bytes(void *p, uint64_t n, const char *name);        // arbitrary contents
// string object of arbitrary length < cap; terminated or exactly len elements
void    *vf_string(uint64_t cap, int elemSize, int terminated, const char *name);
uint64_t vf_strtag(const void *p, int elemSize);
void     vf_assume(bool c);
void     vf_assert(bool c, const char *label);
void     vf_fail(const char *label);
void     vf_cover(const char *label);
uint64_t vf_concretize(uint64_t v);                              // case split on all values
int      vf_is_symbolic(unsigned long v);
int      vf_native(void);
void     vf_replace(const char *demangledPrefix, void *stub);    // use callee contract
void     vf_unreplace(const char *demangledPrefix);
void     vf_share(void *lo, uint64_t n, void (*hook)(void *addr, uint64_t sz, int kind)); // kind 0 load,1 pre-store,2 post-store; +4 release, +8 acquire ordering
void     vf_unshare(void);
void     vf_on_fence_fn(void (*f)(int kind));                    // 0 compiler barrier,1 sfence,2 lfence,3 mfence
void     vf_tsc_fn(void (*f)(void));                             // called before each rdtsc, sets vf_tsc_value
extern uint64_t vf_tsc_value;
void     vf_allow_abort(int);
void     vf_end(void);
void     vf_prune(void);
void     vf_bounded(void);                                       // path dropped by a stated bound
void     vf_freeze(void *p, int ro);
void     vf_loop_cut(const char *demangledPrefix);              // prove the function's loops by invariant
void     vf_loop_pre(void (*f)(void));                          // input preconditions, instantiated at a cut loop's head
uint64_t vf_choose_sym(uint64_t n, const char *name);
void     vf_memo(void);                                         // end the path if this very state was seen before
void     vf_compact(void);                                      // from here on, reuse freed addresses
void     vf_on_throw(void (*f)(void));                          // checks the state in which an exception leaves; ends the path
void     vf_trace(const char *, uint64_t);
}
extern "C" uint64_t vf_range_sym(uint64_t lo, uint64_t hi, const char *name);
extern "C" uint64_t vf_native_range(uint64_t lo, uint64_t hi, const char *name);
// length of a vf_string object, terminated or not
extern "C" uint64_t vf_native_strlen(const void *p);
template<typename C> static inline uint64_t vf_strlen_of(const C *p) {
#ifdef VF_SYM
    uint64_t t = vf_strtag(p, sizeof(C));
#else
    uint64_t t = vf_native_strlen(p);
#endif
    if (t == ~0ull) for (t = 0; p[t]; ) ++t;
    return t;
}
static inline uint64_t vf_range(uint64_t lo, uint64_t hi, const char *name) {
#ifndef VF_SYM
    return vf_native_range(lo, hi, name);
#endif
    return vf_range_sym(lo, hi, name);
}
// any of 0..n-1, one path each
static inline uint64_t vf_choose(uint64_t n, const char *name) { return vf_choose_sym(n, name); }
// case split over lo..hi
static inline uint64_t vf_pick(uint64_t lo, uint64_t hi, const char *name) {
    return vf_concretize(vf_range(lo, hi, name));
}
#endif
