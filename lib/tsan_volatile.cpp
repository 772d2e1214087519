// The pool publishes its work through volatile fields: under ThreadSanitizer (--param tsan-distinguish-volatile=1) every
// volatile access becomes a call to one of these, which treats it as an acquire load or release store. What remains
// is a race on a field the code did not even mark volatile.
#include <cstdint>
#define V(n, T) \
    extern "C" void __tsan_volatile_read##n(void * p) { (void)__atomic_load_n((T *)p, __ATOMIC_ACQUIRE); } \
    extern "C" void __tsan_volatile_write##n(void * p) { (void)__atomic_fetch_add((T *)p, 0, __ATOMIC_ACQ_REL); } \
    extern "C" void __tsan_unaligned_volatile_read##n(void *) {} \
    extern "C" void __tsan_unaligned_volatile_write##n(void *) {}
V(1, uint8_t)
V(2, uint16_t)
V(4, uint32_t)
V(8, uint64_t)
extern "C" void __tsan_volatile_read16(void *) {}
extern "C" void __tsan_volatile_write16(void *) {}
