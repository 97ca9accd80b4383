#pragma GCC diagnostic ignored "-Wformat-truncation"
// Everything the library under test calls into: allocator and fetcher callbacks, redirected libc calls,
// and (hook variant) the instrumentation callbacks emitted by clang -fsanitize=thread, which serve here
// as per-access seams of the simulator; the ThreadSanitizer runtime itself is not linked.
#include "core.hpp"
#include "world.hpp"
#include <climits>
#include <cctype>
#include <unistd.h>

using namespace sim;
namespace sim { Alloc* alloc_by_token(void*); }

extern "C" void* sim_alloc_cb(void* app, void* self, void* ptr, size_t size){
	bool il = cur->inlib;
	seam();
	if(!readable(self, sizeof(sh_alloc)) && in_arena(self)) violate("alloc.self", "allocator called through a descriptor in memory that is not live");
	Alloc* a = alloc_by_token(app);
	if(!a) violate("alloc.app", "allocator called with instance data %p it does not own", app);
	if(a->owner && a->owner != cur->id) violate("alloc.foreign", "allocator of task %d called while serving task %d", a->owner, cur->id);
	bool fixed_op = actor() && actor()->fixed_op;
	if(fixed_op) mismatch("fixed.alloc", "allocator called during an operation on a fixed buffer");
	if(a->hook) a->hook();
	a->failed = false;
	void* r; { MustWork m(a); r = alloc_call(a, ptr, size); }
	if(a->failed){ if(!cur->escape) harness_error("allocation failure without escape"); longjmp(*cur->escape, 1); }
	seam(); cur->inlib = il;
	return r;
}
extern "C" int sim_fetch_cb(void* dst, int n, void* vars){ seam(); Actor* a = actor(); int r = a ? a->fetch(dst, n, vars) : 0; seam(); return r; }

// ------------------------------------------------------------------ redirected libc: heap
namespace sim { Alloc* libc_alloc; bool libc_unreported; Alloc* libc(){ if(!libc_alloc){ libc_alloc = new_alloc(0); libc_alloc->p_odd = 0; } return libc_alloc; } }
static void* la_call(void* p, size_t n){ Alloc* a = libc(); if(p && !find_block(p) && !in_arena(p)) violate("alloc.unknown", "the C library's heap is given an address it never issued"); a->failed = false; seam(); void* r; { MustWork m(a); r = alloc_call(a, p, n); } seam(); if(a->failed){ errno = ENOMEM; libc_unreported = true; } return r; }
extern "C" {
void* simw_malloc(size_t n){ return la_call(nullptr, n ? n : 1); }
void* simw_realloc(void* p, size_t n){ return la_call(p, n); }
void  simw_free(void* p){ if(p) la_call(p, 0); }
void* simw_calloc(size_t a, size_t b){ size_t n = a * b; void* p = la_call(nullptr, n ? n : 1); if(p) hfill(p, a * b, 0); return p; }
void  simw_assert_fail(const char* e, const char* f, unsigned l, const char*){
	Actor* a = actor(); if(a && a->expect_assert && cur->escape){ a->assert_hits++; if(!libc_unreported) violate("default.false_assert", "assertion %s fails although no request failed", e); libc_unreported = false; TR("assertion %s reported at %s:%u", e, f, l); longjmp(*cur->escape, 2); }
	violate("crash.assert", "assertion failed: %s (%s:%u)", e, f, l); }

// ------------------------------------------------------------------ redirected libc: descriptors
static ssize_t do_io(int fd, void* p, size_t n, bool wr){
	seam(); Fd* f = get_fd(fd);
	if(!f){ errno = EBADF; return -1; }
	if(f->owner && f->owner != cur->id) violate("io.foreign", "descriptor of task %d used while serving task %d", f->owner, cur->id);
	check_access(p, n, !wr, wr ? "write(2) source" : "read(2) destination");
	Io& io = f->io; io.calls++; io.ptr = p; io.n = n; io.write = wr; io.fd = fd; int err = 0;
	long r = wr ? f->wr((const char*)p, n, err) : f->rd((char*)p, n, err);
	io.ret = r; io.err = err; ev(mix(r, err)); TR("%s(fd, %zu bytes) = %ld%s%s", wr ? "write" : "read", n, r, err ? " " : "", err ? strerror(err) : "");
	if(r < 0) errno = err;
	int e = errno; seam(); errno = e;
	return r;
}
ssize_t simw_read(int fd, void* p, size_t n){ return do_io(fd, p, n, false); }
ssize_t simw_write(int fd, const void* p, size_t n){ return do_io(fd, (void*)p, n, true); }

// ------------------------------------------------------------------ redirected libc: formatter
int simw_vsnprintf(char* d, size_t n, const char* f, va_list va){
	Actor* a = actor(); if(a && a->fmt_fault()) return -1;
	// format into private memory first so that an out-of-range destination is reported, not executed
	if(n > (size_t)INT_MAX + 1){ count("fmt.huge_room"); int r = vsnprintf(d, n, f, va); step(); seam(); return r; }   // what such a size does is up to the C library
	va_list vb; va_copy(vb, va); char tmp[2048]; int r = vsnprintf(tmp, sizeof tmp, f, vb); va_end(vb);
	if(r >= 0 && n){ size_t w = std::min((size_t)r + 1, n); check_access(d, w, true, "formatter output"); if((size_t)r < sizeof tmp){ hcopy(d, tmp, w - 1); hfill(d + w - 1, 1, 0); } else r = vsnprintf(d, n, f, va); }
	step(); seam();
	return r;
}
int simw_snprintf(char* d, size_t n, const char* f, ...){ va_list va; va_start(va, f); int r = simw_vsnprintf(d, n, f, va); va_end(va); return r; }
int simw_vsprintf(char* d, const char* f, va_list va){ return simw_vsnprintf(d, INT_MAX, f, va); }
int simw_sprintf(char* d, const char* f, ...){ va_list va; va_start(va, f); int r = simw_vsnprintf(d, INT_MAX, f, va); va_end(va); return r; }

#ifdef SIM_HOOK
// ------------------------------------------------------------------ redirected libc: memory and strings
static inline void acc(const void* p, size_t n, bool w){ check_access(p, n, w, w ? "write" : "read"); step(); }
static void overlap(const void* d, const void* s, size_t n){ const char* a = (const char*)d; const char* b = (const char*)s; if(n && a != b && a < b + n && b < a + n) violate("mem.overlap", "memcpy of %zu bytes between overlapping ranges", n); }
void* simw_memcpy(void* d, const void* s, size_t n){ acc(s, n, false); acc(d, n, true); overlap(d, s, n); return memcpy(d, s, n); }
void* simw_memmove(void* d, const void* s, size_t n){ acc(s, n, false); acc(d, n, true); return memmove(d, s, n); }
void* simw_memset(void* d, int c, size_t n){ acc(d, n, true); return memset(d, c, n); }
void* simw_mempcpy(void* d, const void* s, size_t n){ return (char*)simw_memcpy(d, s, n) + n; }
int simw_memcmp(const void* a, const void* b, size_t n){ acc(a, n, false); acc(b, n, false); return memcmp(a, b, n); }
void* simw_memchr(const void* a, int c, size_t n){ for(size_t i = 0; i < n; i++){ acc((const char*)a + i, 1, false); if(((const unsigned char*)a)[i] == (unsigned char)c) return (char*)a + i; } return nullptr; }
void* simw_memrchr(const void* a, int c, size_t n){ acc(a, n, false); return (void*)memrchr(a, c, n); }
void* simw_memmem(const void* a, size_t n, const void* b, size_t m){ acc(a, n, false); acc(b, m, false); return memmem(a, n, b, m); }
size_t simw_strlen(const char* s){ size_t i = 0; for(;; i++){ acc(s + i, 1, false); if(!s[i]) return i; } }
size_t simw_strnlen(const char* s, size_t n){ size_t i = 0; for(; i < n; i++){ acc(s + i, 1, false); if(!s[i]) break; } return i; }
char* simw_strchr(const char* s, int c){ for(;; s++){ acc(s, 1, false); if(*s == (char)c) return (char*)s; if(!*s) return nullptr; } }
char* simw_strrchr(const char* s, int c){ const char* r = nullptr; for(;; s++){ acc(s, 1, false); if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
int simw_strcmp(const char* a, const char* b){ for(;; a++, b++){ acc(a, 1, false); acc(b, 1, false); if(*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; } }
int simw_strncmp(const char* a, const char* b, size_t n){ for(; n; a++, b++, n--){ acc(a, 1, false); acc(b, 1, false); if(*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; } return 0; }
int simw_strncasecmp(const char* a, const char* b, size_t n){ for(; n; a++, b++, n--){ acc(a, 1, false); acc(b, 1, false); int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if(x != y || !*a) return x - y; } return 0; }
char* simw_strcpy(char* d, const char* s){ size_t n = simw_strlen(s) + 1; acc(d, n, true); memcpy(d, s, n); return d; }
char* simw_strncpy(char* d, const char* s, size_t n){ acc(d, n, true); size_t k = simw_strnlen(s, n); memcpy(d, s, k); memset(d + k, 0, n - k); return d; }
char* simw_strcat(char* d, const char* s){ simw_strcpy(d + simw_strlen(d), s); return d; }

void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_vptr_update(void**, void*){} void __tsan_vptr_read(void**){}
#define RW(n) void __tsan_read##n(void* p){ acc(p, n, false); } void __tsan_write##n(void* p){ acc(p, n, true); } \
 void __tsan_unaligned_read##n(void* p){ acc(p, n, false); } void __tsan_unaligned_write##n(void* p){ acc(p, n, true); } \
 void __tsan_volatile_read##n(void* p){ acc(p, n, false); } void __tsan_volatile_write##n(void* p){ acc(p, n, true); } \
 void __tsan_unaligned_volatile_read##n(void* p){ acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p){ acc(p, n, true); } \
 void __tsan_read_write##n(void* p){ acc(p, n, false); acc(p, n, true); } void __tsan_unaligned_read_write##n(void* p){ acc(p, n, false); acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n){ acc(p, n, false); } void __tsan_write_range(void* p, size_t n){ acc(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n){ return simw_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n){ return simw_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n){ return simw_memset(d, c, n); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T* p, int){ acc((void*)p, sizeof(T), false); return *p; } \
 void __tsan_atomic##b##_store(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); *p = v; } \
 T __tsan_atomic##b##_exchange(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); T o = *p; *p = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int){ acc((void*)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int){ acc((void*)p, sizeof(T), true); if(*p == *e){ *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int f){ return __tsan_atomic##b##_compare_exchange_strong(p, e, v, m, f); } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int){ acc((void*)p, sizeof(T), true); T o = *p; if(o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
#endif
}
