/* Flat C interface between the simulator (C++) and the library under test (C, macros).
   shim.c includes the real headers of /repo, so generic macros are exercised as a user would. */
#ifndef SHIM_H
#define SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct sv { const char* data; int size; } sv;
typedef struct sh_alloc { void* app_data; void* fn; } sh_alloc;   /* mirrors strbuf_allocator_t, checked in shim.c */

/* allocator seam: the only allocator function ever given to the library */
void* sim_alloc_cb(void* app_data, void* self, void* ptr, size_t size);
/* fetcher seam */
int sim_fetch_cb(void* dst, int dst_size, void* vars);

size_t sh_hdr(void);                 /* sizeof(strbuf_t) */
size_t sh_align(void);
int    sh_grow_step(void);
void*  sh_appdef_token(void);
int    sh_default_kind(void);        /* default allocator of this build: 0 none, 1 C library, 2 C library with checking, 3 the application's */
int    sh_size(void* b);
int    sh_cap(void* b);
char*  sh_cstr(void* b);
void*  sh_alloc_fn(void* b);
void*  sh_alloc_app(void* b);
int    sh_is_alloc_cb(void* fn);
void*  sh_default_app(void);         /* app_data / fn of strbuf_default_allocator */
void*  sh_default_fn(void);

/* buffer life cycle; alloc_app==NULL means "no allocator given" */
void* sh_create_int(int cap, void* alloc_app, int with_alloc);
void* sh_create_size(size_t cap, void* alloc_app, int with_alloc);
void* sh_create_view(sv v, void* alloc_app, int with_alloc);
void* sh_create_fixed(void* mem, size_t n);
int   sh_static_caps(int i);                         /* capacities of macro-made buffers, -1 = end */
size_t sh_static_bytes(int i);
void* sh_create_static(int i, void* mem, int which); /* STRBUF_STATIC_INIT / STRBUF_FIXED_CAP image */
void  sh_destroy(void** b);
char* sh_to_cstr(void** b);

sv sh_view(void** b);
sv sh_shrink(void** b);
sv sh_grow(void** b, int n);
sv sh_assign(void** b, sv v);
sv sh_append(void** b, sv v);
sv sh_append_cs(void** b, const char* s, int konst);
sv sh_prepend(void** b, sv v);
sv sh_prepend_cs(void** b, const char* s, int konst);
sv sh_insert_at(void** b, int i, sv v);
sv sh_insert_at_cs(void** b, int i, const char* s);
sv sh_insert_before(void** b, sv d, sv v);
sv sh_insert_before_cs(void** b, sv d, const char* s);
sv sh_insert_after(void** b, sv d, sv v);
sv sh_insert_after_cs(void** b, sv d, const char* s);
sv sh_strip(void** b, sv v);
sv sh_strip_cs(void** b, const char* s);
sv sh_append_char(void** b, char c);
sv sh_append_using(void** b, void* vars);
#define SH_MAXCAT 127
sv sh_cat(void** b, int n, const sv* v, int via_v);    /* n in 1..SH_MAXCAT */

/* formatting: kind 0 printf 1 vprintf 2 append_printf 3 append_vprintf; prnf: +4 */
typedef struct fmtargs { int i, j; const char* s; const char* t; char c, d; double f; long long ll; const void* ws; int vl; } fmtargs;
int  sh_nfmt(void);
int  sh_fmt_prnf_ok(int fmt);
int  sh_fmt_fails(int fmt);
const char* sh_fmt_text(int fmt);
sv   sh_format(int kind, void** b, int fmt, const fmtargs* a);
int  sh_snprintf(char* dst, size_t n, int fmt, const fmtargs* a); /* reference (C library) */

int  sh_snprnf(char* dst, size_t n, int fmt, const fmtargs* a);   /* reference (separate copy of prnf) */

/* accessories */
int sh_append_read(void** b, int fd);
int sh_write(int fd, void** b);
int sh_view_write(int fd, sv* v, int null);
sv  sh_encrypt(void** b, uint8_t* key, uint8_t* iv);
sv  sh_decrypt(void** b, uint8_t* key, uint8_t* iv);
/* pack kinds: 0 u8 1 i8 2 u16 3 i16 4 u32 5 i32 6 u64 7 i64 */
void sh_pack(void** b, int kind, int be, uint64_t val);
uint64_t sh_unpack(sv* v, int kind, int be);
int sh_pack_form(void** b, int kind, int be, uint64_t val, int form);   // other spellings of the arguments; 16 * (evaluations of the source) + evaluations of the destination
uint64_t sh_unpack_form(sv* v, int kind, int be, int form);
enum { SH_PACK_FORMS = 10, SH_PACK_OWN = 8, SH_UNPACK_FORMS = 4 };

/* views */
sv   sh_cstr_view(const char* s);
char* sh_view_to_cstr(char* dst, size_t n, sv v);
int  sh_is_valid(sv v);
int  sh_is_match(sv a, sv b);      int sh_is_match_cs(sv a, const char* b);
int  sh_is_match_nc(sv a, sv b);   int sh_is_match_nc_cs(sv a, const char* b);
int  sh_starts(sv a, sv b);        int sh_starts_cs(sv a, const char* b);
int  sh_starts_nc(sv a, sv b);     int sh_starts_nc_cs(sv a, const char* b);
int  sh_compare(sv a, sv b);
int  sh_contains(sv a, sv b);      int sh_contains_nc(sv a, sv b);
sv   sh_sub(sv a, int b, int e);
sv   sh_trim(int which, sv a, sv c);       /* 0 both 1 start 2 end */
sv   sh_trim_cs(int which, sv a, const char* c);
sv   sh_find(int last, int nocase, sv h, sv n);
sv   sh_find_cs(int last, int nocase, sv h, const char* n);
sv   sh_split_first(sv* s, const char* d, int q);
sv   sh_split_last(sv* s, const char* d, int q);
int  sh_split_all(int n, sv* dst, sv s, const char* d, int q);
int  sh_split_all_in(int n, sv* dst, void* room, sv s, const char* d, int q);
size_t sh_view_bytes(void);
sv   sh_split_index(sv* s, int i);
sv   sh_split_left(sv* s, sv p);
sv   sh_split_right(sv* s, sv p);
char sh_pop(sv* s);
sv   sh_split_line(sv* s, char* eol);
sv   sh_dequote(sv s);
void sh_swap(sv* a, sv* b);

/* numbers. type: 0 uchar 1 ushort 2 uint 3 ulong 4 ullong 5 char 6 short 7 int 8 long 9 llong
                  10 float 11 double 12 ldouble.  out receives the raw value. */
typedef union num { unsigned long long u; long long s; float f; double d; long double ld; unsigned char raw[16]; } num;
int sh_strnum_missing(int type, num* out, sv* src, int o, int what);
int  sh_strnum(int type, num* out, sv* src, int options, int via_macro);
/* number texts: append v through strbuf_append_printf, and the same text from the C library */
sv   sh_append_num(void** b, int how, num v);
int  sh_numtext(char* d, size_t n, int how, num v);
const char* sh_numfmt(int how);
void sh_strnum_val(int which, num* out, sv src, num dflt, int options); /* value-returning family, which 0..20 */
enum { SH_BIN=1, SH_HEX=2, SH_NOBX=4, SH_NOSIGN=8, SH_NOSPACE=16, SH_NOEXP=32 };
int sh_opt(int mask);   /* translate SH_* into STRNUM_* */
int sh_einval(void); int sh_erange(void);
#ifdef __cplusplus
}
#endif
#endif
