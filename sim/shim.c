/* Built against /repo's headers. Not instrumented: only glue. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include <wchar.h>
#include "strview.h"
#include "strbuf.h"
#include "strnum.h"
#include "accessories/strbuf_io.h"
#include "accessories/strview_io.h"
#include "accessories/strbuf_crypt/strbuf_crypt.h"
#include "shim.h"

#define B(p) ((strbuf_t**)(p))
static inline strview_t V(sv s){ strview_t v; v.data = s.data; v.size = s.size; return v; }
static inline sv S(strview_t v){ sv s; s.data = v.data; s.size = v.size; return s; }

static void* alloc_cb(struct strbuf_allocator_t* a, void* ptr, size_t size){ return sim_alloc_cb(a->app_data, a, ptr, size); }

size_t sh_hdr(void){ return sizeof(strbuf_t); }
size_t sh_align(void){ return sizeof(void*); }
int sh_grow_step(void){ return STRBUF_CAPACITY_GROW_STEP; }
#ifdef SIM_APPDEF
extern char sim_appdef_token;
void* sh_appdef_token(void){ return &sim_appdef_token; }
#else
void* sh_appdef_token(void){ return NULL; }
#endif
int sh_default_kind(void){
#if defined SIM_APPDEF
	return 3;
#elif defined STRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB
	return 2;
#elif defined STRBUF_DEFAULT_ALLOCATOR_STDLIB
	return 1;
#else
	return 0;
#endif
}
int sh_size(void* b){ return ((strbuf_t*)b)->size; }
int sh_cap(void* b){ return ((strbuf_t*)b)->capacity; }
char* sh_cstr(void* b){ return ((strbuf_t*)b)->cstr; }
void* sh_alloc_fn(void* b){ return (void*)((strbuf_t*)b)->allocator.allocator; }
void* sh_alloc_app(void* b){ return ((strbuf_t*)b)->allocator.app_data; }
int sh_is_alloc_cb(void* fn){ return fn == (void*)alloc_cb; }
extern strbuf_allocator_t strbuf_default_allocator;
void* sh_default_app(void){ return strbuf_default_allocator.app_data; }
void* sh_default_fn(void){ return (void*)strbuf_default_allocator.allocator; }
#ifdef SIM_APPDEF
char sim_appdef_token;
strbuf_allocator_t strbuf_default_allocator = {.app_data = &sim_appdef_token, .allocator = alloc_cb};
#endif

void* sh_create_int(int cap, void* app, int with){ strbuf_allocator_t a = {.app_data = app, .allocator = alloc_cb}; return strbuf_create(cap, with ? &a : NULL); }
void* sh_create_size(size_t cap, void* app, int with){ strbuf_allocator_t a = {.app_data = app, .allocator = alloc_cb}; return strbuf_create(cap, with ? &a : NULL); }
void* sh_create_view(sv v, void* app, int with){ strbuf_allocator_t a = {.app_data = app, .allocator = alloc_cb}; strview_t x = V(v); return strbuf_create(x, with ? &a : NULL); }
void* sh_create_fixed(void* mem, size_t n){ return strbuf_create_fixed(mem, n); }

#define CAPS(X) X(0,0) X(1,1) X(2,7) X(3,16) X(4,33)
int sh_static_caps(int i){ switch(i){
#define X(n,c) case n: return c;
CAPS(X)
#undef X
} return -1; }
size_t sh_static_bytes(int i){ switch(i){
#define X(n,c) case n: { typedef strbuf_space_t(c) T; return sizeof(T); }
CAPS(X)
#undef X
} return 0; }
void* sh_create_static(int i, void* mem, int which){ switch(i){
#define X(n,c) case n: { typedef strbuf_space_t(c) T; T img = STRBUF_STATIC_INIT(c); \
	if(which) { strbuf_t* q = STRBUF_FIXED_CAP(c); memcpy(mem, q, sizeof(T)); } else memcpy(mem, &img, sizeof(T)); return mem; }
CAPS(X)
#undef X
} return NULL; }
void sh_destroy(void** b){ strbuf_destroy(B(b)); }
char* sh_to_cstr(void** b){ return strbuf_to_cstr(B(b)); }

sv sh_view(void** b){ return S(strbuf_view(B(b))); }
sv sh_shrink(void** b){ return S(strbuf_shrink(B(b))); }
sv sh_grow(void** b, int n){ return S(strbuf_grow(B(b), n)); }
sv sh_assign(void** b, sv v){ return S(strbuf_assign(B(b), V(v))); }
sv sh_append(void** b, sv v){ strview_t x = V(v); return S(strbuf_append(B(b), x)); }
sv sh_append_cs(void** b, const char* s, int k){ if(k) return S(strbuf_append(B(b), s)); char* m = (char*)s; return S(strbuf_append(B(b), m)); }
sv sh_prepend(void** b, sv v){ strview_t x = V(v); return S(strbuf_prepend(B(b), x)); }
sv sh_prepend_cs(void** b, const char* s, int k){ if(k) return S(strbuf_prepend(B(b), s)); char* m = (char*)s; return S(strbuf_prepend(B(b), m)); }
sv sh_insert_at(void** b, int i, sv v){ strview_t x = V(v); return S(strbuf_insert_at_index(B(b), i, x)); }
sv sh_insert_at_cs(void** b, int i, const char* s){ return S(strbuf_insert_at_index(B(b), i, s)); }
sv sh_insert_before(void** b, sv d, sv v){ strview_t x = V(v); return S(strbuf_insert_before(B(b), V(d), x)); }
sv sh_insert_before_cs(void** b, sv d, const char* s){ return S(strbuf_insert_before(B(b), V(d), s)); }
sv sh_insert_after(void** b, sv d, sv v){ strview_t x = V(v); return S(strbuf_insert_after(B(b), V(d), x)); }
sv sh_insert_after_cs(void** b, sv d, const char* s){ return S(strbuf_insert_after(B(b), V(d), s)); }
sv sh_strip(void** b, sv v){ strview_t x = V(v); return S(strbuf_strip(B(b), x)); }
sv sh_strip_cs(void** b, const char* s){ return S(strbuf_strip(B(b), s)); }
sv sh_append_char(void** b, char c){ return S(strbuf_append_char(B(b), c)); }
sv sh_append_using(void** b, void* vars){ return S(strbuf_append_using(B(b), sim_fetch_cb, vars)); }
static sv vcat(void** b, int n, ...){ va_list va; va_start(va, n); strview_t r = strbuf_vcat(B(b), n, va); va_end(va); return S(r); }
#define A1 a[0]
#define A2 A1, a[1]
#define A3 A2, a[2]
#define A4 A3, a[3]
#define A5 A4, a[4]
#define A6 A5, a[5]
#define A7 A6, a[6]
#define A8 A7, a[7]
#define A9 A8, a[8]
#define A10 A9, a[9]
#define A11 A10, a[10]
#define A12 A11, a[11]
#define A13 A12, a[12]
#define A14 A13, a[13]
#define A15 A14, a[14]
#define A16 A15, a[15]
#define A17 A16, a[16]
#define A18 A17, a[17]
#define A19 A18, a[18]
#define A20 A19, a[19]
#define A21 A20, a[20]
#define A22 A21, a[21]
#define A23 A22, a[22]
#define A24 A23, a[23]
#define A25 A24, a[24]
#define A26 A25, a[25]
#define A27 A26, a[26]
#define A28 A27, a[27]
#define A29 A28, a[28]
#define A30 A29, a[29]
#define A31 A30, a[30]
#define A32 A31, a[31]
#define A33 A32, a[32]
#define A34 A33, a[33]
#define A35 A34, a[34]
#define A36 A35, a[35]
#define A37 A36, a[36]
#define A38 A37, a[37]
#define A39 A38, a[38]
#define A40 A39, a[39]
#define A41 A40, a[40]
#define A42 A41, a[41]
#define A43 A42, a[42]
#define A44 A43, a[43]
#define A45 A44, a[44]
#define A46 A45, a[45]
#define A47 A46, a[46]
#define A48 A47, a[47]
#define A49 A48, a[48]
#define A50 A49, a[49]
#define A51 A50, a[50]
#define A52 A51, a[51]
#define A53 A52, a[52]
#define A54 A53, a[53]
#define A55 A54, a[54]
#define A56 A55, a[55]
#define A57 A56, a[56]
#define A58 A57, a[57]
#define A59 A58, a[58]
#define A60 A59, a[59]
#define A61 A60, a[60]
#define A62 A61, a[61]
#define A63 A62, a[62]
#define A64 A63, a[63]
#define A65 A64, a[64]
#define A66 A65, a[65]
#define A67 A66, a[66]
#define A68 A67, a[67]
#define A69 A68, a[68]
#define A70 A69, a[69]
#define A71 A70, a[70]
#define A72 A71, a[71]
#define A73 A72, a[72]
#define A74 A73, a[73]
#define A75 A74, a[74]
#define A76 A75, a[75]
#define A77 A76, a[76]
#define A78 A77, a[77]
#define A79 A78, a[78]
#define A80 A79, a[79]
#define A81 A80, a[80]
#define A82 A81, a[81]
#define A83 A82, a[82]
#define A84 A83, a[83]
#define A85 A84, a[84]
#define A86 A85, a[85]
#define A87 A86, a[86]
#define A88 A87, a[87]
#define A89 A88, a[88]
#define A90 A89, a[89]
#define A91 A90, a[90]
#define A92 A91, a[91]
#define A93 A92, a[92]
#define A94 A93, a[93]
#define A95 A94, a[94]
#define A96 A95, a[95]
#define A97 A96, a[96]
#define A98 A97, a[97]
#define A99 A98, a[98]
#define A100 A99, a[99]
#define A101 A100, a[100]
#define A102 A101, a[101]
#define A103 A102, a[102]
#define A104 A103, a[103]
#define A105 A104, a[104]
#define A106 A105, a[105]
#define A107 A106, a[106]
#define A108 A107, a[107]
#define A109 A108, a[108]
#define A110 A109, a[109]
#define A111 A110, a[110]
#define A112 A111, a[111]
#define A113 A112, a[112]
#define A114 A113, a[113]
#define A115 A114, a[114]
#define A116 A115, a[115]
#define A117 A116, a[116]
#define A118 A117, a[117]
#define A119 A118, a[118]
#define A120 A119, a[119]
#define A121 A120, a[120]
#define A122 A121, a[121]
#define A123 A122, a[122]
#define A124 A123, a[123]
#define A125 A124, a[124]
#define A126 A125, a[125]
#define A127 A126, a[126]
sv sh_cat(void** b, int n, const sv* v, int via){
	strview_t a[SH_MAXCAT]; if(n > SH_MAXCAT) n = SH_MAXCAT; for(int i = 0; i < SH_MAXCAT; i++) a[i] = i < n ? V(v[i]) : STRVIEW_INVALID;
	if(!via) switch(n){
		case 1: return S(strbuf_cat(B(b), A1));
		case 2: return S(strbuf_cat(B(b), A2));
		case 3: return S(strbuf_cat(B(b), A3));
		case 4: return S(strbuf_cat(B(b), A4));
		case 5: return S(strbuf_cat(B(b), A5));
		case 6: return S(strbuf_cat(B(b), A6));
		case 7: return S(strbuf_cat(B(b), A7));
		case 8: return S(strbuf_cat(B(b), A8));
		case 9: return S(strbuf_cat(B(b), A9));
		case 10: return S(strbuf_cat(B(b), A10));
		case 11: return S(strbuf_cat(B(b), A11));
		case 12: return S(strbuf_cat(B(b), A12));
		case 13: return S(strbuf_cat(B(b), A13));
		case 14: return S(strbuf_cat(B(b), A14));
		case 15: return S(strbuf_cat(B(b), A15));
		case 16: return S(strbuf_cat(B(b), A16));
		case 17: return S(strbuf_cat(B(b), A17));
		case 18: return S(strbuf_cat(B(b), A18));
		case 19: return S(strbuf_cat(B(b), A19));
		case 20: return S(strbuf_cat(B(b), A20));
		case 21: return S(strbuf_cat(B(b), A21));
		case 22: return S(strbuf_cat(B(b), A22));
		case 23: return S(strbuf_cat(B(b), A23));
		case 24: return S(strbuf_cat(B(b), A24));
		case 25: return S(strbuf_cat(B(b), A25));
		case 26: return S(strbuf_cat(B(b), A26));
		case 27: return S(strbuf_cat(B(b), A27));
		case 28: return S(strbuf_cat(B(b), A28));
		case 29: return S(strbuf_cat(B(b), A29));
		case 30: return S(strbuf_cat(B(b), A30));
		case 31: return S(strbuf_cat(B(b), A31));
		case 32: return S(strbuf_cat(B(b), A32));
		case 33: return S(strbuf_cat(B(b), A33));
		case 34: return S(strbuf_cat(B(b), A34));
		case 35: return S(strbuf_cat(B(b), A35));
		case 36: return S(strbuf_cat(B(b), A36));
		case 37: return S(strbuf_cat(B(b), A37));
		case 38: return S(strbuf_cat(B(b), A38));
		case 39: return S(strbuf_cat(B(b), A39));
		case 40: return S(strbuf_cat(B(b), A40));
		case 41: return S(strbuf_cat(B(b), A41));
		case 42: return S(strbuf_cat(B(b), A42));
		case 43: return S(strbuf_cat(B(b), A43));
		case 44: return S(strbuf_cat(B(b), A44));
		case 45: return S(strbuf_cat(B(b), A45));
		case 46: return S(strbuf_cat(B(b), A46));
		case 47: return S(strbuf_cat(B(b), A47));
		case 48: return S(strbuf_cat(B(b), A48));
		case 49: return S(strbuf_cat(B(b), A49));
		case 50: return S(strbuf_cat(B(b), A50));
		case 51: return S(strbuf_cat(B(b), A51));
		case 52: return S(strbuf_cat(B(b), A52));
		case 53: return S(strbuf_cat(B(b), A53));
		case 54: return S(strbuf_cat(B(b), A54));
		case 55: return S(strbuf_cat(B(b), A55));
		case 56: return S(strbuf_cat(B(b), A56));
		case 57: return S(strbuf_cat(B(b), A57));
		case 58: return S(strbuf_cat(B(b), A58));
		case 59: return S(strbuf_cat(B(b), A59));
		case 60: return S(strbuf_cat(B(b), A60));
		case 61: return S(strbuf_cat(B(b), A61));
		case 62: return S(strbuf_cat(B(b), A62));
		case 63: return S(strbuf_cat(B(b), A63));
		case 64: return S(strbuf_cat(B(b), A64));
		case 65: return S(strbuf_cat(B(b), A65));
		case 66: return S(strbuf_cat(B(b), A66));
		case 67: return S(strbuf_cat(B(b), A67));
		case 68: return S(strbuf_cat(B(b), A68));
		case 69: return S(strbuf_cat(B(b), A69));
		case 70: return S(strbuf_cat(B(b), A70));
		case 71: return S(strbuf_cat(B(b), A71));
		case 72: return S(strbuf_cat(B(b), A72));
		case 73: return S(strbuf_cat(B(b), A73));
		case 74: return S(strbuf_cat(B(b), A74));
		case 75: return S(strbuf_cat(B(b), A75));
		case 76: return S(strbuf_cat(B(b), A76));
		case 77: return S(strbuf_cat(B(b), A77));
		case 78: return S(strbuf_cat(B(b), A78));
		case 79: return S(strbuf_cat(B(b), A79));
		case 80: return S(strbuf_cat(B(b), A80));
		case 81: return S(strbuf_cat(B(b), A81));
		case 82: return S(strbuf_cat(B(b), A82));
		case 83: return S(strbuf_cat(B(b), A83));
		case 84: return S(strbuf_cat(B(b), A84));
		case 85: return S(strbuf_cat(B(b), A85));
		case 86: return S(strbuf_cat(B(b), A86));
		case 87: return S(strbuf_cat(B(b), A87));
		case 88: return S(strbuf_cat(B(b), A88));
		case 89: return S(strbuf_cat(B(b), A89));
		case 90: return S(strbuf_cat(B(b), A90));
		case 91: return S(strbuf_cat(B(b), A91));
		case 92: return S(strbuf_cat(B(b), A92));
		case 93: return S(strbuf_cat(B(b), A93));
		case 94: return S(strbuf_cat(B(b), A94));
		case 95: return S(strbuf_cat(B(b), A95));
		case 96: return S(strbuf_cat(B(b), A96));
		case 97: return S(strbuf_cat(B(b), A97));
		case 98: return S(strbuf_cat(B(b), A98));
		case 99: return S(strbuf_cat(B(b), A99));
		case 100: return S(strbuf_cat(B(b), A100));
		case 101: return S(strbuf_cat(B(b), A101));
		case 102: return S(strbuf_cat(B(b), A102));
		case 103: return S(strbuf_cat(B(b), A103));
		case 104: return S(strbuf_cat(B(b), A104));
		case 105: return S(strbuf_cat(B(b), A105));
		case 106: return S(strbuf_cat(B(b), A106));
		case 107: return S(strbuf_cat(B(b), A107));
		case 108: return S(strbuf_cat(B(b), A108));
		case 109: return S(strbuf_cat(B(b), A109));
		case 110: return S(strbuf_cat(B(b), A110));
		case 111: return S(strbuf_cat(B(b), A111));
		case 112: return S(strbuf_cat(B(b), A112));
		case 113: return S(strbuf_cat(B(b), A113));
		case 114: return S(strbuf_cat(B(b), A114));
		case 115: return S(strbuf_cat(B(b), A115));
		case 116: return S(strbuf_cat(B(b), A116));
		case 117: return S(strbuf_cat(B(b), A117));
		case 118: return S(strbuf_cat(B(b), A118));
		case 119: return S(strbuf_cat(B(b), A119));
		case 120: return S(strbuf_cat(B(b), A120));
		case 121: return S(strbuf_cat(B(b), A121));
		case 122: return S(strbuf_cat(B(b), A122));
		case 123: return S(strbuf_cat(B(b), A123));
		case 124: return S(strbuf_cat(B(b), A124));
		case 125: return S(strbuf_cat(B(b), A125));
		case 126: return S(strbuf_cat(B(b), A126));
		case 127: return S(strbuf_cat(B(b), A127));
	}
	return vcat(b, n, A127);
}

/* ---- formatting ------------------------------------------------------------ */
/* X(id, prnf_ok, must_fail, format, args...) */
#define FMTS(X) \
 X(0,1,0,"%s", a->s) \
 X(1,1,0,"%d", a->i) \
 X(2,1,0,"%s=%d;", a->s, a->i) \
 X(3,1,0,"just literal text", 0) \
 X(4,1,0,"%c%c", a->c, a->d) \
 X(5,0,0,"%*d", a->j, a->i) \
 X(6,1,0,"[%.3s|%s]", a->s, a->t) \
 X(7,1,0,"0x%x,%u", (unsigned)a->i, (unsigned)a->j) \
 X(8,1,0,"100%%", 0) \
 X(9,1,0,"", 0) \
 X(10,0,0,"%.*f:%g", a->j % 9, a->f, a->f) \
 X(11,0,0,"%lld %s", a->ll, a->s) \
 X(12,1,0,"%s%s%s%s", a->s, a->t, a->s, a->t) \
 X(13,0,1,"pre %ls post", (const wchar_t*)a->ws) \
 X(14,0,1,"%s%ls", a->s, (const wchar_t*)a->ws) \
 X(15,1,0,"%08d|%-6d|%6d", a->i % 1000, a->i % 1000, a->i % 1000) \
 X(16,1,0,"<%" VFMT ">", VARG(a->t, a->vl)) \
 X(17,1,0,"%" VFMT "%" VFMT "=%d", VARG(a->t, a->vl), VARG(a->s, 1), a->i)
/* the library's own macros for putting a view into a format ... */
#define VFMT PRIstr
#define VARG(t,n) PRIstrarg(((strview_t){.data=(t), .size=(n)}))
#pragma GCC diagnostic ignored "-Wformat-extra-args"
#pragma GCC diagnostic ignored "-Wformat-zero-length"
#pragma GCC diagnostic ignored "-Wformat"
int sh_nfmt(void){ return 18; }
int sh_fmt_prnf_ok(int f){ switch(f){
#define X(n,p,e,...) case n: return p;
FMTS(X)
#undef X
} return 0; }
int sh_fmt_fails(int f){ switch(f){
#define X(n,p,e,...) case n: return e;
FMTS(X)
#undef X
} return 0; }
const char* sh_fmt_text(int f){ switch(f){
#define X(n,p,e,fmt,...) case n: return fmt;
FMTS(X)
#undef X
} return "?"; }
static sv dov(int kind, void** b, const char* fmt, ...){
	va_list va; va_start(va, fmt); strview_t r = STRVIEW_INVALID;
	switch(kind){
		case 1: r = strbuf_vprintf(B(b), fmt, va); break;
		case 3: r = strbuf_append_vprintf(B(b), fmt, va); break;
#ifdef STRBUF_PROVIDE_PRNF
		case 5: r = strbuf_vprnf(B(b), fmt, va); break;
		case 7: r = strbuf_append_vprnf(B(b), fmt, va); break;
#endif
	}
	va_end(va); return S(r);
}
#ifdef STRBUF_PROVIDE_PRNF
#define PRNFCASE(fmt,...) case 4: return S(strbuf_prnf(B(b), fmt, __VA_ARGS__)); case 6: return S(strbuf_append_prnf(B(b), fmt, __VA_ARGS__));
#else
#define PRNFCASE(fmt,...)
#endif
sv sh_format(int kind, void** b, int f, const fmtargs* a){
	switch(f){
#define X(n,p,e,fmt,...) case n: switch(kind){ case 0: return S(strbuf_printf(B(b), fmt, __VA_ARGS__)); \
	case 2: return S(strbuf_append_printf(B(b), fmt, __VA_ARGS__)); PRNFCASE(fmt, __VA_ARGS__) \
	default: return dov(kind, b, fmt, __VA_ARGS__); } break;
FMTS(X)
#undef X
	}
	return (sv){0,0};
}
/* ... and for the reference, what they stand for written out */
#undef VFMT
#undef VARG
#define VFMT ".*s"
#define VARG(t,n) (int)(n), (const char*)(t)
int sh_snprintf(char* dst, size_t n, int f, const fmtargs* a){
	switch(f){
#define X(i,p,e,fmt,...) case i: return snprintf(dst, n, fmt, __VA_ARGS__);
FMTS(X)
#undef X
	}
	return 0;
}

#ifdef STRBUF_PROVIDE_PRNF
int ref_snprnf(char* dst, size_t n, const char* fmt, ...);
int sh_snprnf(char* dst, size_t n, int f, const fmtargs* a){
	switch(f){
#define X(i,p,e,fmt,...) case i: return ref_snprnf(dst, n, fmt, __VA_ARGS__);
FMTS(X)
#undef X
	}
	return 0;
}
#endif
/* ---- accessories -------------------------------------------------------------- */
int sh_append_read(void** b, int fd){ return strbuf_append_read(B(b), fd); }
int sh_write(int fd, void** b){ return strbuf_write(fd, B(b)); }
int sh_view_write(int fd, sv* v, int null){ if(null) return strview_write(fd, NULL); strview_t x = V(*v); int r = strview_write(fd, &x); *v = S(x); return r; }
sv sh_encrypt(void** b, uint8_t* k, uint8_t* iv){ return S(strbuf_encrypt(B(b), k, iv)); }
sv sh_decrypt(void** b, uint8_t* k, uint8_t* iv){ return S(strbuf_decrypt(B(b), k, iv)); }

/* ---- views ------------------------------------------------------------------------ */
sv sh_cstr_view(const char* s){ return S(cstr(s)); }
char* sh_view_to_cstr(char* d, size_t n, sv v){ return strview_to_cstr(d, n, V(v)); }
int sh_is_valid(sv v){ return strview_is_valid(V(v)); }
#define TWO(name, mac) int name(sv a, sv b){ strview_t y = V(b); return mac(V(a), y); } int name##_cs(sv a, const char* b){ return mac(V(a), b); }
TWO(sh_is_match, strview_is_match) TWO(sh_is_match_nc, strview_is_match_nocase)
TWO(sh_starts, strview_starts_with) TWO(sh_starts_nc, strview_starts_with_nocase)
int sh_compare(sv a, sv b){ return strview_compare(V(a), V(b)); }
int sh_contains(sv a, sv b){ return strview_contains(V(a), V(b)); }
int sh_contains_nc(sv a, sv b){ return strview_contains_nocase(V(a), V(b)); }
sv sh_sub(sv a, int b, int e){ return S(strview_sub(V(a), b, e)); }
sv sh_trim(int w, sv a, sv c){ strview_t y = V(c); return S(w == 0 ? strview_trim(V(a), y) : w == 1 ? strview_trim_start(V(a), y) : strview_trim_end(V(a), y)); }
sv sh_trim_cs(int w, sv a, const char* y){ return S(w == 0 ? strview_trim(V(a), y) : w == 1 ? strview_trim_start(V(a), y) : strview_trim_end(V(a), y)); }
sv sh_find(int last, int nc, sv h, sv n){ strview_t y = V(n);
	return S(last ? (nc ? strview_find_last_nocase(V(h), y) : strview_find_last(V(h), y)) : (nc ? strview_find_first_nocase(V(h), y) : strview_find_first(V(h), y))); }
sv sh_find_cs(int last, int nc, sv h, const char* y){
	return S(last ? (nc ? strview_find_last_nocase(V(h), y) : strview_find_last(V(h), y)) : (nc ? strview_find_first_nocase(V(h), y) : strview_find_first(V(h), y))); }
#define INOUT(call) strview_t x = V(*s); strview_t r = call; *s = S(x); return S(r)
sv sh_split_first(sv* s, const char* d, int q){ INOUT(strview_split_first_delim(&x, d, q)); }
sv sh_split_last(sv* s, const char* d, int q){ INOUT(strview_split_last_delim(&x, d, q)); }
int sh_split_all(int n, sv* dst, sv s, const char* d, int q){ strview_t t[64]; if(n > 64) n = 64; int r = strview_split_all(n, t, V(s), d, q); for(int i = 0; i < r && i < n; i++) dst[i] = S(t[i]); return r; }
int sh_split_all_in(int n, sv* dst, void* room, sv s, const char* d, int q){ strview_t* t = room; int r = strview_split_all(n, t, V(s), d, q); for(int i = 0; i < r && i < n; i++) dst[i] = S(t[i]); return r; }
size_t sh_view_bytes(void){ return sizeof(strview_t); }
sv sh_split_index(sv* s, int i){ INOUT(strview_split_index(&x, i)); }
sv sh_split_left(sv* s, sv p){ INOUT(strview_split_left(&x, V(p))); }
sv sh_split_right(sv* s, sv p){ INOUT(strview_split_right(&x, V(p))); }
char sh_pop(sv* s){ strview_t x = V(*s); char c = strview_pop_first_char(&x); *s = S(x); return c; }
sv sh_split_line(sv* s, char* eol){ INOUT(strview_split_line(&x, eol)); }
sv sh_dequote(sv s){ return S(strview_dequote(V(s))); }
void sh_swap(sv* a, sv* b){ strview_t x = V(*a), y = V(*b); strview_swap(&x, &y); *a = S(x); *b = S(y); }

/* ---- numbers ------------------------------------------------------------------------- */
int sh_opt(int m){ int o = STRNUM_DEFAULT;
	if(m & SH_BIN) o |= STRNUM_BASE_BIN; if(m & SH_HEX) o |= STRNUM_BASE_HEX; if(m & SH_NOBX) o |= STRNUM_NOBX;
	if(m & SH_NOSIGN) o |= STRNUM_NOSIGN; if(m & SH_NOSPACE) o |= STRNUM_NOSPACE; if(m & SH_NOEXP) o |= STRNUM_NOEXP; return o; }
int sh_einval(void){ return EINVAL; }
int sh_erange(void){ return ERANGE; }
#define TYPES(X) X(0,unsigned char,uchar,u) X(1,unsigned short,ushort,u) X(2,unsigned int,uint,u) X(3,unsigned long,ulong,u) X(4,unsigned long long,ullong,u) \
 X(5,char,char,s) X(6,short,short,s) X(7,int,int,s) X(8,long,long,s) X(9,long long,llong,s) X(10,float,float,f) X(11,double,double,d) X(12,long double,ldouble,ld)
int sh_strnum(int type, num* out, sv* src, int o, int viam){
	strview_t x = V(*src); int e = -1;
	switch(type){
#define X(n,T,nm,m) case n: { T v = (T)out->m; e = viam ? strnum_value(&v, &x, o) : strnum_consume_##nm(&v, &x, o); out->m = v; } break;
TYPES(X)
#undef X
	}
	*src = S(x); return e;
}
int sh_strnum_missing(int type, num* out, sv* src, int o, int what){   // what: 1 no source, 2 no destination, 3 neither
	strview_t x; memset(&x, 0, sizeof x); int e = -1; if(src) x = V(*src);
	switch(type){
#define X(n,T,nm,m) case n: { T v = (T)out->m; e = strnum_consume_##nm(what & 2 ? NULL : &v, what & 1 ? NULL : &x, o); out->m = v; } break;
TYPES(X)
#undef X
	}
	if(src) *src = S(x); return e;
}
#define VALS(X) X(0,unsigned char,uchar,u) X(1,unsigned short,ushort,u) X(2,unsigned int,uint,u) X(3,unsigned long,ulong,u) X(4,unsigned long long,ullong,u) \
 X(5,char,char,s) X(6,short,short,s) X(7,int,int,s) X(8,long,long,s) X(9,long long,llong,s) X(10,float,float,f) X(11,double,double,d) X(12,long double,ldouble,ld) \
 X(13,uint8_t,u8,u) X(14,uint16_t,u16,u) X(15,uint32_t,u32,u) X(16,uint64_t,u64,u) X(17,int8_t,i8,s) X(18,int16_t,i16,s) X(19,int32_t,i32,s) X(20,int64_t,i64,s)
void sh_strnum_val(int which, num* out, sv src, num d, int o){
	switch(which){
#define X(n,T,nm,m) case n: out->m = strnum_##nm(V(src), (T)d.m, o); break;
VALS(X)
#undef X
	}
}

#define NUMS(X) X(0,"%lld",v.s) X(1,"%llu",v.u) X(2,"0x%llx",v.u) X(3,"%llX",v.u) X(4,"0X%llX",v.u) X(5,"%+lld",v.s) \
 X(6,"%.17g",v.d) X(7,"%f",v.d) X(8,"%.9g",v.d) X(9,"%e",v.d) X(10,"%.3E",v.d) X(11,"%g",v.d) X(12,"%.21Lg",v.ld) X(13,"%Lf",v.ld) X(14,"%Le",v.ld)
sv sh_append_num(void** b, int how, num v){ switch(how){
#define X(n,f,a) case n: return S(strbuf_append_printf(B(b), f, a));
NUMS(X)
#undef X
} return (sv){0,0}; }
int sh_numtext(char* d, size_t n, int how, num v){ switch(how){
#define X(i,f,a) case i: return snprintf(d, n, f, a);
NUMS(X)
#undef X
} return 0; }
const char* sh_numfmt(int how){ switch(how){
#define X(i,f,a) case i: return f;
NUMS(X)
#undef X
} return "?"; }
