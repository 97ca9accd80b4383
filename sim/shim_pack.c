/* The pack/unpack accessories are macros: this file is compiled and instrumented like library code. */
#include <limits.h>
#include "strview.h"
#include "strbuf.h"
#include "accessories/strbuf_pack.h"
#include "accessories/strview_unpack.h"
#include "shim.h"
#define KINDS(X) X(0,uint8_t) X(1,int8_t) X(2,uint16_t) X(3,int16_t) X(4,uint32_t) X(5,int32_t) X(6,uint64_t) X(7,int64_t)
void sh_pack(void** bp, int kind, int be, uint64_t val){
	strbuf_t** my_buffer = (strbuf_t**)bp;
	switch(kind){
#define X(n,T) case n: { T my_value = (T)val; if(be) STRBUF_PACK_BE(my_buffer, my_value); else STRBUF_PACK_LE(my_buffer, my_value); } break;
KINDS(X)
#undef X
	}
}
/* The same through other spellings of the arguments; returns how often the source and the destination expression were evaluated (1 and 1: 0x11). */
typedef struct { int src, dst; } uses; static strbuf_t** dst_of(strbuf_t** b, uses* u){ u->dst++; return b; }
#define X(n,T) static T src_of_##n(T x, uses* u){ u->src++; return x; } struct __attribute__((packed)) in_##n { char c; T x; };
KINDS(X)
#undef X
static void pack1(strbuf_t** b, int kind, int be, uint64_t my_val, int form, uses* my_uses){
	switch(kind){
#define P(SRC) do { if(be) STRBUF_PACK_BE(dst_of(b, my_uses), SRC); else STRBUF_PACK_LE(dst_of(b, my_uses), SRC); } while(0)
#define X(n,T) case n: switch(form){ \
	case 1: { const T my_value = (T)my_val; my_uses->src++; P(my_value); } break; \
	case 2: { T my_array[3] = {(T)~my_val, (T)my_val, (T)~my_val}; int my_index = 1; P(my_array[my_index++]); my_uses->src += my_index - 1; } break; \
	case 3: { T tmp = (T)my_val; my_uses->src++; P(tmp); } break; \
	case 4: { struct in_##n my_struct, *my_pointer = &my_struct; my_struct.x = (T)my_val; my_struct.c = 1; my_uses->src++; P(my_pointer->x); } break; \
	case 5: P(src_of_##n((T)my_val, my_uses)); break; \
	case 6: { T my_value = (T)my_val, my_other = (T)~my_val; my_uses->src++; P((T)(be + 1 > 0 ? my_value : my_other)); } break; \
	case 7: { volatile T my_value = (T)my_val; my_uses->src++; P(my_value); } break; \
	case 8: { struct in_##n* my_pointer = (struct in_##n*)((*b)->cstr - 1); my_uses->src++; P(my_pointer->x); } break; \
	default: { strbuf_t** tmp = b; T my_value = (T)my_val; my_uses->src++; my_uses->dst++; if(be) STRBUF_PACK_BE(tmp, my_value); else STRBUF_PACK_LE(tmp, my_value); } break; \
	} break;
KINDS(X)
#undef X
#undef P
	}
}
int sh_pack_form(void** bp, int kind, int be, uint64_t val, int form){ uses u = {0, 0}; pack1((strbuf_t**)bp, kind, be, val, form, &u); return u.src << 4 | u.dst; }
uint64_t sh_unpack_form(sv* v, int kind, int be, int form){
	struct { char c; strview_t my_view; } my_object, *my_holder = &my_object; uint64_t r = 0; my_object.my_view.data = v->data; my_object.my_view.size = v->size;
	switch(kind){
#define U(DST, VIEW) do { if(be) STRVIEW_UNPACK_BE(DST, VIEW); else STRVIEW_UNPACK_LE(DST, VIEW); } while(0)
#define X(n,T) case n: switch(form){ \
	case 1: { struct in_##n my_struct, *my_pointer = &my_struct; U(my_pointer->x, my_holder->my_view); r = (uint64_t)my_struct.x; } break; \
	case 2: { T my_array[3] = {1, 1, 1}; T* my_pointer = my_array + 1; U(*my_pointer, my_object.my_view); r = my_array[0] == 1 && my_array[2] == 1 ? (uint64_t)my_array[1] : ~(uint64_t)my_array[1]; } break; \
	default: { T my_value; strview_t *my_pointer = &my_object.my_view; U(my_value, *my_pointer); r = (uint64_t)my_value; } break; \
	} break;
KINDS(X)
#undef X
#undef U
	}
	v->data = my_object.my_view.data; v->size = my_object.my_view.size; return r;
}
uint64_t sh_unpack(sv* v, int kind, int be){
	strview_t my_view; my_view.data = v->data; my_view.size = v->size; uint64_t r = 0;
	switch(kind){
#define X(n,T) case n: { T my_value; if(be) STRVIEW_UNPACK_BE(my_value, my_view); else STRVIEW_UNPACK_LE(my_value, my_view); r = (uint64_t)my_value; } break;
KINDS(X)
#undef X
	}
	v->data = my_view.data; v->size = my_view.size; return r;
}
