// Worlds at the size limit (C07) and with the build's default allocator (C21).
#include "world.hpp"
#include "props.hpp"
#include <climits>
using namespace sim;

// ------------------------------------------------------------------ C07: buffers of up to INT_MAX bytes in sparse memory
// The model keeps the size and the last known bytes; everything before them is untouched memory nobody reads.
struct Big { Buf* b = nullptr; long size = 0; Str tail; };
static const long LIM = INT_MAX;
static Str small(Actor& a, size_t n, bool text = false){ Str s = a.text(n); if(text) for(auto& c : s) if(!c) c = 'x'; return s; }
static void big_state(Actor& a, Big& g, const char* what, long size, const Str& tail){
	Buf& b = *g.b; a.wellformed(b, what); long got = sh_size(b.p()), cap = sh_cap(b.p());
	if(got != size) mismatch("big.size", "%s left %ld bytes, expected %ld", what, got, size);
	else { Str t = hstr(sh_cstr(b.p()) + size - tail.size(), tail.size()); if(t != tail) mismatch("big.content", "%s left the last bytes %s, expected %s", what, quote(t).c_str(), quote(tail).c_str()); }
	g.size = got; g.tail = got == size ? tail : Str(); b.cap = cap; ev(got); ev(cap);
}
// an edit with a predicted outcome: ok (all conditions but space met), resulting size and known tail
static void big_edit(Actor& a, Big& g, const char* what, const std::function<sv(void**)>& call, bool ok, long nsize, const Str& ntail, bool view = true, bool exact_alloc = true){
	Buf& b = *g.b; long cap0 = b.cap, size0 = g.size; size_t calls0 = b.dynamic ? b.a->calls.size() : 0; a.fixed_op = !b.dynamic; nontrivial = true;
	TR("b%d(%s size %ld cap %ld).%s", b.id, b.dynamic ? "growable" : "fixed", size0, cap0, what);
	sv r = CALL(call(b.var)); a.fixed_op = false; bool over = nsize > LIM, fits = ok && !over && (b.dynamic || nsize <= cap0);
	cover(mix(700, std::hash<Str>()(Str(what).substr(0, Str(what).find('(')))), mix(over, fits), b.dynamic, mix(size0 > LIM - 4096, cap0 == LIM));
	big_state(a, g, what, fits ? nsize : 0, fits ? ntail : Str());
	long cap1 = b.cap;
	if(cap1 < cap0) mismatch("big.cap", "%s reduced the capacity from %ld to %ld", what, cap0, cap1);
	if(b.dynamic){
		int st = sh_grow_step(); size_t n = b.a->calls.size() - calls0; (void)n;
		if(over && n) mismatch("big.alloc", "%s exceeds the limit but called the allocator", what);
		if(fits && nsize <= cap0 && (cap1 != cap0 || (n && exact_alloc))) mismatch("big.cap", "%s fits capacity %ld but changed it to %ld", what, cap0, cap1);
		if(fits && nsize > cap0 && !(cap1 >= nsize && (cap1 == LIM || (cap1 % st == 0 && cap1 < nsize + st)))) mismatch("big.round", "%s needed %ld and got capacity %ld", what, nsize, cap1);
		for(size_t i = calls0; i < b.a->calls.size(); i++) if(b.a->calls[i].size && b.a->calls[i].size > (size_t)LIM + 4096) mismatch("big.request", "%s asked for %zu bytes", what, b.a->calls[i].size);
	}
	if(view && fits && (r.data != sh_cstr(b.p()) || r.size != sh_size(b.p()))) mismatch("big.view", "%s returned a view of %d bytes, the buffer has %d", what, r.size, sh_size(b.p()));
}
// A C string of n bytes, n beyond what a view can describe: one page of text mapped again and again, the terminator behind it.
// Only where the library's strlen() is the C library's own; walking it through a seam per byte would take minutes.
#include <sys/mman.h>
#include <unistd.h>
static const char* endless_cstr(size_t n){
	static char* end; static const size_t CH = 2 << 20, N = 2050;
	if(!end){
		int fd = memfd_create("text", 0); static char x[1 << 16]; memset(x, 'x', sizeof x); for(size_t i = 0; i < CH; i += sizeof x) if(write(fd, x, sizeof x) != (ssize_t)sizeof x) harness_error("cannot fill the endless string");
		char* p = (char*)mmap(nullptr, CH * (N + 1), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(fd < 0 || p == MAP_FAILED) harness_error("cannot map the endless string");
		for(size_t i = 0; i < N; i++) if(mmap(p + i * CH, CH, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("cannot map the endless string");
		if(mmap(p + N * CH, 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) harness_error("cannot map the endless string");
		close(fd); end = p + N * CH; }
	return end - n;
}
// an edit with such a string is beyond the limit whatever the buffer holds: refused, leaving it as it was or empty
static void endless_edit(Actor& a, Big& g){
	Buf& B = *g.b; size_t n = (size_t)LIM + 1 + draw(40); switch(draw(4)){ case 1: n = (size_t)LIM + 1 + draw(1 << 30); break; case 2: n = ((size_t)1 << 32) + draw(300); break; case 3: n = ((size_t)1 << 32) - draw(200); break; }
	const char* s = endless_cstr(n); int w = draw(9); long at = g.size && g.size < LIM ? (long)draw((uint32_t)g.size + 1) : 0, c0 = B.cap, size = g.size; Str tail = g.tail; size_t calls = B.dynamic ? B.a->calls.size() : 0; char nm[80];
	static const char* names[] = {"append", "prepend", "insert_at_index", "insert_before", "insert_after", "append(cstr())", "assign(cstr())", "cat(cstr())", "append"}; snprintf(nm, sizeof nm, "%s a C string of %zu bytes", names[w], n); nontrivial = true; count("endless_string");
	TR("b%d(%s size %ld cap %ld).%s", B.id, B.dynamic ? "growable" : "fixed", size, c0, nm); a.fixed_op = !B.dynamic; void** v = B.var;
	switch(w){
	case 0: CALL(sh_append_cs(v, s, 0)); break;
	case 1: CALL(sh_prepend_cs(v, s, 0)); break;
	case 2: CALL(sh_insert_at_cs(v, (int)at, s)); break;
	case 3: CALL(sh_insert_before_cs(v, sv{sh_cstr(*v) + at, 0}, s)); break;
	case 4: CALL(sh_insert_after_cs(v, sv{sh_cstr(*v) + at, 0}, s)); break;
	case 5: { sv x = CALL(sh_cstr_view(s)); CALL(sh_append(v, x)); break; }
	case 6: { sv x = CALL(sh_cstr_view(s)); CALL(sh_assign(v, x)); break; }
	case 7: { sv x[2]; x[0] = CALL(sh_cstr_view(s)); x[1] = x[0]; sv* q = x; CALL(sh_cat(v, 2, q, draw(2))); break; }
	default: CALL(sh_append_cs(v, s, 1)); break; }
	a.fixed_op = false; long got = sh_size(B.p()); cover(702, w, got == 0, B.dynamic);
	big_state(a, g, nm, got == size ? size : 0, got == size ? tail : Str());
	if(B.cap != c0) mismatch("big.cap", "%s changed the capacity from %ld to %d", nm, c0, B.cap);
	if(B.dynamic && B.a->calls.size() != calls) mismatch("big.alloc", "%s called the allocator", nm);
}
static long near0(long room){ switch(draw(8)){ case 0: return room; case 1: return room + 1; case 2: return room - 1; case 3: return room + 2 + draw(40); case 4: return room > 60 ? room - 2 - (long)draw(50) : 0; case 5: return LIM; case 6: return LIM - (long)draw(70); default: return LIM / 2 + (long)draw(1000); } }
static long near(long room){ return std::max(0L, near0(room)); }

void c07(){
	Profile p; p.hostile = false; Actor* A = add_actor(p);
	spawn([A]{ Actor& a = *A; a.init(cur->id); a.alphabet = draw(4); Alloc* al = new_alloc(cur->id, true); char nm[160];
		// refused creations
		int nr = draw(4); for(int i = 0; i < nr; i++){ size_t c0 = al->calls.size(); void* r; int k = draw(4); nontrivial = true;
			if(k == 0){ int v = draw(2) ? -1 - (int)draw(50) : INT_MIN + (int)draw(50); TR("create(%d)", v); r = CALL(sh_create_int(v, al->token, 1)); }
			else { size_t v = k == 1 ? (size_t)LIM + 1 + draw(40) : k == 2 ? SIZE_MAX - draw(60) : (size_t)1 << (31 + draw(33)); TR("create(%zu)", v); r = CALL(sh_create_size(v, al->token, 1)); }
			cover(701, k, !!r, 0); if(r || al->calls.size() != c0) mismatch("big.create", "an impossible initial capacity %s", r ? "yields a buffer" : "reached the allocator"); if(r) end_run(); }
		Big g; Buf* b = new Buf; g.b = b; b->id = 0; b->var = (void**)arena(8, PRW, a.task); *b->var = nullptr; a.bufs.push_back(b); bool fixed = !draw(4); b->dynamic = !fixed; b->a = al;
		if(fixed){ long k = draw(3) == 0 ? (long)draw(90) - 45 : draw(2) ? (long)draw(5000) : -(long)draw(200); size_t n = sh_hdr() + 1 + LIM + k; char* m = huge_region(n); b->mem = m; b->memsz = n; TR("create_fixed(%zu bytes)", n); *b->var = CALL(sh_create_fixed(m, n)); long want = std::min<long>(LIM, n - sh_hdr() - 1);
			if(!*b->var){ mismatch("big.create", "fixed memory of %zu bytes refused", n); end_run(); } b->cap = sh_cap(*b->var); if(b->cap != want){ mismatch("big.cap", "fixed memory of %zu bytes gives capacity %d", n, b->cap); if(b->cap < 0) end_run(); } }
		else { long c = draw(4) == 0 ? LIM - (long)draw(3) : draw(3) == 0 ? LIM - (long)draw(200) : (long)draw(100); TR("create(%ld)", c); *b->var = draw(2) ? CALL(sh_create_int((int)c, al->token, 1)) : CALL(sh_create_size(c, al->token, 1)); if(!*b->var){ mismatch("big.create", "capacity %ld refused", c); end_run(); } b->cap = sh_cap(*b->var); if(b->cap != c) mismatch("big.cap", "created with capacity %d instead of %ld", b->cap, c); }
		big_state(a, g, "creation", 0, "");
		char* src = huge_region(LIM); int nops = 2 + draw(14);
		auto ext = [&](long n){ return sv{src, (int)std::min(LIM, std::max(0L, n))}; };   // foreign text, only ever read when it fits
		for(int i = 0; i < nops; i++){
			if(is_asan && chance(1, 60000)){ Span s; endless_edit(a, g); continue; }
			Span s; Buf& B = *b; long room = LIM - g.size; int o = draw(20); long size = g.size; Str tail = g.tail;
			switch(o){
			case 0: case 1: { long n = draw(3) ? LIM - (long)draw(draw(2) ? 3 : 80) : draw(3) ? (long)draw(3000) : LIM / 2 + (long)draw(100); snprintf(nm, sizeof nm, "grow(%ld)", n); if(fixed) break; long c0 = B.cap; CALL(sh_grow(B.var, (int)n)); TR("%s", nm); big_state(a, g, nm, size, tail); if(B.cap < n || B.cap < c0) mismatch("big.cap", "%s gave capacity %d", nm, B.cap); break; }
			case 2: if(fixed) break; if(draw(3)) break; CALL(sh_shrink(B.var)); TR("shrink"); big_state(a, g, "shrink", size, tail); if(B.cap != size) mismatch("big.cap", "shrink left capacity %d for %ld", B.cap, size); break;
			case 3: case 4: case 5: {   // a data source that claims a huge amount
				long free = B.cap - size; long n = near(draw(2) ? free : std::min<long>(free, LIM - size)); if(draw(3) == 0) n = free; if(n > LIM) n = LIM; if(n < 0) n = 0; a.fetch_calls = 0; snprintf(nm, sizeof nm, "append_using(claims %ld)", n); long want = n; a.fetch_data.clear(); a.big_claim = want;
				char* tok = a.fetch_token; bool ok = n <= free; Str nt = n > 0 && ok ? Str() : tail; a.big_tail.clear(); if(ok && n > 0){ a.big_tail = small(a, std::min<long>(n, 6)); nt = a.big_tail; if(n <= 6) nt = tail + nt; }
				TR("%s", nm); sv r = CALL(sh_append_using(B.var, tok)); a.big_claim = -1; long c0 = B.cap; big_state(a, g, nm, ok ? size + n : 0, ok ? nt : Str()); if(B.cap != c0) mismatch("big.cap", "%s changed the capacity", nm); if(ok ? r.size != size + n : r.data != nullptr) mismatch("big.view", "%s returned a view of %d", nm, r.size); nontrivial = true; break; }
			case 6: case 7: { bool sm = draw(2); long n = sm ? (long)draw(60) : near(room); if(!sm && size + n <= LIM && n > 100){ if(fixed && size + n > B.cap) ; else n = room + 1 + draw(30); } if(n > LIM) n = LIM; if(n > 100 && size + n <= (fixed ? B.cap : LIM)) break; Str t = n <= 100 ? small(a, n) : Str(); sv v = n <= 100 ? sv{put(t, PR, a.task), (int)n} : ext(n);
				snprintf(nm, sizeof nm, "append(%d bytes)", v.size); big_edit(a, g, nm, [v](void** x){ return sh_append(x, v); }, true, size + v.size, tail + t); break; }
			case 8: { if(!size) break; long n = draw(2) ? size : (long)draw((uint32_t)std::min(size, LIM)) + 1; if(n > size) n = size; if(size + n <= LIM && n > 100) break; if(size + n <= LIM && n > (long)tail.size()) break; long off = size - n; Str t = size + n <= LIM ? tail.substr(tail.size() - n) : Str(); snprintf(nm, sizeof nm, "append(own last %ld bytes)", n); big_edit(a, g, nm, [off, n](void** x){ return sh_append(x, sv{sh_cstr(*x) + off, (int)n}); }, true, size + n, tail + t); break; }
			case 9: case 10: {   // insertion at a position that leaves only known bytes behind it, or that overflows
				bool sm = draw(2); long n = sm ? (long)draw(60) : room + 1 + draw(40); if(n > LIM) n = LIM; bool over = size + n > LIM || (fixed && size + n > B.cap); if(!over && n > 100) break; Str t = over ? Str() : small(a, n); sv v = n <= 100 && !over ? sv{put(t, PR, a.task), (int)n} : ext(n); long k = over ? (long)draw(2) * size : (long)draw(tail.size() + 1); long at = size - k; Str nt = tail; if(!over) nt.insert(nt.size() - k, t);
				if(at > LIM) break; int how = draw(4); bool all = (long)tail.size() == size; (void)all;
				if(how == 0){ snprintf(nm, sizeof nm, "insert_at(%ld, %d bytes)", at, v.size); big_edit(a, g, nm, [at, v](void** x){ return sh_insert_at(x, (int)at, v); }, true, size + v.size, nt); }
				else if(how == 1){ if(!k) break; snprintf(nm, sizeof nm, "insert_at(%ld, %d bytes)", -k, v.size); big_edit(a, g, nm, [k, v](void** x){ return sh_insert_at(x, (int)-k, v); }, true, size + v.size, nt); }
				else if(how == 2){ snprintf(nm, sizeof nm, "insert_before(@%ld, %d bytes)", at, v.size); big_edit(a, g, nm, [at, k, v](void** x){ return sh_insert_before(x, sv{sh_cstr(*x) + at, (int)k}, v); }, true, size + v.size, nt); }
				else { if(over && k) at = size; snprintf(nm, sizeof nm, "insert_after(@%ld, %d bytes)", at, v.size); big_edit(a, g, nm, [at, v](void** x){ return sh_insert_after(x, sv{sh_cstr(*x) + at, 0}, v); }, true, size + v.size, nt); }
				break; }
			case 11: { bool over = draw(2) || (long)tail.size() != size; if(over && !size) break; long n = over ? room + 1 + draw(30) : (long)draw(40); if(n > LIM) n = LIM; if(size + n <= LIM && over) break; Str t = over ? Str() : small(a, n); sv v = over ? ext(n) : sv{put(t, PR, a.task), (int)n}; snprintf(nm, sizeof nm, "prepend(%ld bytes)", n); big_edit(a, g, nm, [v](void** x){ return sh_prepend(x, v); }, true, size + n, t + tail); break; }
			case 12: { int n = 1 + draw(4); for(int k = 0; k < n; k++){ char c = 'a' + draw(26); Str nt = g.tail + c; big_edit(a, g, "append_char", [c](void** x){ return sh_append_char(x, c); }, true, g.size + 1, nt); } break; }
			case 13: case 14: { bool prnf = draw(2), app = draw(4); if(prnf && size > LIM - 400) { } fmtargs fa; memset(&fa, 0, sizeof fa); Str t = small(a, draw(40), true); fa.s = put(t, PR, a.task, true); fa.t = fa.s; fa.i = draw(1000); int f = draw(2) ? 2 : 0; Str out(400, 0); int n = sh_snprintf(&out[0], 400, f, &fa); out.resize(n); int kk = (app ? 2 : 0) + (int)draw(2) + (prnf ? 4 : 0); snprintf(nm, sizeof nm, "%s%s(text of %d)", app ? "append_" : "", prnf ? "prnf" : "printf", n); fmtargs* pf = &fa;
				bool over = (app ? size : 0) + n > LIM; if(prnf && over && !fixed){ // character by character: the allocator may be called for the part that fits
					long c0 = B.cap; TR("%s", nm); CALL(sh_format(kk, B.var, f, pf)); big_state(a, g, nm, 0, ""); if(B.cap < c0) mismatch("big.cap", "%s reduced the capacity", nm); nontrivial = true; break; }
				big_edit(a, g, nm, [kk, f, pf](void** x){ return sh_format(kk, x, f, pf); }, true, (app ? size : 0) + n, app ? tail + out : out); break; }
			case 15: { int kind = draw(8); uint64_t v = draw64(); extern Str pack_bytes(int, int, uint64_t); Str by = pack_bytes(kind, 0, v); snprintf(nm, sizeof nm, "pack(%zu bytes)", by.size()); 
				if(size + (long)by.size() > LIM || (fixed && size + (long)by.size() > B.cap)) break;   // packing is several edits, see C17
				long c0 = B.cap; TR("%s", nm); CALLV(sh_pack(B.var, kind, 0, v)); big_state(a, g, nm, size + by.size(), tail + by); if(B.cap < c0) mismatch("big.cap", "%s reduced the capacity", nm); break; }
			case 16: case 17: {   // concatenations whose sum passes the limit once or several times
				int n = draw(6) == 5 ? 2 + draw(SH_MAXCAT - 1) : 2 + draw(5); sv v[SH_MAXCAT]; long sum = 0; int via = draw(2); bool self = false; Str all; bool sm = !draw(3); for(int k = 0; k < n; k++){ int w = draw(5); long len = sm ? (long)draw(30) : w == 0 ? LIM : w == 1 ? LIM - (long)draw(10) : w == 2 ? LIM / 2 + 1 + (long)draw(3) : w == 3 ? (long)draw(50) : 1L << draw(31); if(!sm && !draw(5) && size && !fixed){ v[k] = sv{sh_cstr(*B.var), (int)size}; self = true; len = size; } else { if(sm){ Str t = small(a, len); all += t; v[k] = sv{put(t, PR, a.task), (int)len}; } else v[k] = ext(len); } sum += v[k].size; }
				if(!sm && sum <= LIM && !(fixed && sum > B.cap)) break; snprintf(nm, sizeof nm, "cat(%d pieces, %ld bytes%s)", n, sum, self ? ", itself among them" : ""); sv* q = v; big_edit(a, g, nm, [q, n, via](void** x){ return sh_cat(x, n, q, via); }, true, sum, all, true, !self); break; }
			case 18: { if(size <= LIM - 16 || fixed) break; Str key(32, 1); uint8_t* k = (uint8_t*)put(key, PR, a.task); snprintf(nm, sizeof nm, "encrypt()"); TR("%s", nm); sv r = CALL(sh_encrypt(B.var, k, k)); big_state(a, g, nm, 0, ""); if(r.data) mismatch("big.view", "encrypting beyond the limit returned a view"); nontrivial = true; break; }
			default: { // read and write with huge counts
				a.fd->io = Io(); a.big_io = 1; long c0 = B.cap; a.fixed_op = fixed;
				if(draw(2)){ int r = CALL(sh_append_read(B.var, a.fdno)); Str d = a.fd->io.ret > 0 ? a.fd->delivered : Str(); TR("append_read gives %d", r); big_state(a, g, "append_read", size + d.size(), tail + d); if((long)a.fd->io.n > c0 - size) mismatch("big.read", "append_read asked for %zu with room for %ld", a.fd->io.n, c0 - size); }
				else { a.big_left = std::min<long>(size, (long)draw(std::min<size_t>(tail.size(), 200) + 1)); int r = CALL(sh_write(a.fdno, B.var)); long sent = a.fd->io.ret > 0 ? a.fd->io.ret : 0; TR("write gives %d", r); long left = size - sent; if(a.fd->io.n != (size_t)size) mismatch("big.write", "write offered %zu of %ld bytes", a.fd->io.n, size); big_state(a, g, "write", left, left <= (long)tail.size() ? tail.substr(tail.size() - left) : tail); }
				a.big_io = 0; a.fixed_op = false; nontrivial = true; if(B.cap != c0) mismatch("big.cap", "a transfer changed the capacity"); }
			}
			if(g.tail.size() > 3000) g.tail = g.tail.substr(g.tail.size() - 500);
		}
		// handing the text over as a C string also has to size its block right; moving 2 GB is rare on purpose
		if(!fixed && (g.size < 100000 || (is_asan && !draw(1500)))){ long n = g.size; Str tail = g.tail; size_t c0 = al->calls.size(); TR("to_cstr of %ld bytes", n); char* s = CALL(sh_to_cstr(b->var)); const Block* k = s ? find_block(s) : nullptr; if(!k || k->size < (size_t)n + 1){ mismatch("big.cstr", "%ld bytes handed over in a block of %zu", n, k ? k->size : 0); end_run(); } (void)c0; Str t = hstr(s + n - tail.size(), tail.size() + 1); if(t != tail + Str(1, 0)) mismatch("big.cstr", "the string ends in %s, expected %s", quote(t).c_str(), quote(tail).c_str()); alloc_call(al, s, 0); }
		else CALLV(sh_destroy(b->var));
		if(!fixed && al->live) mismatch("big.leak", "%zu blocks remain", al->live);
		delete b; a.bufs.clear();
	}, A);
	run_tasks();
}

// ------------------------------------------------------------------ C21: buffers made without naming an allocator
void c21(){
	Profile p; p.edits(4); p.life(6); for(int o : {O_SHRINK, O_GROW, O_PRINTF, O_PRNF, O_TOCSTR, O_ENCRYPT, O_DECRYPT, O_FETCH, O_READ, O_WRITE, O_PACK}) p.w[o] = 3; p.fixed = 1; p.dyn = 5; p.maxbuf = 4; p.use_default = true; p.p_self = 60; p.big = 120; p.ops = 30; p.jumbo(); int kind = sh_default_kind();
	static const int pf[] = {0, 6, 25}; int fail = kind >= 2 ? pf[draw(3)] : 0; if(kind == 3) p.p_fail = fail;
	Actor* a = add_actor(p);
	spawn([=]{ a->init(cur->id); Alloc* d = nullptr; static const int pv[] = {0, 256, 128, 32, 224};
		if(kind == 1 || kind == 2){ d = libc(); d->p_fail = kind == 2 ? fail : 0; d->allow_fail = kind == 2 && fail; a->expect_assert = kind == 2; }
		else if(kind == 3){ d = new_alloc(cur->id); register_token(d, (char*)sh_appdef_token()); d->p_fail = fail; a->allocs.push_back(d); }
		if(d){ d->p_move = pv[draw(5)]; d->p_move_shrink = pv[draw(5)]; d->p_reuse = pv[draw(5)]; d->fill = draw(5); }
		a->default_alloc = d; int n = 1 + draw(30);
		for(int i = 0; i < n; i++){ if(kind == 0 && draw(3) == 0) a->create(1); else a->op(); }
		if(kind == 2 && d) d->allow_fail = false;
		a->finish(); if(d && d->live) mismatch("default.leak", "%zu blocks of the default allocator remain", d->live); }, a);
	run_tasks();
}

// ------------------------------------------------------------------ C22: buffers that do not exist (never made, refused, destroyed, handed over)
static void missing_ops(Actor& a){
	Span s; void** v = (void**)arena(8, PRW, a.task); *v = nullptr; const char* how = "a null handle"; 
	switch(draw(5)){
	case 1: if(a.bufs.size()){ size_t i = draw(a.bufs.size()); v = a.bufs[i]->var; how = "a destroyed buffer"; a.destroy(i); } break;
	case 2: if(a.bufs.size()){ size_t i = draw(a.bufs.size()); v = a.bufs[i]->var; how = "a handed over buffer"; a.to_cstr(i); } break;
	case 3: { size_t n = sh_hdr() + draw(2) * 40; int off = n > sh_hdr() ? 1 + draw(sh_align() - 1) : 0; char* m = arena(n, PRW, a.task, 16, off); a.fixed_op = true; *v = CALL(sh_create_fixed(m, n)); a.fixed_op = false; how = "a refused fixed buffer"; if(*v) end_run(); break; }
	case 4: { static const size_t cs[] = {(size_t)-1, (size_t)INT_MAX + 1, SIZE_MAX / 2, (size_t)1 << 32}; bool z = draw(2); size_t c = cs[draw(4)]; int neg = -1 - (int)draw(3); char* tk = a.allocs[0]->token; *v = z ? CALL(sh_create_size(c, tk, 1)) : CALL(sh_create_int(neg, tk, 1)); how = "a refused growable buffer"; if(*v) end_run(); break; }
	}
	bool nul = chance(60); void** h = nul ? nullptr : v; if(nul) how = "no handle at all"; nontrivial = true;
	auto calls = [&]{ size_t n = 0; for(auto x : a.allocs) n += x->calls.size(); if(a.default_alloc) n += a.default_alloc->calls.size(); return n; };
	int n = 1 + draw(4);
	for(int k = 0; k < n; k++){
		Str t = a.text(draw(40)); char* m = put(t, PR, a.task, true); sv x{m, (int)t.size()}, y{m + draw(t.size() + 1), 0}; if(chance(30)) x = {nullptr, 0};
		if(a.bufs.size() && chance(60)){ Buf* o = a.bufs[draw(a.bufs.size())]; if(!o->content.empty()) x = {sh_cstr(o->p()), (int)o->content.size()}; }
		size_t c0 = calls(); a.fd->io = Io(); a.fetch_calls = 0; a.fetch_lie = false; a.fetch_size = 0; int w = draw(27); sv r{nullptr, 0}; long ret = 0; char* str = nullptr; const char* nm = "?";
		fmtargs fa; memset(&fa, 0, sizeof fa); fa.s = fa.t = m; fa.i = 42; fa.c = 'A'; fa.d = 'b'; fa.ws = L"ok"; Str key(32, 'k'); uint8_t* kk = (uint8_t*)put(key, PR, a.task); uint8_t* iv = (uint8_t*)put(key.substr(16), PR, a.task); num nv; memset(&nv, 0, sizeof nv); nv.s = 77;
		sv cat[3] = {x, y, x};
		switch(w){
		case 0: nm = "view"; r = CALL(sh_view(h)); break;
		case 1: nm = "shrink"; r = CALL(sh_shrink(h)); break;
		case 2: { int g = (int)draw(200) - 20; nm = "grow"; r = CALL(sh_grow(h, g)); break; }
		case 3: nm = "assign"; r = CALL(sh_assign(h, x)); break;
		case 4: nm = "append"; r = CALL(sh_append(h, x)); break;
		case 5: nm = "append"; r = CALL(sh_append_cs(h, m, 0)); break;
		case 6: nm = "prepend"; r = CALL(sh_prepend(h, x)); break;
		case 7: nm = "prepend"; r = CALL(sh_prepend_cs(h, m, 0)); break;
		case 8: { int i = (int)draw(9) - 4; nm = "insert_at_index"; r = CALL(sh_insert_at(h, i, x)); break; }
		case 9: nm = "insert_before"; r = CALL(sh_insert_before(h, y, x)); break;
		case 10: nm = "insert_after"; r = CALL(sh_insert_after(h, y, x)); break;
		case 11: nm = "strip"; r = CALL(sh_strip(h, x)); break;
		case 12: nm = "append_char"; r = CALL(sh_append_char(h, 'c')); break;
		case 13: nm = "cat"; r = CALL(sh_cat(h, 3, cat, 0)); break;
		case 14: nm = "vcat"; r = CALL(sh_cat(h, 3, cat, 1)); break;
		case 15: case 16: { int f; do f = draw(sh_nfmt()); while(sh_fmt_fails(f)); int kd = draw(4); nm = "printf"; r = CALL(sh_format(kd, h, f, &fa)); break; }
		case 17: { int f; do f = draw(sh_nfmt()); while(!sh_fmt_prnf_ok(f) || sh_fmt_fails(f)); int kd = 4 + draw(4); nm = "prnf"; r = CALL(sh_format(kd, h, f, &fa)); break; }
		case 18: nm = "append_using"; r = CALL(sh_append_using(h, a.fetch_token)); break;
		case 19: nm = "append_read"; ret = CALL(sh_append_read(h, a.fdno)); break;
		case 20: nm = "write"; ret = CALL(sh_write(a.fdno, h)); break;
		case 21: { int kd = draw(8), be = draw(2); nm = "pack"; CALLV(sh_pack(h, kd, be, 0x1122334455667788ull)); break; }
		case 22: nm = "encrypt"; r = CALL(sh_encrypt(h, kk, iv)); break;
		case 23: nm = "decrypt"; r = CALL(sh_decrypt(h, kk, iv)); break;
		case 24: nm = "destroy"; CALLV(sh_destroy(h)); break;
		case 25: nm = "to_cstr"; str = CALL(sh_to_cstr(h)); break;
		default: nm = "append_printf of a number"; r = CALL(sh_append_num(h, 0, nv)); break;
		}
		TR("%s on %s", nm, how); cover(2200, w, nul, *how);
		if(r.data || r.size) mismatch("missing.view", "%s on %s returned a %s view of %d bytes", nm, how, r.data ? "valid" : "invalid", r.size);
		if(ret) mismatch("missing.ret", "%s on %s returned %ld", nm, how, ret);
		if(str) mismatch("missing.cstr", "%s on %s returned a string", nm, how);
		if(*v){ mismatch("missing.handle", "%s on %s set the caller's pointer", nm, how); end_run(); }
		if(calls() != c0) mismatch("missing.alloc", "%s on %s called an allocator", nm, how);
		if(a.fd->io.calls) mismatch("missing.io", "%s on %s reached the descriptor", nm, how);
		if(a.fetch_calls) mismatch("missing.fetch", "%s on %s called the fetch routine", nm, how);
	}
	for(auto b : a.bufs) if(a.wellformed(*b, "calls on a missing buffer")){ if(hstr(sh_cstr(b->p()), sh_size(b->p())) != b->content) mismatch("missing.other", "calls on a missing buffer changed buffer %d", b->id); }
}
void c22(){
	Profile p; p.edits(2); p.life(8); for(int o : {O_SHRINK, O_GROW, O_PRINTF, O_PRNF, O_TOCSTR, O_ENCRYPT, O_DECRYPT, O_FETCH, O_READ, O_WRITE, O_PACK}) p.w[o] = 2; p.fixed = 1; p.dyn = 3; p.maxbuf = 4; p.big = 80; p.p_self = 30; int kind = sh_default_kind();
	Actor* a = add_actor(p);
	spawn([=]{ a->init(cur->id); if(kind == 1 || kind == 2) a->default_alloc = libc(); int n = 1 + draw(16); for(int i = 0; i < n; i++) if(draw(2)) missing_ops(*a); else a->op(); a->finish(); }, a);
	run_tasks();
}
