#include "core.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <climits>

#ifdef SIM_ASAN
extern "C" {
void __sanitizer_start_switch_fiber(void** save, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* save, const void** bottom_old, size_t* size_old);
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
const char* __asan_get_report_description();
void* __asan_get_report_address();
int __asan_get_report_access_type();
const char* __asan_default_options(){ return "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:"
	"detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77:print_legend=0:detect_odr_violation=0:verify_asan_link_order=0:allow_user_segv_handler=1:use_sigaltstack=0"; }
}
#endif
extern "C" { extern char __start_repodata[] __attribute__((weak)), __stop_repodata[] __attribute__((weak));
extern char __start_repobss[] __attribute__((weak)), __stop_repobss[] __attribute__((weak)); }

namespace sim {

Progress* P;
std::unordered_map<std::string, uint64_t> counters;
std::unordered_set<uint64_t> coverage;
int iso_phase;
bool tracing = false, nontrivial = false, noyield = false;
uint64_t now_us, total_sim_us, step_limit = 400000000, switches, midcall_switches;
const char* prop = "";
#ifdef SIM_ASAN
int is_asan = 1;
#else
int is_asan = 0;
#endif

// ------------------------------------------------------------------ hashing and choices
uint64_t mix(uint64_t a, uint64_t b){ uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6) + (a >> 2));
	x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; return x ^ (x >> 31); }
static uint64_t rs[4]; static bool from_list; static std::vector<uint32_t> list; static size_t lpos;
static inline uint64_t rotl(uint64_t x, int k){ return (x << k) | (x >> (64 - k)); }
static uint64_t rnext(){ uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17; rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45); return r; }
void seed_choices(uint64_t s){ from_list = false; for(int i = 0; i < 4; i++) rs[i] = mix(s, 77 + i); }
void load_choices(const std::vector<uint32_t>& c){ from_list = true; list = c; lpos = 0; }
uint32_t draw(uint32_t n){
	if(cur && cur->priv){ if(n <= 1) return 0; cur->pst = mix(cur->pst, 0xD1A); return (uint32_t)(((cur->pst >> 32) * (uint64_t)n) >> 32); }
	return draw_main(n);
}
uint32_t draw_main(uint32_t n){
	if(n <= 1) return 0;
	uint32_t v = from_list ? (lpos < list.size() ? list[lpos++] % n : 0) : (uint32_t)(((rnext() >> 32) * (uint64_t)n) >> 32);
	if(P->nchoice >= Progress::MAXC){ count("abandoned_choices"); end_run(); }
	P->choice[P->nchoice++] = v;
	return v;
}
uint64_t draw64(){ uint64_t a = draw(0xffffffffu); return a << 32 | draw(0xffffffffu); }
uint32_t aux(uint64_t& st){ st = mix(st, 0x1234567); return (uint32_t)(st >> 32); }
int span_begin(){ if(P->nspan >= Progress::MAXS) return -1; P->span[P->nspan].a = P->nchoice; P->span[P->nspan].b = P->nchoice; return P->nspan++; }
void span_end(int i){ if(i >= 0) P->span[i].b = P->nchoice; }
void ev(uint64_t x){ P->hash = mix(P->hash, x); }
void ev_bytes(const void* p, size_t n){ uint64_t h = n; const unsigned char* b = (const unsigned char*)p; for(size_t i = 0; i < n; i++) h = h * 1099511628211ull ^ b[i]; ev(h); }
void cover(uint64_t a, uint64_t b, uint64_t c, uint64_t d){ coverage.insert(mix(mix(a, b), mix(c, d))); }
void count(const char* name, uint64_t k){ counters[name] += k; }
void tracef(const char* fmt, ...){ va_list va; va_start(va, fmt); fprintf(stdout, "  t=%llu task%d: ", (unsigned long long)now_us, cur ? cur->id : -1); vfprintf(stdout, fmt, va); fputc('\n', stdout); fflush(stdout); va_end(va); }
Str quote(const Str& s, size_t max){ Str o = "\""; char b[8]; for(size_t i = 0; i < s.size() && i < max; i++){ unsigned char c = s[i];
	if(c == '\n') o += "\\n"; else if(c == '\r') o += "\\r"; else if(c == '"' || c == '\\'){ o += '\\'; o += (char)c; } else if(c < 32 || c > 126){ snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; }
	o += '"'; if(s.size() > max) o += "...(" + std::to_string(s.size()) + ")"; return o; }

// ------------------------------------------------------------------ verdicts
static std::vector<Str> fatal_tags;
void set_fatal(const char* list_){ fatal_tags.clear(); Str s = list_; size_t p = 0; while(p < s.size()){ size_t q = s.find(' ', p); if(q == Str::npos) q = s.size(); if(q > p) fatal_tags.push_back(s.substr(p, q - p)); p = q + 1; } }
bool tag_fatal(const char* tag){ for(auto& t : fatal_tags) if(!strncmp(tag, t.c_str(), t.size())) return true; return false; }
static void record(int state, const char* tag, const char* fmt, va_list va){
	snprintf(P->tag, sizeof P->tag, "%s", tag); vsnprintf(P->msg, sizeof P->msg, fmt, va); P->state = state;
	if(tracing){ fflush(stdout); printf("  => %s: %s\n", tag, P->msg); fflush(stdout); }
}
void violate(const char* tag, const char* fmt, ...){ va_list va; va_start(va, fmt); record(2, tag, fmt, va); va_end(va); _exit(71); }
void mismatch(const char* tag, const char* fmt, ...){
	if(iso_phase == 1){ count("solo_mismatch"); if(tracing){ va_list va; va_start(va, fmt); char b[512]; vsnprintf(b, 512, fmt, va); va_end(va); TR("(alone) %s: %s", tag, b); } end_run(); }
	if(iso_phase == 2){ char b[1024]; va_list va; va_start(va, fmt); vsnprintf(b, 1024, fmt, va); va_end(va); violate("isolation.result", "only when interleaved: %s: %s", tag, b); }
	if(!tag_fatal(tag)){ count((Str("offtarget.") + tag).c_str()); if(tracing){ va_list va; va_start(va, fmt); char b[512]; vsnprintf(b, 512, fmt, va); va_end(va); TR("(not this property) %s: %s", tag, b); } return; }
	va_list va; va_start(va, fmt); record(2, tag, fmt, va); va_end(va); _exit(71);
}
void harness_error(const char* fmt, ...){ va_list va; va_start(va, fmt); record(4, "harness", fmt, va); va_end(va); fprintf(stderr, "harness error: %s\n", P->msg); _exit(72); }

// ------------------------------------------------------------------ arena
static char* const BASE = (char*)0x200000000000ull; static const size_t ASZ = 96u << 20;
static char* const STK = (char*)0x210000000000ull; static const size_t STKSZ = 256u << 10, STKSTRIDE = 1u << 20; static const int MAXTASK = 24;
static char* const HUGE_ = (char*)0x300000000000ull; static const size_t HSTRIDE = 6ull << 30; static const int HSLOTS = 16;
static uint8_t* shadow; static size_t abump; static int hnext; static bool have_huge;
struct Region { char* p; size_t n; }; static std::vector<Region> regions;
bool in_arena(const void* p){ return (const char*)p >= BASE && (const char*)p < BASE + ASZ; }
bool in_huge(const void* p){ return (const char*)p >= HUGE_ && (const char*)p < HUGE_ + HSTRIDE * HSLOTS; }
static inline bool in_stacks(const void* p){ return (const char*)p >= STK && (const char*)p < STK + STKSTRIDE * MAXTASK; }

static void poison(const void* p, size_t n, bool on){
	(void)p; (void)n; (void)on;
#ifdef SIM_ASAN
	if(on) __asan_poison_memory_region(p, n); else __asan_unpoison_memory_region(p, n);
#endif
}
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) void hfill(void* p, size_t n, uint8_t b){ volatile uint8_t* q = (volatile uint8_t*)p; for(size_t i = 0; i < n; i++) q[i] = b; }
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) void hcopy(void* d, const void* s, size_t n){ volatile uint8_t* q = (volatile uint8_t*)d; const volatile uint8_t* r = (const volatile uint8_t*)s; for(size_t i = 0; i < n; i++) q[i] = r[i]; }
Str hstr(const void* p, size_t n){ Str s(n, 0); hcopy(&s[0], p, n); return s; }

void setperm(const void* p, size_t n, uint8_t perm, int owner){
	if(!in_arena(p)) return;
	size_t o = (const char*)p - BASE; uint8_t v = perm ? (uint8_t)(perm | (owner << 2)) : 0;
	for(size_t i = 0; i < n; i++) shadow[o + i] = v;
	if(perm){ poison((void*)((uintptr_t)p), n, false); } else poison(p, n, true);
}
char* arena(size_t n, uint8_t perm, int owner, size_t align, size_t offset){
	size_t o = abump + 32; o = (o + align - 1) / align * align + offset;
	if(o + n + 64 > ASZ){ count("abandoned_memory"); end_run(); }
	abump = o + n;
	char* p = BASE + o; regions.push_back({p, n});
	if(n) setperm(p, n, perm, owner);
	return p;
}
static Str describe(const void* p){
	char b[200]; const Region* best = nullptr; long bd = LONG_MAX;
	for(auto& r : regions){ long d = (const char*)p < r.p ? r.p - (const char*)p : (const char*)p - r.p; if((const char*)p >= r.p && (const char*)p < r.p + r.n) d = -1; if(d < bd){ bd = d; best = &r; } }
	if(in_stacks(p)){ snprintf(b, 200, "stack of task %d", (int)(((const char*)p - STK) / STKSTRIDE)); return b; }
	if(!in_arena(p) && !in_huge(p)){ snprintf(b, 200, "address %p", p); return b; }
	if(best) snprintf(b, 200, "region#%d(%zu bytes) offset %ld", (int)(best - &regions[0]), best->n, (long)((const char*)p - best->p)); else snprintf(b, 200, "unmapped arena");
	return b;
}
bool readable(const void* p, size_t n){
	if(in_arena(p)){ size_t o = (const char*)p - BASE; if(o + n > ASZ) return false; for(size_t i = 0; i < n; i++) if(!(shadow[o + i] & PR)) return false; return true; }
	if(in_huge(p)){ auto it = blocks.upper_bound((uintptr_t)p); if(it == blocks.begin()) return false; --it; return (uintptr_t)p + n <= it->first + it->second.size; }
	return false;
}
void check_access(const void* p, size_t n, bool w, const char* what){
	if(!n) return;
	if(in_arena(p)){
		size_t o = (const char*)p - BASE; int me = cur ? cur->id : 0; uint8_t need = w ? PW : PR;
		if(o + n > ASZ) violate(w ? "mem.write" : "mem.read", "%s of %zu bytes runs past all memory from %s", what, n, describe(p).c_str());
		for(size_t i = 0; i < n; i++){
			uint8_t s = shadow[o + i];
			if(__builtin_expect(!(s & need), 0)) violate(w ? "mem.write" : "mem.read", "%s of %zu bytes, byte %zu at %s, is outside the memory the call may %s%s", what, n, i, describe(BASE + o + i).c_str(), w ? "write" : "read", s ? " (read-only data)" : "");
			if(__builtin_expect((s >> 2) && (s >> 2) != me, 0)) violate("mem.foreign", "%s of %zu bytes at %s touches memory of task %d while serving task %d", what, n, describe(BASE + o + i).c_str(), s >> 2, me);
		}
	}
	else if(in_huge(p)){ if(!readable(p, n)) violate(w ? "mem.write" : "mem.read", "%s of %zu bytes outside its block in huge memory", what, n); }
	else if(in_stacks(p)){ if(cur && ((const char*)p - STK) / STKSTRIDE != (size_t)cur->id) violate("mem.foreign", "%s of %zu bytes on the %s", what, n, describe(p).c_str()); }
	else if((uintptr_t)p < 65536) violate(w ? "mem.write" : "mem.read", "%s of %zu bytes at null-like address %p", what, n, p);
}
char* put(const Str& s, uint8_t perm, int owner, bool nul){
	char* p = arena(s.size() + nul, perm, owner, 1, draw(4)); hcopy(p, s.data(), s.size()); if(nul) hfill(p + s.size(), 1, 0); return p;
}
char* huge(size_t reserve){
	if(hnext >= HSLOTS || reserve > HSTRIDE) end_run();
	if(!have_huge){
		void* r = mmap(HUGE_, HSTRIDE * HSLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if(r != HUGE_) harness_error("cannot reserve huge region"); madvise(HUGE_, HSTRIDE * HSLOTS, MADV_NOHUGEPAGE); have_huge = true; }
	return HUGE_ + HSTRIDE * hnext++;
}

char* huge_region(size_t n);

// ------------------------------------------------------------------ tasks
Task* cur; static Task* tasks[MAXTASK]; static int ntask; static Task main_task; static uint64_t pre_left, pre_mean; static jmp_buf main_jmp; static uint32_t seam_p = 64;
extern "C" void sim_switch(void** save, void* to);
asm(".text\n.globl sim_switch\nsim_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
#ifdef SIM_ASAN
static const void* main_bottom; static size_t main_size;
#endif
static void switch_to(Task* t){
	Task* me = cur; if(me == t) return;
	me->err = errno; cur = t;
	switches++; if(me->inlib && t != &main_task) midcall_switches++;
#ifdef SIM_ASAN
	__sanitizer_start_switch_fiber(me->done ? nullptr : &me->fake, t == &main_task ? main_bottom : t->stack, t == &main_task ? main_size : STKSZ);
#endif
	sim_switch(&me->sp, t->sp);
#ifdef SIM_ASAN
	__sanitizer_finish_switch_fiber(cur->fake, nullptr, nullptr);
#endif
	errno = cur->err;
}
static void redraw_preempt(){ pre_left = 0; if(pre_mean && ntask > 1){ uint32_t k = draw_main(2 * pre_mean + 1); pre_left = k; } }
static Task* pick(bool allow_self){
	for(;;){
		Task* r[MAXTASK]; int n = 0; uint64_t mw = UINT64_MAX; bool any = false;
		for(int i = 1; i <= ntask; i++){ Task* t = tasks[i]; if(t->done) continue; any = true; if(t->wake <= now_us){ if(t != cur || allow_self) r[n++] = t; } else mw = std::min(mw, t->wake); }
		if(!any) return nullptr;
		if(n) return r[n > 1 ? draw_main(n) : 0];
		if(!allow_self) return nullptr;
		if(mw == UINT64_MAX) harness_error("no runnable task");
		now_us = mw; ev(now_us);
	}
}
extern "C" void sim_fiber_main(){
#ifdef SIM_ASAN
	__sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
	Task* t = cur; t->fn(); t->done = true; t->inlib = false;
	Task* n = pick(true); if(!n) n = &main_task; else { ev(1000 + n->id); redraw_preempt(); }
	switch_to(n);
	abort();
}
int spawn(std::function<void()> fn, void* actor){
	if(ntask + 1 >= MAXTASK) harness_error("too many tasks");
	Task*& t = tasks[++ntask]; if(!t) t = new Task; else { char* s = t->stack; *t = Task(); t->stack = s; }
	t->id = ntask; t->fn = std::move(fn); t->actor = actor;
	if(!t->stack){ t->stack = STK + STKSTRIDE * t->id; if(mmap(t->stack, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != t->stack) harness_error("stack"); }
	poison(t->stack, STKSZ, false);
	memset(t->stack + STKSZ - 65536, 0xA5, 65536);
	void** sp = (void**)(t->stack + STKSZ - 64); *--sp = nullptr; *--sp = (void*)sim_fiber_main; for(int i = 0; i < 6; i++) *--sp = nullptr;
	t->sp = sp; return t->id;
}
static bool aborted;
void run_tasks(){ Task* n = pick(true); if(!n) return; ev(1000 + n->id); redraw_preempt(); aborted = false; switch_to(n); if(aborted) longjmp(main_jmp, 1); ntask = 0; }
static void go(Task* n){ if(!n || n == cur) return; ev(1000 + n->id); switch_to(n); redraw_preempt(); }
void seam(){
	now_us++;
	if(noyield || cur == &main_task || ntask < 2) return;
	if(seam_p && draw_main(256) >= 256 - seam_p) go(pick(false));
}
void sleep_until(uint64_t t){ cur->wake = std::max(t, now_us + 1); Task* n = pick(true); if(n != cur) go(n); }
void set_preempt(uint32_t mean){ pre_mean = mean; }
void step(size_t n){
	P->steps += n; if(__builtin_expect(P->steps > step_limit, 0)) violate("hang", "more than %llu memory accesses in one run", (unsigned long long)step_limit);
	if(pre_left && !noyield && --pre_left == 0 && cur != &main_task){ TR("preempted inside a library call"); Task* t = pick(false); if(t) go(t); else redraw_preempt(); }
}
void end_run(){ count("runs_abandoned"); if(cur == &main_task) longjmp(main_jmp, 1); aborted = true; cur->done = true; switch_to(&main_task); abort(); }

// ------------------------------------------------------------------ allocator
std::map<uintptr_t, Block> blocks; char* huge_region(size_t n){ char* p = huge(n); blocks[(uintptr_t)p] = {n, n, nullptr, 0}; return p; }
 static std::vector<Alloc*> allocs; static uint64_t bseq; static std::unordered_map<uintptr_t, Alloc*> by_token; static std::unordered_set<uintptr_t> was_block;
Alloc* new_alloc(int owner, bool big){ Alloc* a = new Alloc; a->owner = owner; a->big = big; a->id = allocs.size(); a->token = arena(8, 0, owner); by_token[(uintptr_t)a->token] = a; allocs.push_back(a); return a; }
Alloc* swarm_alloc(int owner){
	Span s; Alloc* a = new_alloc(owner); static const int pv[] = {0, 256, 128, 32, 224};
	a->p_move = pv[draw(5)]; a->p_move_shrink = pv[draw(5)]; a->p_slack = pv[draw(5)]; a->p_reuse = pv[draw(5)]; a->p_odd = pv[draw(5)]; a->fill = draw(5); a->fillseed = draw(1 << 16) + 1; return a; }
const Block* find_block(const void* p){ auto it = blocks.find((uintptr_t)p); return it == blocks.end() ? nullptr : &it->second; }
size_t live_blocks(const Alloc* a){ return a->live; }
static void garbage(Alloc* a, char* p, size_t n){
	switch(a->fill){ case 0: hfill(p, n, 0xA5); break; case 1: hfill(p, n, 0); break; case 2: hfill(p, n, 0xFF); break; case 3: hfill(p, n, 'a'); break;
	default: for(size_t i = 0; i < n; i++){ uint8_t b = aux(a->fillseed); hcopy(p + i, &b, 1); } } }
static char* fresh(Alloc* a, size_t size, const char* avoid){
	if(a->big){ char* p = huge(size); blocks[(uintptr_t)p] = {size, HSTRIDE, a, bseq++}; a->live++; was_block.insert((uintptr_t)p); return p; }
	size_t room = size; if(chance(a->p_slack)) room += draw(200);
	if(!a->freed.empty() && chance(a->p_reuse)){
		for(int i = (int)a->freed.size() - 1; i >= 0; i--) if(a->freed[i].second >= size && a->freed[i].first != avoid){
			char* p = a->freed[i].first; size_t rm = a->freed[i].second; a->freed.erase(a->freed.begin() + i);
			setperm(p, size, PRW, a->owner); garbage(a, p, size); blocks[(uintptr_t)p] = {size, rm, a, bseq++}; a->live++; count("alloc.reused_address"); return p; } }
	char* p = arena(room, 0, a->owner, 16, chance(a->p_odd) ? 8 : 0); setperm(p, size, PRW, a->owner); garbage(a, p, size);
	blocks[(uintptr_t)p] = {size, room, a, bseq++}; a->live++; was_block.insert((uintptr_t)p); return p;
}
static void release(Alloc* a, char* p, const Block& b){
	if(!a->big){ setperm(p, b.size, PRW, 0); hfill(p, b.size, 0xDD); setperm(p, b.size, 0, 0); a->freed.push_back({p, b.room}); }
	else madvise(p, (b.size + 4095) / 4096 * 4096, MADV_DONTNEED);
	blocks.erase((uintptr_t)p); a->live--; }
MustWork::MustWork(Alloc* x): a(x), f(x->allow_fail), at(x->fail_at){ if(!cur->escape){ a->allow_fail = false; a->fail_at = -1; } }
void* alloc_call(Alloc* a, void* ptr, size_t size){
	if(size > (size_t)INT_MAX + 65536) violate("alloc.request", "the allocator is asked for %zu bytes, more than any buffer can need", size);
	AllocCall rec{ptr, nullptr, size, 0}; ev(mix(a->id + 500, size)); int no = a->call_no++;
	if(!ptr){
		if(!size){ a->calls.push_back(rec); return nullptr; }
		if((a->allow_fail && chance(a->p_fail)) || no == a->fail_at){ a->failed = true; a->nfail++; rec.out = nullptr; a->calls.push_back(rec); count("fault.alloc_failure"); TR("allocator %d: request for %zu bytes FAILS", a->id, size); return nullptr; }
		rec.out = fresh(a, size, nullptr); a->calls.push_back(rec); TR("allocator %d: new block of %zu bytes", a->id, size); ev((uintptr_t)rec.out); return rec.out;
	}
	auto it = blocks.find((uintptr_t)ptr);
	if(it == blocks.end()) violate(was_block.count((uintptr_t)ptr) ? "alloc.double" : "alloc.unknown", "block %s is %s although the allocator %s", describe(ptr).c_str(), size ? "resized" : "freed", was_block.count((uintptr_t)ptr) ? "already got it back" : "never issued it");
	Block b = it->second; if(b.a != a) violate("alloc.cross", "block of allocator %d %s through allocator %d", b.a ? b.a->id : -1, size ? "resized" : "freed", a->id);
	rec.old = b.size;
	if(!size){ release(a, (char*)ptr, b); a->calls.push_back(rec); TR("allocator %d: block of %zu bytes freed", a->id, b.size); return nullptr; }
	bool grow = size > b.size;
	if(grow && ((a->allow_fail && chance(a->p_fail)) || no == a->fail_at)){ a->failed = true; a->nfail++; a->calls.push_back(rec); count("fault.alloc_failure"); TR("allocator %d: resize %zu to %zu FAILS", a->id, b.size, size); return nullptr; }
	char* p = (char*)ptr; bool move = a->big ? false : (grow ? size > b.room || chance(a->p_move) : chance(a->p_move_shrink));
	if(a->big && size > b.room) end_run();
	if(!move){
		if(a->big){ if(size < b.size){ size_t f = (size + 4095) / 4096 * 4096, e = (b.size + 4095) / 4096 * 4096; if(e > f) madvise(p + f, e - f, MADV_DONTNEED); } }
		else if(size > b.size){ setperm(p + b.size, size - b.size, PRW, a->owner); garbage(a, p + b.size, size - b.size); }
		else if(size < b.size){ hfill(p + size, b.size - size, 0xDD); setperm(p + size, b.size - size, 0, 0); }
		blocks[(uintptr_t)ptr].size = size; rec.out = ptr; count(grow ? "alloc.grow_in_place" : "alloc.shrink_in_place"); TR("allocator %d: resize %zu to %zu in place", a->id, b.size, size);
	}else{
		char* q = fresh(a, size, p); hcopy(q, p, std::min(size, b.size)); release(a, p, b); rec.out = q; a->moved = true; count(grow ? "alloc.grow_moved" : "alloc.shrink_moved"); TR("allocator %d: resize %zu to %zu, block MOVED", a->id, b.size, size);
	}
	a->calls.push_back(rec); ev((uintptr_t)rec.out); return rec.out;
}

// ------------------------------------------------------------------ descriptors and links
static std::vector<Fd*> fds; static std::vector<Link*> links; Link* new_link(){ Link* l = new Link; links.push_back(l); return l; }
int add_fd(Fd* f){ f->owner = cur ? cur->id : 0; fds.push_back(f); return 70000 + 4099 * ((int)fds.size() - 1); }
Fd* get_fd(int n){ n -= 70000; return n >= 0 && n % 4099 == 0 && n / 4099 < (int)fds.size() ? fds[n / 4099] : nullptr; }
void Link::swarm(){ Span s; static const int pv[] = {0, 128, 256, 200}; p_short = pv[draw(4)]; p_tiny = draw(3) ? 0 : 200; p_eintr = draw(3) ? 0 : 40; p_eagain = draw(3) ? 0 : 60; p_eio = draw(4) ? 0 : 25; p_zero = 0; max_lat = draw(3) ? 0 : 2000; }
void Link::push(const Str& d){ if(d.empty()) return; uint64_t at = now_us + (max_lat ? draw(max_lat) : 0); last = std::max(last, at); q.push_back({last, d}); sent += d.size(); if(last > now_us) count("fault.delay"); }
void Link::close(){ closed = true; closed_at = last; }
size_t Link::avail() const { size_t n = 0; for(auto& s : q){ if(s.at > now_us) break; n += s.d.size(); } return n; }
uint64_t Link::next_event() const { if(!q.empty()) return q.front().at; return closed ? now_us : UINT64_MAX; }
bool Link::eof() const { return closed && q.empty(); }
long Link::read(char* d, size_t n, int& err){
	if(faults){
		if(chance(p_eintr)){ err = EINTR; count("fault.EINTR"); return -1; }
		if(chance(p_eagain)){ err = EAGAIN; count("fault.EAGAIN"); return -1; }
		if(chance(p_eio)){ err = EIO; count("fault.EIO"); return -1; }
	}
	size_t a = avail(); if(!a){ if(eof()) return 0; err = EAGAIN; return -1; }
	size_t k = std::min(a, n); if(k > 1 && chance(p_short)){ k = 1 + draw(chance(p_tiny) ? std::min<size_t>(k, 3) : k); count("fault.short_read"); }
	size_t o = 0; while(o < k){ Seg& s = q.front(); size_t m = std::min(k - o, s.d.size()); hcopy(d + o, s.d.data(), m); o += m; s.d.erase(0, m); if(s.d.empty()) q.pop_front(); }
	taken += k; return (long)k;
}

// ------------------------------------------------------------------ signals, init, run control
static void on_signal(int sig, siginfo_t* si, void*){
	if(sig == SIGVTALRM){ if(P->state != 1) return; snprintf(P->tag, sizeof P->tag, "%s", "hang"); snprintf(P->msg, sizeof P->msg, "no progress for 40 s of processor time"); P->state = 2; _exit(71); }
	bool lib = cur && cur->inlib; snprintf(P->tag, sizeof P->tag, "crash.%s", sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : sig == SIGBUS ? "bus" : "ill");
	snprintf(P->msg, sizeof P->msg, "signal %d at address %p in %s", sig, sig == SIGSEGV || sig == SIGBUS ? si->si_addr : nullptr, lib ? "library code" : "the harness"); P->state = lib ? 2 : 4;
	if(tracing){ printf("  => %s: %s\n", P->tag, P->msg); fflush(stdout); }
	if(!lib){ ssize_t r = write(2, P->msg, strlen(P->msg)); r = write(2, "\n", 1); (void)r; }
	_exit(lib ? 71 : 72);
}
#ifdef SIM_ASAN
extern "C" void __asan_on_error(){
	bool lib = cur && cur->inlib; snprintf(P->tag, sizeof P->tag, "%s", __asan_get_report_access_type() ? "mem.write" : "mem.read");
	snprintf(P->msg, sizeof P->msg, "AddressSanitizer: %s, %s", __asan_get_report_description(), describe(__asan_get_report_address()).c_str()); P->state = lib ? 2 : 4;
	if(tracing){ printf("  => %s: %s\n", P->tag, P->msg); fflush(stdout); }
	if(lib && !tracing) _exit(71);
}
#endif
static std::vector<std::pair<char*, Str>> snap;
void core_init(const char* file){
	int fd = file ? open(file, O_RDWR | O_CREAT, 0644) : -1; if(file && (fd < 0 || ftruncate(fd, sizeof(Progress)))) { perror(file); _exit(72); }
	P = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, file ? MAP_SHARED : MAP_SHARED | MAP_ANONYMOUS, fd, 0);
	if(mmap(BASE, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != BASE) { fprintf(stderr, "arena\n"); _exit(72); }
	shadow = (uint8_t*)mmap(nullptr, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	poison(BASE, ASZ, true);
	stack_t ss; ss.ss_sp = malloc(1 << 17); ss.ss_size = 1 << 17; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
	main_task.id = 0; cur = &main_task;
	if(__start_repodata) snap.push_back({__start_repodata, hstr(__start_repodata, __stop_repodata - __start_repodata)});
	if(__start_repobss) snap.push_back({__start_repobss, hstr(__start_repobss, __stop_repobss - __start_repobss)});
}
void world_reset();
void restore_statics(){ for(auto& s : snap) hcopy(s.first, s.second.data(), s.second.size()); }
void run_reset(uint64_t index){
	P->index = index; P->hash = 0x5151; P->nchoice = P->nspan = P->steps = 0; P->tag[0] = P->msg[0] = 0;
	if(abump){ memset(shadow, 0, abump + 4096 < ASZ ? abump + 4096 : ASZ); poison(BASE, abump + 4096 < ASZ ? abump + 4096 : ASZ, true); } abump = 4096; regions.clear();
	for(int i = 0; i < hnext; i++) madvise(HUGE_ + HSTRIDE * i, HSTRIDE, MADV_DONTNEED); hnext = 0;
	blocks.clear(); for(auto a : allocs) delete a; allocs.clear(); by_token.clear(); was_block.clear(); bseq = 0;
	for(auto f : fds) delete f; fds.clear(); for(auto l : links) delete l; links.clear(); iso_phase = 0;
	ntask = 0; pre_left = pre_mean = 0; now_us = 0; nontrivial = false; noyield = false; cur = &main_task; main_task.inlib = false; seam_p = 64;
	restore_statics();
	errno = 0; libc_alloc = nullptr; libc_unreported = false; world_reset();
}
int run_one(const std::function<void()>& world){
	struct itimerval it = {{0, 0}, {40, 0}}; static int k; if(!(k++ & 63) || 1) setitimer(ITIMER_VIRTUAL, &it, nullptr);
	P->state = 1;
	if(!setjmp(main_jmp)) world();
#ifdef SIM_ASAN
	else { cur = &main_task; }
#endif
	cur = &main_task; P->state = 0; total_sim_us += now_us; return 0;
}
void set_seam_p(uint32_t p){ seam_p = p; }
void register_token(Alloc* a, char* t){ a->token = t; by_token[(uintptr_t)t] = a; }
Alloc* alloc_by_token(void* t){ auto it = by_token.find((uintptr_t)t); return it == by_token.end() ? nullptr : it->second; }
void spawn_count(int& n){ n = ntask; }
}
