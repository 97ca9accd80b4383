// Deterministic simulation core: choice sequence, arena with byte shadow, fibers and scheduler,
// virtual time, simulated allocator, simulated descriptors and stream links.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <functional>
#include <algorithm>
#include "shim.h"

typedef std::string Str;

namespace sim {

// ---------------------------------------------------------------- shared progress record
struct Progress {
	uint32_t magic; uint32_t state;          // state: 0 idle, 1 in run, 2 violation, 3 finished, 4 harness error
	uint64_t index, hash, nchoice, nspan, steps;
	char tag[64]; char msg[2048];
	enum { MAXC = 1<<21, MAXS = 1<<19 };
	uint32_t choice[MAXC];
	struct { uint32_t a, b; } span[MAXS];
};
extern Progress* P;

// ---------------------------------------------------------------- run state
struct Stats {
	std::map<std::string, uint64_t> n;   // named counters (fault kinds, ops ...)
};
extern std::unordered_map<std::string, uint64_t> counters;
extern std::unordered_set<uint64_t> coverage;
extern bool tracing;
extern uint64_t now_us;                    // virtual time
extern uint64_t total_sim_us;
extern bool nontrivial;                    // set by the world when the run exercised its property
extern const char* prop;
extern int is_asan;                        // variant with AddressSanitizer

uint32_t draw(uint32_t n);                 // uniform in [0,n), 0 is the simplest choice
inline bool chance(uint32_t num, uint32_t den = 256){ return num && draw(den) >= den - num; }
inline int between(int lo, int hi){ return lo + (int)draw((uint32_t)(hi - lo + 1)); }
uint32_t draw_main(uint32_t n);            // always from the recorded choice sequence (scheduling)
uint64_t draw64();
uint32_t aux(uint64_t& st);                // data generator seeded from a draw (not a choice)
int  span_begin(); void span_end(int);
struct Span { int i; Span(){ i = span_begin(); } ~Span(){ span_end(i); } };
void ev(uint64_t x);                       // event hash
void ev_bytes(const void* p, size_t n);
void cover(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0);
void count(const char* name, uint64_t k = 1);
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if(sim::tracing) sim::tracef(__VA_ARGS__); } while(0)
[[noreturn]] void violate(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void mismatch(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // fatal only if the property's tag set says so
[[noreturn]] void end_run();               // abandon the run silently
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tag_fatal(const char* tag);
Str quote(const Str& s, size_t max = 60);

// ---------------------------------------------------------------- arena
enum : uint8_t { PR = 1, PW = 2, PRW = 3 };
char* arena(size_t n, uint8_t perm, int owner, size_t align = 16, size_t offset = 0); // fresh region between redzones
void  setperm(const void* p, size_t n, uint8_t perm, int owner);
void  hfill(void* p, size_t n, uint8_t byte);         // harness stores, bypass sanitizer interceptors
void  hcopy(void* d, const void* s, size_t n);
Str   hstr(const void* p, size_t n);
bool  in_arena(const void* p);
bool  readable(const void* p, size_t n);
void  check_access(const void* p, size_t n, bool write, const char* what);  // violation if not allowed
char* put(const Str& s, uint8_t perm, int owner, bool nul = false);         // copy of s in its own region

char* huge(size_t reserve);                            // big NORESERVE slot; in-place growth only
bool  in_huge(const void* p);
char* huge_region(size_t n);                           // huge memory of exactly n accessible bytes, not an allocator's block

// ---------------------------------------------------------------- tasks
struct Task {
	int id; void* sp = nullptr; std::function<void()> fn; bool done = false; uint64_t wake = 0; bool waiting = false;
	int calls = 0; int err = 0; char* stack = nullptr; void* actor = nullptr; jmp_buf* escape = nullptr; uint64_t progress = 0;
	void* fake = nullptr; bool inlib = false; bool priv = false; uint64_t pst = 0;   // priv: data choices come from a private generator (pst)
};
extern Task* cur;
int  spawn(std::function<void()> fn, void* actor = nullptr);
void run_tasks();                          // until every task is done
void seam();                               // scheduling point
void sleep_until(uint64_t t);
void set_preempt(uint32_t mean);           // average accesses between preemptions inside library code (0 = seams only)
void step(size_t n = 1);                   // called per instrumented access
extern bool noyield;
extern uint64_t step_limit;
extern uint64_t switches, midcall_switches;
// a library call; errno holds whatever something else left in it
inline void stale_errno(){ static const int e[] = {0, ERANGE, EINVAL, ENOMEM, EDOM}; errno = e[cur->calls++ % 5]; }
struct Lib { bool old; Lib(){ old = cur->inlib; cur->inlib = true; if(!old) stale_errno(); } ~Lib(){ cur->inlib = old; } };

// ---------------------------------------------------------------- allocator
struct AllocCall { void* in; void* out; size_t size; size_t old; };
struct Alloc {
	char* token; int owner; int id; bool big = false;
	// behaviour (swarm parameters, probability /256)
	int p_move = 128, p_move_shrink = 64, p_slack = 64, p_reuse = 128, p_fail = 0, fill = 0, p_odd = 64;
	bool allow_fail = false; int fail_at = -1; int call_no = 0;
	std::vector<AllocCall> calls; size_t live = 0; bool failed = false; int nfail = 0; bool moved = false;
	std::vector<std::pair<char*, size_t>> freed; uint64_t fillseed = 1; std::function<void()> hook;
};
struct Block { size_t size, room; Alloc* a; uint64_t seq; };
extern std::map<uintptr_t, Block> blocks;
Alloc* new_alloc(int owner, bool big = false);
Alloc* swarm_alloc(int owner);             // draws the behaviour parameters
void*  alloc_call(Alloc* a, void* ptr, size_t size);
// a request made by a call that is not announced as one which may need memory (nothing is there to receive the failure) succeeds
struct MustWork { Alloc* a; bool f; int at; explicit MustWork(Alloc* x); ~MustWork(){ a->allow_fail = f; if(a->fail_at < 0) a->fail_at = at; } };
const Block* find_block(const void* p);
size_t live_blocks(const Alloc* a);

// ---------------------------------------------------------------- descriptors
struct Io { int calls = 0; const void* ptr = nullptr; size_t n = 0; long ret = 0; int err = 0; bool write = false; int fd = 0; };
struct Fd { virtual ~Fd(){} virtual long rd(char*, size_t, int&){ return -1; } virtual long wr(const char*, size_t, int&){ return -1; } int owner = 0; Io io; };
extern int iso_phase;                      // 1: a task runs alone, 2: tasks interleave; then any mismatch is an isolation failure
int  add_fd(Fd* f);
Fd*  get_fd(int n);

// A byte stream with latency, fragmentation, transient faults and optional damage.
struct Link {
	struct Seg { uint64_t at; Str d; };
	std::deque<Seg> q; uint64_t last = 0; bool closed = false; uint64_t closed_at = 0;
	int p_short = 128, p_eintr = 0, p_eagain = 0, p_eio = 0, p_zero = 0; int max_lat = 0; bool faults = true; int p_tiny = 0;
	size_t taken = 0, sent = 0, room = SIZE_MAX; Str wire;
	void swarm();
	void push(const Str& d); void close();
	size_t avail() const; uint64_t next_event() const; bool eof() const;
	long read(char* d, size_t n, int& err);
};

Link* new_link();                          // freed with the run

// ---------------------------------------------------------------- entry points used by main.cpp
void restore_statics(); void set_fatal(const char* list); void set_seam_p(uint32_t p);
extern Alloc* libc_alloc; extern bool libc_unreported; Alloc* libc(); void register_token(Alloc* a, char* token);
void core_init(const char* progress_file);
void run_reset(uint64_t index);
int  run_one(const std::function<void()>& world);    // 0 ok, 1 violation
void load_choices(const std::vector<uint32_t>& c); void seed_choices(uint64_t s);
uint64_t mix(uint64_t a, uint64_t b);

extern void (*fatal_cb)();
}
