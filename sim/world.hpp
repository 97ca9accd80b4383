// Buffer world: an actor owns buffers, allocators and descriptors, performs random operations on them and
// compares every observable result with a reference model (a plain byte string per buffer).
#pragma once
#include "core.hpp"

enum Op { O_CREATE, O_DESTROY, O_TOCSTR, O_VIEW, O_SHRINK, O_GROW, O_ASSIGN, O_APPEND, O_APPEND_CS, O_PREPEND, O_PREPEND_CS, O_INSERT, O_INSERT_CS,
	O_BEFORE, O_AFTER, O_STRIP, O_CHAR, O_CAT, O_PRINTF, O_PRNF, O_FETCH, O_READ, O_WRITE, O_PACK, O_ENCRYPT, O_DECRYPT, O_N };

struct Profile {
	int w[O_N] = {0};           // weights
	int dyn = 1, fixed = 0;     // relative frequency of buffer kinds
	int p_self = 64;            // probability that a source is taken from the destination (/256)
	int p_fail = 0;             // allocation failure (/256) per request
	int p_fmtfail = 0;          // injected formatter failure
	int p_badfetch = 60;        // lying fetcher
	int p_iofault = 60;
	int maxbuf = 4, ops = 40;
	int big = 300;              // upper bound of ordinary piece sizes
	int maxcontent = 20000;
	bool hostile = true;        // allocator behaviour swarm
	void jumbo(){ if(sim::chance(1, 40)){ big = sim::chance(1, 4) ? 70000 : 6000; maxcontent = 250000; ops = std::min(ops, 14); sim::count("runs_jumbo"); }   // now and then much larger texts
		else if(sim::chance(1, 500)){ marathon = 300 + (int)sim::draw(900); sim::count("runs_marathon"); }                       // ... or much longer histories
		else if(sim::chance(1, 30000)){ marathon = 100000 + (int)sim::draw(8000); big = 8; maxcontent = 60; maxbuf = 3; hostile = false; sim::count("runs_marathon"); } }
	int marathon = 0;
	bool nested = false;        // interrupt-like nested use of other objects inside callbacks
	bool blank = false;         // buffers start without contents
	bool use_default = false;   // buffers may be made with the build's default allocator
	void edits(int k){ for(int o : {O_ASSIGN, O_APPEND, O_APPEND_CS, O_PREPEND, O_PREPEND_CS, O_INSERT, O_INSERT_CS, O_BEFORE, O_AFTER, O_STRIP, O_CHAR, O_CAT}) w[o] = k; }
	void life(int k){ w[O_CREATE] = k; w[O_DESTROY] = k; }
};

struct Buf {
	void** var = nullptr; bool dynamic = false; sim::Alloc* a = nullptr; Str content; int cap = 0;
	char* mem = nullptr; size_t memsz = 0; int id = 0; bool is_default = false;
	void* p() const { return *var; }
};

struct ScriptFd : sim::Fd {           // a descriptor with drawn behaviour
	struct Actor* a; Str taken, delivered;
	long rd(char*, size_t, int&) override; long wr(const char*, size_t, int&) override;
};

struct Arg { bool self = false, invalid = false, cs = false, other = false; int off = 0; Str val; char* mem = nullptr; const Buf* ob = nullptr;
	sv get(const Buf& b) const; };

struct OpDesc {
	Str name, cls = "edit"; std::function<sv(void**)> call; std::function<bool(const Str&, Str&)> expect;
	bool has_self = false, check_view = true, force_alloc_ok = false, may_empty = false, prnf = false, capexact = true, invalid_on_fail = false, keep_on_nofit = false; int grow_to = -1; int extra_need = 0;
	bool noretry = false; int grow_need = -1;
};

struct Actor {
	Profile pr; int task = 0; std::vector<Buf*> bufs; std::vector<sim::Alloc*> allocs; bool fixed_op = false; int nextid = 0; int alphabet = 0;
	bool expect_assert = false; int assert_hits = 0;
	// fetcher script
	char* fetch_token = nullptr; int fetch_calls = 0; void* fetch_dst = nullptr; int fetch_n = 0, fetch_ret = 0, fetch_size = 0; Str fetch_data; void* fetch_vars = nullptr; bool fetch_lie = false;
	bool fmt_injected = false; bool fmt_active = false;
	ScriptFd* fd = nullptr; int fdno = -1; int nops = 0; uint64_t opseed = 0; bool nesting = false;
	std::vector<uint64_t> trail;       // observable results, for comparing runs
	Actor(); ~Actor();
	void init(int task);
	int fetch(void* dst, int n, void* vars);
	bool fmt_fault();
	Str text(size_t n); size_t len_for(const Buf& b);
	Arg make_arg(Buf& b, bool allow_self, bool cs = false);
	Buf* pick(); Buf* create(int force = 0); void destroy(size_t i); void to_cstr(size_t i);
	void op(); void run(int n); void finish();
	int only_reader = -1;       // reading runs focused on one operation
	long big_claim = -1, big_left = 0; int big_io = 0; Str big_tail;   // size-limit world
	sim::Alloc* default_alloc = nullptr; void finished_by_assert();
	bool guarded(const std::function<void()>& f, int* how = nullptr);
	void edit(Buf& b, OpDesc& d);
	bool wellformed(Buf& b, const char* what);
	void check(Buf& b, const Str& want, const char* what, const char* cls);
	void check_view(Buf& b, sv v, const char* what, const char* cls);
	void op_fmt(Buf& b, bool prnf); void op_fetch(Buf& b); void op_read(Buf& b); void op_write(Buf& b); void op_pack(Buf& b); void op_crypt(Buf& b, bool enc);
	void adopt(Buf& b);                // take the real state over into the model (resync)
	void allow_fail(bool on);
};
Actor* actor();                        // of the current task
Actor* add_actor(const Profile& p);    // registered for the coming task
#define CALL(...) ([&]{ sim::Lib lib_guard_; return __VA_ARGS__; }())
#define CALLV(...) ([&]{ sim::Lib lib_guard_; __VA_ARGS__; }())

// independent AES-256-CBC reference
Str ref_encrypt(const Str& plain, const uint8_t key[32], const uint8_t iv[16]);
bool ref_decrypt(const Str& cipher, const uint8_t key[32], const uint8_t iv[16], Str& plain); // false: bad padding
Str ref_raw_encrypt(const Str& padded, const uint8_t key[32], const uint8_t iv[16]);
