#include "world.hpp"
#include "props.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <time.h>
using namespace sim;

static double mono(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const PropDef* find_prop(const char* id){ for(const PropDef* p = all_props(); p->id; p++) if(!strcmp(p->id, id)) return p; return nullptr; }
static uint64_t hashstr(const char* s){ uint64_t h = 1; while(*s) h = mix(h, *s++); return h; }
static const PropDef* pd; static int tier_thorough;

static void one(uint64_t idx){ run_reset(idx); run_one([&]{ pd->world(); }); }

static std::vector<uint32_t> read_choices(const char* file){
	std::vector<uint32_t> c; FILE* f = fopen(file, "r"); if(!f) { perror(file); exit(72); } char line[4096];
	while(fgets(line, sizeof line, f)) if(!strncmp(line, "choices:", 8)) break;
	unsigned v; while(fscanf(f, "%u", &v) == 1) c.push_back(v); fclose(f); return c;
}
static void dump_run(FILE* o){ fprintf(o, "tag: %s\nhash: %016llx\nmessage: %s\n", P->tag, (unsigned long long)P->hash, P->msg); }
static void write_choices(const char* file, const std::vector<uint32_t>& c){
	FILE* o = fopen(file, "w"); dump_run(o); fprintf(o, "choices:"); for(size_t i = 0; i < c.size(); i++) fprintf(o, "%s%u", i % 40 ? " " : "\n", c[i]); fprintf(o, "\n"); fclose(o); }

// run a candidate in a child; true when it violates with the wanted tag
static bool attempt(const std::vector<uint32_t>& c, const Str& tag){
	pid_t p = fork(); if(!p){ load_choices(c); one(0); _exit(0); }
	int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 71 && tag == P->tag;
}
static void rtrim(std::vector<uint32_t>& c){ while(!c.empty() && c.back() == 0) c.pop_back(); }
static int shrink(const char* in, const char* out, double limit){
	std::vector<uint32_t> c = read_choices(in); Str tag; { FILE* f = fopen(in, "r"); char t[256]; if(f && fgets(t, 256, f)){ tag = t + 5; tag.pop_back(); } if(f) fclose(f); }
	double end = mono() + limit; int tries = 0;
	if(!attempt(c, tag)){ fprintf(stderr, "not reproducible: %s\n", tag.c_str()); return 3; }
	struct S { uint32_t a, b; }; std::vector<S> sp;
	auto take = [&]{ c.assign(P->choice, P->choice + std::min<uint64_t>(P->nchoice, c.size())); rtrim(c); sp.clear(); for(uint64_t i = 0; i < P->nspan; i++) if(P->span[i].b > P->span[i].a) sp.push_back({P->span[i].a, P->span[i].b}); };
	auto t = [&](std::vector<uint32_t> d){ rtrim(d); if(mono() > end) return false; tries++; if(attempt(d, tag)){ c = d; take(); return true; } return false; };
	take(); bool any = true;
	while(any && mono() < end){
		any = false; size_t len = c.size();
		for(size_t k = c.size() / 2; k >= 1 && mono() < end; k /= 2) { size_t cut = c.size() > k ? c.size() - k : 0; std::vector<uint32_t> d(c.begin(), c.begin() + cut); if(t(d)) any = true; if(k == 1) break; }
		for(size_t i = sp.size(); i-- > 0 && mono() < end;){ if(i >= sp.size()) continue; S s = sp[i]; if(s.b > c.size()) continue; std::vector<uint32_t> d = c; d.erase(d.begin() + s.a, d.begin() + s.b); if(t(d)) any = true; }
		for(size_t k = 64; k >= 1 && mono() < end; k /= 2) for(size_t i = 0; i + k <= c.size() && mono() < end;){ std::vector<uint32_t> d = c; d.erase(d.begin() + i, d.begin() + i + k); if(t(d)) any = true; else i += k; }
		for(size_t k = 16; k >= 1 && mono() < end; k /= 2) for(size_t i = 0; i + k <= c.size() && mono() < end; i += k){ bool nz = false; for(size_t j = i; j < i + k; j++) nz |= c[j]; if(!nz) continue; std::vector<uint32_t> d = c; for(size_t j = i; j < i + k; j++) d[j] = 0; if(t(d)) any = true; }
		for(size_t i = 0; i < c.size() && mono() < end; i++){ if(c[i] < 2) continue; uint32_t lo = 0, hi = c[i]; while(hi - lo > 1 && mono() < end && i < c.size()){ uint32_t m = lo + (hi - lo) / 2; std::vector<uint32_t> d = c; d[i] = m; size_t l0 = c.size(); if(t(d)){ hi = m; any = true; if(c.size() < l0) break; } else lo = m; } }
		if(c.size() >= len && !any) break;
	}
	attempt(c, tag); write_choices(out, c); printf("shrunk to %zu choices in %d attempts\n", c.size(), tries); return 0;
}

static void jstr(FILE* f, const char* s){ fputc('"', f); for(; *s; s++){ unsigned char c = *s; if(c == '"' || c == '\\') fprintf(f, "\\%c", c); else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
int main(int argc, char** argv){
	const char *progress = nullptr, *replay = nullptr, *shr = nullptr, *out = nullptr, *prop_id = "C01"; uint64_t seed = 1, variant = 0, start = 0, stride = 1, maxruns = UINT64_MAX; double secs = 5; bool hashes = false;
	for(int i = 1; i < argc; i++){ Str a = argv[i]; auto nx = [&]{ return i + 1 < argc ? argv[++i] : (char*)""; };
		if(a == "--prop") prop_id = nx(); else if(a == "--seed") seed = strtoull(nx(), 0, 0); else if(a == "--variant") variant = strtoull(nx(), 0, 0); else if(a == "--start") start = strtoull(nx(), 0, 0); else if(a == "--stride") stride = strtoull(nx(), 0, 0);
		else if(a == "--runs") maxruns = strtoull(nx(), 0, 0); else if(a == "--secs") secs = atof(nx()); else if(a == "--progress") progress = nx(); else if(a == "--replay") replay = nx(); else if(a == "--trace") tracing = true;
		else if(a == "--shrink") shr = nx(); else if(a == "--out") out = nx(); else if(a == "--hashes") hashes = true; else if(a == "--thorough") tier_thorough = 1; else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 72; } }
	pd = find_prop(prop_id); if(!pd){ fprintf(stderr, "unknown property\n"); return 72; }
	core_init(progress); set_fatal((Str(pd->fatal) + " mem. crash. hang alloc.double alloc.unknown").c_str()); sim::prop = pd->id;
	if(shr) return shrink(shr, out, secs);
	if(replay){ load_choices(read_choices(replay)); one(0); printf("no violation\nhash: %016llx\n", (unsigned long long)P->hash); return 0; }
	double t0 = mono(), te = t0 + secs; uint64_t n = 0, nt = 0; std::unordered_set<uint64_t> distinct, distinct_nt; uint64_t choices = 0; uint64_t steps = 0;
	for(uint64_t i = start; n < maxruns && mono() < te; i += stride, n++){
		seed_choices(mix(mix(seed, hashstr(prop_id)), mix(variant, i))); one(i); choices += P->nchoice; steps += P->steps;
		if(hashes) printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)P->hash);
		if(distinct.size() < 4000000) distinct.insert(P->hash); if(nontrivial){ nt++; if(distinct_nt.size() < 4000000) distinct_nt.insert(P->hash); }
	}
	double el = mono() - t0; P->state = 3;
	if(out){ FILE* f = fopen(out, "w"); fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"distinct_hashes\":%zu,\"distinct_nontrivial\":%zu,\"seconds\":%.3f,\"sim_us\":%llu,\"choices\":%llu,\"steps\":%llu,\"switches\":%llu,\"midcall\":%llu,\"counters\":{",
			(unsigned long long)n, (unsigned long long)nt, distinct.size(), distinct_nt.size(), el, (unsigned long long)total_sim_us, (unsigned long long)choices, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)midcall_switches);
		bool first = true; for(auto& c : counters){ if(!first) fputc(',', f); first = false; jstr(f, c.first.c_str()); fprintf(f, ":%llu", (unsigned long long)c.second); }
		fprintf(f, "}}\n"); fclose(f);
		FILE* g = fopen((Str(out) + ".cov").c_str(), "wb"); for(uint64_t h : coverage) fwrite(&h, 8, 1, g); fclose(g);
		g = fopen((Str(out) + ".nt").c_str(), "wb"); for(uint64_t h : distinct_nt) fwrite(&h, 8, 1, g); fclose(g); }
	return 0;
}
