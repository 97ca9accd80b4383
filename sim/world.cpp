#include "world.hpp"
#include <climits>
#include <cwchar>
using namespace sim;

static std::vector<Actor*> actors;
namespace sim { void world_reset(){ for(auto a : actors) delete a; actors.clear(); } }
Actor* actor(){ return cur ? (Actor*)cur->actor : nullptr; }
Actor* add_actor(const Profile& p){ Actor* a = new Actor; a->pr = p; actors.push_back(a); return a; }
Actor::Actor(){} Actor::~Actor(){ for(auto b : bufs) delete b; }

static const char* TEXTS[] = {"ab", " abcdefghijklmnopqrstuvwxyz0123456789", nullptr, "\r\n\"',; \\\t-x0"};
Str Actor::text(size_t n){ Str s(n, 'a'); if(!n) return s; uint64_t st = draw(1 << 16); const char* t = TEXTS[alphabet]; size_t k = t ? strlen(t) : 0; st = mix(st, 99);
	for(size_t i = 0; i < n; i++) s[i] = t ? t[aux(st) % k] : (char)aux(st); return s; }
void Actor::init(int t){
	Span s; task = t; alphabet = draw(4); static const uint8_t tok[8] = {1,2,3,4,5,6,7,8}; fetch_token = arena(8, 0, task); (void)tok;
	int na = 1 + draw(2); for(int i = 0; i < na; i++){ allocs.push_back(pr.hostile ? swarm_alloc(task) : new_alloc(task)); allocs.back()->p_fail = pr.p_fail; }
	fd = new ScriptFd; fd->a = this; fdno = add_fd(fd); fd->owner = task;
}
void Actor::allow_fail(bool on){ for(auto a : allocs) a->allow_fail = on && pr.p_fail; }
size_t Actor::len_for(const Buf& b){
	size_t room = b.cap > (int)b.content.size() ? b.cap - b.content.size() : 0; int st = sh_grow_step();
	if(pr.big > 2000 && draw(3) == 2){ static const int sp[] = {127, 128, 255, 256, 1023, 1024, 4095, 4096, 4097, 8191, 16384, 32767, 32768, 65535, 65536, 65537}; size_t n = draw(2) ? sp[draw(16)] : draw(pr.big + 1); if(n > (size_t)pr.big) n = draw(pr.big + 1); if(b.content.size() + n > (size_t)pr.maxcontent) n = draw(4); return n; }
	size_t n; switch(draw(9)){ case 0: n = draw(5); break; case 1: n = draw(24); break; case 2: n = room; break; case 3: n = room + 1; break; case 4: n = room ? room - 1 : 0; break;
		case 5: n = (b.content.size() / st + 1) * st - b.content.size() + draw(3) - 1; break; case 6: n = draw(120); break; case 7: n = draw(pr.big + 1); break; default: n = b.content.size(); }
	if(n > (size_t)pr.big) n = pr.big; if(b.content.size() + n > (size_t)pr.maxcontent) n = draw(4); return n;
}
sv Arg::get(const Buf& b) const {
	if(invalid) return {nullptr, 0};
	if(self) return {sh_cstr(b.p()) + off, (int)val.size()};
	if(other) return {sh_cstr(ob->p()) + off, (int)val.size()};
	return {mem, (int)val.size()};
}
Arg Actor::make_arg(Buf& b, bool allow_self, bool cs){
	Span s; Arg a; a.cs = cs;
	if(allow_self && !cs && !b.content.empty() && chance(pr.p_self)){ a.self = true; a.off = draw(b.content.size() + 1); int n = draw(b.content.size() - a.off + 1); if(b.content.size() + n > (size_t)pr.maxcontent) n = 0; a.val = b.content.substr(a.off, n); return a; }
	int k = draw(16);
	if(k == 12){ a.invalid = true; return a; }
	if(k == 13 && !cs) for(auto o : bufs) if(o != &b && !o->content.empty()){ a.other = true; a.ob = o; a.off = draw(o->content.size()); a.val = o->content.substr(a.off, std::min<size_t>(len_for(b), o->content.size() - a.off)); return a; }
	if(k != 14) a.val = text(len_for(b));
	if(cs) for(auto& c : a.val) if(!c) c = 'x';
	a.mem = put(a.val, PR, task, cs); return a;
}
bool Actor::fmt_fault(){ if(!fmt_active || !pr.p_fmtfail) return false; if(chance(pr.p_fmtfail)){ fmt_injected = true; count("fault.formatter"); return true; } return false; }

void Actor::finished_by_assert(){ end_run(); }
bool Actor::guarded(const std::function<void()>& f, int* how){
	jmp_buf jb; jmp_buf* old = cur->escape; cur->escape = &jb; int j = setjmp(jb);
	if(!j) f();
	cur->escape = old; cur->inlib = false; if(how) *how = j;
	if(libc_unreported){ libc_unreported = false; if(expect_assert) mismatch("default.unreported", "the C library refused memory but no assertion reported it"); end_run(); }
	if(j == 2){ count("asserted"); nontrivial = true; cover(23, nops > 8 ? 8 : nops, 0, 0); finished_by_assert(); }
	return j != 0;
}

// ------------------------------------------------------------------ checks after every call
static Str tagof(const char* kind, const Buf& b, const char* cls){ return Str(kind) + (b.dynamic ? ".dyn." : ".fix.") + cls; }
void Actor::adopt(Buf& b){ b.content = hstr(sh_cstr(b.p()), sh_size(b.p())); b.cap = sh_cap(b.p()); }
bool Actor::wellformed(Buf& b, const char* what){
	void* p = b.p(); char tmp[128];
#define WF(tag, ...) do { snprintf(tmp, sizeof tmp, __VA_ARGS__); mismatch(tag, "buffer %d after %s: %s", b.id, what, tmp); end_run(); } while(0)
	if(b.dynamic){
		const Block* k = find_block(p);
		if(!k) WF("wf.ptr", "the owner's pointer does not refer to a live block");
		if(k->a != b.a) WF("alloc.cross", "the buffer lives in a block of allocator %d, its own is %d", k->a->id, b.a->id);
		if(k->size < sh_hdr() + 1) WF("wf.cap", "block of %zu bytes is too small for any buffer", k->size);
		if(sh_cap(p) < 0 || k->size < sh_hdr() + (size_t)sh_cap(p) + 1) WF("wf.cap", "capacity %d is not backed by the block of %zu bytes", sh_cap(p), k->size);
		if(!b.is_default && (sh_alloc_app(p) != b.a->token || !sh_is_alloc_cb(sh_alloc_fn(p)))) WF("wf.allocator", "the buffer's allocator changed");
	}else{
		if(p != b.mem) WF("fixed.moved", "fixed buffer moved");
		if(sh_cap(p) != b.cap) WF("fixed.cap", "capacity of a fixed buffer changed from %d to %d", b.cap, sh_cap(p));
		if(sh_alloc_fn(p)) WF("fixed.allocator", "fixed buffer acquired an allocator");
	}
	if(sh_size(p) < 0 || sh_size(p) > sh_cap(p)) WF("wf.size", "size %d with capacity %d", sh_size(p), sh_cap(p));
	if(*(volatile char*)(sh_cstr(p) + sh_size(p)) != 0) WF("wf.nul", "no 0 after the %d content bytes", sh_size(p));
	return true;
}
void Actor::check(Buf& b, const Str& want, const char* what, const char* cls){
	wellformed(b, what);
	Str got = hstr(sh_cstr(b.p()), sh_size(b.p())); ev(got.size());
	trail.push_back(mix(mix(got.size(), sh_cap(b.p())), std::hash<Str>()(got)));
	if(got != want){ mismatch(tagof("content", b, cls).c_str(), "buffer %d after %s holds %s, expected %s", b.id, what, quote(got).c_str(), quote(want).c_str()); }
	b.content = got;
}
void Actor::check_view(Buf& b, sv v, const char* what, const char* cls){
	trail.push_back(v.size);
	if(v.data != sh_cstr(b.p()) || v.size != sh_size(b.p())) mismatch(tagof("view", b, cls).c_str(), "%s returned a view of %d bytes at %s, not of the buffer's %d bytes", what, v.size, v.data == sh_cstr(b.p()) ? "the buffer" : v.data ? "another address" : "null", sh_size(b.p()));
}

// ------------------------------------------------------------------ buffers
Buf* Actor::create(int force){
	Span s; Buf* b = new Buf; b->id = nextid++; b->var = (void**)arena(8, PRW, task); *b->var = nullptr;
	int tot = pr.dyn + pr.fixed; bool dyn = force ? force == 1 : (int)draw(tot) < pr.dyn; b->dynamic = dyn;
	if(dyn){
		b->a = allocs[draw(allocs.size())]; bool def = pr.use_default && draw(4); int w = !def; if(def){ if(sh_default_kind() == 0) w = 2; else b->a = default_alloc; b->is_default = sh_default_kind() == 1 || sh_default_kind() == 2; }
		int how = draw(pr.blank ? 3 : 4); size_t cap = 0; Str init; sv iv{nullptr, 0}; bool inv = false;
		if(how == 3){ inv = chance(30); if(!inv){ init = text(draw(40)); iv.data = put(init, PR, task); iv.size = init.size(); } }
		else cap = how == 0 ? draw(3) * 8 : how == 1 ? draw(70) : draw(300);
		size_t live0 = b->a->live; void* r = nullptr; size_t calls0 = b->a->calls.size();
		auto go = [&]{ char* tk = w == 1 ? b->a->token : nullptr; r = how == 3 ? CALL(sh_create_view(iv, tk, w == 1)) : how == 1 ? CALL(sh_create_int((int)cap, tk, w == 1)) : CALL(sh_create_size(cap, tk, w == 1)); };
		if(w == 2){ go(); TR("create without any default allocator gives %s", r ? "a buffer" : "null"); if(r) { mismatch("default.none", "a buffer was created although no allocator is available"); end_run(); } if(b->a->calls.size() != calls0) mismatch("default.none", "an allocator was called for a refused creation"); nontrivial = true; cover(21, how, 0, 0); delete b; return nullptr; }
		if(guarded(go)){
			TR("create escaped"); count("escapes"); nontrivial = true;
			if(b->a->live != live0) mismatch("alloc.leak", "an aborted create left a block behind");
			allow_fail(false); go(); allow_fail(true);
		}
		*b->var = r; TR("b%d = create(%s %zu, allocator %d)", b->id, how == 3 ? (inv ? "invalid view" : "view of size") : "capacity", how == 3 ? init.size() : cap, b->a->id);
		if(w != 1){ nontrivial = true; cover(22, how, b->a->live > live0, 0); if(r && b->a->live != live0 + 1) mismatch("default.choice", "a buffer made without an allocator did not come from the default one"); if(!r) mismatch("default.choice", "no buffer although a default allocator is configured"); }
		if(!r){ mismatch("create.null", "create with a working allocator yields no buffer"); delete b; return nullptr; }
		if(how == 3) cap = init.size();
		bufs.push_back(b); check(*b, init, "create", "create"); b->cap = sh_cap(r);
		if(b->cap != (int)cap) mismatch("cap.create", "created with capacity %d instead of %zu", b->cap, cap);
		(void)calls0;
	}else{
		int how = draw(4);
		if(how == 3){
			int i = draw(5), which = draw(2); size_t n = sh_static_bytes(i); b->mem = arena(n, PRW, task, sh_align()); hfill(b->mem, n, 0xA5); b->memsz = n;
			Str img(n, 0); sh_create_static(i, &img[0], which); hcopy(b->mem, img.data(), n); *b->var = b->mem; b->cap = sh_static_caps(i);
			TR("b%d = %s(%d)", b->id, which ? "STRBUF_FIXED_CAP" : "STRBUF_STATIC_INIT", b->cap);
			if(sh_cap(b->mem) != b->cap) mismatch("cap.create", "static buffer of capacity %d claims %d", b->cap, sh_cap(b->mem));
			bufs.push_back(b); check(*b, "", "static creation", "create");
		}else{
			size_t n = how == 0 ? sh_hdr() + 1 + draw(40) : how == 1 ? sh_hdr() + 1 + draw(300) : draw(40); int off = chance(40) ? 1 + draw(7) : 0;
			b->mem = arena(n, PRW, task, 16, off); hfill(b->mem, n, 0xA5); b->memsz = n; fixed_op = true;
			void* r = CALL(sh_create_fixed(b->mem, n)); fixed_op = false; TR("b%d = create_fixed(%zu bytes, offset %d)%s", b->id, n, off, r ? "" : " refused");
			bool ok = n > sh_hdr() && off == 0; cover(1, n <= sh_hdr(), off, !!r);
			if(ok != !!r){ if(off && r) { mismatch("fixed.refuse", "unaligned memory (offset %d) accepted", off); } else mismatch("fixed.refuse", "%zu bytes of %s memory %s", n, off ? "unaligned" : "aligned", r ? "accepted" : "refused"); end_run(); }
			if(!r){ for(size_t i = 0; i < n; i++) if((uint8_t)b->mem[i] != 0xA5){ mismatch("fixed.refuse", "refused memory was modified"); break; } delete b; return nullptr; }
			*b->var = r; b->cap = sh_cap(r); bufs.push_back(b);
			if(b->cap != (int)(n - sh_hdr() - 1)){ mismatch("cap.create", "fixed buffer in %zu bytes has capacity %d", n, b->cap); if(b->cap < 0 || b->cap > (int)(n - sh_hdr() - 1)){ mismatch("wf.cap", "fixed buffer in %zu bytes claims capacity %d", n, b->cap); end_run(); } }
			check(*b, "", "create_fixed", "create");
		}
	}
	return b;
}
void Actor::destroy(size_t i){
	Buf* b = bufs[i]; void* p = b->p(); size_t live0 = b->dynamic ? b->a->live : 0; size_t c0 = b->dynamic ? b->a->calls.size() : 0; Str raw = b->dynamic ? "" : hstr(b->mem, b->memsz);
	fixed_op = !b->dynamic; TR("destroy b%d", b->id); CALLV(sh_destroy(b->var)); fixed_op = false;
	if(*b->var) mismatch("destroy.null", "destroy left the caller's pointer set");
	if(b->dynamic){ if(find_block(p) && b->a->live >= live0) mismatch("alloc.leak", "destroy did not give the block back"); if(b->a->calls.size() != c0 + 1) mismatch("alloc.destroy", "destroy made %zu allocator calls", b->a->calls.size() - c0); }
	else if(hstr(b->mem, b->memsz) != raw) mismatch("destroy.fixed", "destroying a fixed buffer changed its memory");
	CALLV(sh_destroy(b->var));   // harmless on null
	if(chance(64)) CALLV(sh_destroy(nullptr));
	trail.push_back(7); delete b; bufs.erase(bufs.begin() + i);
}
void Actor::to_cstr(size_t i){
	Buf* b = bufs[i]; void* p = b->p(); Str want = b->content; size_t live0 = b->dynamic ? b->a->live : 0; const char* place = sh_cstr(p); TR("to_cstr b%d size %zu cap %d", b->id, want.size(), b->cap);
	fixed_op = !b->dynamic; char* s = CALL(sh_to_cstr(b->var)); fixed_op = false; nontrivial = true; cover(2, b->dynamic, want.size() > 3 ? 3 : want.size(), b->dynamic ? b->a->moved : 0);
	if(*b->var) mismatch("cstr.null", "handing over left the caller's pointer set");
	if(!s){ mismatch("cstr.content", "no string returned"); end_run(); }
	if(b->dynamic){
		const Block* k = find_block(s);
		if(!k){ mismatch("cstr.block", "the string is not a block of the allocator"); end_run(); }
		if(k->a != b->a) mismatch("cstr.block", "the string belongs to another allocator");
		if(k->size < want.size() + 1){ mismatch("cstr.block", "block of %zu bytes for a string of %zu", k->size, want.size()); end_run(); }
		if(b->a->live != live0) mismatch("cstr.leak", "%zd blocks more than before remain after handing over", (ssize_t)(b->a->live - live0));
	}else if(s < b->mem || s + want.size() + 1 > b->mem + b->memsz){ mismatch("cstr.block", "string of a fixed buffer is not in its memory"); end_run(); }
	else if(s != place) mismatch("cstr.block", "string of a fixed buffer is %td bytes from where its contents were", s - place);
	Str got = hstr(s, want.size() + 1); want.push_back(0); trail.push_back(std::hash<Str>()(got));
	if(got != want) mismatch("cstr.content", "string is %s, expected %s", quote(got).c_str(), quote(want).c_str());
	if(b->dynamic) alloc_call(b->a, s, 0);
	delete b; bufs.erase(bufs.begin() + i);
}
void Actor::finish(){
	allow_fail(false);
	while(!bufs.empty()) if(pr.w[O_TOCSTR] && chance(100)) to_cstr(bufs.size() - 1); else destroy(bufs.size() - 1);
	for(auto a : allocs) if(a->live && !a->nfail) mismatch("alloc.leak", "%zu blocks of allocator %d are outstanding after every buffer was destroyed", a->live, a->id);
	if(libc_alloc && libc_alloc->live) mismatch("alloc.leak", "%zu heap blocks are outstanding at the end", libc_alloc->live);
}

// ------------------------------------------------------------------ one edit: call, compare, account
void Actor::edit(Buf& b, OpDesc& d){
	Str old = b.content; int cap0 = b.cap; size_t calls0 = b.dynamic ? b.a->calls.size() : 0; void* p0 = b.p(); sv r{nullptr, 0};
	TR("b%d(%s size %zu cap %d).%s", b.id, b.dynamic ? "growable" : "fixed", old.size(), cap0, d.name.c_str());
	fixed_op = !b.dynamic; if(b.dynamic) b.a->moved = false; fmt_injected = false;
	bool esc = guarded([&]{ r = CALL(d.call(b.var)); }); fixed_op = false;
	const char* nm = d.name.c_str(); nops++; ev(std::hash<Str>()(d.cls));
	if(esc){
		count("escapes"); nontrivial = true; cover(3, std::hash<Str>()(d.cls), old.size() > 0, d.has_self);
		if(b.dynamic && !find_block(b.p())){ mismatch("fail.ptr", "after an allocation failure in %s the owner's pointer does not refer to a live block", nm); end_run(); }
		wellformed(b, (d.name + " aborted by an allocation failure").c_str());
		Str got = hstr(sh_cstr(b.p()), sh_size(b.p())), nw; Str base = old; bool okk = got == old || got.empty();
		if(!okk && d.prnf){ if(d.expect(old, nw)) okk = nw.compare(0, got.size(), got) == 0; }
		if(!okk) mismatch("fail.content", "after an allocation failure in %s the buffer holds %s; before it held %s", nm, quote(got).c_str(), quote(old).c_str());
		bool same = got == old; if(sh_cap(b.p()) < cap0) mismatch("cap.shrunk", "aborted %s reduced the capacity", nm);
		trail.push_back(11); adopt(b);
		if((d.has_self && !same) || d.noretry) return;
		allow_fail(false); edit(b, d); allow_fail(true); return;
	}
	Str nw; bool ok = d.expect(old, nw); if(fmt_injected) ok = false; size_t need = nw.size(); bool fits = b.dynamic || need + d.extra_need <= (size_t)cap0; Str want = !ok ? "" : fits ? nw : d.keep_on_nofit ? old : "";
	wellformed(b, nm);
	int cap1 = sh_cap(b.p()); bool moved = b.p() != p0;
	cover(mix(4, std::hash<Str>()(d.cls + d.name.substr(0, d.name.find('(')))), mix(b.dynamic * 8 + moved * 4 + (b.dynamic && b.a->calls.size() > calls0) * 2 + fits, ok), mix(d.has_self, (want.size() > 0) * 2 + (old.size() > 0)), mix(need == (size_t)cap0 ? 0 : need < (size_t)cap0 ? 1 : 2, fmt_injected));
	if(moved || d.has_self || !fits || !ok) nontrivial = true;
	Str got = hstr(sh_cstr(b.p()), sh_size(b.p()));
	if(got != want && !(d.may_empty && got.empty())){
		const char* cls = d.cls.c_str();
		if(!b.dynamic && !fits && !d.keep_on_nofit) mismatch("fixed.partial", "%s did not fit fixed buffer %d (capacity %d, needed %zu) but left %s", nm, b.id, cap0, need, quote(got).c_str());
		if(fmt_injected || (d.cls == "fmt" && !ok)) mismatch("fmt.partial", "formatting failed in %s but the buffer holds %s", nm, quote(got).c_str());
		mismatch(tagof("content", b, cls).c_str(), "buffer %d after %s holds %s, expected %s (before: %s)", b.id, nm, quote(got).c_str(), quote(want).c_str(), quote(old).c_str());
	}
	b.content = got; ev(got.size()); trail.push_back(mix(mix(got.size(), cap1), std::hash<Str>()(got)));
	if(d.invalid_on_fail && !ok){ if(r.data) mismatch(tagof("view", b, d.cls.c_str()).c_str(), "%s failed but returned a valid view", nm); }
	else if(d.check_view && ok && (fits || !d.keep_on_nofit)) check_view(b, r, nm, d.cls.c_str());
	if(b.dynamic){
		size_t ncalls = b.a->calls.size() - calls0; int st = sh_grow_step();
		if(d.grow_to != -2 && cap1 < cap0) mismatch("cap.shrunk", "%s reduced the capacity from %d to %d", nm, cap0, cap1);
		if(d.grow_to >= 0){ if(cap1 < d.grow_to) mismatch("cap.grow", "grow to %d gave capacity %d", d.grow_to, cap1); if(d.grow_to <= cap0 && ncalls) count("grow_without_need"); }
		else if(d.grow_to == -2){ if(cap1 != sh_size(b.p())) mismatch("cap.shrink", "shrink left capacity %d for %d bytes", cap1, sh_size(b.p())); }
		else if(ok){
			if(need <= (size_t)cap0){ if(cap1 != cap0) mismatch("cap.fits", "%s needs %zu of capacity %d but changed it to %d", nm, need, cap0, cap1); if(ncalls && !d.force_alloc_ok) mismatch("cap.alloc", "%s fits capacity %d but called the allocator", nm, cap0); }
			else { if((size_t)cap1 < need) mismatch("cap.need", "%s needs %zu but capacity is %d", nm, need, cap1); if(d.capexact && !(cap1 == INT_MAX || (cap1 % st == 0 && (size_t)cap1 < need + st))) mismatch("cap.round", "%s needed %zu and got capacity %d, not the next multiple of %d", nm, need, cap1, st); }
		}
		b.cap = cap1;
		if(!b.a->nfail){ size_t own = 0; for(auto o : bufs) if(o->dynamic && o->a == b.a) own++; if(b.a->live != own){ mismatch("alloc.leak", "%s left %zd temporary blocks", nm, (ssize_t)(b.a->live - own)); b.a->nfail = 1; } }
	}
}

// ------------------------------------------------------------------ operations
static size_t clip(int i, size_t n){ long k = i; if(k > (long)n) k = n; if(k < 0) k += n; if(k < 0) k = 0; return k; }
Buf* Actor::pick(){ if(bufs.empty() || (pr.w[O_CREATE] && (int)bufs.size() < pr.maxbuf && chance(20))){ Buf* b = create(); if(b) return b; } if(bufs.empty()) return create(1); return bufs[draw(bufs.size())]; }

void Actor::op(){
	Span s; int tot = 0; for(int i = 0; i < O_N; i++) tot += pr.w[i]; int k = draw(tot), o = 0; while(k >= pr.w[o]) k -= pr.w[o++];
	if(o == O_CREATE){ if((int)bufs.size() < pr.maxbuf) create(); return; }
	Buf* bp = pick(); if(!bp) return; Buf& b = *bp; size_t bi = std::find(bufs.begin(), bufs.end(), bp) - bufs.begin();
	static const char* const opname[O_N] = {"op.create", "op.destroy", "op.to_cstr", "op.view", "op.shrink", "op.grow", "op.assign", "op.append", "op.append_cstr", "op.prepend", "op.prepend_cstr", "op.insert_at", "op.insert_cstr", "op.insert_before", "op.insert_after", "op.strip", "op.append_char", "op.cat", "op.printf", "op.prnf", "op.append_using", "op.append_read", "op.write", "op.pack", "op.encrypt", "op.decrypt"}; count(opname[o]);
	OpDesc d; char nm[256]; size_t n0 = b.content.size();
	auto ins = [](size_t at, const Str& v){ return [at, v](const Str& c, Str& out){ out = c; out.insert(at, v); return true; }; };
	auto src = [](const Arg& a){ return a.invalid ? Str("invalid") : (a.self ? "self" : a.other ? "other" : "text") + Str("[") + (a.self ? std::to_string(a.off) + "+" : "") + std::to_string(a.val.size()) + "]" + (a.self ? "" : quote(a.val, 24)); };
	switch(o){
	case O_DESTROY: destroy(bi); return;
	case O_TOCSTR: to_cstr(bi); return;
	case O_VIEW: { sv v = CALL(sh_view(b.var)); check(b, b.content, "view", "view"); check_view(b, v, "view", "view"); return; }
	case O_SHRINK: d.name = "shrink()"; d.cls = "cap"; d.grow_to = b.dynamic ? -2 : -1; d.force_alloc_ok = true; d.call = [](void** v){ return sh_shrink(v); }; d.expect = [](const Str& c, Str& out){ out = c; return true; }; break;
	case O_GROW: { int n; switch(draw(6)){ case 0: n = draw(64); break; case 1: n = b.cap; break; case 2: n = b.cap + 1; break; case 3: n = b.cap + draw(200); break; case 4: n = -(int)draw(50); break; default: n = draw(2) ? INT_MIN : (int)n0; }
		snprintf(nm, sizeof nm, "grow(%d)", n); d.name = nm; d.cls = "cap"; d.grow_to = b.dynamic ? std::max(0, n) : -1; d.check_view = b.dynamic; d.call = [n](void** v){ return sh_grow(v, n); }; d.expect = [](const Str& c, Str& out){ out = c; return true; };
		if(!b.dynamic){ bool bad = false; d.call = [n, &bad](void** v){ sv r = sh_grow(v, n); bad = r.data; return r; }; edit(b, d); if(bad) mismatch("view.fix.cap", "growing a fixed buffer returned a valid view"); return; }
		break; }
	case O_ASSIGN: { Arg a = make_arg(b, true); d.name = "assign(" + src(a) + ")"; d.has_self = a.self; d.call = [a, &b](void** v){ return sh_assign(v, a.get(b)); }; d.expect = [a](const Str&, Str& out){ out = a.val; return true; }; break; }
	case O_APPEND: { Arg a = make_arg(b, true); d.name = "append(" + src(a) + ")"; d.has_self = a.self; d.call = [a, &b](void** v){ return sh_append(v, a.get(b)); }; d.expect = [a](const Str& c, Str& out){ out = c + a.val; return true; }; break; }
	case O_APPEND_CS: { Arg a = make_arg(b, false, true); int kk = draw(2); d.name = "append_cstr(" + src(a) + ")"; d.call = [a, kk](void** v){ return sh_append_cs(v, a.invalid ? nullptr : a.mem, kk); }; d.expect = [a](const Str& c, Str& out){ out = c + a.val; return true; }; break; }
	case O_PREPEND: { Arg a = make_arg(b, true); d.name = "prepend(" + src(a) + ")"; d.has_self = a.self; d.call = [a, &b](void** v){ return sh_prepend(v, a.get(b)); }; d.expect = ins(0, a.val); break; }
	case O_PREPEND_CS: { Arg a = make_arg(b, false, true); int kk = draw(2); d.name = "prepend_cstr(" + src(a) + ")"; d.call = [a, kk](void** v){ return sh_prepend_cs(v, a.invalid ? nullptr : a.mem, kk); }; d.expect = ins(0, a.val); break; }
	case O_INSERT: case O_INSERT_CS: {
		Arg a = make_arg(b, o == O_INSERT, o == O_INSERT_CS); int i; switch(draw(6)){ case 0: i = draw(n0 + 1); break; case 1: i = draw(n0 + 4); break; case 2: i = -(int)draw(n0 + 4); break; case 3: i = INT_MAX; break; case 4: i = INT_MIN; break; default: i = n0; }
		snprintf(nm, sizeof nm, "insert_at%s(%d, ", o == O_INSERT ? "" : "_cstr", i); d.name = nm + src(a) + ")"; d.has_self = a.self; bool cs = o == O_INSERT_CS;
		d.call = [a, i, cs, &b](void** v){ return cs ? sh_insert_at_cs(v, i, a.invalid ? nullptr : a.mem) : sh_insert_at(v, i, a.get(b)); };
		d.expect = [a, i](const Str& c, Str& out){ out = c; out.insert(clip(i, c.size()), a.val); return true; }; break; }
	case O_BEFORE: case O_AFTER: {
		bool cs = chance(50); Arg a = make_arg(b, !cs, cs); bool before = o == O_BEFORE; int kind = draw(8); Arg dst; size_t at = 0; bool hit = true;
		if(kind == 6){ dst.invalid = true; hit = false; } else if(kind == 7){ dst.val = text(1 + draw(5)); dst.mem = put(dst.val, PR, task); hit = false; }
		else if(kind == 5 && b.cap > (int)n0 && chance(96)){ // a stale view: it marks a place in the buffer's memory, past the contents
			dst.self = true; hit = false; size_t end = n0 + 1 + draw(b.cap - n0); at = end; if(before){ dst.off = end; dst.val = Str(draw(b.cap - end + 1), 0); } else { size_t k = draw(end + 1); dst.off = end - k; dst.val = Str(k, 0); } count("stale_position"); }
		else { dst.self = true; dst.off = draw(n0 + 1); dst.val = b.content.substr(dst.off, draw(n0 - dst.off + 1)); at = before ? dst.off : dst.off + dst.val.size(); }
		snprintf(nm, sizeof nm, "insert_%s%s(%s%zu, ", before ? "before" : "after", cs ? "_cstr" : "", hit ? "@" : "miss", at); d.name = nm + src(a) + ")"; d.has_self = a.self || hit;
		d.cls = a.self ? "self" : "edit";
		d.call = [a, dst, before, cs, &b](void** v){ sv x = dst.get(b); const char* c = a.invalid ? nullptr : a.mem; return before ? (cs ? sh_insert_before_cs(v, x, c) : sh_insert_before(v, x, a.get(b))) : (cs ? sh_insert_after_cs(v, x, c) : sh_insert_after(v, x, a.get(b))); };
		d.expect = [a, at, hit](const Str& c, Str& out){ out = c; if(hit) out.insert(std::min(at, c.size()), a.val); return true; };
		edit(b, d); return; }
	case O_STRIP: { bool cs = chance(80); Arg a = make_arg(b, false, cs); if(!a.invalid && !a.other){ int m = draw(4); a.val = text(m); if(cs) for(auto& c : a.val) if(!c) c = 'x'; a.mem = put(a.val, PR, task, cs); }
		if(b.content.size() > 5000 && !a.other && a.mem && !a.invalid && draw(4)){ a.val = a.val.substr(0, 1); if(a.val.empty()) a.val = "q"; std::map<char, size_t> n; for(char c : b.content) n[c]++; for(auto& e : n) if(e.first && (!n.count(a.val[0]) || e.second < n[a.val[0]])) a.val[0] = e.first; if(draw(3) == 0) a.val[0] = 'q'; a.mem = put(a.val, PR, task, true); }   // the rarest one
		{ size_t hits = 0; for(char c : b.content) hits += a.val.find(c) != Str::npos; if(b.content.size() * (hits + a.val.size()) > 20000000) return; }   // each removal may move the rest
		d.name = Str(cs ? "strip_cstr(" : "strip(") + src(a) + ")"; d.call = [a, cs, &b](void** v){ return cs ? sh_strip_cs(v, a.invalid ? nullptr : a.mem) : sh_strip(v, a.get(b)); };
		d.expect = [a](const Str& c, Str& out){ out.clear(); for(char x : c) if(a.val.find(x) == Str::npos) out += x; return true; }; break; }
	case O_CHAR: { char c = text(1)[0]; d.name = "append_char"; d.call = [c](void** v){ return sh_append_char(v, c); }; d.expect = [c](const Str& x, Str& out){ out = x + c; return true; }; break; }
	case O_CAT: { int n = draw(8) == 7 ? (draw(6) == 5 ? 25 + draw(SH_MAXCAT - 24) : 7 + draw(18)) : 1 + draw(6); std::vector<Arg> as; for(int i = 0; i < n; i++){ Arg a = make_arg(b, true); d.has_self |= a.self; as.push_back(a); } int via = draw(2);
		size_t total = 0; for(auto& a : as) total += a.val.size(); if(total > (size_t)pr.maxcontent) return;
		d.name = "cat("; for(auto& a : as) d.name += src(a) + " "; d.name += ")"; d.force_alloc_ok = d.has_self; d.may_empty = d.has_self && !b.dynamic; 
		d.call = [as, n, via, &b](void** v){ sv x[SH_MAXCAT]; for(int i = 0; i < n; i++) x[i] = as[i].get(b); return sh_cat(v, n, x, via); };
		d.expect = [as](const Str&, Str& out){ out.clear(); for(auto& a : as) out += a.val; return true; }; break; }
	case O_PRINTF: op_fmt(b, false); return;
	case O_PRNF: op_fmt(b, true); return;
	case O_FETCH: op_fetch(b); return;
	case O_READ: op_read(b); return;
	case O_WRITE: op_write(b); return;
	case O_PACK: op_pack(b); return;
	case O_ENCRYPT: op_crypt(b, true); return;
	case O_DECRYPT: op_crypt(b, false); return;
	default: return;
	}
	if(d.has_self) d.cls = "self";
	edit(b, d);
}
void Actor::run(int n){ allow_fail(true); for(int i = 0; i < n; i++) op(); allow_fail(false); }

void Actor::op_fmt(Buf& b, bool prnf){
	int f; do f = draw(sh_nfmt()); while(prnf && !sh_fmt_prnf_ok(f)); int kind = draw(4); bool append = kind >= 2;
	if(sh_fmt_fails(f) && !chance(100)) f = 2;
	auto cs = [&](size_t n){ if(prnf && n > 9000 && (sh_grow_step() < 16 || b.content.size() + n > 90000)) n = 9000; Str t = text(n); for(auto& c : t) if(!c) c = 'x'; return t; };
	fmtargs* a = new fmtargs; memset(a, 0, sizeof *a); Str s = cs(len_for(b)), t = cs(draw(30)); a->s = put(s, PR, task, true); a->t = put(t, PR, task, true);
	static const int vals[] = {0, 1, -1, 42, INT_MAX, INT_MIN, 100000}; a->i = vals[draw(7)]; a->j = (int)draw(60) - 20; a->vl = (int)draw(t.size() + 1); a->c = 'A' + draw(26); a->d = 'a' + draw(26); a->f = ((int)draw(2000) - 1000) / 8.0; a->ll = (long long)draw(1000000) * 1000003;
	static const wchar_t bad[] = {L'x', (wchar_t)0x10ffff, (wchar_t)0xd800, 0}; static const wchar_t good[] = {L'o', L'k', 0}; bool wbad = sh_fmt_fails(f); a->ws = wbad ? bad : good;
	Str out(std::max<size_t>(4096, 3 * s.size() + 400), 0); int n = prnf ? sh_snprnf(&out[0], out.size(), f, a) : sh_snprintf(&out[0], out.size(), f, a); bool fails = n < 0; if(n >= (int)out.size()) { delete a; return; } out.resize(fails ? 0 : n);
	OpDesc d; char nm[128]; snprintf(nm, sizeof nm, "%s%s%s(\"%s\") text of %d", append ? "append_" : "", kind & 1 ? "v" : "", prnf ? "prnf" : "printf", sh_fmt_text(f), n); d.name = nm; d.cls = "fmt"; d.prnf = prnf;
	int kk = kind + (prnf ? 4 : 0); d.call = [kk, f, a](void** v){ return sh_format(kk, v, f, a); };
	d.expect = [out, append, fails](const Str& c, Str& o){ if(fails) return false; o = append ? c + out : out; return true; };
	if(fails) count("fault.formatter_encoding");
	fmt_active = !prnf; edit(b, d); fmt_active = false; delete a;
}
int Actor::fetch(void* dst, int n, void* vars){
	fetch_calls++; fetch_dst = dst; fetch_n = n; fetch_vars = vars;
	if(n < 0){ mismatch("fetch.args", "fetcher asked for %d bytes", n); fetch_ret = 0; return 0; }
	check_access(dst, n, true, "fetcher destination");
	if(big_claim >= 0){ if(big_claim <= n && !big_tail.empty()){ char* e = (char*)dst + big_claim - big_tail.size(); check_access(e, big_tail.size(), true, "fetcher destination"); hcopy(e, big_tail.data(), big_tail.size()); } fetch_ret = (int)big_claim; return fetch_ret; }
	int lie = fetch_lie ? 1 + draw(7) : 0; int k;
	if(!lie) k = draw(4) ? (n ? draw(n + 1) : 0) : n; else k = n;
	fetch_data = text(k); hcopy(dst, fetch_data.data(), k);
	switch(lie){ case 1: k = n + 1; break; case 2: k = -1; break; case 3: k = INT_MAX; break; case 4: k = INT_MIN; break; case 6: k = -2 - (int)draw(6); break; case 7: k = -1 - (int)draw(fetch_size + 20); break; case 5: k = n < INT_MAX - 40 ? n + 2 + draw(30) : INT_MAX; break; }
	if(lie) count("fault.lying_fetcher"); fetch_ret = k; TR("fetcher: room %d, returns %d", n, k); return k;
}
void Actor::op_fetch(Buf& b){
	fetch_calls = 0; fetch_size = (int)b.content.size(); fetch_lie = chance(pr.p_badfetch); void* dst = sh_cstr(b.p()) + b.content.size(); int room = b.cap - b.content.size(); OpDesc d; d.name = "append_using"; d.cls = "fetch"; d.invalid_on_fail = true; d.noretry = true;
	char* tok = fetch_token; d.call = [tok](void** v){ return sh_append_using(v, tok); };
	d.expect = [this, room](const Str& c, Str& o){ if(fetch_ret < 0 || fetch_ret > room) return false; o = c + fetch_data.substr(0, fetch_ret); return true; };
	int before = b.cap; edit(b, d);
	if(fetch_calls != 1) mismatch("fetch.args", "fetcher called %d times", fetch_calls);
	else { if(fetch_dst != dst) mismatch("fetch.args", "fetcher given a destination %zd bytes away from the first free byte", (char*)fetch_dst - (char*)dst); if(fetch_n != room) mismatch("fetch.args", "fetcher told %d bytes of room, there are %d", fetch_n, room); if(fetch_vars != tok) mismatch("fetch.args", "fetcher got a different argument"); }
	if(sh_cap(b.p()) != before) mismatch("fetch.cap", "append_using changed the capacity");
	if(fetch_lie) nontrivial = true;
}
long ScriptFd::rd(char* p, size_t n, int& err){
	if(chance(a->pr.p_iofault)){ static const int e[] = {EINTR, EAGAIN, EIO, EBADF}; err = e[draw(4)]; count("fault.read_error"); return -1; }
	if(!n) return 0; if(chance(20)){ count("fault.read_eof"); return 0; }
	size_t k = draw(3) ? 1 + draw(std::min<size_t>(n, 400)) : n; if(k > 4000) k = 4000; Str s = a->text(k); hcopy(p, s.data(), k); delivered = s; return k;
}
long ScriptFd::wr(const char* p, size_t n, int& err){
	if(chance(a->pr.p_iofault)){ static const int e[] = {EINTR, EAGAIN, EIO, ENOSPC, EPIPE}; err = e[draw(5)]; count("fault.write_error"); return -1; }
	if(!n) return 0; if(chance(20)) return 0; if(a->big_io){ size_t left = std::min<size_t>(n, a->big_left); return (long)(n - left); }
	size_t k = draw(3) ? 1 + draw(n) : n; if(k < n) count("fault.short_write"); taken = hstr(p, k); return k;
}
void Actor::op_read(Buf& b){
	fd->io = Io(); fd->delivered.clear(); int room = b.cap - b.content.size(); int ret = 0, en = 0; OpDesc d; d.name = "append_read"; d.cls = "read"; d.check_view = false; d.noretry = true; int no = fdno;
	d.call = [&ret, &en, no](void** v){ errno = 4711; ret = sh_append_read(v, no); en = errno; return sv{nullptr, 0}; };
	d.expect = [this](const Str& c, Str& o){ o = c; if(fd->io.ret > 0) o += fd->delivered; return true; };
	edit(b, d); trail.push_back(ret);
	if(fd->io.calls != 1) mismatch("io.read.calls", "append_read made %d attempts", fd->io.calls);
	if((long)fd->io.n > room) mismatch("io.read.ask", "append_read asked for %zu bytes with room for %d", fd->io.n, room);
	if(ret != fd->io.ret) mismatch("io.read.ret", "append_read returned %d, the descriptor %ld", ret, fd->io.ret);
	if(ret < 0 && en != fd->io.err) mismatch("io.read.errno", "errno is %d after a failed read, the descriptor set %d", en, fd->io.err);
}
void Actor::op_write(Buf& b){
	fd->io = Io(); fd->taken.clear(); int ret = 0, en = 0; OpDesc d; d.name = "write"; d.cls = "write"; d.check_view = false; d.noretry = true; int no = fdno; Str before = b.content;
	d.call = [&ret, &en, no](void** v){ errno = 4711; ret = sh_write(no, v); en = errno; return sv{nullptr, 0}; };
	d.expect = [this](const Str& c, Str& o){ o = fd->io.ret > 0 ? c.substr(std::min<size_t>(fd->io.ret, c.size())) : c; return true; };
	edit(b, d); trail.push_back(ret);
	if(fd->io.calls != 1) mismatch("io.write.calls", "write made %d attempts", fd->io.calls);
	else if(fd->io.n != before.size()) mismatch("io.write.ask", "write offered %zu bytes of %zu held", fd->io.n, before.size());
	if(fd->io.ret > 0 && before.compare(0, fd->io.ret, fd->taken)) mismatch("io.write.data", "write sent %s, held %s", quote(fd->taken).c_str(), quote(before).c_str());
	if(ret != fd->io.ret) mismatch("io.write.ret", "write returned %d, the descriptor %ld", ret, fd->io.ret);
	if(ret < 0 && en != fd->io.err) mismatch("io.write.errno", "errno is %d after a failed write, the descriptor set %d", en, fd->io.err);
}
Str pack_bytes(int kind, int be, uint64_t v){ static const int w[] = {1,1,2,2,4,4,8,8}; Str s; for(int i = 0; i < w[kind]; i++) s += (char)(v >> 8 * (be ? w[kind] - 1 - i : i)); return s; }
void Actor::op_pack(Buf& b){
	int kind = draw(8), be = draw(2); uint64_t v = draw64(); Str by = pack_bytes(kind, be, v); OpDesc d; char nm[64]; snprintf(nm, sizeof nm, "pack%s kind %d", be ? "BE" : "LE", kind); d.name = nm; d.cls = "pack"; d.check_view = false;
	d.call = [=](void** x){ sh_pack(x, kind, be, v); return sv{nullptr, 0}; }; d.expect = [by](const Str& c, Str& o){ o = c + by; return true; }; edit(b, d);
}
void Actor::op_crypt(Buf& b, bool enc){
	if(b.content.size() > (pr.big > 2000 ? 9000 : 700)) return;
	uint64_t st = draw(4) + 1; Str key(32, 0), iv(16, 0); for(auto& c : key) c = (char)aux(st); for(auto& c : iv) c = (char)aux(st);
	uint8_t* k = (uint8_t*)put(key, PR, task); uint8_t* v = (uint8_t*)put(iv, PR, task); OpDesc d; d.cls = enc ? "crypt" : "decrypt"; d.force_alloc_ok = true; d.capexact = false; d.has_self = false;
	d.name = enc ? "encrypt()" : "decrypt()";
	if(enc){ d.keep_on_nofit = true; d.call = [=](void** x){ return sh_encrypt(x, k, v); }; d.expect = [key, iv](const Str& c, Str& o){ o = ref_encrypt(c, (const uint8_t*)key.data(), (const uint8_t*)iv.data()); return true; }; }
	else { d.invalid_on_fail = true; d.call = [=](void** x){ return sh_decrypt(x, k, v); }; d.expect = [key, iv](const Str& c, Str& o){ return ref_decrypt(c, (const uint8_t*)key.data(), (const uint8_t*)iv.data(), o); }; }
	edit(b, d);
}
