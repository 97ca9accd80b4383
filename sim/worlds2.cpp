// Worlds with streams, crashes, interleaved tasks, huge buffers and record protocols.
#include "world.hpp"
#include "props.hpp"
#include <climits>
#include <cfloat>
#include <cmath>
using namespace sim;

static void go_task(Actor* a, std::function<void(Actor&)> body){ spawn([a, body]{ a->init(cur->id); body(*a); }, a); }
static Str bytes(size_t n, int alphabet){ Actor* a = actor(); int o = a->alphabet; a->alphabet = alphabet; Str s = a->text(n); a->alphabet = o; return s; }
static int swarm_preempt(){ static const int pm[] = {0, 1500, 300, 60, 12}; return pm[draw(5)]; }

// ------------------------------------------------------------------ C09: reading a stream
struct LinkFd : ScriptFd {            // read side of a link (and write side of another)
	Link* in = nullptr; Link* out = nullptr; size_t room = SIZE_MAX; int p_werr = 0; bool wfaults = true; int wshort = 128; bool enospc = false; uint64_t wready = 0; bool timed = true;
	std::function<void(const Str&)> accepted;
	long rd(char* p, size_t n, int& err) override { long r = in->read(p, n, err); if(r > 0) delivered = hstr(p, r); return r; }
	long wr(const char* p, size_t n, int& err) override {
		if(wfaults){
			if(chance(p_werr)){ static const int e[] = {EINTR, EAGAIN, EIO, EPIPE, ENOSPC}; err = e[draw(5)]; count("fault.write_error"); return -1; }
			if(wready > now_us){ err = EAGAIN; count("fault.EAGAIN"); return -1; }
			if(enospc && !room && n){ err = ENOSPC; count("fault.ENOSPC"); return -1; }
		}
		if(!n) return 0;
		size_t k = std::min(n, wfaults && enospc ? room : n); if(k > 1 && chance(wshort)){ k = 1 + draw(k); count("fault.short_write"); }
		taken = hstr(p, k); if(enospc && room != SIZE_MAX && wfaults) room -= k; if(wfaults && timed && !draw(6)) wready = now_us + draw(500);
		if(out) out->push(taken); if(accepted) accepted(taken);
		return k;
	}
};
static LinkFd* use_links(Actor& a, Link* in, Link* out){ LinkFd* f = new LinkFd; f->a = &a; f->in = in; f->out = out; a.fd = f; a.fdno = add_fd(f); f->owner = a.task; return f; }

void c09(){
	int K = draw(3) ? 1 : 2 + draw(2); set_preempt(K > 1 ? swarm_preempt() : 0);
		for(int k = 0; k < K; k++){
		Link* L = new_link();
		Profile p; p.hostile = true; p.dyn = 3; p.fixed = 1; p.edits(1); p.w[O_READ] = 8; p.w[O_GROW] = 3; p.w[O_SHRINK] = 1; p.p_self = 40; p.maxbuf = 1; p.blank = true; p.big = 60;
		Actor* a = add_actor(p);
		go_task(a, [L, K](Actor& a){
			L->swarm(); LinkFd* f = use_links(a, L, nullptr); (void)f; Str sent, got; bool jumbo = chance(1, 40); size_t total = jumbo ? 30000 + draw(60000) : draw(3) ? draw(400) : draw(3000); int scale = jumbo ? 500 : 1; nontrivial = true;
			Buf* b = a.create(); if(!b) b = a.create(1); if(!b) return;
			int maxops = 60; Str pre; (void)pre; bool eof = false;
			// the sender's segments are pushed as time passes; receiver operations are interleaved with other edits of its own
			auto feed = [&]{ if(sent.size() < total && draw(2)){ Str s = bytes(std::min<size_t>(1 + draw((draw(4) ? 40 : 700) * (jumbo ? 60 : 1)), total - sent.size()), draw(2) ? 2 : 3); sent += s; L->push(s); if(sent.size() == total) L->close(); } else if(!total) L->close(); };
			auto take = [&](const char* why){ TR("receiver consumes %zu bytes (%s)", b->content.size(), why); got += b->content; b->content.clear(); OpDesc d; d.name = "assign(\"\")"; char* e = put("", PR, a.task); d.call = [e](void** v){ return sh_assign(v, sv{e, 0}); }; d.expect = [](const Str&, Str& o){ o.clear(); return true; }; b->content = got.substr(got.size() - sh_size(b->p())); a.edit(*b, d); };
			for(int i = 0; i < maxops; i++){
				Span s; feed();
				int what = draw(10);
				if(what < 6){ size_t n0 = b->content.size(); a.op_read(*b); if(a.fd->io.ret == 0 && a.fd->io.n && L->eof()) eof = true; if(b->content.size() < n0) end_run(); }
				else if(what == 6){ int n = b->cap + draw(60 * scale); if(b->dynamic){ OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = n; d.call = [n](void** v){ return sh_grow(v, n); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); } }
				else if(what == 7) take("early");
				else if(what == 8) sleep_until(now_us + draw(1000));
				else if(b->content.size() && b->content.size() == (size_t)b->cap) take("full");
			}
			while(sent.size() < total){ Str s = bytes(std::min<size_t>(500 * (jumbo ? 40 : 1), total - sent.size()), 2); sent += s; L->push(s); } L->close();
			// faults stop: the rest must arrive within a bounded number of calls
			L->faults = false; size_t bound = (total - L->taken) * 2 + 40, calls = 0;
			while(!eof){
				if(++calls > bound){ mismatch("stream.liveness", "after faults stopped %zu calls delivered %zu of %zu bytes and no end of file", calls, got.size() + b->content.size(), total); return; }
				if(b->content.size() == (size_t)b->cap){ if(b->dynamic && draw(2)){ int n = b->cap + 1 + draw(100 * scale); OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = n; d.call = [n](void** v){ return sh_grow(v, n); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); } else if(b->cap) take("full"); else return; }
				if(!L->avail() && !L->eof()) sleep_until(L->next_event());
				a.op_read(*b); if(a.fd->io.ret == 0 && a.fd->io.n) eof = true;
			}
			take("end of stream");
			if(got != sent) mismatch("stream.received", "receiver holds %zu bytes %s of the %zu sent %s", got.size(), quote(got).c_str(), sent.size(), quote(sent).c_str());
			cover(900, total > 0, K, b->dynamic); a.finish();
		});
	}
	run_tasks();
}

// ------------------------------------------------------------------ C10: writing a stream, crash and restart
static void view_write_step(Actor& a, LinkFd* f, sv& v, const Str& rest){
	f->io = Io(); f->taken.clear(); sv before = v; errno = 4711; int ret = CALL(sh_view_write(a.fdno, &v, 0)); int en = errno; nontrivial = true; a.trail.push_back(ret);
	TR("view write of %d bytes returns %d", before.size, ret);
	bool valid = before.data;
	if(f->io.calls != (valid ? 1 : 0)) mismatch("io.write.calls", "writing %s view made %d attempts", valid ? "a" : "an invalid", f->io.calls);
	if(!valid) return;
	if(f->io.n != (size_t)before.size) mismatch("io.write.ask", "view write offered %zu of %d bytes", f->io.n, before.size);
	if(ret != f->io.ret) mismatch("io.write.ret", "view write returned %d, the descriptor %ld", ret, f->io.ret);
	if(ret < 0 && en != f->io.err) mismatch("io.write.errno", "errno is %d after a failed view write, the descriptor set %d", en, f->io.err);
	long moved = f->io.ret > 0 ? f->io.ret : 0;
	if(rest.compare(0, moved, f->taken)) mismatch("io.write.data", "view write sent %s, the view held %s", quote(f->taken).c_str(), quote(rest).c_str());
	if(v.size != before.size - moved || (v.size && v.data != before.data + moved) || (!moved && (v.data != before.data || v.size != before.size))) mismatch("stream.view", "after %ld of %d bytes were accepted the view has %d bytes at offset %ld", moved, before.size, v.size, v.data ? (long)(v.data - before.data) : -1L);
	if(v.size && !readable(v.data, v.size)) end_run();
	if(v.size < 0 || v.size != before.size - moved) end_run();
}
void c10(){
	int K = draw(3) ? 1 : 2 + draw(2); set_preempt(K > 1 ? swarm_preempt() : 0);
	for(int k = 0; k < K; k++){
		Profile p; p.dyn = 3; p.fixed = 1; p.maxbuf = 1; p.blank = true; p.big = 200; Actor* a = add_actor(p);
		go_task(a, [](Actor& a){
			LinkFd* f = use_links(a, nullptr, nullptr); static const int we[] = {0, 60, 150}; f->p_werr = we[draw(3)]; static const int ws[] = {128, 256, 0, 220}; f->wshort = ws[draw(4)]; f->enospc = !draw(3); f->room = f->enospc ? draw(600) : SIZE_MAX;
			Str file, intended; bool crash_on = draw(2); int mode = draw(2);
			f->accepted = [&](const Str& d){ file += d; if(file.size() > intended.size() || intended.compare(0, file.size(), file)) mismatch("stream.prefix", "the receiving file holds %s, which is no prefix of the intended stream %s", quote(file, 200).c_str(), quote(intended, 200).c_str()); };
			if(mode == 0){        // from buffers, refilled while draining; a crash loses the buffer, restart resumes from the file
				bool jumbo = chance(1, 40); Str whole = bytes(jumbo ? 30000 + draw(70000) : draw(3) ? draw(300) : draw(2500), draw(3)); size_t fed = 0; Buf* b = nullptr;
				auto start = [&]{ b = a.create(); if(!b) b = a.create(1); fed = file.size(); intended = file; };
				auto feed = [&](size_t n){ n = std::min(n, whole.size() - fed); if(!b->dynamic) n = std::min<size_t>(n, b->cap - b->content.size()); if(!n) return; Str piece = whole.substr(fed, n); char* m = put(piece, PR, a.task); intended += piece; fed += n;
					OpDesc d; d.name = "append(next piece)"; d.call = [m, n](void** v){ return sh_append(v, sv{m, (int)n}); }; d.expect = [piece](const Str& c, Str& o){ o = c + piece; return true; }; a.edit(*b, d);
					if(b->content.size() != intended.size() - file.size()) end_run(); };
				start(); if(!b) return; int crashes = 0;
				for(int i = 0; i < 50; i++){ Span s; int w = draw(8);
					if(w < 2) feed(1 + draw(jumbo ? 50000 : 120)); else if(w < 6){ size_t f0 = file.size(); Str held = b->content; a.op_write(*b); nontrivial = true;
						if(file.substr(std::min(f0, file.size())) + b->content != held) mismatch("stream.conserve", "before the write %zu bytes were held, now %zu were sent and %zu are held", held.size(), file.size() - f0, b->content.size()); }
					else if(w == 6) sleep_until(now_us + draw(700));
					else if(crash_on && crashes < 3 && !draw(3)){ crashes++; count("fault.crash"); TR("CRASH: buffer lost, file keeps %zu bytes", file.size()); if(whole.compare(0, file.size(), file)) { mismatch("stream.prefix", "at a crash the file is no prefix of the stream"); return; } a.destroy(0); start(); if(!b) return; } }
				f->wfaults = false; size_t bound = (whole.size() - file.size()) + 60, calls = 0;
				if(b->dynamic || b->cap > 0) while(file.size() < whole.size()){ if(++calls > bound * 2){ mismatch("stream.liveness", "after faults stopped %zu calls left the file at %zu of %zu bytes", calls, file.size(), whole.size()); return; } if(b->content.empty()) feed(jumbo ? 20000 : 200); a.op_write(*b); }
				else return;
				if(file != whole) mismatch("stream.final", "file is %s, intended %s", quote(file).c_str(), quote(whole).c_str());
				a.op_write(*b); cover(1000, b->dynamic, crashes, 0);
			}else{                // from views: of plain memory or of a buffer's contents
				Str whole = bytes(chance(1, 40) ? 30000 + draw(70000) : draw(600), draw(3)); intended = whole; char* mem = put(whole, PR, a.task); sv v{mem, (int)whole.size()}; Buf* b = nullptr;
				if(draw(2)){ b = a.create(1); if(!b) return; OpDesc d; d.name = "assign(text)"; d.call = [v](void** x){ return sh_assign(x, v); }; d.expect = [whole](const Str&, Str& o){ o = whole; return true; }; a.edit(*b, d); v = CALL(sh_view(b->var)); if(v.size != (int)whole.size() || (v.size && !readable(v.data, v.size))) end_run(); }
				const char* base = v.data;
				for(int i = 0; i < 40; i++){ Span s; int w = draw(8);
					if(w < 6) view_write_step(a, f, v, whole.substr(file.size())); else if(w == 6) sleep_until(now_us + draw(700));
					else if(crash_on && !draw(3)){ count("fault.crash"); TR("CRASH: view lost, file keeps %zu bytes", file.size()); v.data = base + file.size(); v.size = (int)(whole.size() - file.size()); }
					if((size_t)v.size != whole.size() - file.size()){ mismatch("stream.conserve", "%zu bytes sent, %d still in the view, %zu intended", file.size(), v.size, whole.size()); return; } }
				f->wfaults = false; size_t calls = 0, bound = whole.size() - file.size() + 10;
				while(v.size){ if(++calls > bound){ mismatch("stream.liveness", "after faults stopped %zu view writes left %d bytes", calls, v.size); return; } view_write_step(a, f, v, whole.substr(file.size())); }
				if(file != whole) mismatch("stream.final", "file is %s, intended %s", quote(file).c_str(), quote(whole).c_str());
				sv inv{nullptr, 0}; view_write_step(a, f, inv, ""); f->io = Io(); CALL(sh_view_write(a.fdno, nullptr, 1)); if(f->io.calls) mismatch("io.write.calls", "writing through a null view pointer reached the descriptor");
				if(b){ a.check(*b, whole, "writing a view of it", "write"); } else if(hstr(mem, whole.size()) != whole) mismatch("io.write.data", "writing a view changed the text");
				cover(1001, !!b, whole.size() > 0, 0);
			}
			f->accepted = nullptr; a.finish();
		});
	}
	run_tasks();
}

// ------------------------------------------------------------------ C12: lines from a fragmented stream
struct LineRef { std::vector<Str> lines; size_t rest = 0; char last = 0; };   // rest: offset of the unfinished text; last: terminator still waiting for its other half
static LineRef ref_lines(const Str& s){ LineRef r; size_t i = 0, b = 0; char pend = 0;
	while(i < s.size()){ char c = s[i];
		if(c == '\r' || c == '\n'){ if(pend && pend != c && i == b){ pend = 0; b = ++i; continue; } r.lines.push_back(s.substr(b, i - b)); b = ++i; pend = c; }
		else { i++; pend = 0; } }
	r.rest = b; r.last = b == s.size() ? pend : 0; return r; }
static Str line_stream(){ static const char* term[] = {"\r\n", "\n", "\r", "\n\r"}; Str s; int n = draw(12), mixd = draw(3); int fixed = draw(4); uint64_t st = draw(1 << 16);
	for(int i = 0; i < n; i++){ size_t len = draw(4) ? aux(st) % 12 : 0; if(chance(1, 128)) len = 100 + draw(draw(4) ? 400 : 70000); for(size_t k = 0; k < len; k++) s += "abc ,\"x\0y"[aux(st) % 9]; s += term[mixd ? draw(4) : fixed]; if(mixd == 2 && !draw(3)) s += term[draw(4)]; }
	if(draw(2)) s += Str("tail").substr(0, draw(5)); return s; }
void c12(){
	int K = draw(4) ? 1 : 2; set_preempt(K > 1 ? swarm_preempt() : 0);
	for(int k = 0; k < K; k++){
		Link* L = new_link(); Profile p; p.dyn = 1; p.maxbuf = 1; p.blank = true; Actor* a = add_actor(p);
		go_task(a, [L](Actor& a){
			Str all = line_stream(); L->swarm(); LinkFd* f = use_links(a, L, nullptr); (void)f; nontrivial = all.size() > 0; int style = draw(3); Str arrived; std::vector<Str> got; char* eolp = arena(1, PRW, a.task); hfill(eolp, 1, 0);
			int sc = all.size() > 2000 ? 1 + all.size() / 100 : 1; for(size_t i = 0; i < all.size();){ size_t n = 1 + draw(std::min<size_t>(all.size() - i, (draw(2) ? 3 : 40) * sc)); L->push(all.substr(i, n)); i += n; } L->close();
			TR("stream %s", quote(all, 200).c_str());
			// style 0: growable buffer, remainder assigned back; 1: windows onto contiguous memory that already holds later bytes; 2: each gathering copied to memory of its exact size
			Buf* b = nullptr; char* mem = nullptr; size_t pos = 0; Str carry;
			if(style == 0){ b = a.create(1); if(!b) return; } else if(style == 1) mem = put(all, PR, a.task);
			int idle = 0; bool done = false;
			while(!done){
				Span s; if(++idle > 4000) { mismatch("lines.liveness", "no progress"); return; }
				if(!L->avail() && !L->eof()) sleep_until(L->next_event());
				sv v{nullptr, 0};
				if(L->eof()) done = true;
				if(style == 0){ if(b->cap - (int)b->content.size() < 4){ int n = b->cap + 8 + draw(40 * sc); OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = n; d.call = [n](void** x){ return sh_grow(x, n); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); }
					a.op_read(*b); if(a.fd->io.ret > 0) arrived += a.fd->delivered; v = CALL(sh_view(b->var)); if(v.size && !readable(v.data, v.size)) end_run(); }
				else { Str frag(64 * sc, 0); int err = 0; long r = L->read(&frag[0], 1 + draw(48 * sc), err); if(r > 0){ frag.resize(r); arrived += frag; } else frag.clear();
					if(style == 1){ v.data = mem + pos; v.size = (int)(arrived.size() - pos); } else { carry += frag; v.data = put(carry, PR, a.task); v.size = (int)carry.size(); } }
				const char* base = v.data; size_t hold = v.size; (void)base;
				for(int guard = 0;; guard++){
					if(guard > (int)hold + 2){ mismatch("lines.drain", "splitting %zu bytes produced more than %d lines", hold, guard); return; }
					sv was = v; sv line = CALL(sh_split_line(&v, eolp)); a.trail.push_back(line.size);
					if(!line.data){
						if(v.data != was.data || v.size != was.size) mismatch("lines.unmodified", "no line was found but the source changed from %d to %d bytes", was.size, v.size);
						if(v.size < 0 || v.size > was.size || (v.size && !readable(v.data, v.size))) end_run(); break; }
					if(line.size < 0 || line.size > was.size || line.data < was.data || line.data + line.size > was.data + was.size){ mismatch("lines.range", "a line of %d bytes lies outside its source", line.size); end_run(); }
					if(v.size < 0 || v.size > was.size - line.size - 1){ mismatch("lines.drain", "a line of %d bytes consumed only %d", line.size, was.size - v.size); end_run(); }
					if(v.size && (v.data < was.data || v.data + v.size != was.data + was.size)){ mismatch("lines.range", "the remainder is not the rest of the source"); end_run(); }
					got.push_back(hstr(line.data, line.size)); TR("line %s", quote(got.back()).c_str());
				}
				LineRef ref = ref_lines(arrived);
				if(got != ref.lines){ size_t i = 0; while(i < got.size() && i < ref.lines.size() && got[i] == ref.lines[i]) i++;
					mismatch("lines.sequence", "after %s arrived in pieces, line %zu is %s, expected %s", quote(arrived, 200).c_str(), i, i < got.size() ? quote(got[i]).c_str() : "missing", i < ref.lines.size() ? quote(ref.lines[i]).c_str() : "none"); end_run(); }
				Str left = v.size ? hstr(v.data, v.size) : Str(); 
				if(style == 0){ OpDesc d; d.name = "assign(remaining view)"; sv rv = v; Str l2 = left; d.has_self = true; d.call = [rv](void** x){ return sh_assign(x, rv); }; d.expect = [l2](const Str&, Str& o){ o = l2; return true; }; a.edit(*b, d); if(b->content != left) end_run(); }
				else if(style == 1) pos = arrived.size() - v.size; else carry = left;
				Str want = arrived.substr(ref.rest), l2 = left; if(l2.size() == want.size() + 1 && (l2[0] == '\r' || l2[0] == '\n')) l2.erase(0, 1);
				if(l2 != want){ mismatch("lines.rest", "unfinished text is %s, expected %s", quote(left).c_str(), quote(want).c_str()); end_run(); }
				cover(1200, style, left.size() > 2 ? 2 : left.size(), mix(got.size() > 3 ? 3 : got.size(), ref.last));
			}
			if(style == 1 && hstr(mem, all.size()) != all) mismatch("lines.unmodified", "splitting changed the text");
			a.finish();
		});
	}
	run_tasks();
}

// ------------------------------------------------------------------ reader operations shared by C13 and C14
static uint64_t hv(const char* base, size_t n, sv r){ if(!r.data) return mix(3, r.size); if(r.data < base || r.data > base + n) return mix(5, r.size); return mix(7 + (r.data - base), r.size); }
static void reader_op(Actor& a, const char* base, size_t n, LinkFd* f, void** shared_buf){
	Span s; auto sub = [&]{ int o = draw(n + 1), m = draw(n - o + 1); return sv{base + o, m}; };
	sv x = draw(4) ? sv{base, (int)n} : sub(); sv y = sub(); if(y.size > 6 && draw(3)) y.size = 1 + draw(5); uint64_t r = 0; static const char* dl[] = {",", " ,;", "\n", "x", ""}; char* d = put(dl[draw(5)], PR, a.task, true); int q = draw(2); int op = a.only_reader >= 0 ? a.only_reader : draw(24);
	switch(op){
	case 0: { int c = CALL(sh_compare(x, y)); r = c < 0 ? 1 : c > 0 ? 2 : 3; break; }
	case 1: r = CALL(sh_is_match(x, y)); break; case 2: r = CALL(sh_is_match_nc(x, y)); break;
	case 3: r = CALL(sh_starts(x, y)); break; case 4: r = CALL(sh_starts_nc(x, y)); break;
	case 5: r = !!CALL(sh_contains(x, y)); break; case 6: r = !!CALL(sh_contains_nc(x, y)); break;
	case 7: case 8: { int l = draw(2), nc = draw(2); r = hv(base, n, CALL(sh_find(l, nc, x, y))); break; }
	case 9: { int p = (int)draw(2 * n + 8) - (int)n - 4, e = (int)draw(2 * n + 8) - (int)n - 4; r = hv(base, n, CALL(sh_sub(x, p, e))); break; }
	case 10: { int w = draw(3); r = hv(base, n, CALL(sh_trim_cs(w, x, d))); break; } case 11: { int w = draw(3); r = hv(base, n, CALL(sh_trim(w, x, y))); break; }
	case 12: { sv t = CALL(sh_split_first(&x, d, q)); r = mix(hv(base, n, t), hv(base, n, x)); break; }
	case 13: { sv t = CALL(sh_split_last(&x, d, q)); r = mix(hv(base, n, t), hv(base, n, x)); break; }
	case 14: { sv o[16]; int m = 1 + draw(16); int k = CALL(sh_split_all(m, o, x, d, q)); r = k; for(int i = 0; i < k && i < 16; i++) r = mix(r, hv(base, n, o[i])); break; }
	case 15: { int i = (int)draw(2 * n + 4) - (int)n; sv t = CALL(sh_split_index(&x, i)); r = mix(hv(base, n, t), hv(base, n, x)); break; }
	case 16: { sv t = CALL(sh_split_left(&x, y)); r = mix(hv(base, n, t), hv(base, n, x)); break; }
	case 17: { sv t = CALL(sh_split_right(&x, y)); r = mix(hv(base, n, t), hv(base, n, x)); break; }
	case 18: { char e = 0; sv t = CALL(sh_split_line(&x, draw(2) ? &e : nullptr)); r = mix(mix(hv(base, n, t), hv(base, n, x)), e); break; }
	case 19: r = hv(base, n, CALL(sh_dequote(x))); break;
	case 20: { int t = draw(13); int o = sh_opt(draw(64)); num v; memset(&v, 0, sizeof v); sv src = y; if(draw(2) && n) { src.data = base + draw(n); src.size = (int)std::min<size_t>(draw(24), base + n - src.data); } int e = CALL(sh_strnum(t, &v, &src, o, draw(2))); char buf[64]; if(t == 10) snprintf(buf, 64, "%.9g", v.f); else if(t == 11) snprintf(buf, 64, "%.17g", v.d); else if(t == 12) snprintf(buf, 64, "%.21Lg", v.ld); else snprintf(buf, 64, "%llx", v.u); r = mix(mix(e, std::hash<Str>()(buf)), src.size); break; }
	case 21: { size_t m = draw(40); char* dst = arena(m, PRW, a.task); hfill(dst, m, 0x55); CALL(sh_view_to_cstr(dst, m, y)); r = std::hash<Str>()(hstr(dst, m)); break; }
	case 22: { if(!f){ r = CALL(sh_pop(&x)); break; } sv v = y; f->taken.clear(); f->io = Io(); int ret = CALL(sh_view_write(a.fdno, &v, 0)); r = mix(mix(ret, std::hash<Str>()(f->taken)), v.size ? hv(base, n, v) : 1); break; }
	default: { if(!shared_buf){ r = CALL(sh_is_valid(x)); break; } sv v = CALL(sh_view(shared_buf)); r = mix(v.size, v.data == sh_cstr(*shared_buf)); break; }
	}
	a.trail.push_back(mix(op, r)); a.nops++; TR("reader operation %d gives %016llx", op, (unsigned long long)r);
}
static Str reader_text(){ Str s; int n = chance(1, 32) ? 100 + draw(300) : draw(16); static const char* w[] = {"abc", "12345", " -17 ", "0x1F", "\"q,uo\"", "3.5e2", "Hello, World", "\r\n", "\n", ",", ";x", "aBcAbC", "999999999999", " ", "inf"}; for(int i = 0; i < n; i++) s += w[draw(15)]; return s; }

// ------------------------------------------------------------------ C13 and C14: alone versus interleaved
static void iso_compare(const char* tag, std::vector<std::vector<uint64_t>>& solo, std::vector<std::vector<uint64_t>>& both){
	for(size_t i = 0; i < solo.size(); i++) if(solo[i] != both[i]){ size_t k = 0; while(k < solo[i].size() && k < both[i].size() && solo[i][k] == both[i][k]) k++;
		iso_phase = 0; violate(tag, "task %zu: result %zu of %zu differs from the result it gets alone", i + 1, k, solo[i].size()); } }
void c13(){
	int K = 2 + draw(3), nops = chance(1, 250) ? 150 + draw(400) : 3 + draw(draw(2) ? 10 : 30), mean = is_asan ? 0 : swarm_preempt(); static const uint32_t sp[] = {64, 160, 250, 12}; uint32_t sps = sp[draw(4)]; int kind[4]; uint64_t seed[4]; for(int i = 0; i < K; i++){ seed[i] = draw64(); kind[i] = draw(5); } Str rt = reader_text();
	// one operation done by all tasks, often switched: short windows inside one function are hit much more often
	static const int hots[] = {O_PACK, O_PRINTF, O_PRNF, O_ENCRYPT, O_FETCH, O_READ, O_WRITE, O_CAT, O_INSERT, O_APPEND, O_STRIP, O_ASSIGN, O_GROW, O_N}; int hot = chance(144) ? hots[draw(14)] : -1, only = hot == O_N && draw(4) ? (int)draw(24) : -1; if(hot >= 0 && mean){ static const int hm[] = {40, 12, 3}; mean = hm[draw(3)]; }
	std::vector<std::vector<uint64_t>> tr[2]; tr[0].resize(K); tr[1].resize(K);
	auto body = [&](int i, int phase){
		Profile p; switch(kind[i]){
			case 0: p.edits(4); p.life(2); p.w[O_SHRINK] = p.w[O_GROW] = 3; break;
			case 1: p.edits(2); p.w[O_PRINTF] = 10; p.w[O_PRNF] = 14; p.w[O_GROW] = 2; break;
			case 2: p.edits(2); p.w[O_ENCRYPT] = 8; p.w[O_DECRYPT] = 8; p.w[O_PACK] = 4; break;
			case 3: p.edits(2); p.w[O_FETCH] = 6; p.w[O_READ] = 8; p.w[O_WRITE] = 8; p.w[O_TOCSTR] = 2; break;
			default: p.edits(3); p.life(2); for(int o : {O_SHRINK, O_GROW, O_PRINTF, O_PRNF, O_FETCH, O_READ, O_WRITE, O_PACK, O_ENCRYPT, O_DECRYPT, O_TOCSTR, O_VIEW}) p.w[o] = 2; break; }
		if(hot >= 0 && hot < O_N){ p = Profile(); p.w[hot] = 20; p.w[O_ASSIGN]++; p.w[O_CREATE]++; if(hot == O_ENCRYPT) p.w[O_DECRYPT] = 10; }
		p.fixed = 1; p.dyn = 2; p.big = 80; p.maxbuf = 3; p.p_self = 50; Actor* a = add_actor(p);
		spawn([=, &tr, &rt]{ cur->priv = true; cur->pst = seed[i]; a->init(cur->id); a->only_reader = only; Str mine = rt; uint64_t st = seed[i]; for(auto& c : mine) if(aux(st) % 7 == 0) c = "abc019,\n"[aux(st) % 8];
			char* txt = put(mine, PR, a->task); int parse = hot == O_N ? 2 : hot >= 0 ? 0 : draw(3);
			for(int k = 0; k < nops; k++){ if(parse == 2 || (parse == 1 && draw(2))) reader_op(*a, txt, mine.size(), nullptr, nullptr); else a->op(); }
			a->finish(); tr[phase][i] = a->trail; }, a);
	};
	set_seam_p(0); set_preempt(0); iso_phase = 1;
	for(int i = 0; i < K; i++){ restore_statics(); TR("--- task %d alone", i + 1); body(i, 0); run_tasks(); }
	restore_statics(); set_seam_p(sps); set_preempt(mean); iso_phase = 2; uint64_t s0 = switches; TR("--- %d tasks interleaved", K);
	for(int i = 0; i < K; i++) body(i, 1);
	run_tasks(); iso_phase = 0; nontrivial = switches - s0 > (uint64_t)K + 1;
	iso_compare("isolation.result", tr[0], tr[1]); for(int i = 0; i < K; i++) for(int j = 0; j < i; j++) cover(1300, kind[i] * 8 + kind[j], mean, sps);
}
void c14(){
	int K = 2 + draw(3), nops = chance(1, 250) ? 150 + draw(400) : 4 + draw(30), mean = is_asan ? 0 : swarm_preempt(); static const uint32_t sp[] = {64, 160, 250, 12}; uint32_t sps = sp[draw(4)]; uint64_t seed[4]; for(int i = 0; i < K; i++) seed[i] = draw64(); int only = chance(112) ? (int)draw(24) : -1; if(only >= 0 && mean){ static const int hm[] = {40, 12, 3}; mean = hm[draw(3)]; }
	Str text = reader_text(); std::vector<std::vector<uint64_t>> tr[2]; tr[0].resize(K); tr[1].resize(K);
	// the shared buffer, made once and then read-only for everybody
	void** var = (void**)arena(8, PRW, 0); *var = nullptr; Alloc* al = new_alloc(0); bool plain = draw(2); char* mem = plain ? put(text, PRW, 0) : nullptr;
	spawn([&]{ char* t = put(text, PR, 0); *var = CALL(sh_create_view(sv{t, (int)text.size()}, al->token, 1)); }); run_tasks();
	const Block* k = find_block(*var); if(!k || sh_size(*var) != (int)text.size()) return;
	size_t bsz = k->size; const char* base = plain ? mem : sh_cstr(*var); setperm(*var, bsz, PR, 0); setperm(var, 8, PR, 0); if(plain) setperm(mem, text.size(), PR, 0);
	Str image = hstr(*var, bsz);
	auto intact = [&]{ if(hstr(base, text.size()) != text || hstr(*var, bsz) != image) mismatch("readers.modified", "the shared text changed"); };
	auto body = [&](int i, int phase){ Profile p; p.p_iofault = 40; Actor* a = add_actor(p);
		spawn([=, &tr, &intact]{ cur->priv = true; cur->pst = seed[i]; a->init(cur->id); a->only_reader = only; LinkFd* f = use_links(*a, nullptr, nullptr); f->p_werr = 30; f->timed = false; for(int j = 0; j < nops; j++){ reader_op(*a, base, text.size(), f, var); intact(); } tr[phase][i] = a->trail; }, a); };
	set_seam_p(0); set_preempt(0);
	for(int i = 0; i < K; i++){ restore_statics(); TR("--- reader %d alone", i + 1); body(i, 0); run_tasks(); }
	restore_statics(); set_seam_p(sps); set_preempt(mean); uint64_t s0 = switches; TR("--- %d readers interleaved", K);
	for(int i = 0; i < K; i++) body(i, 1);
	run_tasks(); nontrivial = switches - s0 > (uint64_t)K + 1 && text.size(); intact();
	iso_compare("readers.result", tr[0], tr[1]); cover(1400, mean, sps, plain);
}

// ------------------------------------------------------------------ C15 and C16: ciphertext between peers and storage
static void put_content(Actor& a, Buf& b, const Str& s){ char* m = put(s, PR, a.task); OpDesc d; d.name = "assign(" + quote(s, 20) + ")"; d.call = [m, s](void** v){ return sh_assign(v, sv{m, (int)s.size()}); }; d.expect = [s](const Str&, Str& o){ o = s; return true; }; a.edit(b, d); if(b.content != s && !(!b.dynamic && (int)s.size() > b.cap)) end_run(); }
static Buf* fixed_with_cap(Actor& a, int cap){ Buf* b = new Buf; b->id = a.nextid++; b->var = (void**)arena(8, PRW, a.task); size_t n = sh_hdr() + 1 + cap; b->mem = arena(n, PRW, a.task, 16); hfill(b->mem, n, 0xA5); b->memsz = n; *b->var = CALL(sh_create_fixed(b->mem, n)); if(!*b->var || sh_cap(*b->var) != cap){ delete b; end_run(); } b->cap = cap; a.bufs.push_back(b); TR("b%d = fixed buffer of capacity %d", b->id, cap); return b; }
struct Keys { Str key, iv; uint8_t *k, *v; Keys(Actor& a){ uint64_t st = draw(1 << 16) + 1; key.assign(32, 0); iv.assign(16, 0); for(auto& c : key) c = (char)aux(st); for(auto& c : iv) c = (char)aux(st); k = (uint8_t*)put(key, PR, a.task); v = (uint8_t*)put(iv, PR, a.task); }
	const uint8_t* ck() const { return (const uint8_t*)key.data(); } const uint8_t* cv() const { return (const uint8_t*)iv.data(); } };
static void crypt_op(Actor& a, Buf& b, const Keys& K, bool enc){
	OpDesc d; d.cls = enc ? "crypt" : "decrypt"; d.force_alloc_ok = true; d.capexact = false; d.name = enc ? "encrypt()" : "decrypt()"; uint8_t *k = K.k, *v = K.v; Str key = K.key, iv = K.iv;
	if(enc){ d.keep_on_nofit = true; d.call = [=](void** x){ return sh_encrypt(x, k, v); }; d.expect = [key, iv](const Str& c, Str& o){ o = ref_encrypt(c, (const uint8_t*)key.data(), (const uint8_t*)iv.data()); return true; }; }
	else { d.invalid_on_fail = true; d.call = [=](void** x){ return sh_decrypt(x, k, v); }; d.expect = [key, iv](const Str& c, Str& o){ return ref_decrypt(c, (const uint8_t*)key.data(), (const uint8_t*)iv.data(), o); }; }
	a.edit(b, d);
}
static size_t crypt_jumbo(){ count("runs_jumbo"); return (draw(2) ? 32700 : 65470) + draw(110); }   // around the ends of 16-bit counts
static size_t crypt_len(){ if(is_asan && chance(1, 30000)){ count("runs_jumbo"); return 524200 + draw(200); } if(chance(1, 3000)) return crypt_jumbo(); switch(draw(5)){ case 0: return 16 * draw(8); case 1: return 16 * draw(8) + 15; case 2: return draw(3); case 3: return draw(120); default: return chance(2, 64) ? 3900 + draw(1200) : draw(700); } }
static Str through_storage(Actor& a, const Str& data, Buf* from){   // written to a simulated file with faults, read back by another buffer
	Link L; L.swarm(); LinkFd* f = use_links(a, &L, &L); f->p_werr = draw(2) ? 60 : 0; f->wshort = 160;
	int g = 0; while(!from->content.empty() && g++ < 3000){ a.op_write(*from); if(g > 40) f->wfaults = false; if(f->wready > now_us) sleep_until(f->wready); } L.close();
	a.pr.blank = true; Buf* to = a.create(1); a.pr.blank = false; if(!to) end_run(); g = 0; L.faults = draw(2);
	while(g++ < 3000){ if(to->cap - (int)to->content.size() < 1){ int n = to->cap + 1 + draw(200); OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = n; d.call = [n](void** x){ return sh_grow(x, n); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*to, d); }
		if(!L.avail() && !L.eof()) sleep_until(L.next_event()); if(g > 300) L.faults = false; a.op_read(*to); if(a.fd->io.ret == 0 && L.eof()) break; }
	Str r = to->content; f->in = f->out = nullptr; a.destroy(std::find(a.bufs.begin(), a.bufs.end(), to) - a.bufs.begin()); (void)data; return r;
}
void c15(){
	Profile p; p.edits(2); p.w[O_SHRINK] = p.w[O_GROW] = 2; p.dyn = 1; p.maxbuf = 3; p.big = 80; Actor* a = add_actor(p);
	go_task(a, [](Actor& a){
		int rounds = 1 + draw(5);
		for(int i = 0; i < rounds; i++){
			Span s; Keys K(a); Str plain = bytes(crypt_len(), draw(3)); bool dyn = draw(3); size_t padded = plain.size() / 16 * 16 + 16; nontrivial = true;
			int room = 0; Buf* b = dyn ? a.create(1) : fixed_with_cap(a, room = std::max<int>((int)plain.size(), (draw(3) ? (int)padded + (draw(2) ? 0 : (int)draw(40)) : (int)padded - 1 - (int)draw(15)))); if(!b) return;
			put_content(a, *b, plain); if(dyn && !draw(3)){ OpDesc d; d.name = "shrink()"; d.cls = "cap"; d.grow_to = -2; d.force_alloc_ok = true; d.call = [](void** v){ return sh_shrink(v); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); }
			bool fits = dyn || (int)padded <= b->cap; int how = draw(3); cover(1500, dyn * 2 + fits, how, plain.size() % 16);
			Str cipher = ref_encrypt(plain, K.ck(), K.cv());
			if(how != 1){ // library encrypts; the peer decrypts what is in the buffer (and what comes back from storage)
				crypt_op(a, *b, K, true); if(!fits) continue;
				Str back; if(!ref_decrypt(b->content, K.ck(), K.cv(), back) || back != plain){ mismatch("crypt.peer", "an independent implementation decrypts the result to %s, not %s", quote(back).c_str(), quote(plain).c_str()); end_run(); }
				if(plain.size() < 9000 && draw(3) == 0){ Str stored = b->content; Str r = through_storage(a, stored, b); if(r != stored) end_run(); put_content(a, *b, r); }
			}else { // the peer encrypts
				if(!fits) continue; put_content(a, *b, cipher); }
			if(how != 2 || draw(2)){ crypt_op(a, *b, K, false); if(b->content != plain) mismatch("crypt.roundtrip", "decrypting gives %s, not the original %s", quote(b->content).c_str(), quote(plain).c_str()); }
			if(hstr(K.k, 32) != K.key || hstr(K.v, 16) != K.iv) mismatch("crypt.keys", "key or initial vector changed");
			if(draw(2)) a.op();
			if(a.bufs.size() > 3) a.destroy(0);
		}
		a.finish();
	});
	run_tasks();
}
void c16(){
	Profile p; p.edits(3); p.w[O_SHRINK] = p.w[O_GROW] = 2; p.dyn = 1; p.maxbuf = 3; p.big = 60; Actor* a = add_actor(p);
	go_task(a, [](Actor& a){
		int rounds = 1 + draw(6);
		for(int i = 0; i < rounds; i++){
			Span s; Keys K(a); Str plain = bytes(chance(1, 4000) ? crypt_jumbo() : chance(1, 64) ? crypt_len() : crypt_len() % 200, draw(3)); Str c = ref_encrypt(plain, K.ck(), K.cv()); int nd = 1 + draw(3); nontrivial = true;
			for(int j = 0; j < nd; j++){ Span sp; int kind = draw(10); uint64_t st = draw(1 << 16);
				switch(kind){
				case 0: c.resize(c.empty() ? 0 : draw(c.size())); count("fault.truncate"); break;
				case 1: c.resize(c.size() / 16 * 16 >= 16 ? 16 * draw(c.size() / 16) : 0); count("fault.truncate_blocks"); break;
				case 2: c += bytes(1 + draw(40), 2); count("fault.extend"); break;
				case 3: if(!c.empty()){ int k = 1 + draw(3); while(k--) c[draw(c.size())] ^= 1 << draw(8); count("fault.bit_flip"); } break;
				case 4: if(c.size() >= 16){ size_t o = 16 * draw(c.size() / 16); for(int k = 0; k < 16; k++) c[o + k] = 0; count("fault.torn_block"); } break;
				case 5: c = bytes(draw(100), 2); count("fault.never_encrypted"); break;
				case 6: { int v = draw(256), len = 1 + draw(17); Str pl = bytes(16 * (1 + draw(4)), 2); for(int k = 0; k < len && k < (int)pl.size(); k++) pl[pl.size() - 1 - k] = (char)v; c = ref_raw_encrypt(pl, K.ck(), K.cv()); count("fault.forged_padding"); break; }
				case 7: { static const int v[] = {0, 1, 15, 16, 17, 255, 128, 32}; Str pl = bytes(16 * (1 + draw(3)), 2); int x = v[draw(8)], w = draw(3); for(int k = 0; k < (w == 0 ? 1 : w == 1 ? std::max(1, x - 1) : x) && k < (int)pl.size(); k++) pl[pl.size() - 1 - k] = (char)x; c = ref_raw_encrypt(pl, K.ck(), K.cv()); count("fault.forged_padding"); break; }
				case 8: c.clear(); count("fault.empty"); break;
				default: c.resize(c.size() / 16 * 16); if(aux(st) & 1) std::reverse(c.begin(), c.end()); count("fault.reorder"); break; } }
			bool dyn = draw(3); Buf* b = dyn ? a.create(1) : fixed_with_cap(a, (int)c.size() + (draw(2) ? 0 : (int)draw(30))); if(!b) return;
			put_content(a, *b, c); if(dyn && draw(2)){ OpDesc d; d.name = "shrink()"; d.cls = "cap"; d.grow_to = -2; d.force_alloc_ok = true; d.call = [](void** v){ return sh_shrink(v); }; d.expect = [](const Str& x, Str& o){ o = x; return true; }; a.edit(*b, d); }
			TR("damaged ciphertext of %zu bytes", c.size()); size_t in = c.size(); Str pl; bool ok = ref_decrypt(c, K.ck(), K.cv(), pl); cover(1600, dyn, ok, in % 16 + (in ? 1 : 0));
			crypt_op(a, *b, K, false); if(b->content.size() > in) mismatch("damage.size", "decrypting %zu bytes yields %zu", in, b->content.size());
			if(draw(2)) a.op(); { Str t = bytes(draw(6), 0); if(b->dynamic || (int)(b->content.size() + t.size()) <= b->cap){ Str want = b->content + t; char* m = put(t, PR, a.task); OpDesc d; d.name = "append"; d.call = [m, t](void** v){ return sh_append(v, sv{m, (int)t.size()}); }; d.expect = [t](const Str& x, Str& o){ o = x + t; return true; }; a.edit(*b, d); if(b->content != want) mismatch("damage.usable", "the buffer is not usable after decrypting damaged data"); } }
			if(a.bufs.size() > 3) a.destroy(0);
		}
		a.finish();
	});
	run_tasks();
}

// ------------------------------------------------------------------ C17: packed integers over a stream
Str pack_bytes(int kind, int be, uint64_t v);
static uint64_t as_kind(int kind, uint64_t v){ switch(kind){ case 0: return (uint8_t)v; case 1: return (uint64_t)(int64_t)(int8_t)v; case 2: return (uint16_t)v; case 3: return (uint64_t)(int64_t)(int16_t)v; case 4: return (uint32_t)v; case 5: return (uint64_t)(int64_t)(int32_t)v; default: return v; } }
static void long_stream(Actor& a){   // integers at the ends of contents around the ends of 16-bit counts
	static const int w[] = {1,1,2,2,4,4,8,8}; count("runs_jumbo"); Buf* b = a.create(1); if(!b) return; size_t n = (draw(2) ? 32700 : 65470) + draw(110); Str head; struct It { int kind, be; uint64_t v; }; std::vector<It> in, out;
	for(int i = 1 + draw(12); i--;){ It x{(int)draw(8), (int)draw(2), draw64()}; in.push_back(x); head += pack_bytes(x.kind, x.be, x.v); }
	Str body = head + bytes(n - head.size(), 2); put_content(a, *b, body);
	for(int i = 1 + draw(12); i--;){ It x{(int)draw(8), (int)draw(2), draw64()}; out.push_back(x); Str by = pack_bytes(x.kind, x.be, x.v); OpDesc d; d.name = "pack"; d.cls = "pack"; d.check_view = false; d.call = [x](void** v){ sh_pack(v, x.kind, x.be, x.v); return sv{nullptr, 0}; }; d.expect = [by](const Str& c, Str& o){ o = c + by; return true; }; a.edit(*b, d); body += by; if(b->content != body) end_run(); }
	auto take = [&](sv& v, const It& x, const char* where){ int sz = v.size; uint64_t r = CALL(sh_unpack(&v, x.kind, x.be)), want = as_kind(x.kind, x.v); TR("unpack kind %d %s = %llx, %d left", x.kind, x.be ? "BE" : "LE", (unsigned long long)r, v.size); if(r != want) mismatch("pack.value", "an integer (kind %d) at the %s of %zu bytes arrives as %llx, sent %llx", x.kind, where, body.size(), (unsigned long long)r, (unsigned long long)want); if(v.size != sz - w[x.kind]){ mismatch("pack.width", "unpacking kind %d at the %s of %d bytes left %d", x.kind, where, sz, v.size); end_run(); } };
	sv v = CALL(sh_view(b->var)); if(v.size != (int)body.size()) end_run(); for(auto& x : in) take(v, x, "start");
	v = sv{sh_cstr(*b->var) + n, (int)(body.size() - n)}; for(auto& x : out) take(v, x, "end"); cover(1702, n > 40000); nontrivial = true; a.finish();
}
void c17(){
	if(chance(1, 700)){ Profile p; p.dyn = 1; p.maxbuf = 1; p.blank = true; Actor* A = add_actor(p); go_task(A, long_stream); run_tasks(); return; }
	Link* L = new_link(); struct Item { int kind, be; uint64_t v; }; std::vector<Item> items; int n = draw(25); set_preempt(swarm_preempt());
	for(int i = 0; i < n; i++){ Span s; static const uint64_t sp[] = {0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0x0102030405060708ull, ~0ull, 0x8000000000000000ull}; items.push_back({(int)draw(8), (int)draw(2), draw(2) ? draw64() : sp[draw(12)]}); }
	nontrivial = n > 0; L->swarm(); Str wire; for(auto& it : items) wire += pack_bytes(it.kind, it.be, it.v); Str sentbytes; bool finished = false;
	Profile p; p.dyn = 1; p.maxbuf = 1; p.blank = true; Actor *A = add_actor(p), *B = add_actor(p);
	go_task(A, [&](Actor& a){ LinkFd* f = use_links(a, nullptr, L); f->p_werr = draw(2) ? 50 : 0; bool fx = draw(3) == 0; Buf* b = fx ? fixed_with_cap(a, 8 + draw(60)) : a.create(1); if(!b) return; int g = 0;
		f->accepted = [&](const Str& d){ sentbytes += d; };
		auto drain = [&](bool all){ int k = 0; while(!b->content.empty() && k++ < 2000){ if(k > 60) f->wfaults = false; if(f->wready > now_us) sleep_until(f->wready); a.op_write(*b); if(!all) break; } };
		for(auto& it : items){ Span s; Str by = pack_bytes(it.kind, it.be, it.v); if(fx && (int)(b->content.size() + by.size()) > b->cap) drain(true); if(fx && (int)(b->content.size() + by.size()) > b->cap) end_run();
			OpDesc d; char nm[64]; snprintf(nm, sizeof nm, "pack%s kind %d", it.be ? "BE" : "LE", it.kind); d.name = nm; d.cls = "pack"; d.check_view = false; Item x = it; int form = chance(96) ? 1 + (int)draw(SH_PACK_FORMS - 1) : 0, uses = 0x11; if(form == SH_PACK_OWN){ if(b->content.size() < 8) form = 0; else { memcpy(&it.v, b->content.data(), 8); x.v = it.v; by = pack_bytes(it.kind, it.be, it.v); wire.clear(); for(auto& k : items) wire += pack_bytes(k.kind, k.be, k.v); } }
			if(form){ snprintf(nm, sizeof nm, "pack%s kind %d, spelling %d", it.be ? "BE" : "LE", it.kind, form); d.name = nm; }
			d.call = [x, form, &uses](void** v){ if(form) uses = sh_pack_form(v, x.kind, x.be, x.v, form); else sh_pack(v, x.kind, x.be, x.v); return sv{nullptr, 0}; }; d.expect = [by](const Str& c, Str& o){ o = c + by; return true; }; a.edit(*b, d); cover(1700, it.kind, it.be, fx); if(form) cover(1703, form, it.kind, it.be);
			if(uses != 0x11) mismatch("pack.uses", "%s evaluates its source %d times and its destination %d times", nm, uses >> 4, uses & 15);
			if(draw(3) == 0) drain(false); g++; }
		drain(true); if(sentbytes != wire) mismatch("pack.wire", "the stream carries %s, expected %s", quote(sentbytes, 100).c_str(), quote(wire, 100).c_str()); L->close(); f->accepted = nullptr; a.finish(); });
	go_task(B, [&](Actor& a){ LinkFd* f = use_links(a, L, nullptr); (void)f; Buf* b = a.create(1); if(!b) return; size_t i = 0; int g = 0;
		while(i < items.size()){
			Span s; if(++g > 20000){ return; } if(g > 4000) L->faults = false;
			static const int w[] = {1,1,2,2,4,4,8,8};
			if(b->cap - (int)b->content.size() < 8){ int m = b->cap + 8 + draw(30); OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = m; d.call = [m](void** x){ return sh_grow(x, m); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); }
			bool ended = L->eof(); if(!L->avail() && !ended) sleep_until(L->q.empty() ? now_us + 20 : L->next_event());
			a.op_read(*b); if(a.fd->io.ret < 0) sleep_until(now_us + 5);
			sv v = CALL(sh_view(b->var)); if(v.size && !readable(v.data, v.size)) end_run(); sv v0 = v; size_t used = 0;
			// take the packed integers either where they lie or from an exact copy at an odd address
			bool copy = draw(2); if(copy){ v.data = put(hstr(v0.data, v0.size), PR, a.task); }
			while(i < items.size() && v.size >= w[items[i].kind] && (ended || draw(8))){ int sz = v.size, uf = chance(96) ? 1 + (int)draw(SH_UNPACK_FORMS - 1) : 0; uint64_t r = uf ? CALL(sh_unpack_form(&v, items[i].kind, items[i].be, uf)) : CALL(sh_unpack(&v, items[i].kind, items[i].be)); uint64_t want = as_kind(items[i].kind, items[i].v); TR("unpack kind %d %s = %llx", items[i].kind, items[i].be ? "BE" : "LE", (unsigned long long)r); cover(1701, items[i].kind, items[i].be, copy);
				if(r != want){ mismatch("pack.value", "integer %zu (kind %d, %s) arrives as %llx, sent %llx", i, items[i].kind, items[i].be ? "BE" : "LE", (unsigned long long)r, (unsigned long long)want); }
				if(v.size != sz - w[items[i].kind]){ mismatch("pack.width", "unpacking kind %d consumed %d bytes", items[i].kind, sz - v.size); end_run(); } used += w[items[i].kind]; i++; }
			Str left = b->content.substr(used); size_t u = used; { OpDesc d; d.name = "assign(rest)"; d.has_self = true; d.call = [u](void** x){ sv q{sh_cstr(*x) + u, sh_size(*x) - (int)u}; return sh_assign(x, q); }; d.expect = [left](const Str&, Str& o){ o = left; return true; }; a.edit(*b, d); }
			if(b->content != left) end_run();
			if(ended && !u) break;
		}
		if(i == items.size()) finished = true; else mismatch("pack.lost", "only %zu of %zu integers arrived", i, items.size());
		a.finish(); });
	run_tasks(); (void)finished;
}

// ------------------------------------------------------------------ C18: text records over a damaging stream
struct NumRef { int verdict; int err; long used; __int128 i; long double f; bool nan = false; };  // verdict: 0 refused, 1 accepted, 2 unspecified, 3 accepted with any value or refused out of range
static NumRef ref_int(const Str& s, int type, int m){
	static const __int128 hi[] = {UCHAR_MAX, USHRT_MAX, UINT_MAX, ULONG_MAX, ULLONG_MAX, CHAR_MAX, SHRT_MAX, INT_MAX, LONG_MAX, LLONG_MAX}; static const __int128 lo[] = {0, 0, 0, 0, 0, CHAR_MIN, SHRT_MIN, INT_MIN, LONG_MIN, LLONG_MIN};
	NumRef r{0, EINVAL, 0, 0, 0}; size_t i = 0; if(!(m & SH_NOSPACE)) while(i < s.size() && s[i] == ' ') i++; bool neg = false;
	if(type >= 5 && !(m & SH_NOSIGN) && i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	int base = m & SH_BIN ? 2 : m & SH_HEX ? 16 : 10; auto dig = [&](size_t k){ if(k >= s.size()) return -1; unsigned char c = s[k]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; return d < base ? d : -1; };
	if(!(m & SH_NOBX) && i + 1 < s.size() && s[i] == '0'){ char c = s[i + 1] | 0x20; bool hx = (s[i + 1] == 'x' || s[i + 1] == 'X'), bn = (s[i + 1] == 'b' || s[i + 1] == 'B'); (void)c;
		if((bn && !(m & SH_HEX)) || (hx && !(m & SH_BIN))){ int b0 = base; base = bn ? 2 : 16; if(dig(i + 2) < 0){ r.verdict = 2; return r; } (void)b0; i += 2; } }
	size_t st = i; __int128 v = 0; bool over = false; while(dig(i) >= 0){ v = v * base + dig(i); if(v > ((__int128)1 << 70)){ over = true; v = (__int128)1 << 70; } i++; }
	if(i == st) return r; if(neg) v = -v; if(over || v > hi[type] || v < lo[type]){ r.err = ERANGE; return r; } r.verdict = 1; r.err = 0; r.used = i; r.i = v; return r; }
static NumRef ref_float(const Str& s, int type, int m){
	NumRef r{0, EINVAL, 0, 0, 0}; size_t i = 0; if(!(m & SH_NOSPACE)) while(i < s.size() && s[i] == ' ') i++; bool neg = false; size_t b = i; if(!(m & SH_NOSIGN) && i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	auto word = [&](const char* w){ size_t n = strlen(w); if(s.size() - i < n) return false; for(size_t k = 0; k < n; k++) if((s[i + k] | 0x20) != w[k] || !isalpha((unsigned char)s[i + k])) return false; return true; };
	if(word("infinity")){ r = {1, 0, (long)i + 8, 0, neg ? -HUGE_VALL : HUGE_VALL}; return r; } if(word("inf")){ r = {1, 0, (long)i + 3, 0, neg ? -HUGE_VALL : HUGE_VALL}; return r; } if(word("nan")){ r = {1, 0, (long)i + 3, 0, 0}; r.nan = true; return r; }
	size_t d0 = i; while(i < s.size() && isdigit((unsigned char)s[i])) i++; size_t nd = i - d0; if(i < s.size() && s[i] == '.'){ size_t q = ++i; while(i < s.size() && isdigit((unsigned char)s[i])) i++; nd += i - q; } if(!nd) return r;
	long ex = 0; bool wild = false; if(!(m & SH_NOEXP) && i < s.size() && (s[i] == 'e' || s[i] == 'E')){ size_t j = i + 1; bool en = false; if(j < s.size() && (s[j] == '-' || s[j] == '+')) en = s[j++] == '-'; size_t q = j; while(j < s.size() && isdigit((unsigned char)s[j])){ if(ex < 100000000) ex = ex * 10 + (s[j] - '0'); j++; } if(j > q){ i = j; if(en) ex = -ex; } if(ex > 100000 || ex < -100000) wild = true; }
	bool zero = true; for(size_t k = d0; k < i && (s[k] == '.' || isdigit((unsigned char)s[k])); k++) if(s[k] != '0' && s[k] != '.') zero = false;
	if(wild && ex > 0 && !zero && i - d0 < 20000){ r.err = ERANGE; return r; }   // surely too large
	if(wild){ r.verdict = 2; return r; }
	Str t = s.substr(b, i - b); r.used = i; r.f = strtold(t.c_str(), nullptr); long double mx = type == 10 ? FLT_MAX : type == 11 ? DBL_MAX : LDBL_MAX; long double av = fabsl(r.f);
	if(av > mx * 0.99L){ if(av > mx * 1.001L || std::isinf(av)){ r.verdict = 0; r.err = ERANGE; } else r.verdict = 2; return r; } r.verdict = 1; r.err = 0; return r; }

static void check_number(Actor& a, const char* data, int size, int type, int mask, bool copy){
	Str txt = hstr(data, size); NumRef ref = type >= 10 ? ref_float(txt, type, mask) : ref_int(txt, type, mask); num out, was; memset(&out, 0, sizeof out); uint64_t pat = 0; bool isf = type >= 10;
	if(!isf){ static const int bits[] = {8, 16, 32, 64, 64, 8, 16, 32, 64, 64}; pat = 0x5A5A5A5A5A5A5A5Aull & (bits[type] == 64 ? ~0ull : (1ull << bits[type]) - 1); out.u = pat; } else if(type == 10) out.f = 123.5f; else if(type == 11) out.d = -77.25; else out.ld = 9.5L; was = out;
	sv v{copy ? put(txt, PR, a.task) : data, size}; sv v0 = v; int via = draw(2); int e = CALL(sh_strnum(type, &out, &v, sh_opt(mask), via)); a.trail.push_back(e); nontrivial = true; cover(mix(1800, type), mask, ref.verdict * 4 + (e == 0), ref.err);
	TR("parse %s as type %d options %02x: error %d", quote(txt).c_str(), type, mask, e);
	auto same = [&]{ return type == 10 ? out.f == was.f : type == 11 ? out.d == was.d : type == 12 ? out.ld == was.ld : out.u == was.u; };
	const char* tn[] = {"uchar", "ushort", "uint", "ulong", "ullong", "char", "short", "int", "long", "llong", "float", "double", "ldouble"};
	if(e){
		if(v.data != v0.data || v.size != v0.size) mismatch("records.refused_source", "refused %s %s but the source view changed", tn[type], quote(txt).c_str());
		if(!same()) mismatch("records.refused_dest", "refused %s %s but the destination changed", tn[type], quote(txt).c_str());
		if(ref.verdict == 1) mismatch("records.refused", "%s %s is refused (error %d) with options %02x", tn[type], quote(txt).c_str(), e, mask);
		if(ref.verdict == 0 && e != ref.err) mismatch("records.error", "%s %s: error %d, expected %d", tn[type], quote(txt).c_str(), e, ref.err);
	}else{
		if(ref.verdict == 0) mismatch("records.accepted", "%s %s is accepted with options %02x although %s", tn[type], quote(txt).c_str(), mask, ref.err == ERANGE ? "out of range" : "malformed");
		long used = size - v.size; if(v.size < 0 || v.size > size || (v.size && v.data != v0.data + used)){ mismatch("records.consumed", "%s %s leaves a view that is not its rest", tn[type], quote(txt).c_str()); return; }
		if(ref.verdict == 1){
			if(used != ref.used) mismatch("records.consumed", "%s %s: %ld characters consumed, expected %ld", tn[type], quote(txt).c_str(), used, ref.used);
			if(!isf){ __int128 g = type >= 5 ? (__int128)out.s : (__int128)out.u; if(g != ref.i) mismatch("records.value", "%s %s parsed as %lld, expected %lld", tn[type], quote(txt).c_str(), (long long)g, (long long)ref.i); }
			else { long double g = type == 10 ? (long double)out.f : type == 11 ? (long double)out.d : out.ld; static const long double tol[] = {2e-5L, 1e-12L, 1e-15L}, mn[] = {FLT_MIN, DBL_MIN, LDBL_MIN};
				bool ok = ref.nan ? g != g : std::isinf(ref.f) ? g == ref.f : fabsl(g - ref.f) <= fabsl(ref.f) * tol[type - 10] + mn[type - 10]; if(!ok) mismatch("records.value", "%s %s parsed as %.20Lg, expected %.20Lg", tn[type], quote(txt).c_str(), g, ref.f); }
		}
	}
	// without a destination the same characters are consumed or refused; without a source everything is refused
	if(ref.verdict != 2 && draw(8) == 0){ int what = 1 + draw(3); sv w = v0; num o3 = was; int e3 = CALL(sh_strnum_missing(type, &o3, what & 1 ? nullptr : &w, sh_opt(mask), what)); TR("parse %s as type %d without %s: error %d", quote(txt).c_str(), type, what == 2 ? "destination" : "source", e3);
		if(what & 1 ? e3 != EINVAL : e3 != e) mismatch("records.missing", "%s %s without a %s: error %d, expected %d", tn[type], quote(txt).c_str(), what == 2 ? "destination" : "source", e3, what & 1 ? EINVAL : e);
		if(what == 2 && (w.size != v.size || (w.size && w.data != v.data))) mismatch("records.missing", "%s %s without a destination leaves %d characters, expected %d", tn[type], quote(txt).c_str(), w.size, v.size);
		if(memcmp(&o3, &was, type == 12 ? 10 : 8)) mismatch("records.missing", "%s %s without a %s changed another object", tn[type], quote(txt).c_str(), what == 2 ? "destination" : "source"); }
	// the value-returning form gives the same value, or the caller's default when refused
	if(ref.verdict != 2 && draw(3) == 0){ num dv, o2; memset(&dv, 0, sizeof dv); memset(&o2, 0, sizeof o2); bool wide = draw(2); static const int bits[] = {8, 16, 32, 64, 64, 8, 16, 32, 64, 64}; float df = wide ? 3.3e38f : 5.5f; double dd = wide ? -1.7e308 : 5.5; long double dl = wide ? 1.1e4932L : 5.5L; long long ds = 55; if(wide && type < 10){ int sh = 64 - bits[type]; uint64_t r = draw64(); ds = type >= 5 ? (long long)(r << sh) >> sh : (long long)(r << sh >> sh); }
		if(type == 10) dv.f = df; else if(type == 11) dv.d = dd; else if(type == 12) dv.ld = dl; else dv.s = ds; int which = type; if(type < 10 && draw(2)){ static const int al[] = {13, 14, 15, 16, 16, 17, 18, 19, 20, 20}; which = al[type]; } CALLV(sh_strnum_val(which, &o2, v0, dv, sh_opt(mask)));
		bool eq = e ? (type == 10 ? o2.f == df : type == 11 ? o2.d == dd : type == 12 ? o2.ld == dl : o2.s == ds) : (ref.nan || (type == 10 ? o2.f == out.f : type == 11 ? o2.d == out.d : type == 12 ? o2.ld == out.ld : type >= 5 ? o2.s == out.s : o2.u == out.u)); if(!eq) mismatch("records.default", "value form of %s %s disagrees with the consuming form", tn[type], quote(txt).c_str()); }
}
// a number in, or at the start of, far more text than any number needs: lengths around the ends of 16-bit counts
static void check_long_number(Actor& a, const Str& field, int type, int mask){
	size_t n = (draw(2) ? 32700 : 65470) + draw(130); Str t = field; static const char* fill[] = {" ", "x", "9", "0", ",", "e", "-", ".", "f", "1"}; Str f = fill[draw(10)]; count("runs_jumbo");
	switch(draw(type < 10 ? 4 : 6)){
	case 0: case 1: { size_t k = 1 + draw(4); while(t.size() < n) t += draw(k) ? f : Str(fill[draw(10)]); if(draw(2)) t.insert(field.size(), draw(2) ? " " : ","); break; }
	case 2: t.insert(0, Str(n, ' ')); break;
	case 3: { size_t i = t.find_first_of("0123456789"); if(i == Str::npos) return; t.insert(i, Str(n, '0')); break; }
	case 4: { size_t i = t.find('.'); if(i == Str::npos) return; t.insert(i + 1, Str(n, '0')); if(t.find_first_of("eE") == Str::npos) t += "e" + std::to_string(n + draw(5)); break; }
	default: { size_t i = t.find_first_of("eE."); if(i == Str::npos) i = t.find_last_of("0123456789"), i = i == Str::npos ? 0 : i + 1; t.insert(i, Str(n, (char)('0' + draw(10)))); if(t.find_first_of("eE") == Str::npos) t += "e-" + std::to_string(n + draw(5)); break; } }
	check_number(a, t.data(), t.size(), type, mask, true); }
static std::vector<Str> ref_fields(const Str& line, const Str& delims, bool quoted){ std::vector<Str> o; Str c; bool q = false; for(char ch : line){ if(quoted && ch == '"') q = !q; if(!q && delims.find(ch) != Str::npos){ o.push_back(c); c.clear(); } else c += ch; } o.push_back(c); return o; }
void c18(){
	set_preempt(swarm_preempt()); Link* L = new_link(); static const char* dls[] = {",", ";", "|", "\t"}; Str delim = dls[draw(4)]; int nf = 1 + draw(6); struct Fld { int type; int mask; int how; }; std::vector<Fld> schema; bool allow_text = draw(4);
	for(int i = 0; i < nf; i++){ Span s; Fld f; f.type = draw(allow_text ? 16 : 13); f.how = draw(6); f.mask = draw(3) ? 0 : draw(64); schema.push_back(f); } int p_damage = draw(2) ? 0 : (draw(2) ? 10 : 60); int nrec = 1 + draw(7); int termmix = draw(3), term = draw(4);
	std::vector<std::vector<Str>> sent; Str intended; bool sender_done = false; bool damaged = false; L->swarm();
	Profile p; p.dyn = 1; p.maxbuf = 1; p.blank = true; Actor *A = add_actor(p), *B = add_actor(p);
	go_task(A, [&](Actor& a){
		LinkFd* f = use_links(a, nullptr, nullptr); f->p_werr = draw(2) ? 40 : 0; Buf* b = a.create(1); if(!b) return; static const char* term_s[] = {"\n", "\r\n", "\r", "\n\r"};
		f->accepted = [&](const Str& d){ Str e; for(char c : d){ if(p_damage && !draw(256 / p_damage * 4)){ damaged = true; count("fault.damage"); switch(draw(5)){ case 0: e += (char)(c ^ (1 << draw(8))); break; case 1: break; case 2: e += c; e += c; break; case 3: e += "0123456789-+.eExXbB\",;\r\n nfi"[draw(29)]; break; default: e += c; e += "9,\"\n -."[draw(7)]; } } else e += c; } L->push(e); };
		auto app = [&](int how, num v, const Str& t){ fmtargs fa; memset(&fa, 0, sizeof fa); (void)fa; char* m = nullptr; OpDesc d; Str exp;
			if(how < 0){ m = put(t, PR, a.task); d.name = "append(" + quote(t) + ")"; exp = t; d.call = [m, t](void** x){ return sh_append(x, sv{m, (int)t.size()}); }; }
			else { Str tmp(6000, 0); int k = sh_numtext(&tmp[0], tmp.size(), how, v); tmp.resize(k); exp = tmp; char* nm = (char*)sh_numfmt(how); d.name = Str("append_printf(\"") + nm + "\")"; d.call = [how, v](void** x){ return sh_append_num(x, how, v); }; d.cls = "fmt"; }
			d.expect = [exp](const Str& c, Str& o){ o = c + exp; return true; }; a.edit(*b, d); return exp; };
		auto drain = [&](bool all){ int k = 0; while(!b->content.empty() && k++ < 3000){ if(k > 60) f->wfaults = false; if(f->wready > now_us) sleep_until(f->wready); a.op_write(*b); if(!all) break; } };
		for(int r = 0; r < nrec; r++){ Span s; std::vector<Str> rec;
			for(int i = 0; i < nf; i++){ Span s2; Str ft; num v; memset(&v, 0, sizeof v); int t = schema[i].type; if(i) app(-1, v, delim); int how = -1;
				if(draw(6) == 0) ft += app(-1, v, Str(1 + draw(3), ' '));
				if(t < 10){ static const int bits[] = {8, 16, 32, 64, 64, 8, 16, 32, 64, 64}; int bt = bits[t]; uint64_t u = draw64(); switch(draw(5)){ case 0: u = draw(20); break; case 1: u = bt == 64 ? ~0ull : (1ull << bt) - 1; break; case 2: u = 1ull << (bt - 1); break; case 3: u = (1ull << (bt - 1)) - 1; break; default: u >>= draw(64); }
					if(draw(12) == 0 && bt < 64) u = (1ull << bt) + draw(5); else if(bt < 64) u &= (1ull << bt) - 1;
					if(t >= 5){ int64_t sg = bt == 64 ? (int64_t)u : (int64_t)(u << (64 - bt)) >> (64 - bt); v.s = sg; how = 0; } else { v.u = u; how = 1; }
					if(schema[i].mask & SH_BIN){ Str bs; for(int k = 0; k < 64; k++) bs.insert(bs.begin(), (char)('0' + (v.u >> k & 1))); size_t nz = bs.find('1'); bs = nz == Str::npos ? "0" : bs.substr(nz); ft += app(-1, v, (schema[i].how & 1 ? "0b" : "") + bs); how = -2; }
					else if(schema[i].mask & SH_HEX) how = schema[i].how & 1 ? 2 : 3; else if(t < 5 && schema[i].how == 1) how = 2; else if(t < 5 && schema[i].how == 2) how = 4; else if(draw(10) == 0 && t >= 5) how = 5;
					if(how >= 0) ft += app(how, v, "");
				}else if(t < 13 && draw(8) == 0){ static const char* w[] = {"0", "infinity", "-Infinity", "+INF", "nan", "NaNs", "infinit", "0e60", "0.000E+999", "-0e-400", "1e", "2.5e+", "7E-", ".5", "5.", "-.25e1", "00012.50", "1e05", "123456789012345678901234567890", "0.00000000000000000000000000001234567890123456789", ".", "1e400", "-1e39", "3.5e38", "-1.8e308", "2e4932", "7e99999", "1e2147483647", "1e2147483648", "-3e99999999999999999999", "0e2147483648", "1e-99999999999", "0.1e310", "-+1", "1e+-2", "e5", "+.e1", "1.5.5"};
					if(draw(3) == 0){ // many digits, many zeros and an exponent that makes up for them
						int z = draw(t == 10 ? 70 : chance(1, 20) ? 1500 : 400); Str m; for(int k = 1 + draw(draw(3) ? 4 : 45); k > 0; k--) m += (char)('0' + draw(10)); int near = (int)draw(60) - 30; if(draw(6) == 0) near = (int)draw(700) - 350; char ex[24]; bool up = draw(2);
						Str g; if(up){ g += m + Str(z, '0'); if(draw(2)) g += "." + m; snprintf(ex, sizeof ex, "e%d", near - z); } else { g += "0." + Str(z, '0') + m; snprintf(ex, sizeof ex, "E%+d", near + z); } g += ex; ft += app(-1, v, g); }
					else ft += app(-1, v, w[draw(38)]); }
				else if(t < 13){ int k = draw(12); long double x = 0; switch(k){ case 0: x = 0; break; case 1: x = draw(1000); break; case 2: x = ((long double)draw64() - 9e18L) / 1e6L; break; case 3: x = powl(10, (int)draw(50) - 25) * (1 + draw(1000) / 1000.0L); break; case 4: x = t == 10 ? powl(10, draw(37)) : powl(10, draw(250)); break; case 5: x = HUGE_VALL; break; case 6: x = nanl(""); break; case 7: x = 1.5L * powl(10, t == 10 ? 40 : 45); break; default: x = ((int)draw(20000) - 10000) / 64.0L; }
					if(draw(3) == 0) x = -x; if(t == 10) x = (float)x; else if(t == 11) x = (double)x; int fm = schema[i].how; v.ld = x; how = t == 12 ? 12 + fm % 3 : 6 + fm % 6; if(t != 12) v.d = (double)x; ft += app(how, v, ""); }
				else { Str tx = bytes(draw(14), draw(2) ? 0 : 1); for(auto& c : tx) if(c == '"' || c == '\r' || c == '\n' || delim.find(c) != Str::npos) c = '_'; if(t == 13){ Str q = "\""; for(char c : tx){ q += c; if(!draw(5)) q += delim; } q += "\""; ft += app(-1, v, q); } else ft += app(-1, v, tx); }
				if(draw(8) == 0) ft += app(-1, v, Str(1 + draw(2), ' '));
				rec.push_back(ft); }
			num z; memset(&z, 0, sizeof z); Str tm = app(-1, z, term_s[termmix == 2 ? draw(4) : term]); for(size_t i = 0; i < rec.size(); i++) intended += (i ? delim : Str()) + rec[i]; intended += tm; sent.push_back(rec); if(draw(2)) drain(false); }
		drain(true); L->close(); sender_done = true; f->accepted = nullptr; a.finish(); });
	go_task(B, [&](Actor& a){
		LinkFd* f = use_links(a, L, nullptr); (void)f; Buf* b = a.create(1); if(!b) return; Str arrived; std::vector<Str> lines; char* eol = arena(1, PRW, a.task); hfill(eol, 1, 0); int g = 0; bool eof = false; size_t nproc = 0; (void)nproc;
		auto process = [&](sv line, size_t idx){
			Str ls = hstr(line.data, line.size); bool copy = draw(2); sv l = line; if(copy) l.data = put(ls, PR, a.task); std::vector<Str> want = ref_fields(ls, delim, true); std::vector<Str> got; char* ds = put(delim, PR, a.task, true); int how = draw(3);
			std::vector<sv> fv;
			if(how == 0){ sv o[40]; int k = CALL(sh_split_all(40, o, l, ds, 1)); if(k < 0 || k > 40){ mismatch("records.fields", "split_all returned %d", k); return; } for(int i = 0; i < k; i++) fv.push_back(o[i]); if(want.size() > 40) want.resize(40); }
			else if(how == 1){ sv rest = l; int gg = 0; while(rest.data && gg++ < 5000){ sv x = CALL(sh_split_first(&rest, ds, 1)); fv.push_back(x); } if(rest.data){ mismatch("records.fields", "splitting a line of %d bytes does not end", l.size); return; } }
			else { sv rest = l; int gg = 0; while(rest.data && gg++ < 5000){ sv x = CALL(sh_split_last(&rest, ds, 1)); fv.insert(fv.begin(), x); } if(rest.data){ mismatch("records.fields", "splitting a line of %d bytes from its end does not end", l.size); return; } if(std::count(ls.begin(), ls.end(), '"') % 2) want.clear(); }
			for(auto& x : fv){ if(x.size < 0 || (x.size && (x.data < l.data || x.data + x.size > l.data + l.size))){ mismatch("records.fields", "a field lies outside its line"); return; } got.push_back(x.size ? hstr(x.data, x.size) : Str()); }
			if(got != want && !(how == 2 && want.empty())){ mismatch("records.fields", "line %s splits into %zu fields, expected %zu (method %d)", quote(ls, 120).c_str(), got.size(), want.size(), how); return; }
			for(size_t i = 0; i < fv.size() && i < schema.size(); i++){ Fld& s = schema[i]; sv x = fv[i]; if(!x.data) continue;
				if(s.type < 13){ check_number(a, x.data, x.size, s.type, s.mask, draw(2)); if(chance(1, 2000)) check_long_number(a, got[i], s.type, draw(3) ? s.mask : draw(64)); }
				else { Str t = got[i]; size_t b0 = t.find_first_not_of(' '), e0 = t.find_last_not_of(' '); Str tt = b0 == Str::npos ? "" : t.substr(b0, e0 - b0 + 1); char* sp = put(" ", PR, a.task, true); sv tr = CALL(sh_trim_cs(0, x, sp)); Str gt = tr.size > 0 ? hstr(tr.data, tr.size) : Str(); if(gt != tt){ mismatch("records.text", "trimming %s gives %s", quote(t).c_str(), quote(gt).c_str()); continue; }
					if(!tt.empty() && tt[0] == '"'){ sv dq = CALL(sh_dequote(tr)); Str w = tt; while(w.size() > 1 && w[0] == '"' && w.back() == '"') w = w.substr(1, w.size() - 2); Str gd = dq.size > 0 ? hstr(dq.data, dq.size) : Str(); if(gd != w) mismatch("records.text", "dequoting %s gives %s, expected %s", quote(tt).c_str(), quote(gd).c_str(), quote(w).c_str()); } } }
			for(size_t i = fv.size(); i < schema.size(); i++) if(schema[i].type < 13 && draw(3) == 0) check_number(a, nullptr, 0, schema[i].type, schema[i].mask, false);   // a field that did not arrive
			(void)idx; };
		while(!eof){ Span s; if(++g > 20000) { if(!sender_done) return; mismatch("records.liveness", "stream never ended"); return; } if(g > 3000) L->faults = false;
			if(b->cap - (int)b->content.size() < 4){ int m = b->cap + 8 + draw(60); OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = m; d.call = [m](void** x){ return sh_grow(x, m); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); }
			if(!L->avail() && !L->eof()) sleep_until(L->q.empty() ? now_us + 20 : L->next_event());
			a.op_read(*b); if(a.fd->io.ret > 0) arrived += a.fd->delivered; else if(a.fd->io.ret == 0 && a.fd->io.n && L->eof()) eof = true; else sleep_until(now_us + 5);
			sv v = CALL(sh_view(b->var)); if(v.size && !readable(v.data, v.size)) end_run();
			for(int gg = 0;; gg++){ if(gg > 100000){ mismatch("records.lines", "line splitting does not end"); return; } sv was = v, ln = CALL(sh_split_line(&v, eol)); if(!ln.data) break; if(ln.size < 0 || ln.data < was.data || ln.data + ln.size > was.data + was.size || v.size >= was.size){ mismatch("records.lines", "a line lies outside the received bytes"); end_run(); } lines.push_back(hstr(ln.data, ln.size)); process(ln, lines.size() - 1); }
			LineRef ref = ref_lines(arrived); if(lines != ref.lines){ mismatch("records.lines", "%zu lines were read, %zu arrived", lines.size(), ref.lines.size()); end_run(); }
			Str left = v.size > 0 ? hstr(v.data, v.size) : Str(); sv rv = v; { OpDesc d; d.name = "assign(rest)"; d.has_self = true; d.call = [rv](void** x){ return sh_assign(x, rv); }; d.expect = [left](const Str&, Str& o){ o = left; return true; }; a.edit(*b, d); } if(b->content != left) end_run(); }
		if(!damaged && sender_done){ std::vector<Str> exp = ref_lines(intended).lines; if(exp != lines) mismatch("records.sequence", "%zu undamaged records sent, %zu lines received differ", exp.size(), lines.size()); }
		a.finish(); });
	run_tasks();
}

// ------------------------------------------------------------------ C23: requests taken apart with views
static Str request_text(bool jumbo){
	static const char* w[] = {"GET ", "get ", "Put", " /a/b", "//", "?x=1&y=2", "http://", "user@host:80", "Host:", "  ", "\"q uo\"", "'", "\"", "#frag", "name=", "NAME=", ";", ",", "aab", "abab", "noon", "\t", "\xE9t\xC9", "=", "a", "::", "1", "level"};
	Str s; auto add = [&](int n){ while(n-- > 0){ if(draw(8) == 0) for(int k = 1 + draw(4); k > 0; k--) s += (char)(draw(2) ? draw(256) : 'a' + draw(3)); else if(draw(24) == 1) s += '\0'; else s += w[draw(28)]; } };
	add(draw(draw(4) ? 8 : 40)); if(jumbo){ size_t to = (draw(2) ? 32740 : 65510) + draw(120); Str fill = w[draw(28)]; while(s.size() < to) s += fill; s.resize(to); add(draw(12)); } return s; }
static Str fold(Str s){ for(auto& c : s) if(c >= 'a' && c <= 'z') c -= 32; return s; }
struct Pieces {   // the views a program holds on one received request, checked against positions in the received bytes
	Actor& a; const char* base; long N; Str text; std::vector<sv> reg; bool bad = false;
	bool in(sv v) const { return v.data >= base && v.size >= 0 && v.data + v.size <= base + N; }
	Str str(sv v) const { return v.data && v.size > 0 ? text.substr(v.data - base, v.size) : Str(); }
	enum { VALID, EMPTY_ANY, INVALID };
	bool want(const Str& what, const char* tag, sv got, long off, long n, int kind){
		Str w = kind == INVALID ? "an invalid view" : n == 0 ? "an empty view" : quote(text.substr(off, n)) + " at " + std::to_string(off);
		Str g = got.size < 0 ? "a view of negative size" : !got.data ? (got.size ? "a view without data" : "an invalid view") : !in(got) && (got.size || kind != EMPTY_ANY) ? "a view outside the received bytes" : got.size == 0 ? "an empty view" : quote(text.substr(got.data - base, got.size)) + " at " + std::to_string(got.data - base);
		bool ok = kind == INVALID ? !got.data && !got.size : n == 0 ? got.size == 0 && (kind == EMPTY_ANY || (got.data && in(got))) : got.data == base + off && got.size == n;
		if(!ok){ bad = true; mismatch(tag, "%s gives %s, expected %s", what.c_str(), g.c_str(), w.c_str()); } return ok; }
	bool same(const Str& what, const char* tag, sv got, sv exp){ if(exp.size) return want(what, tag, got, exp.data - base, exp.size, VALID); return want(what, tag, got, 0, 0, exp.data ? VALID : EMPTY_ANY); }
};
struct Needle { sv v{nullptr, 0}; const char* cs = nullptr; Str s; bool valid = true; };
static Needle make_needle(Pieces& p, sv x){
	static const char* w[] = {"GET", "get ", "/", "://", "?", "=", "&", "@", "host", "HOST:", " ", "name=", "aab", "ab", "\"", "#", "\xC9", "noon"}; Needle n; int k = draw(8); Str xs = p.str(x);
	if(k == 7 && draw(4) == 0){ n.valid = false; n.cs = draw(2) ? (const char*)1 : nullptr; return n; }
	if(k < 3) n.s = w[draw(18)]; else if(k < 6){ const Str& from = draw(3) ? xs : p.text; if(from.empty()) n.s = "a"; else { size_t o = draw(from.size()), l = draw(3) ? std::min<size_t>(from.size() - o, 1 + draw(6)) : draw(2) ? from.size() - o : (o = 0, 1 + draw(from.size())); n.s = from.substr(o, l); } }
	else n.s = bytes(1 + draw(3), draw(2) ? 0 : 2);
	if(draw(3) == 0) for(auto& c : n.s) if(isalpha((unsigned char)c) && draw(2)) c ^= 32; if(draw(6) == 0) n.s += "x"; if(draw(16) == 0) n.s.clear();
	if(draw(4) == 0 && x.data && x.size){ long o = draw(x.size), l = 1 + draw(x.size - o); n.v = sv{x.data + o, (int)l}; n.s = xs.substr(o, l); }   // aliases the searched bytes
	else if(n.s.find('\0') == Str::npos && draw(2)) n.cs = put(n.s, PR, p.a.task, true); else n.v = sv{put(n.s, PR, p.a.task), (int)n.s.size()};
	return n; }
// the same text at a higher address than the needle's (new memory otherwise always lies behind the text that is taken apart)
static sv later(Actor& a, sv x, const Str& xs, const Needle& n){ return x.data && n.valid && xs.size() < 4000 && draw(3) == 2 ? sv{put(xs, PR, a.task), x.size} : x; }
static void take_apart(Actor& a, Buf* reply, sv fr, const Str& text, bool jumbo){
	Pieces p{a, fr.data, fr.size, text, {fr}, false}; int steps = 2 + draw(jumbo ? 5 : 22); const long N = p.N; const char* base = p.base;
	for(int st = 0; st < steps && !p.bad; st++){
		Span s; size_t ri = draw(p.reg.size()); sv x = p.reg[ri]; if(p.reg.size() > 7) p.reg.erase(p.reg.begin() + 1), ri = ri ? ri - 1 : 0, x = p.reg[ri]; Str xs = p.str(x); long xo = x.data ? x.data - base : 0; int op = draw(22); char nm[300]; sv x0 = x; std::vector<sv> add; bool elsewhere = false; bool inplace = draw(2);
		cover(2300 + op, x.size ? 2 : x.data ? 1 : 0, jumbo, inplace); nontrivial = true; Str q = (x.data ? quote(xs, 40) : Str("invalid"));
		const char* nd = nullptr; (void)nd; auto rest = [&](long off, long n, int kind){ return p.want(Str("after ") + nm + " the source", "pieces.rest", x, off, n, kind); };
		switch(op){
		case 0: case 1: case 2: case 3: { static const char* fn[] = {"starts_with", "starts_with_nocase", "is_match", "is_match_nocase"}; Needle n = make_needle(p, x); if(!n.valid && x.data && !x.size) break; if(n.valid && n.s.empty() && !x.data) break; if(!n.valid && n.cs) n.cs = nullptr;
			if(op > 1 && draw(3) == 0 && x.size){ n = Needle(); n.s = xs; if(draw(2)) for(auto& c : n.s) if(isalpha((unsigned char)c) && draw(3) == 0) c ^= 32; if(draw(6) == 0) n.s[draw(n.s.size())] ^= 1 << draw(8); n.v = sv{put(n.s, PR, a.task), (int)n.s.size()}; }
			if(!n.cs) elsewhere = true, x = later(a, x, xs, n);
			int r = !!(op == 0 ? (n.cs ? CALL(sh_starts_cs(x, n.cs)) : CALL(sh_starts(x, n.v))) : op == 1 ? (n.cs ? CALL(sh_starts_nc_cs(x, n.cs)) : CALL(sh_starts_nc(x, n.v))) : op == 2 ? (n.cs ? CALL(sh_is_match_cs(x, n.cs)) : CALL(sh_is_match(x, n.v))) : (n.cs ? CALL(sh_is_match_nc_cs(x, n.cs)) : CALL(sh_is_match_nc(x, n.v))));
			Str A = op & 1 ? fold(xs) : xs, B = op & 1 ? fold(n.s) : n.s; int e = !n.valid ? !x.data : !x.data ? 0 : op < 2 ? A.compare(0, B.size(), B) == 0 && A.size() >= B.size() : A == B;
			TR("%s(%s, %s) = %d", fn[op], q.c_str(), n.valid ? quote(n.s, 40).c_str() : "invalid", r); if(r != e){ mismatch("pieces.test", "%s(%s, %s) is %d, expected %d", fn[op], q.c_str(), n.valid ? quote(n.s, 40).c_str() : "invalid", r, e); return; } break; }
		case 4: { Needle n = make_needle(p, x); if(n.cs){ n.cs = nullptr; if(n.valid) n.v = sv{put(n.s, PR, a.task), (int)n.s.size()}; } if(draw(3) == 0 && x.size){ n.valid = true; n.s = xs.substr(0, jumbo && draw(3) ? xs.size() - std::min<size_t>(xs.size(), draw(6)) : draw(xs.size() + 1)); if(draw(2)) n.s += (char)draw(256); if(!n.s.empty() && draw(2)) n.s[draw(n.s.size())] ^= (char)(1 << draw(8)); n.v = sv{put(n.s, PR, a.task), (int)n.s.size()}; }
			if((x.data && !x.size && !n.valid) || (!x.data && n.valid && n.s.empty())) break; elsewhere = true; x = later(a, x, xs, n); int r = CALL(sh_compare(x, n.v)), e = xs.compare(n.s); { size_t m = std::min(xs.size(), n.s.size()); int c = memcmp(xs.data(), n.s.data(), m); e = c ? c : xs.size() > n.s.size() ? 1 : xs.size() < n.s.size() ? -1 : 0; }
			TR("compare(%s, %s) = %d", q.c_str(), quote(n.s, 40).c_str(), r); if((r > 0) != (e > 0) || (r < 0) != (e < 0)){ mismatch("pieces.test", "compare(%s, %s) is %d, expected %s 0", q.c_str(), quote(n.s, 40).c_str(), r, e > 0 ? ">" : e < 0 ? "<" : "="); return; } break; }
		case 5: case 6: case 7: case 8: { int last = draw(2), nc = draw(2); bool con = op == 5; Needle n = make_needle(p, x); if(!n.valid) n.cs = nullptr; if(con) last = 0; if(con && n.cs){ n.cs = nullptr; n.v = sv{put(n.s, PR, a.task), (int)n.s.size()}; } if(jumbo && draw(3) == 0 && xs.size() > 8){ size_t o = draw(4); n = Needle(); n.s = xs.substr(o, xs.size() - o - draw(4)); if(draw(8) == 0) n.s.back() ^= 1; n.v = sv{put(n.s, PR, a.task), (int)n.s.size()}; }
			if(n.valid && n.s.empty()) break; if(xs.size() > 4000 && n.s.size() > 64 && n.s.size() + 8 < xs.size()) break;
			size_t at = Str::npos; if(n.valid && x.data){ Str A = nc ? fold(xs) : xs, B = nc ? fold(n.s) : n.s; at = last ? A.rfind(B) : A.find(B); }
			snprintf(nm, sizeof nm, "%s%s(%s, %s)", con ? "contains" : last ? "find_last" : "find_first", nc ? "_nocase" : "", q.c_str(), n.valid ? quote(n.s, 40).c_str() : "invalid"); TR("%s", nm);
			if(con){ elsewhere = true; x = later(a, x, xs, n); int r = !!(nc ? CALL(sh_contains_nc(x, n.v)) : CALL(sh_contains(x, n.v))); if(r != (at != Str::npos)){ mismatch("pieces.test", "%s is %d", nm, r); return; } break; }
			sv r = n.cs ? CALL(sh_find_cs(last, nc, x, n.cs)) : CALL(sh_find(last, nc, x, n.v)); p.want(nm, "pieces.find", r, at == Str::npos ? 0 : xo + (long)at, n.s.size(), at == Str::npos ? Pieces::INVALID : Pieces::VALID);
			if(!p.bad && r.data && x.size){ add.push_back(r); // and cut the text there, as the documentation suggests
				int cut = draw(3); sv y = x; if(cut == 1){ sv l = CALL(sh_split_left(&y, r)); snprintf(nm, sizeof nm, "split_left(%s, found %s)", q.c_str(), quote(n.s, 30).c_str()); if(p.want(nm, "pieces.split", l, xo, at, Pieces::VALID)){ x = y; rest(xo + at, xs.size() - at, Pieces::VALID); add.push_back(l); } }
				else if(cut == 2){ long e = at + n.s.size(); sv rr = CALL(sh_split_right(&y, r)); snprintf(nm, sizeof nm, "split_right(%s, found %s)", q.c_str(), quote(n.s, 30).c_str()); if(p.want(nm, "pieces.split", rr, xo + e, xs.size() - e, Pieces::VALID)){ x = y; rest(xo, e, Pieces::VALID); add.push_back(rr); } } } break; }
		case 9: case 10: { long n = xs.size(); auto idx = [&]{ switch(draw(6)){ case 0: return (int)draw(n + 1); case 1: return -(int)draw(n + 2); case 2: return draw(2) ? INT_MAX : INT_MIN + (int)draw(2); case 3: return (int)n + (int)draw(3); default: return (int)draw(2 * n + 4) - (int)n - 2; } }; int b = idx(), e = idx(); sv r = CALL(sh_sub(x, b, e)); snprintf(nm, sizeof nm, "sub(%s, %d, %d)", q.c_str(), b, e); TR("%s", nm);
			long B = b < 0 ? n + b : b, E = e < 0 ? n + e : e; if(!n || B > E || B >= n || E < 0){ p.want(nm, "pieces.sub", r, 0, 0, Pieces::EMPTY_ANY); break; } B = std::max(0l, B); E = std::min(n, E); p.want(nm, "pieces.sub", r, xo + B, E - B, E == B ? Pieces::EMPTY_ANY : Pieces::VALID); add.push_back(r); break; }
		case 11: case 12: { int w = draw(3); static const char* tc[] = {" ", " \t", "a", "ab", "\"'", "/:", "", "01 \xE9\xC9", "GETgetput "}; Str c = tc[draw(9)]; if(draw(4) == 0) c = bytes(1 + draw(4), 2); bool cs = c.find('\0') == Str::npos && draw(2); bool inv = draw(30) == 0; if(inv) c.clear(); char* cm = inv ? nullptr : put(c, PR, a.task, cs); sv r = cs ? CALL(sh_trim_cs(w, x, cm)) : CALL(sh_trim(w, x, sv{cm, (int)c.size()}));
			snprintf(nm, sizeof nm, "trim%s(%s, %s)", w == 1 ? "_start" : w == 2 ? "_end" : "", q.c_str(), quote(c).c_str()); TR("%s", nm); size_t b = 0, e = xs.size(); if(w != 2) while(b < e && c.find(xs[b]) != Str::npos) b++; if(w != 1) while(e > b && c.find(xs[e - 1]) != Str::npos) e--; p.want(nm, "pieces.trim", r, xo + b, e - b, e == b ? Pieces::EMPTY_ANY : Pieces::VALID); add.push_back(r); break; }
		case 13: case 14: case 15: { static const char* dl[] = {" ", "/", "=&", ":", ",;", "?#", "a", "\t ", "\xC9"}; Str d = dl[draw(9)]; int quo = draw(3) == 0; if(jumbo && xs.size() && draw(3)){ char c = xs[draw(xs.size())]; if(c && c != '"') d = Str(1, c); } char* dm = put(d, PR, a.task, true); long qn = std::count(xs.begin(), xs.end(), '"'); static const char* fn[] = {"split_first_delim", "split_last_delim", "split_all"}; snprintf(nm, sizeof nm, "%s(%s, %s%s)", fn[op - 13], q.c_str(), quote(d).c_str(), quo ? ", quotes" : ""); TR("%s", nm);
			std::vector<std::pair<long, long>> f; { bool inq = false; long b = 0; for(long i = 0; i < (long)xs.size(); i++){ if(quo && xs[i] == '"') inq = !inq; if(!inq && d.find(xs[i]) != Str::npos){ f.push_back({b, i - b}); b = i + 1; } } f.push_back({b, (long)xs.size() - b}); }
			if(!x.data){ if(op == 15){ sv o[4]; int k = CALL(sh_split_all(4, o, x, dm, quo)); if(k != 0){ mismatch("pieces.split", "%s gives %d fields", nm, k); return; } } else { sv r = op == 13 ? CALL(sh_split_first(&x, dm, quo)) : CALL(sh_split_last(&x, dm, quo)); p.want(nm, "pieces.split", r, 0, 0, Pieces::EMPTY_ANY); rest(0, 0, Pieces::EMPTY_ANY); } break; }
			if(op == 13){ sv r = CALL(sh_split_first(&x, dm, quo)); p.want(nm, "pieces.split", r, xo, f[0].second, Pieces::VALID); if(f.size() == 1) rest(0, 0, Pieces::INVALID); else rest(xo + f[1].first, xs.size() - f[1].first, Pieces::VALID); add.push_back(r); }
			else if(op == 14){ if(quo && qn % 2) break; sv r = CALL(sh_split_last(&x, dm, quo)); p.want(nm, "pieces.split", r, xo + f.back().first, f.back().second, Pieces::VALID); if(f.size() == 1) rest(0, 0, Pieces::INVALID); else rest(xo, f.back().first - 1, Pieces::VALID); add.push_back(r); }
			else { int m = draw(3) ? jumbo ? 70000 : 40 : draw(5); sv* o = (sv*)arena(m * sizeof(sv), PRW, a.task, 16); void* room = arena(m * sh_view_bytes(), PRW, a.task, 16); int k = CALL(sh_split_all_in(m, o, room, x, dm, quo)); if(k != std::min<int>(m, f.size())){ mismatch("pieces.split", "%s with room for %d gives %d fields of %zu", nm, m, k, f.size()); return; } for(int i = 0; i < k && !p.bad; i++){ p.want(Str("field ") + std::to_string(i) + " of " + nm, "pieces.split", o[i], xo + f[i].first, f[i].second, Pieces::VALID); if(i < 3) add.push_back(o[i]); } } break; }
		case 16: { long n = xs.size(); int i = draw(5) == 0 ? (draw(2) ? INT_MAX : INT_MIN) : (int)draw(2 * n + 4) - (int)n - 2; sv r = CALL(sh_split_index(&x, i)); snprintf(nm, sizeof nm, "split_index(%s, %d)", q.c_str(), i); TR("%s", nm); if(!x0.data){ p.want(nm, "pieces.split", r, 0, 0, Pieces::EMPTY_ANY); rest(0, 0, Pieces::EMPTY_ANY); break; }
			long c = i < 0 ? std::max(0l, n + i) : std::min<long>(n, i); if(i < 0){ p.want(nm, "pieces.split", r, xo + c, n - c, Pieces::VALID); rest(xo, c, Pieces::VALID); } else { p.want(nm, "pieces.split", r, xo, c, Pieces::VALID); rest(xo + c, n - c, Pieces::VALID); } add.push_back(r); break; }
		case 17: { sv pos = p.reg[draw(p.reg.size())]; bool right = draw(2); sv r = right ? CALL(sh_split_right(&x, pos)) : CALL(sh_split_left(&x, pos)); long n = xs.size(), k = pos.data ? pos.data + (right ? pos.size : 0) - base - xo : -1; bool inside = x0.data && pos.data && k >= 0 && k <= n; snprintf(nm, sizeof nm, "split_%s(%s, %s)", right ? "right" : "left", q.c_str(), pos.data ? (quote(p.str(pos), 30) + (inside ? "" : " elsewhere")).c_str() : "invalid"); TR("%s", nm);
			if(!inside){ p.want(nm, "pieces.split", r, 0, 0, Pieces::INVALID); p.same(Str("after ") + nm + " the source", "pieces.rest", x, x0); }
			else if(right){ p.want(nm, "pieces.split", r, xo + k, n - k, Pieces::VALID); rest(xo, k, Pieces::VALID); add.push_back(r); } else { p.want(nm, "pieces.split", r, xo, k, Pieces::VALID); rest(xo + k, n - k, Pieces::VALID); add.push_back(r); } break; }
		case 18: { int c = (unsigned char)CALL(sh_pop(&x)); snprintf(nm, sizeof nm, "pop_first_char(%s)", q.c_str()); TR("%s", nm); int e = xs.empty() ? 0 : (unsigned char)xs[0]; if(c != e){ mismatch("pieces.split", "%s gives %d, expected %d", nm, c, e); return; } if(xs.empty()) p.same(Str("after ") + nm + " the source", "pieces.rest", x, x0); else rest(xo + 1, xs.size() - 1, Pieces::VALID); break; }
		case 19: { sv r = CALL(sh_dequote(x)); size_t b = 0, e = xs.size(); if(e > 1 && (xs[0] == '"' || xs[0] == '\'')){ char qc = xs[0]; while(e - b > 1 && xs[b] == qc && xs[e - 1] == qc) b++, e--; } snprintf(nm, sizeof nm, "dequote(%s)", q.c_str()); TR("%s", nm); p.want(nm, "pieces.dequote", r, xo + b, e - b, e == b ? Pieces::EMPTY_ANY : Pieces::VALID); add.push_back(r); break; }
		case 20: { size_t m = draw(4) ? xs.size() + draw(4) : draw(12); char* dst = arena(m, PRW, a.task); hfill(dst, m, 0x55); const char* r = CALL(sh_view_to_cstr(dst, m, x)); size_t k = m ? std::min(m - 1, xs.size()) : 0; Str e = m ? xs.substr(0, k) + Str(1, 0) : Str(); snprintf(nm, sizeof nm, "to_cstr(%zu bytes, %s)", m, q.c_str()); TR("%s", nm); if(r != dst || hstr(dst, e.size()) != e){ mismatch("pieces.copy", "%s gives %s", nm, quote(hstr(dst, m)).c_str()); return; } break; }
		default: { sv y = p.reg[draw(p.reg.size())], y0 = y; CALLV(sh_swap(&x, &y)); if(x.data != y0.data || x.size != y0.size || y.data != x0.data || y.size != x0.size){ mismatch("pieces.copy", "swap of two views does not exchange them"); return; } x = x0; int v = !!CALL(sh_is_valid(x)); if(v != !!x.data){ mismatch("pieces.test", "is_valid(%s) is %d", q.c_str(), v); return; } break; }
		}
		if(elsewhere) x = x0;
		if(p.bad) return; if(inplace && ri && (x.data != x0.data || x.size != x0.size)) p.reg[ri] = x; else if(x.data != x0.data || x.size != x0.size) p.reg.push_back(x);
		for(auto& r : add){ if(r.data && !p.in(r)) continue; p.reg.push_back(r); }
		if(!add.empty() && !jumbo && draw(3) == 0){ sv v = add.back(); Str t = p.str(v) + "|"; OpDesc d; d.name = "reply += " + quote(t, 30); d.cls = "pieces"; d.call = [v](void** z){ sh_append(z, v); return sh_append_char(z, '|'); }; d.expect = [t](const Str& c, Str& o){ o = c + t; return true; }; d.capexact = false; if((int)reply->content.size() + (int)t.size() < 3000) a.edit(*reply, d); }
	}
	if(hstr(base, N) != text) mismatch("pieces.modified", "the received bytes changed while a request was taken apart");
}
void c23(){
	int K = draw(3) ? 1 : 2; set_preempt(K > 1 ? swarm_preempt() : 0); struct Sess { Link* L; std::vector<Str> sent; int fm; bool jumbo, damaged = false; Str wire; int pd; std::vector<Str> got; bool broken = false; }; std::deque<Sess> ss;
	for(int k = 0; k < K; k++){ ss.emplace_back(); Sess& S = ss.back(); S.L = new_link(); S.L->swarm(); S.fm = draw(2); S.jumbo = chance(1, 200); S.pd = draw(3) ? 0 : 20 + draw(200); if(S.jumbo){ S.L->p_tiny = 0; count("runs_jumbo"); }
		int nf = S.jumbo ? 1 : 1 + draw(6); for(int i = 0; i < nf; i++){ Span sp; Str t = request_text(S.jumbo); if(S.fm == 0){ for(auto& c : t) if(c == '\r' || c == '\n') c = '_'; static const char* te[] = {"\n", "\r\n", "\r", "\n\r"}; S.sent.push_back(t); S.wire += t + te[S.fm ? 0 : draw(2)]; } else { S.sent.push_back(t); S.wire += std::to_string(t.size()) + ":" + t + ","; } } }
	for(int k = 0; k < K; k++){ Sess& S = ss[k]; Profile p; p.dyn = 1; p.maxbuf = 2; p.blank = true; Actor *A = add_actor(p), *B = add_actor(p);
		go_task(A, [&S](Actor&){ size_t i = 0; while(i < S.wire.size()){ size_t n = S.jumbo ? 1 + draw(30000) : 1 + draw(draw(3) ? 60 : 5); Str d = S.wire.substr(i, n), e; i += n; for(char c : d){ if(S.pd && !draw(S.pd)){ S.damaged = true; count("fault.damage"); switch(draw(4)){ case 0: e += (char)(c ^ (1 << draw(8))); break; case 1: break; case 2: e += c; e += c; break; default: e += ":,\"\n\r 9"[draw(7)]; } } else e += c; } S.L->push(e); if(draw(3) == 0) sleep_until(now_us + draw(50)); } S.L->close(); });
		go_task(B, [&S](Actor& a){ use_links(a, S.L, nullptr); Buf* b = draw(4) || S.jumbo ? a.create(1) : fixed_with_cap(a, 150 + draw(500)); Buf* reply = b ? a.create(1) : nullptr; if(!reply) return; Str arrived; size_t used = 0; int g = 0; bool eof = false; char* eol = arena(1, PRW, a.task); hfill(eol, 1, 0); char* colon = put(":", PR, a.task, true);
			auto broken = [&]{ S.broken = true; };
			while(!eof && !S.broken){ Span s; if(++g > 20000) return; if(g > 3000) S.L->faults = false;
				if(b->dynamic && b->cap - (int)b->content.size() < 4){ int m = b->cap + (S.jumbo ? 9000 : 8) + draw(60); OpDesc d; d.name = "grow"; d.cls = "cap"; d.grow_to = m; d.call = [m](void** x){ return sh_grow(x, m); }; d.expect = [](const Str& c, Str& o){ o = c; return true; }; a.edit(*b, d); }
				if(!S.L->avail() && !S.L->eof()) sleep_until(S.L->q.empty() ? now_us + 20 : S.L->next_event());
				bool full = b->cap == (int)b->content.size(); if(!full){ a.op_read(*b); if(a.fd->io.ret > 0) arrived += a.fd->delivered; else if(a.fd->io.ret == 0 && a.fd->io.n && S.L->eof()) eof = true; else sleep_until(now_us + 5); }
				if(b->content != arrived.substr(std::min(used, arrived.size()))) end_run();
				if(S.jumbo && !eof && b->content.size() < 32000 && draw(4)) continue;
				sv v = CALL(sh_view(b->var)); if(v.size && !readable(v.data, v.size)) end_run(); sv v0 = v; size_t u0 = used; bool any = false;
				for(int gg = 0; gg < 3000 && v.size > 0 && !S.broken; gg++){ sv fr; size_t took; Str exp;
					if(S.fm == 0){ sv was = v; fr = CALL(sh_split_line(&v, eol)); if(!fr.data) break; if(fr.size < 0 || fr.data < was.data || fr.data + fr.size > was.data + was.size || v.size >= was.size) end_run(); took = was.size - v.size; }
					else { // <length>:<bytes>,
						size_t at = used, e = at; while(e < arrived.size() && e - at < 7 && isdigit((unsigned char)arrived[e])) e++; if(e == arrived.size() && e - at < 7) break; bool ok = e > at && e - at < 7 && arrived[e] == ':'; if(!ok){ broken(); break; } long n = atol(arrived.substr(at, e - at).c_str()); if(e + 1 + n + 1 > arrived.size()) break;
						sv was = v, rs = v; sv len = CALL(sh_split_first(&rs, colon, 0)); num o; memset(&o, 0, sizeof o); sv l = len; int er = CALL(sh_strnum(3, &o, &l, sh_opt(0), 0)); if(er || (long)o.u != n || l.size){ mismatch("pieces.frame", "the length %s of a frame is read as %llu (error %d)", quote(arrived.substr(at, e - at)).c_str(), (unsigned long long)o.u, er); end_run(); }
						fr = CALL(sh_split_index(&rs, (int)n)); if(fr.size != n || fr.data != was.data + (e + 1 - at)){ mismatch("pieces.frame", "a frame of %ld bytes is cut as %d bytes", n, fr.size); end_run(); } int c = (unsigned char)CALL(sh_pop(&rs)); if(c != (unsigned char)arrived[e + 1 + n]){ mismatch("pieces.frame", "the byte after the frame is read as %d", c); end_run(); } if(c != ','){ broken(); break; } v = rs; took = e + 1 + n + 1 - at; if(v.size != was.size - (int)took){ mismatch("pieces.frame", "%d bytes are left after a frame, expected %d", v.size, was.size - (int)took); end_run(); } exp = arrived.substr(e + 1, n); }
					if(S.fm == 0) exp = hstr(fr.data, fr.size); any = true; used += took; S.got.push_back(exp); TR("request %s", quote(exp, 80).c_str()); bool copy = draw(2) || !fr.size; sv x = fr; if(copy) x.data = put(exp, PR, a.task); take_apart(a, reply, x, exp, S.jumbo); }
				if(any){ Str left = b->content.substr(used - u0); int lo = (int)(used - u0); OpDesc d; d.name = "assign(rest)"; d.has_self = true; (void)v0; d.call = [lo](void** z){ sv q{sh_cstr(*z) + lo, sh_size(*z) - lo}; return sh_assign(z, q); }; d.expect = [left](const Str&, Str& o){ o = left; return true; }; a.edit(*b, d); if(b->content != left) end_run(); if(draw(3) == 0){ OpDesc e; e.name = "assign(reply, \"\")"; e.call = [](void** z){ return sh_assign(z, sv{nullptr, 0}); }; e.expect = [](const Str&, Str& o){ o.clear(); return true; }; a.edit(*reply, e); } }
				else if(full && !b->dynamic) broken(); }
			if(eof && !S.damaged && !S.broken && S.got != S.sent) mismatch("pieces.sequence", "%zu requests were sent undamaged, %zu were taken from the stream or they differ", S.sent.size(), S.got.size());
			a.finish(); });
	}
	run_tasks();
}
