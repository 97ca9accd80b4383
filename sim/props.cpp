#include "world.hpp"
#include "props.hpp"
#include <climits>
using namespace sim;

static void solo(Profile& p, const std::function<void(Actor&)>& body){
	Actor* a = add_actor(p); spawn([a, &body]{ a->init(cur->id); body(*a); }, a); run_tasks();
}
static void buf_world(Profile& p){ p.jumbo(); solo(p, [&](Actor& a){ int n = p.marathon ? p.marathon : 1 + draw(p.ops); a.run(n); a.finish(); }); }

static void c01(){ Profile p; p.edits(6); p.life(2); p.w[O_SHRINK] = 3; p.w[O_GROW] = 3; p.w[O_PRINTF] = 5; p.w[O_PRNF] = 4; p.w[O_VIEW] = 1; p.w[O_TOCSTR] = 1; p.p_self = 20; buf_world(p); }
static void c02(){ Profile p; for(int o : {O_ASSIGN, O_APPEND, O_PREPEND, O_INSERT, O_BEFORE, O_AFTER, O_CAT}) p.w[o] = 6; p.w[O_APPEND_CS] = 4; p.w[O_SHRINK] = 3; p.w[O_GROW] = 2; p.life(1); p.fixed = 1; p.dyn = 2; p.p_self = 190; p.maxbuf = 2; p.big = 120; buf_world(p); }
static void c03(){ Profile p; p.edits(6); p.life(2); p.w[O_SHRINK] = 2; p.w[O_GROW] = 2; p.w[O_PRINTF] = 5; p.w[O_PRNF] = 4; p.w[O_FETCH] = 3; p.w[O_READ] = 3; p.w[O_WRITE] = 3; p.w[O_TOCSTR] = 1; p.w[O_PACK] = 2; p.w[O_ENCRYPT] = 2; p.w[O_DECRYPT] = 2; p.dyn = 0; p.fixed = 1; p.p_self = 60; p.big = 80; p.maxbuf = 3; buf_world(p); }
static void c04(){ Profile p; p.edits(4); p.life(2); for(int o : {O_SHRINK, O_GROW, O_FETCH, O_READ, O_WRITE, O_PRINTF, O_PRNF, O_PACK, O_ENCRYPT, O_DECRYPT}) p.w[o] = 5; p.w[O_TOCSTR] = 1; p.fixed = 1; p.dyn = 2; p.p_fmtfail = 50; p.p_badfetch = 120; p.p_iofault = 90; p.p_fail = draw(3) ? 0 : 20; buf_world(p); }
static void c05(){ Profile p; p.edits(4); p.life(6); for(int o : {O_SHRINK, O_GROW, O_PRINTF, O_PRNF, O_TOCSTR, O_ENCRYPT, O_DECRYPT, O_CAT}) p.w[o] = 6; p.fixed = 1; p.dyn = 4; p.p_self = 90; p.maxbuf = 6; p.p_fail = draw(4) ? 0 : 15; buf_world(p); }
static void c06(){ Profile p; p.edits(5); p.life(3); for(int o : {O_SHRINK, O_GROW, O_PRINTF, O_PRNF, O_ENCRYPT, O_DECRYPT, O_PACK}) p.w[o] = 6; p.w[O_WRITE] = 2; p.w[O_READ] = 2; p.w[O_TOCSTR] = 1; p.p_self = 60; p.maxbuf = 3; static const int pf[] = {100, 30, 200}; p.p_fail = pf[draw(3)]; buf_world(p); }
static void c08(){ Profile p; p.edits(5); p.life(4); for(int o : {O_SHRINK, O_GROW, O_PRINTF, O_PRNF, O_PACK, O_FETCH, O_READ, O_WRITE, O_ENCRYPT, O_DECRYPT}) p.w[o] = 4; p.fixed = 1; p.dyn = 4; p.p_self = 40; buf_world(p); }
static void c11(){ Profile p; p.edits(2); p.life(2); p.w[O_FETCH] = 50; p.w[O_GROW] = 10; p.w[O_SHRINK] = 6; p.w[O_WRITE] = 4; p.fixed = 1; p.dyn = 2; p.p_badfetch = 130; buf_world(p); }
static void c19(){ Profile p; p.edits(1); p.life(2); p.w[O_PRINTF] = 50; p.w[O_PRNF] = 50; p.w[O_SHRINK] = 8; p.w[O_GROW] = 8; p.fixed = 1; p.dyn = 1; p.p_fmtfail = draw(2) ? 40 : 0; p.big = 120; buf_world(p); }
static void c20(){ Profile p; p.edits(2); p.life(2); p.w[O_TOCSTR] = 30; p.w[O_SHRINK] = 5; p.w[O_GROW] = 12; p.w[O_PRINTF] = 4; p.w[O_FETCH] = 4; p.fixed = 1; p.dyn = 3; buf_world(p); }

void c07(); void c09(); void c10(); void c12(); void c13(); void c14(); void c15(); void c16(); void c17(); void c18(); void c21(); void c22(); void c23();
static const PropDef defs[] = {
	{"C01", c01, "content.dyn. view.dyn. wf. create."},
	{"C02", c02, "content.dyn.self content.fix.self view.dyn.self view.fix.self wf. fixed.partial"},
	{"C03", c03, "content.fix. view.fix. fixed. wf."},
	{"C04", c04, "wf. fail. fixed.cap fixed.moved"},
	{"C05", c05, "alloc. destroy. fixed.alloc wf.allocator wf.ptr"},
	{"C06", c06, "fail. wf. alloc. content.dyn. view.dyn. destroy."},
	{"C08", c08, "cap. wf.cap"},
	{"C11", c11, "fetch. content.dyn.fetch content.fix.fetch view.dyn.fetch view.fix.fetch wf. fixed.cap"},
	{"C19", c19, "fmt. content.dyn.fmt content.fix.fmt view.dyn.fmt view.fix.fmt wf. fixed.partial"},
	{"C20", c20, "cstr. alloc."},
	{"C07", c07, "big. wf."},
	{"C09", c09, "io.read stream. content.dyn.read content.fix.read wf."},
	{"C10", c10, "io.write stream. content.dyn.write content.fix.write wf."},
	{"C12", c12, "lines."},
	{"C13", c13, "isolation mem.foreign alloc.foreign io.foreign"},
	{"C14", c14, "readers"},
	{"C15", c15, "crypt. content.dyn.crypt content.fix.crypt content.dyn.decrypt content.fix.decrypt view. wf."},
	{"C16", c16, "damage. content.dyn.decrypt content.fix.decrypt view. wf. alloc."},
	{"C17", c17, "pack. content.dyn.pack content.fix.pack"},
	{"C18", c18, "records."},
	{"C21", c21, "default. crash.assert"},
	{"C22", c22, "missing. destroy. cstr.null"},
	{"C23", c23, "pieces. content.dyn.pieces view.dyn.pieces"},
	{nullptr, nullptr, nullptr}};
const PropDef* all_props(){ return defs; }
