// The engine for checks written in Python.
#include "pbt.hpp"
#include <cstdio>
using namespace pbt;
static std::vector<Facet> facets;
extern "C" {
typedef int (*Fn)(void* src, void* ctx, char* msg, size_t cap); // 0 passed, 1 failed, 2 discarded
uint64_t pbt_upto(void* s, uint64_t max) { try { return ((Src*)s)->upto(max); } catch(Discard&) { return 0; } } // no exceptions through Python
void pbt_label(void* c, const char* n) { ((Ctx*)c)->label(n); }
void pbt_nontrivial(void* c, uint64_t h) { ((Ctx*)c)->nontrivial(h); }
void pbt_desc(void* c, const char* n) { ((Ctx*)c)->desc(n); }
const char* pbt_scratch(void* c) { return ((Ctx*)c)->scratch().c_str(); }
int pbt_thorough(void* c) { return ((Ctx*)c)->thorough(); }
uint64_t pbt_hash(const void* p, size_t n) { return hash_bytes(p,n); }
void pbt_add(const char* name, Fn fn, int quick, int thorough, int max_cpu_s) {
	Facet f;
	f.name = name; f.quick = quick; f.thorough = thorough; f.max_cpu_s = max_cpu_s;
	f.run = [fn](Src& s, Ctx& c) {
		static char msg[8000];
		msg[0] = 0;
		int r = fn(&s,&c,msg,sizeof msg);
		if(r == 2) throw Discard();
		if(r) c.fail(msg);
	};
	facets.push_back(f);
}
int pbt_run(int argc, char** argv) { limited = false; return main_(argc,argv,facets); }
}
