// Public-API access to one or more builds of libresdet, loaded side by side.
#pragma once
#include "resdet.h"
#include "pbt.hpp"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <memory>

struct Api {
	std::string name;
#define F(x) decltype(&::x) x
	F(resdet_libversion); F(resdet_error_str); F(resdet_get_max_error); F(resdet_methods); F(resdet_get_method);
	F(resdet_default_range); F(resdet_alloc_default_parameters); F(resdet_parameters_set_range); F(resdet_parameters_set_threshold);
	F(resdet_parameters_set_compression_filter); F(resdet_open_image); F(resdet_open_image_with_reader); F(resdet_read_image_frame);
	F(resdet_seek_frame); F(resdet_close_image); F(resdet_read_image); F(resdet_list_image_readers); F(resdet_create_analysis);
	F(resdet_analyze_image); F(resdet_analysis_results); F(resdet_destroy_analysis); F(resdetect); F(resdetect_file);
#undef F
};

inline Api load_api(const std::string& name, const std::string& path) {
	Api a;
	a.name = name;
	void* h = dlopen(path.c_str(),RTLD_NOW|RTLD_LOCAL);
	if(!h) { fprintf(stderr,"%s\n",dlerror()); exit(3); }
#define F(x) if(!(a.x = (decltype(a.x))dlsym(h,#x))) { fprintf(stderr,"missing symbol %s in %s\n",#x,path.c_str()); exit(3); }
	F(resdet_libversion) F(resdet_error_str) F(resdet_get_max_error) F(resdet_methods) F(resdet_get_method)
	F(resdet_default_range) F(resdet_alloc_default_parameters) F(resdet_parameters_set_range) F(resdet_parameters_set_threshold)
	F(resdet_parameters_set_compression_filter) F(resdet_open_image) F(resdet_open_image_with_reader) F(resdet_read_image_frame)
	F(resdet_seek_frame) F(resdet_close_image) F(resdet_read_image) F(resdet_list_image_readers) F(resdet_create_analysis)
	F(resdet_analyze_image) F(resdet_analysis_results) F(resdet_destroy_analysis) F(resdetect) F(resdetect_file)
#undef F
	return a;
}

// builds named on the command line as RESDET_LIBS="name=path;name=path"
inline std::vector<Api> load_apis() {
	std::vector<Api> v;
	const char* e = getenv("RESDET_LIBS");
	if(!e) { fprintf(stderr,"RESDET_LIBS not set\n"); exit(3); }
	std::string s = e;
	while(!s.empty()) {
		size_t p = s.find(';');
		std::string item = s.substr(0,p);
		s = p == std::string::npos ? "" : s.substr(p+1);
		size_t q = item.find('=');
		if(q != std::string::npos) v.push_back(load_api(item.substr(0,q),item.substr(q+1)));
	}
	return v;
}

struct Params {
	bool given = false;              // false: pass NULL
	size_t range = 0;                // 0: not set
	float threshold = -1;            // <0: not set
	int filter = -1;                 // <0: not set
	std::string str() const {
		if(!given) return "params=NULL";
		std::string s = "params{";
		if(range) s += pbt::fmt("range=%zu ",range);
		if(threshold >= 0) s += pbt::fmt("threshold=%.9g ",threshold);
		if(filter >= 0) s += pbt::fmt("filter=%d ",filter);
		return s + "}";
	}
};

struct ParamsHandle {
	RDParameters* p = nullptr;
	ParamsHandle(const Api& a, const Params& q, pbt::Ctx& ctx) {
		if(!q.given) return;
		p = a.resdet_alloc_default_parameters();
		ctx.check(p,"resdet_alloc_default_parameters returned NULL");
		if(q.range) { RDError e = a.resdet_parameters_set_range(p,q.range); PBT_CHECK(ctx,e == RDEOK,"set_range(%zu) -> %d",q.range,e); }
		if(q.threshold >= 0) { RDError e = a.resdet_parameters_set_threshold(p,q.threshold); PBT_CHECK(ctx,e == RDEOK,"set_threshold(%g) -> %d",q.threshold,e); }
		if(q.filter >= 0) { RDError e = a.resdet_parameters_set_compression_filter(p,q.filter); PBT_CHECK(ctx,e == RDEOK,"set_filter(%d) -> %d",q.filter,e); }
	}
	~ParamsHandle() { free(p); }
	ParamsHandle(const ParamsHandle&) = delete;
};

typedef std::vector<RDResolution> ResList;
struct Res {
	RDError e = RDEOK;
	ResList w, h;
};
inline std::string str(const ResList& r) {
	std::string s = "[";
	for(size_t i = 0; i < r.size() && i < 40; i++) s += pbt::fmt("%s%zu:%.9g",i ? " " : "",r[i].index,r[i].confidence);
	return s + (r.size() > 40 ? pbt::fmt(" ... %zu entries]",r.size()) : "]");
}
inline bool same(const ResList& a, const ResList& b) {
	if(a.size() != b.size()) return false;
	for(size_t i = 0; i < a.size(); i++)
		if(a[i].index != b[i].index || memcmp(&a[i].confidence,&b[i].confidence,sizeof(float))) return false;
	return true;
}

// output slots for a pair of result arrays, poisoned beforehand so that "set by the library" is checked
struct Out {
	RDResolution* rw,* rh; size_t cw, ch;
	Out() : rw((RDResolution*)(uintptr_t)0x5a5a5a50), rh((RDResolution*)(uintptr_t)0x5a5a5a50), cw(0x5a5a5a5a), ch(0x5a5a5a5a) {}
	// moves results out, freeing the library's arrays
	Res take(RDError e, pbt::Ctx& ctx) {
		Res r; r.e = e;
		if(e) {
			PBT_CHECK(ctx,!rw && !rh && cw == 0 && ch == 0,"outputs not nulled with error %d: rw=%p cw=%zu rh=%p ch=%zu",e,(void*)rw,cw,(void*)rh,ch);
			return r;
		}
		PBT_CHECK(ctx,rw && rh && rw != (RDResolution*)(uintptr_t)0x5a5a5a50 && rh != (RDResolution*)(uintptr_t)0x5a5a5a50,"result arrays missing on success: rw=%p rh=%p",(void*)rw,(void*)rh);
		PBT_CHECK(ctx,cw >= 1 && cw < (1u<<28) && ch >= 1 && ch < (1u<<28),"counts %zu %zu",cw,ch);
		r.w.assign(rw,rw+cw); r.h.assign(rh,rh+ch);
		free(rw); free(rh);
		return r;
	}
};

inline Res detect(const Api& a, const float* img, size_t n, size_t w, size_t h, const char* method, const Params& q, pbt::Ctx& ctx) {
	ParamsHandle p(a,q,ctx);
	RDMethod* m = method ? a.resdet_get_method(method) : nullptr;
	Out o;
	RDError e = a.resdetect(const_cast<float*>(img),n,w,h,&o.rw,&o.cw,&o.rh,&o.ch,m,p.p);
	return o.take(e,ctx);
}

static const char* const METHODS[4] = {"sign","mag","orig","zerox"};
static const float METHOD_THRESHOLD[4] = {.55f,.40f,.64f,.5f};
