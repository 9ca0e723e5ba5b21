// Operations on the library, as sequences of steps (API calls), with a log of all they give.
#pragma once
#include "rapi.hpp"
#include "files.hpp"
#include "gen.hpp"
#include <cstring>
#include <sys/stat.h>

namespace ops {
using pbt::Src; using pbt::fmt;

enum Kind { DETECT, ANALYSIS, IMAGE, BULK, DETECTFILE, PARAMS, TABLES };
struct Step { int what = 0; size_t arg = 0; };
struct Op {
	Kind kind = DETECT; std::string desc;
	size_t w = 0, h = 0; std::vector<std::vector<float>> images;    // DETECT, ANALYSIS
	const char* method = nullptr; Params q; int mask = 0;            // requested outputs
	std::string file, type, data; bool with_type = false;           // IMAGE, BULK, DETECTFILE
	std::vector<Step> steps;
};

static size_t OFFSET = 0; // floats by which the images handed over lie off the allocator's alignment

// binary log
inline void put(std::string& o, const void* p, size_t n) { o.append((const char*)p,n); }
inline void num(std::string& o, const char* name, long long v) { o += fmt(" %s=%lld",name,v); }
inline void list(std::string& o, const char* name, const RDResolution* r, size_t n) {
	o += fmt(" %s(%zu)=",name,n);
	if(r) for(size_t i = 0; i < n; i++) { uint32_t b; memcpy(&b,&r[i].confidence,4); o += fmt("%zu:%08x,",r[i].index,b); }
	else o += "NULL";
}
inline void pixels(std::string& o, const float* p, size_t n) { o += fmt(" pixels(%zu)=%016llx",n,(unsigned long long)pbt::hash_bytes((const char*)p,n*4)); }

class Run {
	const Api& a; const Op& op; size_t at = 0;
	RDParameters* p = nullptr; RDAnalysis* an = nullptr; RDImage* im = nullptr; float* buf = nullptr; size_t w = 0, h = 0;
	std::vector<std::vector<float>> px; bool started = false;
	void make_params() {
		if(!op.q.given) return;
		p = a.resdet_alloc_default_parameters();
		if(!p) { log += " no parameters"; return; }
		if(op.q.range) num(log,"range",a.resdet_parameters_set_range(p,op.q.range));
		if(op.q.threshold >= 0) num(log,"threshold",a.resdet_parameters_set_threshold(p,op.q.threshold));
		if(op.q.filter >= 0) num(log,"filter",a.resdet_parameters_set_compression_filter(p,(unsigned char)op.q.filter));
	}
	RDMethod* method() { return op.method ? a.resdet_get_method(op.method) : nullptr; }
	void outputs(RDError e, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) {
		num(log,"error",e);
		if(!(op.mask & 1)) { list(log,"w",rw,cw); free(rw); }
		if(!(op.mask & 2)) { list(log,"h",rh,ch); free(rh); }
	}
public:
	std::string log, bad;
	Run(const Api& a, const Op& op) : a(a), op(op), px(op.images) {}
	Run(const Run&) = delete;
	~Run() { if(an) a.resdet_destroy_analysis(an); if(im) a.resdet_close_image(im); free(buf); free(p); }
	bool done() const { return at >= op.steps.size(); }
	const char* path() const { return op.file.c_str(); }
	const char* type() const { return op.with_type ? op.type.c_str() : nullptr; }
	void step() {
		const Step& s = op.steps[at++];
		RDResolution* const junk = (RDResolution*)(uintptr_t)0x5a5a5a50;
		RDResolution* rw = junk,* rh = junk; size_t cw = 7, ch = 7; RDError e = 12345;
		log += fmt("\n%zu:",at);
		switch(op.kind) {
			case DETECT: {
				make_params();
				std::vector<float> all(OFFSET); for(auto& x : px) all.insert(all.end(),x.begin(),x.end());
				std::vector<float> copy = all;
				e = a.resdetect(all.data()+OFFSET,px.size(),op.w,op.h,op.mask & 1 ? nullptr : &rw,&cw,op.mask & 2 ? nullptr : &rh,&ch,method(),p);
				outputs(e,rw,cw,rh,ch);
				if(memcmp(all.data(),copy.data(),all.size()*4)) bad = "the caller's image was modified";
				break;
			}
			case ANALYSIS:
				if(s.what == 0) { make_params(); an = a.resdet_create_analysis(method(),op.w,op.h,p,&e); num(log,"create",!!an); num(log,"error",e); free(p); p = nullptr; }
				else if(s.what == 1) {
					std::vector<float>& x = px[s.arg];
					if(x.size() == op.images[s.arg].size()) x.insert(x.begin(),OFFSET,0.f);
					num(log,"analyze",a.resdet_analyze_image(an,x.data()+OFFSET));
					if(memcmp(x.data()+OFFSET,op.images[s.arg].data(),op.images[s.arg].size()*4)) bad = "the caller's image was modified";
				}
				else if(s.what == 2) num(log,"analyze NULL",a.resdet_analyze_image(an,nullptr));
				else if(s.what == 3) { e = a.resdet_analysis_results(an,op.mask & 1 ? nullptr : &rw,&cw,op.mask & 2 ? nullptr : &rh,&ch); outputs(e,rw,cw,rh,ch); }
				else { a.resdet_destroy_analysis(an); an = nullptr; }
				break;
			case IMAGE:
				if(s.what == 0) { im = a.resdet_open_image(path(),type(),&w,&h,op.mask & 1 ? nullptr : &buf,&e); num(log,"open",!!im); num(log,"error",e); num(log,"w",w); num(log,"h",h); if(im && !buf && w*h < 1u<<22) buf = (float*)calloc(w*h,4); }
				else if(s.what == 1) {
					if(im && w*h >= 1u<<22) { log += " too large"; break; }
					if(im) memset(buf,0x42,w*h*4);
					bool ok = a.resdet_read_image_frame(im,buf,&e); num(log,"read",ok); num(log,"error",e);
					if(ok) pixels(log,buf,w*h);
				}
				else if(s.what == 2) { bool ok = a.resdet_seek_frame(im,s.arg,nullptr,nullptr,&e); num(log,"seek",ok); num(log,"error",e); }
				else { a.resdet_close_image(im); im = nullptr; free(buf); buf = nullptr; }
				break;
			case BULK: {
				float* img = (float*)junk; size_t n = 7;
				e = a.resdet_read_image(path(),type(),&img,&n,&w,&h);
				num(log,"error",e); num(log,"n",n); num(log,"w",w); num(log,"h",h);
				if(!e) pixels(log,img,n*w*h);
				if(img != (float*)junk) free(img);
				break;
			}
			case DETECTFILE:
				make_params();
				e = a.resdetect_file(path(),type(),op.mask & 1 ? nullptr : &rw,&cw,op.mask & 2 ? nullptr : &rh,&ch,method(),p);
				outputs(e,rw,cw,rh,ch);
				break;
			case PARAMS:
				if(s.what == 0) { p = a.resdet_alloc_default_parameters(); num(log,"alloc",!!p); }
				else if(s.what == 1) num(log,"range",a.resdet_parameters_set_range(p,s.arg));
				else if(s.what == 2) num(log,"threshold",a.resdet_parameters_set_threshold(p,(float)(long)(s.arg-5)/100));
				else if(s.what == 3) num(log,"filter",a.resdet_parameters_set_compression_filter(p,(unsigned char)s.arg));
				else if(s.what == 4) {
					std::vector<float> all; for(auto& x : px) all.insert(all.end(),x.begin(),x.end());
					e = a.resdetect(all.data(),px.size(),op.w,op.h,&rw,&cw,&rh,&ch,method(),p);
					num(log,"error",e); list(log,"w",rw,cw); list(log,"h",rh,ch); free(rw); free(rh);
				}
				else { free(p); p = nullptr; }
				break;
			case TABLES:
				for(RDMethod* m = a.resdet_methods(); m->name; m++) { log += std::string(" ") + m->name; uint32_t b; memcpy(&b,&m->threshold,4); log += fmt(":%08x",b); }
				for(const char* const* r = a.resdet_list_image_readers(); *r; r++) log += std::string(" ") + *r;
				for(int i = 0; i <= a.resdet_get_max_error(); i++) log += std::string(" ") + a.resdet_error_str(i);
				for(int i = 0; i < 12; i++) { const char* t = a.resdet_error_str(-(int)(1+(s.arg+7*i)%132)); log += std::string(" ") + (t ? t : "NULL"); }
				log += std::string(" ") + a.resdet_libversion();
				num(log,"range",a.resdet_default_range());
				for(const char* n : {"sign","mag","orig","zerox","nosuch",""}) { RDMethod* m = a.resdet_get_method(n); log += m ? std::string(" ") + m->name : " -"; }
				log += std::string(" ") + (a.resdet_get_method(nullptr) ? a.resdet_get_method(nullptr)->name : "-");
				break;
		}
	}
};

inline Params params(Src& s) {
	Params q; q.given = s.chance(75);
	if(q.given) {
		if(s.chance(60)) q.range = 1+s.upto(s.chance(90) ? 14 : 300);
		if(s.chance(75)) q.threshold = s.chance(60) ? 0 : s.upto(100)/100.f;
		if(s.chance(20)) q.filter = (int)s.upto(s.chance(80) ? 6 : 31);
	}
	return q;
}

// sizes repeat, so that something kept from an earlier call of the same size shows
inline size_t side(Src& s, size_t max) { static const size_t few[] = {8,12,14,21,26,30,35}; return s.chance(45) ? few[s.pick(7)] : s.chance(85) ? 1+s.upto(max-1) : 1+s.upto(3); }

inline Op make(Src& s, size_t max, const std::string& dir, size_t index, const std::vector<const Op*>& earlier) {
	Op o; o.kind = (Kind)s.weighted({30,22,18,8,10,8,4});
	const Op* like = earlier.empty() || s.chance(55) ? nullptr : earlier[s.pick(earlier.size())];
	o.method = s.chance(15) ? nullptr : METHODS[s.pick(4)];
	o.mask = s.chance(75) ? 0 : (int)s.upto(3);
	o.q = params(s);
	auto images = [&](size_t most) {
		if(like && !like->images.empty()) {
			o.w = like->w; o.h = like->h;
			if(s.chance(30)) { o.images = like->images; return; } // the same images again, with other parameters
			if(s.chance(20)) std::swap(o.w,o.h);
		}
		else { o.w = side(s,max); o.h = s.chance(35) ? o.w : side(s,max); }
		size_t n = s.chance(60) ? 1 : 1+s.upto(most-1);
		int k = -1;
		for(size_t i = 0; i < n; i++) {
			o.images.push_back(gen::image(s,o.w,o.h,&k,i && s.chance(70) ? k : -1));
			if(s.chance(4)) o.images.back()[s.pick(o.w*o.h)] = s.chance(50) ? NAN : INFINITY;
		}
	};
	auto file = [&]() {
		if(like && !like->data.empty() && s.chance(40)) { o.data = like->data; o.type = like->type; o.file = like->file; o.with_type = s.chance(40); return std::string("the same file"); }
		files::File f = files::any(s);
		std::string d = f.what;
		if(s.chance(12)) { f.data.resize(s.upto(f.data.size()-1)); d += " cut"; }
		else if(s.chance(12) && f.type != "jpg" && f.type != "jpeg") { f.data[s.pick(f.data.size())] ^= (char)(1 << s.upto(7)); d += " damaged"; }
		o.data = f.data; o.type = f.type; o.with_type = s.chance(40);
		std::string ext = s.chance(92) ? f.type : s.of(std::vector<std::string>{"pgm","pfm","y4m","png","jpg","xyz"});
		o.file = dir + fmt("/%zu.%s",index,ext.c_str());
		const Op* gone = nullptr;
		for(auto e : earlier) if(!e->file.empty() && e->data.empty()) gone = e;
		if(gone && s.chance(50)) ext = gone->file.substr(gone->file.rfind('.')+1);
		if(s.chance(gone ? 30 : 4)) { // for various reasons
			static const char* const why[] = {"/missing","/no/such/dir","/plain/x","/loop","/long"};
			size_t k = s.pick(5);
			o.file = dir + why[k] + (k == 4 ? std::string(300,'x') : "") + "." + ext; o.data.clear(); d = "missing file";
			if(k == 2) { if(FILE* f = fopen((dir + "/plain").c_str(),"w")) fclose(f); } // not a directory
			if(k == 3) { if(symlink(o.file.c_str(),o.file.c_str())) {} } // a link to itself
		}
		return d;
	};
	static const char* const N[] = {"detect","analysis","image","bulk","detect file","parameters","tables"};
	o.desc = N[o.kind];
	switch(o.kind) {
		case DETECT: images(3); o.steps.resize(1); break;
		case ANALYSIS: {
			images(4);
			o.steps.push_back({0,0});
			for(size_t n = 1+s.upto(6); n; n--) { int k = (int)s.weighted({60,6,34}); o.steps.push_back({1+k,s.pick(o.images.size())}); }
			o.steps.push_back({3,0});
			if(s.chance(80)) o.steps.push_back({4,0});
			break;
		}
		case IMAGE:
			o.desc += " " + file();
			o.steps.push_back({0,0});
			for(size_t n = 1+s.upto(5); n; n--) { if(s.chance(75)) o.steps.push_back({1,0}); else o.steps.push_back({2,(size_t)s.small(0,4)}); }
			if(s.chance(80)) o.steps.push_back({3,0});
			break;
		case BULK: case DETECTFILE: o.desc += " " + file(); o.steps.resize(1); break;
		case PARAMS: {
			images(2);
			o.steps.push_back({0,0});
			for(size_t n = 1+s.upto(6); n; n--) {
				int k = (int)s.weighted({30,30,20,20});
				o.steps.push_back({1+k,k == 0 ? (size_t)s.upto(14) : k == 1 ? (size_t)s.upto(110) : (size_t)s.upto(s.chance(70) ? 6 : 255)});
			}
			o.steps.push_back({4,0});
			o.steps.push_back({5,0});
			break;
		}
		case TABLES: o.steps.resize(1); o.steps[0].arg = s.upto(131); break;
	}
	if(!o.images.empty()) o.desc += fmt(" %zux%zu x%zu",o.w,o.h,o.images.size());
	if(o.kind == DETECT || o.kind == ANALYSIS || o.kind == DETECTFILE) o.desc += std::string(" ") + (o.method ? o.method : "default") + " " + o.q.str() + (o.mask ? fmt(" without %d",o.mask) : "");
	return o;
}
inline void write_file(const Op& o) {
	if(o.file.empty() || o.data.empty()) return;
	FILE* f = fopen(o.file.c_str(),"wb");
	if(!f || fwrite(o.data.data(),1,o.data.size(),f) != o.data.size() || fclose(f)) { perror(o.file.c_str()); exit(3); }
}
inline std::string slurp_file(const std::string& p) {
	std::string o; char b[65536]; size_t n;
	FILE* f = fopen(p.c_str(),"rb"); if(!f) return o;
	while((n = fread(b,1,sizeof b,f))) o.append(b,n);
	fclose(f); return o;
}
}
