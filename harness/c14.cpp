// C14: every route from a file to pixels and to results gives the same answer.
#include "readcheck.hpp"
#include "routes.hpp"
#include "gen.hpp"
#include <sys/stat.h>
using namespace pbt;
using files::File;
static std::vector<Api> apis;

struct Content { RDError e = RDEOK; size_t w = 0, h = 0, n = 0; std::vector<float> px; };
static bool equal(const Content& a, const Content& b) { return a.e == b.e && a.w == b.w && a.h == b.h && a.n == b.n && a.px.size() == b.px.size() && !memcmp(a.px.data(),b.px.data(),a.px.size()*4); }
static std::string str(const Content& c) { return fmt("error %d, %zu frames of %zux%zu, pixel hash %llx",c.e,c.n,c.w,c.h,(unsigned long long)hash_bytes(c.px.data(),c.px.size()*4)); }

// frame by frame; partial frames are kept even if an error follows
static Content by_frame(const Api& a, const std::string& name, const char* type, const char* reader, int buffers) {
	Content c; float* ib = nullptr;
	RDImage* im = reader ? a.resdet_open_image_with_reader(name.c_str(),reader,&c.w,&c.h,buffers == 0 ? &ib : nullptr,&c.e) : a.resdet_open_image(name.c_str(),type,&c.w,&c.h,buffers == 0 ? &ib : nullptr,&c.e);
	if(!im) return c;
	std::vector<float> own(buffers == 1 ? c.w*c.h : 0);
	for(;;) {
		float* b;
		if(buffers == 0) b = ib;
		else if(buffers == 1) b = own.data();
		else { c.px.resize((c.n+1)*c.w*c.h); b = &c.px[c.n*c.w*c.h]; } // straight into the sequence
		if(!a.resdet_read_image_frame(im,b,&c.e)) { if(buffers == 2) c.px.resize(c.n*c.w*c.h); break; }
		if(buffers != 2) c.px.insert(c.px.end(),b,b+c.w*c.h);
		c.n++;
	}
	a.resdet_close_image(im);
	free(ib);
	return c;
}
static Content in_bulk(const Api& a, const std::string& name, const char* type) {
	Content c; float* img = nullptr;
	c.e = a.resdet_read_image(name.c_str(),type,&img,&c.n,&c.w,&c.h);
	if(img) c.px.assign(img,img+c.n*c.w*c.h);
	free(img);
	return c;
}

static const char* mime(const std::string& t) { return t == "pgm" ? "image/x-portable-graymap" : t == "pfm" ? "image/x-portable-floatmap" : t == "y4m" ? "video/yuv4mpeg" : t == "png" ? "image/png" : "image/jpeg"; }
static const char* reader_of(const std::string& t) { return t == "pgm" ? "PGM" : t == "pfm" ? "PFM" : t == "y4m" ? "Y4M" : t == "png" ? "libpng" : "libjpeg"; }

// one way of naming the format
struct Typing { const char* type = nullptr,* reader = nullptr; std::string store, ext, what; };
static void typing(Src& s, const std::string& t, bool bulk, Typing& o, bool std_in) {
	o.ext = t; o.what = "by name";
	int k = std_in ? 1+(int)s.pick(bulk ? 2 : 3) : (int)s.pick(bulk ? 3 : 4);
	if(k == 0) { if(s.chance(40)) for(auto& c : o.ext) if(s.chance(60)) c = (char)toupper(c); return; }
	o.ext = s.of(std::vector<std::string>{t,"png","pgm","dat","","jpeg"});
	if(k == 1) { o.store = t; if(s.chance(40)) for(auto& c : o.store) if(s.chance(60)) c = (char)toupper(c); o.type = o.store.c_str(); o.what = "type " + o.store; }
	else if(k == 2) { o.type = mime(t); o.what = o.type; }
	else { o.store = reader_of(t); if(s.chance(40)) for(auto& c : o.store) if(s.chance(60)) c = (char)(isupper(c) ? tolower(c) : toupper(c)); o.reader = o.store.c_str(); o.what = "reader " + o.store; }
}

static File gen_file(Src& s, bool& damaged) {
	File f = files::any(s);
	damaged = s.chance(12);
	if(damaged) { // cut somewhere; all routes from the regular file must agree on what is left
		f.data.resize(s.upto(f.data.size()-1));
		f.what += fmt(" cut at %zu",f.data.size());
	}
	return f;
}

static void reading(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	bool damaged;
	files::WIDEST = 65000;
	File f = gen_file(s,damaged);
	files::WIDEST = 1600;
	ctx.desc(f.what);
	std::string base = files::write(ctx,"base." + f.type,f.data);
	Content ref = by_frame(a,base,nullptr,nullptr,0);
	if(!damaged) {
		PBT_CHECK(ctx,ref.e == RDEOK && ref.w == f.w && ref.h == f.h && ref.n == f.frames.size(),"reference: %s",str(ref).c_str());
		for(size_t i = 0; i < ref.n; i++) { std::string d = files::differ(f,i,&ref.px[i*f.w*f.h]); if(!d.empty()) ctx.fail(d); }
	}
	struct stat st0; stat(base.c_str(),&st0);
	for(int k = 0, n = 1+(int)s.upto(3); k < n; k++) {
		bool bulk = s.chance(40);
		Route::Kind rk = (Route::Kind)s.weighted({40,25,15,20});
		// a cut chroma plane is noticed on pipes only, and a cut JPEG is filled
		if(damaged && f.type == "y4m") rk = Route::REGULAR;
		Typing t;
		typing(s,f.type,bulk,t,rk != Route::REGULAR);
		std::string name = s.of(std::vector<std::string>{"x","a.b","with space","x.PNG","-","é","-x","--","a:b","%d","x\ny",std::string(200,'n')});
		if(!t.ext.empty()) name += "." + t.ext;
		if(name == "-") name = "x";
		bool relative = rk == Route::REGULAR && s.chance(40);
		Route r(ctx,rk,name,f.data,relative);
		if(!r.ok) continue;
		int buffers = (int)s.pick(3);
		ctx.desc(fmt("%s %s, %s, named %s%s",bulk ? "; bulk" : "; frames",r.what(),t.what.c_str(),name.c_str(),relative ? " (relative)" : ""));
		ctx.label(fmt("%s, %s",r.what(),bulk ? "bulk" : "frames"));
		Content c = bulk ? in_bulk(a,r.name,t.type) : by_frame(a,r.name,t.type,t.reader,buffers);
		Content want = ref;
		if(bulk && ref.e) { want.n = 0; want.px.clear(); c.w = want.w; c.h = want.h; }
		if(!equal(c,want)) ctx.fail(fmt("%s instead of %s",str(c).c_str(),str(want).c_str()));
		PBT_CHECK(ctx,r.stdin_open(),"standard input was closed");
	}
	struct stat st1; stat(base.c_str(),&st1);
	PBT_CHECK(ctx,st0.st_mtim.tv_sec == st1.st_mtim.tv_sec && st0.st_mtim.tv_nsec == st1.st_mtim.tv_nsec && st0.st_size == st1.st_size && st0.st_ino == st1.st_ino,"the file was touched");
	unlink(base.c_str());
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

static Res step_by_step(const Api& a, const std::string& name, const char* type, RDMethod* m, RDParameters* p, Ctx& ctx) {
	Out o; RDError e = 12345; size_t w, h; float* b;
	RDImage* im = a.resdet_open_image(name.c_str(),type,&w,&h,&b,&e);
	if(!im) { o.rw = o.rh = nullptr; o.cw = o.ch = 0; return o.take(e,ctx); }
	RDAnalysis* an = a.resdet_create_analysis(m,w,h,p,&e);
	if(an) {
		while(a.resdet_read_image_frame(im,b,&e)) if((e = a.resdet_analyze_image(an,b))) break;
		if(!e) e = a.resdet_analysis_results(an,&o.rw,&o.cw,&o.rh,&o.ch);
		else { o.rw = o.rh = nullptr; o.cw = o.ch = 0; }
	}
	else { o.rw = o.rh = nullptr; o.cw = o.ch = 0; }
	a.resdet_destroy_analysis(an);
	a.resdet_close_image(im);
	free(b);
	return o.take(e,ctx);
}

static void detecting(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	bool damaged;
	File f = gen_file(s,damaged);
	Params q; q.given = s.chance(85);
	if(q.given) { if(s.chance(80)) q.range = 1+s.upto(7); if(s.chance(80)) q.threshold = s.chance(50) ? 0 : s.upto(1000)/1000.f; if(s.chance(25)) q.filter = (int)s.upto(8); }
	const char* method = METHODS[s.pick(4)];
	bool nomethod = s.chance(15);
	ctx.desc(fmt("%s, method %s, %s",f.what.c_str(),nomethod ? "NULL" : method,q.str().c_str()));
	std::string path = files::write(ctx,"f." + f.type,f.data);
	ParamsHandle p(a,q,ctx);
	RDMethod* m = nomethod ? nullptr : a.resdet_get_method(method);
	Out of;
	RDError e = a.resdetect_file(path.c_str(),nullptr,&of.rw,&of.cw,&of.rh,&of.ch,m,p.p);
	Res file = of.take(e,ctx);
	Res step = step_by_step(a,path,nullptr,m,p.p,ctx);
	if(file.e != step.e || !same(file.w,step.w) || !same(file.h,step.h)) ctx.fail(fmt("resdetect_file: error %d %s %s\nstep by step: error %d %s %s",file.e,str(file.w).c_str(),str(file.h).c_str(),step.e,str(step.w).c_str(),str(step.h).c_str()));
	Content c = in_bulk(a,path,nullptr);
	Res direct;
	if(c.e) direct.e = c.e;
	else { Out o; float dummy; RDError e2 = a.resdetect(c.n ? c.px.data() : &dummy,c.n,c.w,c.h,&o.rw,&o.cw,&o.rh,&o.ch,m,p.p); direct = o.take(e2,ctx); }
	// with an unusable frame and a damaged later one, the first problem met is reported
	bool both = c.e && file.e && file.e != c.e;
	if(!both && (file.e != direct.e || !same(file.w,direct.w) || !same(file.h,direct.h))) ctx.fail(fmt("resdetect_file: error %d %s %s\nfrom pixels: error %d %s %s",file.e,str(file.w).c_str(),str(file.h).c_str(),direct.e,str(direct.w).c_str(),str(direct.h).c_str()));
	// other routes, and outputs left out
	for(int k = 0; k < 2; k++) {
		Route::Kind rk = (Route::Kind)s.weighted({30,30,20,20});
		if(damaged && f.type == "y4m") rk = Route::REGULAR;
		Typing t;
		typing(s,f.type,true,t,rk != Route::REGULAR);
		Route r(ctx,rk,s.of(std::vector<std::string>{"x","-x","-"}) + (t.ext.empty() ? "y" : "." + t.ext),f.data,rk == Route::REGULAR && s.chance(40));
		if(!r.ok) continue;
		int drop = (int)s.weighted({65,13,13,9}); // 3: both
		ctx.label(fmt("detect, %s",r.what()));
		Out o;
		e = a.resdetect_file(r.name.c_str(),t.type,drop & 1 ? nullptr : &o.rw,drop & 1 ? nullptr : &o.cw,drop & 2 ? nullptr : &o.rh,drop & 2 ? nullptr : &o.ch,m,p.p);
		PBT_CHECK(ctx,e == file.e,"%s, %s: error %d instead of %d",r.what(),t.what.c_str(),e,file.e);
		if(!e) {
			ResList lw, lh;
			if(!(drop & 1)) { lw.assign(o.rw,o.rw+o.cw); free(o.rw); } else lw = file.w;
			if(!(drop & 2)) { lh.assign(o.rh,o.rh+o.ch); free(o.rh); } else lh = file.h;
			if(!same(lw,file.w) || !same(lh,file.h)) ctx.fail(fmt("%s, %s: %s %s instead of %s %s",r.what(),t.what.c_str(),str(lw).c_str(),str(lh).c_str(),str(file.w).c_str(),str(file.h).c_str()));
		}
		PBT_CHECK(ctx,r.stdin_open(),"standard input was closed");
	}
	unlink(path.c_str());
	if(!file.e) { ctx.label(fmt("detected, %s",f.frames.size() > 1 ? "several frames" : "one frame")); if(file.w.size()+file.h.size() > 2) ctx.nontrivial(hash_bytes(f.data.data(),f.data.size())); }
	else ctx.label(fmt("error %d",file.e));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"reading",reading,150000,2500000},
		{"detecting",detecting,60000,1000000},
	},[]{ apis = load_apis(); });
}
