// C28: memory use does not grow with the length of a sequence or with the number of images analysed.
#include "readcheck.hpp"
#include "routes.hpp"
#include "gen.hpp"
#include "proc.hpp"
#include "avenc.hpp"
#include <atomic>
#include <malloc.h>
using namespace pbt;
using files::File;
static std::vector<Api> apis;      // kiss, fftw: native readers; full: all readers
static std::string dir;

// ---- every allocation of the process is counted ----
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); void __libc_free(void*); }
static std::atomic<long> live, peak;
static inline void add(void* p) { if(p) { long k = (long)malloc_usable_size(p), n = live.fetch_add(k)+k, m = peak; while(n > m && !peak.compare_exchange_weak(m,n)) {} } }
static inline void sub(void* p) { if(p) live -= (long)malloc_usable_size(p); }
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); add(p); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a,b); add(p); return p; }
void free(void* p) { sub(p); __libc_free(p); }
void* realloc(void* o, size_t n) { long was = o ? (long)malloc_usable_size(o) : 0; void* p = __libc_realloc(o,n); if(p || !n) { live -= was; add(p); } return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a,n); add(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a,n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a,n); if(!p) return ENOMEM; *o = p; return 0; }
}

// a sequence of frames of one size; begin of every frame in at
struct Seq { File f; std::vector<size_t> at; size_t n = 0; };
static void make(Src& s, Seq& q, size_t n) {
	File& f = q.f; q.n = n;
	f.w = 1+s.upto(40); f.h = 1+s.upto(40);
	if(s.chance(10)) (s.chance(50) ? f.w : f.h) = 200+s.upto(800);
	Rng r = s.bulk();
	if(s.chance(50)) {
		f.type = "pfm";
		bool color = s.chance(30), big = s.chance(30), mixed = s.chance(20);
		for(size_t i = 0; i < n; i++) {
			q.at.push_back(f.data.size());
			if(mixed) { color = r.below(2); big = r.below(2); }
			f.data += fmt("P%c\n%zu %zu\n%s\n",color ? 'F' : 'f',f.w,f.h,big ? "1.0" : "-1.0");
			for(size_t k = f.w*f.h*(color ? 3 : 1); k--; ) files::put32(f.data,(float)r.unit(),big);
		}
		f.what = fmt("%s PFM %zux%zu, %zu frames",mixed ? "mixed" : color ? "color" : "gray",f.w,f.h,n);
	}
	else {
		f.type = "y4m";
		static const char* const C[] = {"mono","420jpeg","444","422p10","mono16","444alpha","411"};
		int c = (int)s.pick(7); int notes = s.chance(30);
		f.data = fmt("YUV4MPEG2 W%zu H%zu C%s\n",f.w,f.h,C[c]);
		size_t cw = (f.w+1)/2, ch = (f.h+1)/2;
		size_t bytes = c == 0 ? f.w*f.h : c == 1 ? f.w*f.h+2*cw*ch : c == 2 ? f.w*f.h*3 : c == 3 ? 2*(f.w*f.h+2*cw*f.h) : c == 4 ? f.w*f.h*2 : c == 5 ? f.w*f.h*4 : f.w*f.h+2*((f.w+3)/4)*f.h;
		for(size_t i = 0; i < n; i++) {
			q.at.push_back(f.data.size());
			f.data += "FRAME";
			if(notes) f.data += " X" + std::string(60,(char)('a'+r.below(26)));
			f.data += "\n";
			for(size_t k = 0; k < bytes; k++) f.data += (char)(c >= 3 && c <= 4 && k%2 ? r.below(4) : r.below(256));
		}
		f.what = fmt("Y4M %zux%zu C%s%s, %zu frames",f.w,f.h,C[c],notes ? " notes" : "",n);
	}
}
static size_t frames(Src& s) { return 120+s.upto(s.chance(15) ? 1500 : 200); }

// reads and seeks through a sequence: nothing is kept per frame, neither between calls nor during them
static void through(Src& s, Ctx& ctx, const Api& a, const Seq& q, const std::string& name, const char* type, const char* reader, size_t warm, long slack, long per) {
	size_t w = 0, h = 0; RDError e = 0; float* buf = nullptr;
	bool own = s.chance(30);
	int style = (int)s.pick(3); // reads; reads and seeks; mostly seeks
	size_t reads = 0, seeks = 0, pos = 0;
	struct Close { const Api& a; RDImage* im = nullptr; float*& b; ~Close() { a.resdet_close_image(im); free(b); } } c{a,nullptr,buf};
	std::vector<float> mine;
	mine.reserve(q.f.w*q.f.h*4+64);
	long held = LONG_MIN, most = LONG_MIN, start = live, first = 0;
	c.im = reader ? a.resdet_open_image_with_reader(name.c_str(),reader,&w,&h,own ? nullptr : &buf,&e) : a.resdet_open_image(name.c_str(),type,&w,&h,own ? nullptr : &buf,&e);
	PBT_CHECK(ctx,c.im && w == q.f.w && h == q.f.h,"open: error %d, %zux%zu",e,w,h);
	if(own) mine.resize(w*h);
	float* dst = own ? mine.data() : buf;
	while(pos < q.n) {
		size_t k = style == 0 || !s.chance(style == 1 ? 20 : 80) ? 0 : 1+s.small(0,(int64_t)std::min<size_t>(q.n-pos-1,pos < warm ? 3 : 150));
		if(k && pos+k > q.n) k = q.n-pos;
		peak = (long)live;
		bool ok = k ? a.resdet_seek_frame(c.im,k,nullptr,nullptr,&e) : a.resdet_read_image_frame(c.im,dst,&e);
		if(k) { seeks++; pos += k; } else { reads++; pos++; }
		PBT_CHECK(ctx,ok,"%s at frame %zu of %zu: error %d",k ? "seek" : "read",pos,q.n,e);
		long now = live, top = peak, allowed = slack+(pos > warm ? per*(long)(pos-warm) : 0);
		if(pos <= warm) { held = std::max(held,now); most = std::max(most,top); first = now; }
		else {
			if(held == LONG_MIN) { held = now; most = top; } // the first call went beyond
			PBT_CHECK(ctx,now-held <= allowed,"%ld bytes more are held after frame %zu of %zu than after frame %zu",now-held,pos,q.n,warm);
			PBT_CHECK(ctx,top-most <= allowed,"a %s up to frame %zu of %zu takes %ld bytes more than earlier ones",k ? "seek" : "read",pos,q.n,top-most);
		}
	}
	ctx.desc(fmt(" %zu reads %zu seeks%s, %ld bytes held",reads,seeks,own ? " own buffer" : "",first-start));
	ctx.label(style == 0 ? "reading through" : "reading and seeking");
}
static void reading(Src& s, Ctx& ctx) {
	Seq q; make(s,q,frames(s));
	const Api& a = apis[s.pick(2)];
	bool byreader = s.chance(30);
	ctx.desc(q.f.what);
	Route::Kind kind = s.chance(70) || q.f.data.size() > 900000 ? (s.chance(20) ? Route::STDIN_FILE : Route::REGULAR) : s.chance(50) ? Route::PIPE : Route::STDIN_PIPE;
	Route r(ctx,kind,"seq." + q.f.type,q.f.data);
	if(!r.ok) throw Discard();
	ctx.desc(fmt(" from %s",r.what()));
	through(s,ctx,a,q,r.name,q.f.type.c_str(),byreader ? q.f.type == "pfm" ? "PFM" : "Y4M" : nullptr,3,8192,16);
	ctx.nontrivial(hash_bytes(q.f.data.data(),q.f.data.size()));
}
static void ffmpeg(Src& s, Ctx& ctx) {
	Seq q; q.n = 150+s.upto(200);
	size_t w = 64+s.upto(40), h = 64+s.upto(40);
	auto g = files::grays(s,w,h,q.n);
	File& f = q.f; f.w = w; f.h = h;
	int kind = (int)s.pick(4);
	switch(kind) {
		case 0: f.type = "y4m"; f.data = files::y4m_bytes(g,w,h); break;
		case 1: f.type = "pgm"; for(auto& x : g) f.data += files::pgm_bytes(x,w,h); break;
		case 2: f.type = "avi"; f.data = files::avi_bytes(g,w,h,(int)s.pick(2),files::avi_audio(s,q.n)); break;
		default: f = avenc::encode(s,g,w,h); f.w = w; f.h = h; f.what = f.type; if(f.data.empty()) throw Discard();
	}
	ctx.desc(fmt("%s %zux%zu, %zu frames, FFmpeg",f.type.c_str(),w,h,q.n));
	std::string name = files::write(ctx,"seq." + f.type,f.data);
	struct Rm { std::string n; ~Rm() { unlink(n.c_str()); } } rm{name};
	through(s,ctx,apis[2],q,name,nullptr,"FFmpeg",70,65536,w*h/4);
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

// detection of a whole file: the peak is that of its first few frames
static void file(Src& s, Ctx& ctx) {
	Seq q; make(s,q,frames(s));
	const Api& a = apis[s.pick(2)];
	size_t few = 2+s.upto(4);
	const char* m = METHODS[s.pick(4)];
	ctx.desc(fmt("%s, first %zu, %s %s",q.f.what.c_str(),few,a.name.c_str(),m));
	long top[2];
	for(int pass = 0; pass < 3; pass++) { // the first one for what is kept once
		std::string name = files::write(ctx,"seq." + q.f.type,pass < 2 ? q.f.data.substr(0,q.at[few]) : q.f.data);
		Out o;
		long before = live; peak = before;
		RDError e = a.resdetect_file(name.c_str(),nullptr,&o.rw,&o.cw,&o.rh,&o.ch,a.resdet_get_method(m),nullptr);
		if(pass) top[pass-1] = peak-before;
		o.take(e,ctx);
		unlink(name.c_str());
		PBT_CHECK(ctx,!e,"error %d",e);
	}
	PBT_CHECK(ctx,top[1]-top[0] <= 8192+16*(long)q.n,"%zu frames take %ld bytes, the first %zu of them %ld",q.n,top[1],few,top[0]);
	ctx.desc(fmt(", %ld bytes",top[1]));
	ctx.label("resdetect_file");
	ctx.nontrivial(hash_bytes(q.f.data.data(),q.f.data.size()));
}

// one analysis, any number of images and results
static void analysis(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(2)];
	size_t w = 1+s.upto(60), h = 1+s.upto(60), n = 60+s.upto(200);
	if(s.chance(10)) (s.chance(50) ? w : h) = 100+s.upto(400);
	const char* m = METHODS[s.pick(4)];
	std::vector<float> img = gen::image(s,w,h,nullptr,gen::NOISE), bad = img;
	bad[s.pick(bad.size())] = s.chance(50) ? NAN : INFINITY;
	Params p; if(s.chance(50)) { p.given = true; p.range = 1+s.upto(15); p.threshold = 0; }
	ParamsHandle ph(a,p,ctx);
	RDError e;
	struct D { const Api& a; RDAnalysis* an; ~D() { a.resdet_destroy_analysis(an); } } d{a,a.resdet_create_analysis(a.resdet_get_method(m),w,h,ph.p,&e)};
	PBT_CHECK(ctx,d.an,"error %d",e);
	ctx.desc(fmt("%s %s %zux%zu, %zu images",a.name.c_str(),m,w,h,n));
	long held = 0, most[3] = {LONG_MIN,LONG_MIN,LONG_MIN};
	size_t refused = 0, results = 0;
	for(size_t i = 0; i < n; i++) {
		int k = i < 3 ? (int)i : s.chance(70) ? 0 : 1+(int)s.pick(2); // first each once: an image, an image that is refused, results
		peak = (long)live;
		if(k == 2) {
			Out o;
			e = a.resdet_analysis_results(d.an,&o.rw,&o.cw,&o.rh,&o.ch);
			free(o.rw); free(o.rh); o.rw = o.rh = nullptr; results++;
		}
		else e = a.resdet_analyze_image(d.an,k ? bad.data() : img.data());
		if(k == 1) refused++;
		long now = live, top = peak;
		PBT_CHECK(ctx,e == (k == 1 ? RDEINVAL : RDEOK),"step %zu: error %d",i,e);
		if(i < 3) { held = now; most[k] = top; }
		else {
			PBT_CHECK(ctx,now-held <= 8192+16*(long)i,"%ld bytes more are held after %zu steps than after 3",now-held,i+1);
			PBT_CHECK(ctx,top-most[k] <= 8192+16*(long)i,"step %zu takes %ld bytes more than the first of its kind",i+1,top-most[k]);
		}
	}
	ctx.desc(fmt(" (%zu refused, %zu results)",refused,results));
	ctx.label(std::string("analysis: ") + m);
	ctx.nontrivial(hash_bytes(ctx.description.data(),ctx.description.size()));
}

// bulk reading takes what its frames take, while it grows and afterwards; one frame takes a few frames' memory
static void bulk(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(2)];
	File f; size_t n;
	if(s.chance(50)) { Seq q; make(s,q,1+s.upto(150)); f = q.f; n = q.n; }
	else { f = files::any(s); n = f.frames.size(); }
	ctx.desc(f.what + " " + a.name);
	std::string name = files::write(ctx,"in." + f.type,f.data);
	size_t w = 0, h = 0, got = 0; float* img = nullptr;
	long before = live; peak = before;
	RDError e = a.resdet_read_image(name.c_str(),nullptr,&img,&got,&w,&h);
	long top = peak-before, held = live-before;
	free(img);
	unlink(name.c_str());
	PBT_CHECK(ctx,got == n || (n == 0 && !got),"error %d, %zu of %zu frames",e,got,n);
	long frame = (long)(f.w*f.h*4), most = frame*4*(long)(n+1)+frame*8+2*(long)f.data.size()+(512 << 10);
	PBT_CHECK(ctx,top <= most,"%ld bytes for %zu frames of %ld",top,n,frame);
	PBT_CHECK(ctx,held <= frame*2*(long)(n+1)+(64 << 10),"%ld bytes are held for %zu frames of %ld",held,n,frame);
	ctx.label(fmt("bulk %s",f.type.c_str()));
	if(f.w*f.h > 1) ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

// the commands
static void tools(Src& s, Ctx& ctx) {
	Seq q; make(s,q,frames(s));
	size_t few = 2+s.upto(4);
	bool imgread = s.chance(40), in = s.chance(40);
	std::vector<std::string> av;
	if(imgread) av = {dir + "/imgread",in ? "-" : "",ctx.scratch() + "/out.pfm"};
	else {
		av = {dir + "/resdet","-v",std::to_string(s.upto(3)),"-m",METHODS[s.pick(4)]};
		if(in || s.chance(30)) { av.push_back("-t"); av.push_back(q.f.type); }
		if(s.chance(30)) av.push_back("-p");
		if(s.chance(30)) { av.push_back("-o"); av.push_back("1"); }
		if(s.chance(30)) { av.push_back("-n"); av.push_back(std::to_string(few+s.upto(200))); }
		av.push_back(in ? "-" : "");
	}
	if(imgread && in) { in = false; av[1] = ""; } // it has no way to name the type
	long top[2];
	for(int pass = 0; pass < 2; pass++) {
		std::string name = files::write(ctx,"seq." + q.f.type,pass ? q.f.data : q.f.data.substr(0,q.at[few])), log = ctx.scratch() + "/peak";
		for(auto& x : av) if(x.empty() || (pass && x == ctx.scratch() + "/seq." + q.f.type)) x = name;
		unlink(log.c_str());
		setenv("PEAK_LOG",log.c_str(),1);
		setenv("LD_PRELOAD",getenv("PEAKALLOC"),1);
		proc::Ran g = proc::run(ctx,av,in ? name : "");
		unsetenv("LD_PRELOAD"); unsetenv("PEAK_LOG");
		std::string p = proc::slurp(log);
		unlink(log.c_str()); unlink(name.c_str());
		PBT_CHECK(ctx,g.exited && !p.empty(),"ended with %d, %s",g.status,proc::brief(g.err).c_str());
		top[pass] = atol(p.c_str());
		PBT_CHECK(ctx,g.exited && top[pass] > 0,"no memory used? %ld, %s",top[pass],proc::brief(g.err).c_str());
	}
	unlink((ctx.scratch() + "/out.pfm").c_str());
	ctx.desc(fmt("%s, first %zu: %s%s, %ld bytes",q.f.what.c_str(),few,proc::quote(av).c_str(),in ? " < file" : "",top[1]));
	PBT_CHECK(ctx,top[1]-top[0] <= 16384+16*(long)q.n,"%s: %zu frames take %ld bytes, the first %zu of them %ld",proc::quote(av).c_str(),q.n,top[1],few,top[0]);
	ctx.label(imgread ? "imgread" : "resdet");
	ctx.nontrivial(hash_bytes(q.f.data.data(),q.f.data.size()));
}

int main(int argc, char** argv) {
	const char* d = getenv("RESDET_TOOLS");
	dir = d ? d : "";
	return main_(argc,argv,{
		{"reading",reading,4000,60000},
		{"file",file,800,20000},
		{"analysis",analysis,3000,40000},
		{"bulk",bulk,8000,100000},
		{"ffmpeg",ffmpeg,250,4000},
		{"tools",tools,400,8000},
	},[]{ files::MUCH = false; apis = load_apis(); });
}
