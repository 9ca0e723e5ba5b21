// C19: failing and ending reads. fopen and stdin are replaced by streams over memory that fail as drawn.
#include "inject.hpp"
#include "readcheck.hpp"
#include "gen.hpp"
using namespace pbt;
using files::File;
using inject::Arm;
static std::vector<Api> apis;

// ---- the streams ----
enum Mode { NONE, STICKY, ONCE, END };
struct Source {
	const std::string* data = nullptr;
	size_t limit = SIZE_MAX; Mode mode = NONE; int err = EIO;
	size_t pos = 0, shortest = 0;     // longest single read, 0: unlimited
	bool seekable = true; long seeks = 0, fail_seek_from = -1; int seek_err = EIO; bool seek_failed = false;
	bool hit = false;                 // the failure was delivered
	long closes = 0, opens = 0, reads = 0;
	int open_err = 0;                 // fopen itself fails
};
static Source src;
static ssize_t src_read(void*, char* buf, size_t n) {
	src.reads++;
	if(src.shortest && n > src.shortest) n = src.shortest;
	size_t size = src.data->size();
	if(src.mode != NONE && src.pos+n > src.limit && !(src.mode == ONCE && src.hit)) {
		if(src.pos < src.limit) n = src.limit-src.pos;
		else { src.hit = true; if(src.mode == END) return 0; errno = src.err; return -1; }
	}
	if(src.pos >= size) return 0;
	if(n > size-src.pos) n = size-src.pos;
	memcpy(buf,src.data->data()+src.pos,n);
	src.pos += n;
	return n;
}
static int src_seek(void*, off64_t* off, int whence) {
	long k = src.seeks++;
	if(!src.seekable) { errno = ESPIPE; return -1; }
	if(src.fail_seek_from >= 0 && k >= src.fail_seek_from) { src.seek_failed = true; errno = src.seek_err; return -1; }
	off64_t p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (off64_t)src.pos+*off : (off64_t)src.data->size()+*off;
	if(p < 0) { errno = EINVAL; return -1; }
	src.pos = p; *off = p;
	return 0;
}
static int src_close(void*) { src.closes++; return 0; }
static FILE* stream() { cookie_io_functions_t io = {src_read,nullptr,src_seek,src_close}; return fopencookie(nullptr,"rb",io); }
static bool replace = false;
extern "C" __attribute__((noinline)) FILE* fopen(const char* name, const char* mode) {
	static FILE* (*next)(const char*,const char*);
	if(replace && inject::armed) {
		src.opens++;
		if(src.open_err) { errno = src.open_err; return nullptr; }
		return stream();
	}
	if(!next) next = (FILE* (*)(const char*,const char*))dlsym(RTLD_NEXT,"fopen");
	return next(name,mode);
}

// ---- one reading ----
struct Got { RDError open = RDEOK, end = RDEOK, seek = RDEOK; bool opened = false, seek_ok = true; size_t w = 0, h = 0; std::vector<std::vector<float>> frames; };
struct Use { std::string name; const char* type; bool std_in; uint64_t seek = 0; bool bulk = false; bool own = false; };
static FILE* real_stdin;

static void begin(const Use& u, const Source& plan) {
	inject::reset();
	src = plan;
	replace = true;
	if(u.std_in) { stdin = stream(); setvbuf(stdin,nullptr,_IOFBF,0); }
}
static void finish(Ctx& ctx, const Use& u, const std::string& what) {
	replace = false;
	if(u.std_in) {
		bool closed = src.closes != 0;
		FILE* s = stdin; stdin = real_stdin;
		if(closed) ctx.fail(what + ": standard input was closed");
		fclose(s); src.closes = 0;
	}
	else PBT_CHECK(ctx,src.open_err ? !src.closes : src.closes == src.opens && src.opens <= 1,"%s: opened %ld times, closed %ld times",what.c_str(),src.opens,src.closes);
	PBT_CHECK(ctx,!inject::live,"%s: %zu allocations left",what.c_str(),inject::live);
}

static Got read_all(Ctx& ctx, const Api& a, const Use& u, const Source& plan, const std::string& what) {
	Got g;
	begin(u,plan);
	float* bad = (float*)(uintptr_t)0x5a5a5a50;
	if(u.bulk) {
		float* img = bad; size_t n = 7;
		{ Arm arm; g.open = a.resdet_read_image(u.name.c_str(),u.type,&img,&n,&g.w,&g.h); }
		if(g.open) PBT_CHECK(ctx,!img && !n,"%s: bulk reading left %p and %zu images with error %d",what.c_str(),(void*)img,n,g.open);
		else { g.opened = true; for(size_t i = 0; i < n; i++) g.frames.push_back(std::vector<float>(img+i*g.w*g.h,img+(i+1)*g.w*g.h)); free(img); }
		finish(ctx,u,what);
		return g;
	}
	float* buf = bad; RDImage* im;
	g.open = 12345; g.w = g.h = 77;
	{ Arm arm; im = a.resdet_open_image(u.name.c_str(),u.type,&g.w,&g.h,u.own ? nullptr : &buf,&g.open); }
	if(!im) {
		PBT_CHECK(ctx,g.open && !g.w && !g.h && (u.own || !buf),"%s: refused with error %d, %zux%zu, buffer %p",what.c_str(),g.open,g.w,g.h,(void*)buf);
		finish(ctx,u,what);
		return g;
	}
	PBT_CHECK(ctx,!g.open && g.w && g.h,"%s: opened with error %d, %zux%zu",what.c_str(),g.open,g.w,g.h);
	g.opened = true;
	std::vector<float> mine(u.own ? g.w*g.h : 0);
	float* b = u.own ? mine.data() : buf;
	if(u.seek) {
		g.seek = 12345;
		{ Arm arm; g.seek_ok = a.resdet_seek_frame(im,u.seek,nullptr,nullptr,&g.seek); }
		PBT_CHECK(ctx,g.seek != 12345 && !(g.seek_ok && g.seek),"%s: seek gave %d with error %d",what.c_str(),g.seek_ok,g.seek);
	}
	while(g.seek_ok) {
		bool ok;
		g.end = 12345;
		{ Arm arm; ok = a.resdet_read_image_frame(im,b,&g.end); }
		if(!ok) break;
		if(g.end) { a.resdet_close_image(im); ctx.fail(what + fmt(": a frame with error %d",g.end)); }
		g.frames.push_back(std::vector<float>(b,b+g.w*g.h));
		if(g.frames.size() > 5000) { a.resdet_close_image(im); ctx.fail(what + ": frames do not end"); }
	}
	{ Arm arm; a.resdet_close_image(im); }
	if(!u.own) free(buf);
	finish(ctx,u,what);
	return g;
}

static void contents(Ctx& ctx, const File& f, const Got& g, size_t from, const std::string& what) {
	PBT_CHECK(ctx,!g.opened || (g.w == f.w && g.h == f.h),"%s: size %zux%zu instead of %zux%zu",what.c_str(),g.w,g.h,f.w,f.h);
	PBT_CHECK(ctx,from+g.frames.size() <= f.frames.size() || g.frames.empty(),"%s: %zu frames from %zu of %zu",what.c_str(),g.frames.size(),from,f.frames.size());
	for(size_t i = 0; i < g.frames.size(); i++) { std::string d = files::differ(f,from+i,g.frames[i].data()); if(!d.empty()) ctx.fail(what + ": " + d); }
}

static const char* mode_name(Mode m) { static const char* const n[] = {"no failure","every read failing","one read failing","the input ending"}; return n[m]; }

static void reading(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f = files::any(s);
	if(s.chance(8)) f = s.chance(50) ? files::pgm(s,90+s.upto(40),90+s.upto(40)) : files::y4m(s,90+s.upto(40),90+s.upto(40)); // over the stream buffer
	bool jpeg = f.type == "jpg" || f.type == "jpeg", png = f.type == "png", pgm = f.type == "pgm", seq = !jpeg && !png && !pgm;
	Use u; u.std_in = s.chance(30); u.name = u.std_in ? "-" : "input." + f.type; u.type = u.std_in || s.chance(20) ? f.type.c_str() : nullptr;
	int how = (int)s.weighted({60,20,20});
	u.own = s.chance(30); u.bulk = how == 1;
	if(how == 2) u.seek = s.small(1,f.frames.size()+1);
	Source p; p.data = &f.data;
	p.shortest = s.chance(40) ? 1+s.small(0,s.chance(50) ? 16 : 3000) : 0;
	p.seekable = !s.chance(35);
	size_t n = f.frames.size(), size = f.data.size();
	p.mode = (Mode)s.weighted({12,40,24,24});
	p.err = s.of(std::vector<int>{EIO,EISDIR,ESTALE,EINTR,EAGAIN,ENXIO});
	if(p.mode != NONE) {
		int where = (int)s.weighted({45,25,15,15});
		if(where == 0 || f.end.empty()) p.limit = s.upto(size);
		else { // around a boundary of a frame or of its header
			size_t i = s.pick(f.end.size());
			const std::vector<size_t>& v = s.chance(60) || f.begin.size() != f.end.size() ? f.end : f.begin;
			size_t at = v[i]; int64_t d = where == 1 ? 0 : where == 2 ? s.range(-3,3) : s.range(-12,12);
			p.limit = (size_t)std::max<int64_t>(0,std::min<int64_t>(size,(int64_t)at+d));
		}
	}
	else if(p.seekable && s.chance(60)) { p.fail_seek_from = s.small(0,6); p.seek_err = s.of(std::vector<int>{EIO,EINVAL,ESPIPE,EOVERFLOW}); }
	std::string what = f.what + fmt(", %s%s%s, %s",u.std_in ? "stdin" : "file",p.seekable ? "" : ", unseekable",p.shortest ? fmt(", reads of at most %zu",p.shortest).c_str() : "",mode_name(p.mode));
	if(p.mode != NONE) what += fmt(" at %zu of %zu (errno %d)",p.limit,size,p.err);
	if(p.fail_seek_from >= 0) what += fmt(", seeks failing from the %ld. on",p.fail_seek_from+1);
	what += u.bulk ? ", in bulk" : u.seek ? fmt(", after seeking %llu frames",(unsigned long long)u.seek) : "";
	ctx.desc(what);

	Got g = read_all(ctx,a,u,p,what);
	bool hit = src.hit, seek_failed = src.seek_failed;
	size_t from = std::min<size_t>(u.seek,n);
	RDError e = g.open ? g.open : g.seek ? g.seek : g.end;
	PBT_CHECK(ctx,!e || a.resdet_error_str(e),"%s: error %d",what.c_str(),e);
	// 1: whatever is delivered is right (with JPEG, up to the decoder's fill)
	if(!(jpeg && hit)) contents(ctx,f,g,from,what);
	// 2: no fault, or none that mattered: everything is there
	bool all = g.opened && (u.seek > n ? !g.seek_ok && !g.seek : g.seek_ok && g.frames.size() == n-from && !g.end);
	if(u.seek && !seq && u.seek <= 1) all = g.opened && g.seek_ok && g.frames.empty() && !g.end;
	if(!hit && !seek_failed) PBT_CHECK(ctx,all,"%s: open %d, seek %d %d, %zu frames, end %d although nothing failed",what.c_str(),g.open,g.seek_ok,g.seek,g.frames.size(),g.end);
	// 3: failing is an error, never a normal end
	if((hit && p.mode != END) || seek_failed) PBT_CHECK(ctx,e || all,"%s: open %d, seek %d %d, %zu frames and a normal end",what.c_str(),g.open,g.seek_ok,g.seek,g.frames.size());
	if(p.mode == STICKY && seq) PBT_CHECK(ctx,e,"%s: %zu frames and no error",what.c_str(),g.frames.size());
	if(p.mode != NONE && hit && png && p.mode != ONCE) PBT_CHECK(ctx,p.limit == size || e || (u.seek && g.frames.empty()),"%s: no error",what.c_str());
	if((p.mode == STICKY || p.mode == END) && pgm && p.limit < f.end[0]) PBT_CHECK(ctx,e || u.seek,"%s: no error",what.c_str());
	// 4: frames that end before the failure are there
	if(p.mode != NONE && !jpeg && !png && !(u.bulk && e)) {
		size_t intact = 0;
		while(intact < n && f.end[intact] <= p.limit) intact++;
		if(intact > from) PBT_CHECK(ctx,g.opened && g.seek_ok && (g.frames.size() >= intact-from || (u.seek && !seq)),"%s: %zu of the %zu frames before the failure, open %d, seek %d",what.c_str(),g.frames.size(),intact-from,g.open,g.seek);
		// 5: the input ending between frames is the end of the sequence
		if(p.mode == END && seq && !u.seek && intact && p.limit == f.end[intact-1]) PBT_CHECK(ctx,!e && g.frames.size() == intact,"%s: %zu frames, error %d",what.c_str(),g.frames.size(),e);
	}
	if(seek_failed) ctx.label("seek failed");
	ctx.label(std::string(mode_name(p.mode)) + (p.mode == NONE ? "" : hit ? ", reached" : ", not reached"));
	if(!hit && p.mode == NONE && (p.shortest || !p.seekable)) ctx.label("short reads or unseekable only");
	if(e) ctx.label("error " + std::to_string(e < -200 ? 0 : e));
	if(hit || seek_failed || p.shortest || !p.seekable) ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(f.data.data(),f.data.size())));

	// the same without failure, to see that nothing lingers
	Source good; good.data = &f.data;
	Use v = u; v.seek = 0; v.bulk = false;
	Got again = read_all(ctx,a,v,good,what + "; afterwards");
	contents(ctx,f,again,0,what + "; afterwards");
	PBT_CHECK(ctx,again.opened && again.frames.size() == n && !again.end,"%s; afterwards %zu frames, open %d, end %d",what.c_str(),again.frames.size(),again.open,again.end);
}

// resdetect_file over a failing input: an error, or the result for all of it
static void detecting(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f; f.bits = true; f.type = "pfm";
	if(s.chance(50)) {
		f.w = 2+s.upto(20); f.h = 2+s.upto(20);
		size_t n = 1+s.upto(3); int k = -1;
		for(size_t i = 0; i < n; i++) {
			std::vector<float> px = gen::image(s,f.w,f.h,&k,i ? k : -1);
			f.data += fmt("Pf\n%zu %zu\n-1\n",f.w,f.h);
			for(size_t y = f.h; y-- > 0; ) for(size_t x = 0; x < f.w; x++) files::put32(f.data,px[y*f.w+x],false);
			f.frames.push_back(px); f.end.push_back(f.data.size());
		}
		f.what = fmt("PFM %zux%zu %zu frames",f.w,f.h,n);
	}
	else f = s.chance(60) ? files::y4m(s) : s.chance(50) ? files::pgm(s) : files::png(s);
	if(f.frames.empty()) return;
	bool finite = true; std::vector<float> px;
	for(auto& x : f.frames) { for(float v : x) finite &= std::isfinite(v); px.insert(px.end(),x.begin(),x.end()); }
	const char* method = METHODS[s.pick(4)];
	Params q; q.given = true; q.threshold = s.chance(60) ? 0 : s.upto(100)/100.f; if(s.chance(60)) q.range = 1+s.upto(6);
	Use u; u.std_in = s.chance(30); u.name = u.std_in ? "-" : "input." + f.type; u.type = u.std_in ? f.type.c_str() : nullptr;
	Source p; p.data = &f.data; p.seekable = s.chance(60); p.shortest = s.chance(30) ? 1+s.upto(40) : 0;
	p.mode = (Mode)s.weighted({15,60,25}); p.limit = s.chance(40) ? f.end[s.pick(f.end.size())] : s.upto(f.data.size());
	std::string what = fmt("resdetect_file %s %s %s, %s at %zu of %zu%s%s",f.what.c_str(),method,q.str().c_str(),mode_name(p.mode),p.limit,f.data.size(),p.seekable ? "" : ", unseekable",u.std_in ? ", stdin" : "");
	ctx.desc(what);
	ParamsHandle ph(a,q,ctx);
	begin(u,p);
	Out o; RDError e;
	{ Arm arm; e = a.resdetect_file(u.name.c_str(),u.type,&o.rw,&o.cw,&o.rh,&o.ch,a.resdet_get_method(method),ph.p); }
	bool hit = src.hit;
	Res r = o.take(e,ctx);
	finish(ctx,u,what);
	if(e) PBT_CHECK(ctx,hit || !finite,"%s: error %d although nothing failed",what.c_str(),e);
	else {
		bool seq = f.type == "pfm" || f.type == "y4m";
		PBT_CHECK(ctx,!(seq && p.mode == STICKY && p.limit <= f.data.size()),"%s: no error",what.c_str());
		// pixels of PGM, Y4M and PNG are compared through a plain reading by the library, to be the very same floats
		Source good; good.data = &f.data;
		Got g = read_all(ctx,a,u,good,what + "; reading");
		std::vector<float> all; for(auto& x : g.frames) all.insert(all.end(),x.begin(),x.end());
		Res ref = detect(a,all.data(),g.frames.size(),g.w,g.h,method,q,ctx);
		PBT_CHECK(ctx,same(r.w,ref.w) && same(r.h,ref.h),"%s: %s%s instead of %s%s",what.c_str(),str(r.w).c_str(),str(r.h).c_str(),str(ref.w).c_str(),str(ref.h).c_str());
	}
	ctx.label(std::string(e ? "error" : "result") + (hit ? ", failure reached" : ""));
	if(hit) ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(f.data.data(),f.data.size())));
}

// the file cannot be opened
static void opening(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	std::string type = s.of(std::vector<std::string>{"pgm","pfm","y4m","png","jpg","jpeg"});
	static const int errs[] = {ENOENT,EACCES,EMFILE,ENFILE,EISDIR,ENOMEM,EIO,ELOOP,ENAMETOOLONG,ENOTDIR,EPERM,ETXTBSY,EOVERFLOW,EINTR};
	Source p; static const std::string none; p.data = &none; p.open_err = errs[s.pick(sizeof errs/sizeof *errs)];
	Use u; u.name = "input." + type; u.type = s.chance(30) ? type.c_str() : nullptr; u.std_in = false; u.own = s.chance(50);
	int op = (int)s.pick(3); u.bulk = op == 1;
	std::string what = fmt("%s %s, opening fails with errno %d",op == 0 ? "open" : op == 1 ? "bulk" : "resdetect_file",type.c_str(),p.open_err);
	ctx.desc(what);
	RDError e;
	if(op < 2) e = read_all(ctx,a,u,p,what).open;
	else {
		begin(u,p);
		Out o;
		{ Arm arm; e = a.resdetect_file(u.name.c_str(),u.type,&o.rw,&o.cw,&o.rh,&o.ch,nullptr,nullptr); }
		o.take(e,ctx);
		finish(ctx,u,what);
	}
	PBT_CHECK(ctx,e == -p.open_err,"%s: error %d",what.c_str(),e);
	PBT_CHECK(ctx,!strcmp(a.resdet_error_str(e),strerror(p.open_err)),"%s: message \"%s\"",what.c_str(),a.resdet_error_str(e));
	ctx.nontrivial(hash_bytes(what.data(),what.size(),u.own*2+(u.type != nullptr)));
}

int main(int argc, char** argv) {
	real_stdin = stdin;
	return main_(argc,argv,{
		{"reading",reading,300000,9000000,120},
		{"detecting",detecting,80000,2500000,120},
		{"opening",opening,500,5000,120},
	},[]{
		apis = load_apis();
		std::string e = getenv("RESDET_LIBS");
		while(!e.empty()) { size_t p = e.find(';'); std::string it = e.substr(0,p); inject::library(it.substr(it.find('=')+1).c_str()); e = p == std::string::npos ? "" : e.substr(p+1); }
	});
}
