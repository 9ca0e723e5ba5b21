// C13: reading and seeking are a cursor over the frames.
#include "readcheck.hpp"
#include "routes.hpp"
#include "avenc.hpp"
#include "bigspace.hpp"
#include <sys/stat.h>
using namespace pbt;
using files::File;
static std::vector<Api> apis;

struct Prog { std::vector<uint64_t> seen; void* expect; bool badctx = false; };
static Prog* prog;
static void on_progress(void* c, uint64_t n) { if(c != prog->expect) prog->badctx = true; if(prog->seen.size() < 1000) prog->seen.push_back(n); }

static void history(Src& s, Ctx& ctx, const Api& a, const File& f, const Route& r, const char* reader) {
	size_t n = f.frames.size(), pos = 0, w = 77, h = 77;
	float* buf = nullptr; RDError e = 12345;
	const char* type = f.type.c_str();
	RDImage* im = reader ? a.resdet_open_image_with_reader(r.name.c_str(),reader,&w,&h,&buf,&e) : a.resdet_open_image(r.name.c_str(),type,&w,&h,&buf,&e);
	PBT_CHECK(ctx,im && e == RDEOK && w == f.w && h == f.h,"open: %s, error %d, %zux%zu",im ? "opened" : "refused",e,w,h);
	struct Close { const Api& a; RDImage* im; float* b; ~Close() { a.resdet_close_image(im); free(b); } } guard{a,im,buf};
	std::vector<float> other(w*h);
	std::string log;
	size_t ops = 1+s.upto(n > 1 ? 14 : 7), seeks = 0, reads = 0, ends = 0;
	for(size_t i = 0; i < ops; i++) {
		if(s.chance(50)) {
			size_t k; // offset
			uint64_t off;
			switch(s.weighted({20,35,25,12,8})) {
				case 0: off = 0; break;
				case 1: off = 1; break;
				case 2: off = s.upto(n-pos); break;
				case 3: off = n-pos+s.upto(3); break;
				default: off = s.of(std::vector<uint64_t>{UINT64_MAX,1ull << 63,1ull << 32,(1ull << 32)+1,1000000007}); break;
			}
			k = 0;
			bool cb = s.chance(70), nullerr = s.chance(15);
			int tag; Prog p; p.expect = s.chance(50) ? (void*)&tag : nullptr; prog = &p;
			e = 12345;
			bool ok = a.resdet_seek_frame(im,off,cb ? on_progress : nullptr,p.expect,nullerr ? nullptr : &e);
			bool want = off <= n-pos;
			size_t passed = want ? (size_t)off : n-pos;
			log += fmt(" seek(%llu)=%d",(unsigned long long)off,ok);
			PBT_CHECK(ctx,ok == want && (nullerr || e == RDEOK),"%s: at frame %zu of %zu, seeking by %llu gave %s, error %d",log.c_str(),pos,n,(unsigned long long)off,ok ? "true" : "false",e);
			if(cb) {
				PBT_CHECK(ctx,!p.badctx,"%s: progress callback got another context",log.c_str());
				PBT_CHECK(ctx,p.seen.size() == passed,"%s: %zu progress calls, %zu frames passed",log.c_str(),p.seen.size(),passed);
				for(size_t j = 0; j < p.seen.size(); j++) PBT_CHECK(ctx,p.seen[j] == j+1,"%s: progress call %zu says %llu",log.c_str(),j,(unsigned long long)p.seen[j]);
			}
			pos += passed;
			if(off) seeks++;
			if(!want) ends++;
		}
		else if(s.chance(4)) {
			e = 12345;
			bool ok = a.resdet_read_image_frame(im,nullptr,&e);
			PBT_CHECK(ctx,!ok && e == RDEPARAM,"%s: reading into NULL: %d, error %d",log.c_str(),ok,e);
			e = 12345;
			ok = a.resdet_seek_frame(nullptr,1,nullptr,nullptr,&e);
			PBT_CHECK(ctx,!ok && e == RDEPARAM,"%s: seeking NULL: %d, error %d",log.c_str(),ok,e);
			log += " null";
		}
		else {
			float* b = s.chance(50) ? buf : other.data();
			memset(b,0xff,w*h*sizeof(float));
			bool nullerr = s.chance(15);
			e = 12345;
			bool ok = a.resdet_read_image_frame(im,b,nullerr ? nullptr : &e);
			log += fmt(" read=%d",ok);
			PBT_CHECK(ctx,ok == (pos < n) && (nullerr || e == RDEOK),"%s: at frame %zu of %zu, reading gave %s, error %d",log.c_str(),pos,n,ok ? "true" : "false",e);
			if(ok) {
				std::string d = files::differ(f,pos,b);
				if(!d.empty()) ctx.fail(log + ": " + d);
				pos++; reads++;
			}
			else ends++;
		}
	}
	ctx.desc(log);
	if(seeks && reads) { ctx.nontrivial(hash_bytes(log.data(),log.size(),hash_bytes(f.data.data(),f.data.size()))); ctx.label(n > 1 ? "seek and read, several frames" : "seek and read, one frame"); }
	if(ends) ctx.label("reached the end");
}

static File grayfile(Src& s, int k) {
	size_t w = files::dim(s,24), h = files::dim(s,24), n = files::many(s,w,h,1+s.upto(5));
	auto g = files::grays(s,w,h,n);
	File f; f.w = w; f.h = h; f.tol = 2e-5;
	if(k == 0) { f.type = "pgm"; for(auto& x : g) f.data += files::pgm_bytes(x,w,h); }
	else if(k == 1) { f.type = "y4m"; f.data = files::y4m_bytes(g,w,h); }
	else if(k == 2) { f.type = "avi"; auto audio = files::avi_audio(s,n); f.data = files::avi_bytes(g,w,h,(int)s.pick(2),audio); if(!audio.empty()) f.what = " with audio"; }
	else { f.type = "gif"; f.data = files::gif_bytes(g,w,h); }
	files::set_frames(f,g);
	f.what = fmt("%s %zux%zu, %zu frames%s",f.type.c_str(),w,h,n,f.what.c_str());
	return f;
}

static void native(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	File f;
	switch(s.weighted({40,30,10,10,10})) { case 0: f = files::pfm(s,0,0,true,6); break; case 1: f = files::y4m(s,0,0,6); break; case 2: f = files::pgm(s); break; case 3: f = files::png(s); break; default: f = files::jpeg(s); break; }
	static const struct { const char* type,* reader; } R[] = {{"pfm","PFM"},{"y4m","Y4M"},{"pgm","PGM"},{"png","libpng"},{"jpg","libjpeg"},{"jpeg","libjpeg"}};
	const char* reader = nullptr;
	if(s.chance(40)) for(auto& r : R) if(f.type == r.type) reader = r.reader;
	Route r(ctx,(Route::Kind)s.weighted({50,25,12,13}),"f." + f.type,f.data);
	if(!r.ok) { ctx.label("too large for a pipe"); return; }
	ctx.desc(fmt("%s, %s%s%s:",f.what.c_str(),r.what(),reader ? ", reader " : "",reader ? reader : ""));
	ctx.label(f.type + " " + r.what());
	history(s,ctx,a,f,r,reader);
	PBT_CHECK(ctx,r.stdin_open(),"standard input was closed");
}

static void general(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	bool ff = s.chance(65);
	File f = grayfile(s,ff ? (int)s.pick(3) : 3);
	Route r(ctx,ff ? (Route::Kind)s.weighted({60,20,10,10}) : Route::REGULAR,"f." + f.type,f.data);
	if(!r.ok) { ctx.label("too large for a pipe"); return; }
	ctx.desc(fmt("%s, %s, %s:",f.what.c_str(),ff ? "FFmpeg" : "MagickWand",r.what()));
	ctx.label(fmt("%s %s %s",ff ? "FFmpeg" : "MagickWand",f.type.c_str(),r.what()));
	history(s,ctx,a,f,r,ff ? "FFmpeg" : "MagickWand");
	PBT_CHECK(ctx,r.stdin_open(),"standard input was closed");
}

// decoders that delay and reorder frames, other streams' packets between
static void delayed(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t w = 1+s.small(0,24), h = 1+s.small(0,24), n = 1+s.upto(7);
	auto g = files::grays(s,w,h,n);
	File f = avenc::encode(s,g,w,h);
	if(f.data.empty()) throw Discard();
	bool streams = f.type == "mkv" || f.type == "nut";
	Route r(ctx,streams ? (Route::Kind)s.weighted({60,20,10,10}) : Route::REGULAR,"f." + f.type,f.data);
	if(!r.ok) { ctx.label("too large for a pipe"); return; }
	ctx.desc(fmt("%s, FFmpeg, %s:",f.what.c_str(),r.what()));
	ctx.label(f.what.substr(0,f.what.find(',')) + " " + r.what());
	history(s,ctx,a,f,r,"FFmpeg");
	PBT_CHECK(ctx,r.stdin_open(),"standard input was closed");
}

// sparse files whose frames, or the offsets of whose frames, go beyond 31 and 32 bits
static void huge(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	bool pfm = s.chance(50), readable = s.chance(60);
	size_t w, h, n;
	if(readable) {
		w = 512+s.upto(2500); h = 512+s.upto(2300);
		n = 0; // below
	}
	else {
		uint64_t px = 1ull << s.range(27,33);
		switch(s.pick(3)) { case 0: w = 1ull << s.range(8,24); h = px/w; break; case 1: w = 20000+s.upto(60000); h = px/w+s.upto(3); break; default: h = 1+s.upto(30); w = px/h+s.upto(5); break; }
		n = 1+s.upto(3);
	}
	static const char* const CSP[] = {"mono","444","420jpeg","mono16","422p10","411","444alpha"};
	int c = pfm ? 0 : (int)s.pick(7);
	size_t cw = (w+1)/2, ch = (h+1)/2, size = 0;
	bool color = pfm && s.chance(40), big = s.chance(30);
	if(pfm) size = w*h*(color ? 12 : 4);
	else size = c == 0 ? w*h : c == 1 ? w*h*3 : c == 2 ? w*h+2*cw*ch : c == 3 ? w*h*2 : c == 4 ? 2*(w*h+2*cw*h) : c == 5 ? w*h+2*((w+3)/4)*h : w*h*4;
	if(readable) n = std::min<size_t>(600,1+((1ull << 30)*s.range(1,9))/size);
	std::string name = ctx.scratch() + "/huge." + (pfm ? "pfm" : "y4m");
	FILE* f = fopen(name.c_str(),"wb");
	if(!f) throw Discard();
	struct Rm { std::string n; ~Rm() { unlink(n.c_str()); } } rm{name};
	bool fine = true;
	uint64_t at = 0;
	auto mark = [&](size_t i) { return (float)(i%200+1)/255; };
	auto put = [&](uint64_t off, const std::string& d) { fine = fine && !fseeko(f,(off_t)off,SEEK_SET) && fwrite(d.data(),1,d.size(),f) == d.size(); };
	if(!pfm) { std::string d = fmt("YUV4MPEG2 W%zu H%zu C%s\n",w,h,CSP[c]); put(0,d); at = d.size(); }
	for(size_t i = 0; i < n && fine; i++) {
		std::string d = pfm ? fmt("P%c\n%zu %zu\n%s1.0\n",color ? 'F' : 'f',w,h,big ? "" : "-") : "FRAME\n";
		put(at,d); at += d.size();
		if(readable) { // the first and last pixel of the file's order
			std::string v;
			if(pfm) for(int k = color ? 3 : 1; k--; ) files::put32(v,mark(i),big);
			else if(c == 3 || c == 4) { unsigned x = (unsigned)(i%200+1); v += (char)(x & 255); v += (char)(x >> 8); }
			else v += (char)(i%200+1);
			put(at,v); put(at+(pfm ? size : w*h*(c == 3 || c == 4 ? 2 : 1))-v.size(),v);
		}
		at += size;
	}
	fine = fine && !fflush(f) && !ftruncate(fileno(f),(off_t)at);
	struct stat st; fine = fine && !fstat(fileno(f),&st) && (uint64_t)st.st_size == at && (uint64_t)st.st_blocks*512 < (1u << 26);
	fclose(f);
	if(!fine) throw Discard(); // no sparse files of this size here
	ctx.desc(fmt("%s %s %zux%zu%s, %zu frames of %zu bytes:",a.name.c_str(),pfm ? color ? "PF" : "Pf" : CSP[c],w,h,big && pfm ? " big endian" : "",n,size));
	BigSpace space;
	size_t W = 7, H = 7; RDError e = 12345;
	struct Close { const Api& a; RDImage* im; ~Close() { a.resdet_close_image(im); } } g{a,a.resdet_open_image(name.c_str(),nullptr,&W,&H,nullptr,&e)};
	if(!g.im && e == RDENOMEM) throw Discard();
	PBT_CHECK(ctx,g.im && W == w && H == h,"open: error %d, %zux%zu",e,W,H);
	std::vector<float> buf(readable ? w*h : 0);
	size_t pos = 0, reads = 0, ops = 2+s.upto(5); bool far = false;
	std::string log;
	for(size_t i = 0; i < ops; i++) {
		if(!readable || !i || reads >= 3 || s.chance(50)) {
			uint64_t k = readable && !i ? n-1-s.small(0,(int64_t)n-1) : s.chance(80) ? s.upto(n-pos) : n-pos+1+s.upto(5);
			uint64_t expect = std::min<uint64_t>(k,n-pos);
			Prog p; p.expect = &p; prog = &p;
			e = 12345;
			bool ok = a.resdet_seek_frame(g.im,k,on_progress,&p,&e);
			log += fmt(" seek(%llu)=%d",(unsigned long long)k,ok);
			PBT_CHECK(ctx,ok == (k <= n-pos) && e == RDEOK && p.seen.size() == expect,"%s: at frame %zu of %zu, seeking by %llu gave %s, error %d, %zu progress calls",log.c_str(),pos,n,(unsigned long long)k,ok ? "true" : "false",e,p.seen.size());
			pos += expect;
		}
		else {
			e = 12345;
			bool ok = a.resdet_read_image_frame(g.im,buf.data(),&e);
			log += fmt(" read=%d",ok);
			PBT_CHECK(ctx,ok == (pos < n) && e == RDEOK,"%s: at frame %zu of %zu, reading gave %s, error %d",log.c_str(),pos,n,ok ? "true" : "false",e);
			if(!ok) continue;
			float m = pfm ? mark(pos) : c == 3 ? (pos%200+1)/65535.f : c == 4 ? (pos%200+1)/1023.f : mark(pos);
			float first = pfm ? buf[(h-1)*w] : buf[0], last = pfm ? buf[w-1] : buf[w*h-1];
			PBT_CHECK(ctx,std::fabs(first-m) <= 1e-6 && std::fabs(last-m) <= 1e-6 && buf[w*h/2+w/2+1] == 0,"%s: frame %zu has %.9g and %.9g where %.9g was marked",log.c_str(),pos,first,last,m);
			pos++; reads++;
			far = far || pos*size >= (1ull << 31);
		}
	}
	ctx.desc(log);
	ctx.label(!readable ? (size >= (1ull << 32) ? "huge: frames beyond 32 bits" : "huge: frames of up to 32 bits") : far ? "huge: read beyond 31 bits" : "huge: read below");
	if(far || !readable) ctx.nontrivial(hash_bytes(ctx.description.data(),ctx.description.size()));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"native",native,600000,10000000},
		{"general",general,50000,900000},
		{"delayed",delayed,8000,150000},
		{"huge",huge,400,6000},
	},[]{ files::WIDEST = 65000; apis = load_apis(); });
}
