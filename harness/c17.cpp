// C17: nothing is leaked, whatever is called.
#include "inject_fftw.hpp"
#include "readcheck.hpp"
#include "routes.hpp"
#include "mutate.hpp"
#include "gen.hpp"
using namespace pbt;
using files::File;
using inject::Arm;
static std::vector<Api> apis;
static char stdin_buffer[1 << 16];

struct State { int fds; size_t live; long coeffs, plans; };
static State state() { return {inject::open_fds(),inject::live,inject::coeffs,inject::plans}; }
static std::string str(const State& s) { return fmt("%d files, %zu allocations, %ld coefficient buffers, %ld plans",s.fds,s.live,s.coeffs,s.plans); }
static bool operator==(const State& a, const State& b) { return a.fds == b.fds && a.live == b.live && a.coeffs == b.coeffs && a.plans == b.plans; }

static File some_file(Src& s, std::string& ext) {
	File f = files::any(s);
	ext = f.type;
	int k = (int)s.weighted({45,20,20,10,5});
	if(k == 1) f.data.resize(s.upto(f.data.size()-1));
	else if(k == 2) { std::string w; for(size_t n = 1+s.upto(2); n; n--) mutate::once(s,f.data,w); f.what += w; }
	else if(k == 3) ext = s.of(std::vector<std::string>{"pgm","pfm","y4m","png","jpg","dat",""});
	else if(k == 4) { f.data.clear(); f.what = "empty file"; }
	return f;
}

struct Owned { void* p; };
static void history(Src& s, Ctx& ctx, const Api& a, bool all) {
	inject::reset(); inject::all = all;
	inject::coeffs = inject::plans = 0; inject::nfftw_bufs = inject::nfftw_plans = 0;
	State begin = state();
	std::string log;
	struct Im { RDImage* im; float* buf; size_t w, h; }; std::vector<Im> images;
	struct An { RDAnalysis* an; size_t w, h; }; std::vector<An> analyses;
	std::vector<RDParameters*> params; std::vector<void*> arrays;
	std::vector<std::unique_ptr<Route>> routes; bool stdin_used = false;
	size_t failures = 0, successes = 0, ops = 1+s.small(0,24);
	auto failed = [&](const State& before, const char* what) {
		failures++;
		State now = state();
		PBT_CHECK(ctx,now == before,"%s: failing %s left %s, before there were %s",log.c_str(),what,str(now).c_str(),str(before).c_str());
	};
	auto detail = [&](size_t w, size_t h, size_t n) { std::vector<float> p; for(size_t i = 0; i < n; i++) { auto q = gen::image(s,w,h,nullptr,gen::NOISE); p.insert(p.end(),q.begin(),q.end()); } return p; };
	auto method = [&]() -> RDMethod* { return s.chance(40) ? nullptr : a.resdet_get_method(METHODS[s.pick(4)]); };
	auto param = [&]() -> RDParameters* { return params.empty() || s.chance(50) ? nullptr : params[s.pick(params.size())]; };
	for(size_t i = 0; i < ops; i++) {
		State before = state();
		switch(s.weighted({22,16,8,8,12,10,10,8,5,4})) {
			case 0: { // open
				if(images.size() >= 4) break;
				std::string ext; File f = some_file(s,ext);
				Im m = {nullptr,nullptr,0,0}; RDError e = 0;
				bool wantbuf = s.chance(70), wanterr = s.chance(80);
				Route::Kind k = stdin_used ? (Route::Kind)s.weighted({80,20}) : (Route::Kind)s.weighted({55,15,15,15});
				std::unique_ptr<Route> r(new Route(ctx,k,fmt("f%zu.",i) + ext,f.data));
				if(!r->ok) break;
				if(k >= Route::STDIN_FILE) { setvbuf(stdin,stdin_buffer,_IOFBF,sizeof stdin_buffer); stdin_used = true; }
				std::string name = r->name; const char* type = k == Route::REGULAR && s.chance(80) ? nullptr : ext.c_str();
				std::string reader = s.of(std::vector<std::string>{"","","","","","PGM","PFM","Y4M","libpng","libjpeg","nosuch"});
				if(s.chance(4)) name = ctx.scratch() + "/nosuch." + ext;
				if(s.chance(4)) name = ctx.scratch(); // a directory
				before = state();
				int bad = s.chance(4) ? 1+(int)s.pick(3) : 0;
				size_t* pw = bad == 1 ? nullptr : &m.w,* ph = bad == 2 ? nullptr : &m.h; const char* nm = bad == 3 ? nullptr : name.c_str();
				{
					Arm arm;
					m.im = reader.empty() ? a.resdet_open_image(nm,type,pw,ph,wantbuf ? &m.buf : nullptr,wanterr ? &e : nullptr)
					                      : a.resdet_open_image_with_reader(nm,reader.c_str(),pw,ph,wantbuf ? &m.buf : nullptr,wanterr ? &e : nullptr);
				}
				log += fmt(" open(%s as %s/%s:%s %s)=%d",f.what.c_str(),ext.c_str(),type,reader.c_str(),k == Route::REGULAR ? "" : r->what(),e);
				if(m.im && m.w*m.h <= 1u << 20) { images.push_back(m); successes++; }
				else if(m.im) { { Arm arm; a.resdet_close_image(m.im); } free(m.buf); log += " (too large)"; }
				else { PBT_CHECK(ctx,!m.buf,"buffer returned with an error"); failed(before,"resdet_open_image"); }
				routes.push_back(std::move(r));
				break;
			}
			case 1: { // read or seek
				if(images.empty()) break;
				Im& m = images[s.pick(images.size())];
				std::vector<float> own; float* b = m.buf;
				if(!b || s.chance(20)) { own.resize(m.w*m.h); b = own.data(); }
				RDError e = 0; bool ok;
				if(s.chance(65)) { Arm arm; ok = a.resdet_read_image_frame(m.im,b,&e); }
				else { uint64_t off = s.upto(3); Arm arm; ok = a.resdet_seek_frame(m.im,off,nullptr,nullptr,&e); }
				log += fmt(" %s=%d/%d","read",ok,e);
				break;
			}
			case 2: { // close
				if(images.empty()) break;
				size_t k = s.pick(images.size());
				{ Arm arm; a.resdet_close_image(images[k].im); }
				free(images[k].buf);
				images.erase(images.begin()+k);
				log += " close";
				break;
			}
			case 3: { // bulk
				std::string ext; File f = some_file(s,ext);
				Route r(ctx,Route::REGULAR,fmt("b%zu.",i) + ext,f.data);
				float* img = nullptr; size_t n, w, h; RDError e;
				before = state();
				std::string nm = s.chance(5) ? std::string("nosuch.pgm") : r.name;
				{ Arm arm; e = a.resdet_read_image(nm.c_str(),nullptr,&img,&n,&w,&h); }
				log += fmt(" read_image(%s)=%d",f.what.c_str(),e);
				if(e) failed(before,"resdet_read_image");
				else if(img) { arrays.push_back(img); successes++; }
				break;
			}
			case 4: { // detect
				size_t w = s.upto(40), h = s.upto(40), n = s.upto(3);
				if(s.chance(90)) { w += !w; h += !h; n += !n; }
				auto px = detail(w,h,n);
				if(!px.empty() && s.chance(15)) px[s.pick(px.size())] = NAN;
				if(s.chance(3)) w = SIZE_MAX/8;
				RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0; RDError e;
				int mask = (int)s.upto(3); auto m = method(); auto p = param();
				bool nocount = s.chance(4), noimage = s.chance(4);
				{ Arm arm; e = a.resdetect(noimage ? nullptr : px.data(),n,w,h,mask & 1 ? nullptr : &rw,nocount ? nullptr : &cw,mask & 2 ? nullptr : &rh,&ch,m,p); }
				log += fmt(" resdetect(%zux%zux%zu)=%d",w,h,n,e);
				if(e) { PBT_CHECK(ctx,!rw && !rh,"outputs with an error"); failed(before,"resdetect"); }
				else { arrays.push_back(rw); arrays.push_back(rh); successes++; }
				break;
			}
			case 5: { // detect from file
				std::string ext; File f = some_file(s,ext);
				if(f.w*f.h > 4000) break;
				Route r(ctx,Route::REGULAR,fmt("d%zu.",i) + ext,f.data);
				RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0; RDError e;
				int mask = (int)s.upto(3); auto m = method(); auto p = param();
				std::string nm = s.chance(5) ? std::string("nosuch.pgm") : r.name;
				// mutated sizes may announce huge images
				size_t w = 0, h = 0; RDImage* t = a.resdet_open_image(nm.c_str(),nullptr,&w,&h,nullptr,nullptr);
				if(t) { a.resdet_close_image(t); if(w*h > 20000) break; }
				before = state();
				{ Arm arm; e = a.resdetect_file(nm.c_str(),nullptr,mask & 1 ? nullptr : &rw,&cw,mask & 2 ? nullptr : &rh,&ch,m,p); }
				log += fmt(" resdetect_file(%s)=%d",f.what.c_str(),e);
				if(e) { PBT_CHECK(ctx,!rw && !rh,"outputs with an error"); failed(before,"resdetect_file"); }
				else { arrays.push_back(rw); arrays.push_back(rh); successes++; }
				break;
			}
			case 6: { // analysis
				if(analyses.size() >= 4) break;
				size_t w = s.upto(40), h = s.upto(40); RDError e = 0; An n = {nullptr,0,0};
				if(s.chance(90)) { w += !w; h += !h; }
				if(s.chance(5)) w = SIZE_MAX/3;
				auto m = method(); auto p = param();
				{ Arm arm; n.an = a.resdet_create_analysis(m,w,h,p,s.chance(80) ? &e : nullptr); }
				log += fmt(" create(%zux%zu)=%d",w,h,e);
				n.w = w; n.h = h;
				if(n.an) { analyses.push_back(n); successes++; } else failed(before,"resdet_create_analysis");
				break;
			}
			case 7: { // analyze or results
				if(analyses.empty()) break;
				An& n = analyses[s.pick(analyses.size())];
				if(s.chance(55)) {
					auto px = detail(n.w,n.h,1); RDError e;
					if(s.chance(20)) px[s.pick(px.size())] = INFINITY;
					{ Arm arm; e = a.resdet_analyze_image(n.an,s.chance(5) ? nullptr : px.data()); }
					log += fmt(" analyze=%d",e);
					if(e) failed(before,"resdet_analyze_image");
				}
				else {
					RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0; RDError e; int mask = (int)s.upto(3);
					{ Arm arm; e = a.resdet_analysis_results(n.an,mask & 1 ? nullptr : &rw,&cw,mask & 2 ? nullptr : &rh,&ch); }
					log += fmt(" results=%d",e);
					if(e) failed(before,"resdet_analysis_results");
					else { arrays.push_back(rw); arrays.push_back(rh); }
				}
				break;
			}
			case 8: { // parameters
				RDParameters* p;
				{ Arm arm; p = a.resdet_alloc_default_parameters(); if(p) { a.resdet_parameters_set_range(p,s.upto(9)); a.resdet_parameters_set_threshold(p,s.upto(12)/10.f); a.resdet_parameters_set_compression_filter(p,(uint8_t)s.upto(40)); } }
				params.push_back(p);
				log += " parameters";
				break;
			}
			default: { // tables, and releasing nothing
				Arm arm;
				for(int k = -3; k < 12; k++) a.resdet_error_str(k);
				a.resdet_methods(); a.resdet_list_image_readers(); a.resdet_libversion(); a.resdet_get_max_error(); a.resdet_get_method("nosuch");
				a.resdet_close_image(nullptr); a.resdet_destroy_analysis(nullptr);
				break;
			}
		}
	}
	for(auto& m : images) { { Arm arm; a.resdet_close_image(m.im); } free(m.buf); }
	for(auto& n : analyses) { Arm arm; a.resdet_destroy_analysis(n.an); }
	for(auto p : params) free(p);
	for(auto p : arrays) free(p);
	PBT_CHECK(ctx,fcntl(0,F_GETFD) >= 0,"%s: standard input has been closed",log.c_str());
	int c = 0;
	if(stdin_used) { clearerr(stdin); c = fgetc(stdin); } // still usable
	(void)c;
	routes.clear();
	State end = state();
	PBT_CHECK(ctx,!inject::overflow,"table of allocations is too small");
	PBT_CHECK(ctx,end.fds == begin.fds,"%s: %d files are still open",log.c_str(),end.fds-begin.fds);
	PBT_CHECK(ctx,!end.live && end.coeffs == begin.coeffs && end.plans == begin.plans,"%s: left after releasing everything: %s",log.c_str(),str(end).c_str());
	PBT_CHECK(ctx,!inject::foreign_frees,"%s: freed %ld pointers that were not allocated by the library",log.c_str(),inject::foreign_frees);
	if(failures) ctx.label("with failing calls");
	if(successes) ctx.label("with succeeding calls");
	if(stdin_used) ctx.label("with standard input");
	ctx.desc(log);
	if(failures && successes) ctx.nontrivial(hash_bytes(log.data(),log.size()));
}
static void still(Src& s, Ctx& ctx) { history(s,ctx,apis[0],true); }
static void fftw(Src& s, Ctx& ctx) { history(s,ctx,apis[1],false); }

// with the general readers, whose libraries keep caches: the same work again and again must not need more
static void repeat(Src& s, Ctx& ctx) {
	const Api& a = apis[2];
	inject::reset(); inject::all = true;
	size_t w = files::dim(s,16), h = files::dim(s,16), n = 1+s.upto(3);
	auto g = files::grays(s,w,h,n);
	std::string ext, data; const char* reader;
	switch(s.pick(7)) {
		case 6: { ext = "avi"; auto audio = files::avi_audio(s,n); data = files::avi_bytes(g,w,h,(int)s.pick(2),audio); reader = "FFmpeg"; break; }
		case 0: ext = "pgm"; for(auto& x : g) data += files::pgm_bytes(x,w,h); reader = "FFmpeg"; break;
		case 1: ext = "y4m"; data = files::y4m_bytes(g,w,h); reader = "FFmpeg"; break;
		case 2: ext = "gif"; data = files::gif_bytes(g,w,h); reader = "MagickWand"; break;
		case 3: ext = "bmp"; data = files::bmp_bytes(g[0],w,h); reader = "MagickWand"; break;
		case 4: ext = "tiff"; data = files::tiff_bytes(g[0],w,h); reader = s.chance(50) ? "FFmpeg" : "MagickWand"; break;
		default: ext = "pgm"; data = files::pgm_bytes(g[0],w,h); reader = s.chance(50) ? "PGM" : "MagickWand"; break;
	}
	int damage = (int)s.weighted({60,25,15});
	if(damage == 1) data.resize(s.upto(data.size()-1));
	if(damage == 2) {
		data = "nothing like it";
		if(s.chance(50)) ext = s.of(std::vector<std::string>{"xyz","none","bin","tif"});
		else if(s.chance(30)) { ext = "xyz"; reader = "MagickWand"; }
	}
	size_t reads = s.upto(n+1), seeks = s.upto(2);
	bool missing = s.chance(8);
	std::string path = files::write(ctx,"f." + ext,data);
	if(missing) path = ctx.scratch() + "/nosuch";
	ctx.desc(fmt("%s %zux%zu %zu frames by %s%s, seek by %zu, %zu reads",ext.c_str(),w,h,n,reader,damage ? " (damaged)" : missing ? " (missing)" : "",seeks,reads));
	std::vector<size_t> level; std::vector<int> fds; bool opened = false;
	for(int i = 0; i < 9; i++) {
		size_t W = 0, H = 0; float* buf = nullptr; RDError e = 0;
		Arm arm;
		RDImage* im = a.resdet_open_image_with_reader(path.c_str(),reader,&W,&H,&buf,&e);
		if(im && W*H < 100000) {
			if(seeks) a.resdet_seek_frame(im,seeks,nullptr,nullptr,&e);
			for(size_t k = 0; k < reads; k++) a.resdet_read_image_frame(im,buf,&e);
			opened = true;
		}
		a.resdet_close_image(im);
		free(buf);
		inject::armed = false;
		level.push_back(inject::live); fds.push_back(inject::open_fds());
	}
	unlink(path.c_str());
	bool grows = true, fgrows = true;
	for(size_t i = 3; i < level.size(); i++) { grows &= level[i] > level[i-1]; fgrows &= fds[i] > fds[i-1]; }
	PBT_CHECK(ctx,!inject::overflow,"table of allocations is too small");
	PBT_CHECK(ctx,!fgrows,"every repetition leaves a file open: %d to %d",fds[0],fds.back());
	PBT_CHECK(ctx,!grows,"every repetition leaves memory allocated: %zu to %zu allocations",level[2],level.back());
	ctx.label(fmt("%s %s",reader,opened ? "opened" : "refused"));
	ctx.nontrivial(hash_bytes(data.data(),data.size(),reads*100+seeks*10+reader[0]));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"still",still,60000,1000000,120},
		{"fftw",fftw,20000,300000,120},
		{"repeat",repeat,4000,60000,120},
	},[]{
		apis = load_apis();
		std::string e = getenv("RESDET_LIBS");
		while(!e.empty()) { size_t p = e.find(';'); std::string it = e.substr(0,p); inject::library(it.substr(it.find('=')+1).c_str()); e = p == std::string::npos ? "" : e.substr(p+1); }
	});
}
