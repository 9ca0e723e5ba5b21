// C18: failing allocations.
#include "inject_fftw.hpp"
#include "readcheck.hpp"
#include "routes.hpp"
#include "gen.hpp"
#include "proc.hpp"
using namespace pbt;
using files::File;
using inject::Arm;
static std::vector<Api> apis;
static char stdin_buffer[1 << 16];

// What an operation produced, for comparison between runs.
struct Outcome { RDError e = RDEOK; bool ok = true; Res r; std::vector<float> px; size_t w = 0, h = 0, n = 0; };
// the order among equal confidences depends on how qsort sorts, which depends on memory
static ResList canon(ResList l) { std::sort(l.begin(),l.end(),[](const RDResolution& x, const RDResolution& y) { return x.index < y.index; }); return l; }
static bool equal(const Outcome& a, const Outcome& b) { return a.e == b.e && a.ok == b.ok && a.w == b.w && a.h == b.h && a.n == b.n && same(canon(a.r.w),canon(b.r.w)) && same(canon(a.r.h),canon(b.r.h)) && a.px.size() == b.px.size() && !memcmp(a.px.data(),b.px.data(),a.px.size()*4); }
static std::string str(const Outcome& o) { return fmt("error %d, %zu images of %zux%zu, results ",o.e,o.n,o.w,o.h) + str(o.r.w) + str(o.r.h); }

struct Plan { long at = -1; bool persistent = false; };
static void arm_plan(const Plan& p) { inject::count = 0; inject::failed = inject::failed_direct = false; inject::fail_at = p.at; inject::persistent = p.persistent; }
static void disarm() { inject::fail_at = -1; }

static std::string fault(const Plan& p, long total) { return p.at < 0 ? "no failure" : fmt("allocation %ld of %ld%s failing (%s%s)",p.at+1,total,p.persistent ? " and all later ones" : "",inject::failed_what,inject::failed_direct ? "" : ", by a decoding library"); }

// a failure is out of memory; one inside a decoding library or in stdio may be any error
static void check_error(Ctx& ctx, const Api& a, RDError e, const std::string& what) {
	if(inject::failed_direct) PBT_CHECK(ctx,e == RDENOMEM,"%s: error %d instead of out of memory",what.c_str(),e);
	else PBT_CHECK(ctx,e && a.resdet_error_str(e),"%s: error %d",what.c_str(),e);
}

// ---- single calls ----
struct Input { int op; std::vector<float> px; size_t n, w, h; File f; std::string path; const char* type = nullptr; const char* method; Params q; int mask; bool std_in = false; };

static Outcome call(const Api& a, const Input& in, RDParameters* p, Ctx& ctx) {
	Outcome o;
	RDMethod* m = in.method ? a.resdet_get_method(in.method) : nullptr;
	RDResolution* bad = (RDResolution*)(uintptr_t)0x5a5a5a50,* rw = bad,* rh = bad; size_t cw = 7, ch = 7;
	switch(in.op) {
		case 0: case 1: { // detection from memory or file
			bool nw = in.mask & 1, nh = in.mask & 2;
			if(in.op == 0) { Arm arm; o.e = a.resdetect(const_cast<float*>(in.px.data()),in.n,in.w,in.h,nw ? nullptr : &rw,&cw,nh ? nullptr : &rh,&ch,m,p); }
			else { Arm arm; o.e = a.resdetect_file(in.path.c_str(),in.type,nw ? nullptr : &rw,&cw,nh ? nullptr : &rh,&ch,m,p); }
			disarm();
			if(o.e) PBT_CHECK(ctx,(nw || !rw) && (nh || !rh) && !cw && !ch,"outputs after error %d: %p %zu %p %zu",o.e,(void*)rw,cw,(void*)rh,ch);
			else {
				if(!nw) { o.r.w.assign(rw,rw+cw); free(rw); }
				if(!nh) { o.r.h.assign(rh,rh+ch); free(rh); }
			}
			break;
		}
		case 2: { // bulk reading
			float* img = (float*)bad; o.n = 7;
			{ Arm arm; o.e = a.resdet_read_image(in.path.c_str(),in.type,&img,&o.n,&o.w,&o.h); }
			disarm();
			if(o.e) { PBT_CHECK(ctx,!img && !o.n,"outputs after error %d: %p %zu",o.e,(void*)img,o.n); o.w = o.h = 0; }
			else { o.px.assign(img,img+o.n*o.w*o.h); free(img); }
			break;
		}
		case 3: { // frame by frame
			float* buf = (float*)bad; RDImage* im;
			{ Arm arm; im = a.resdet_open_image(in.path.c_str(),in.type,&o.w,&o.h,in.mask & 1 ? nullptr : &buf,&o.e); }
			if(!im) { disarm(); PBT_CHECK(ctx,o.e && !o.w && !o.h && (in.mask & 1 || !buf),"outputs after error %d: %zux%zu %p",o.e,o.w,o.h,(void*)buf); break; }
			PBT_CHECK(ctx,!o.e,"opened with error %d",o.e);
			std::vector<float> own(o.w*o.h); float* b = in.mask & 1 ? own.data() : buf;
			if(in.mask & 2) { bool ok; { Arm arm; ok = a.resdet_seek_frame(im,1,nullptr,nullptr,&o.e); } o.n += 100*!ok; }
			while(!o.e && o.n < 5000) {
				bool ok;
				{ Arm arm; ok = a.resdet_read_image_frame(im,b,&o.e); }
				if(!ok) break;
				o.px.insert(o.px.end(),b,b+o.w*o.h); o.n++;
			}
			{ Arm arm; a.resdet_close_image(im); }
			disarm();
			if(!(in.mask & 1)) free(buf);
			if(o.e) { // the frames before it stay right
				o.ok = false;
			}
			break;
		}
		case 4: { // parameters
			RDParameters* q;
			{ Arm arm; q = a.resdet_alloc_default_parameters(); }
			disarm();
			o.e = q ? RDEOK : RDENOMEM;
			free(q);
			break;
		}
	}
	return o;
}

static File detailed(Src& s, size_t maxd, size_t maxn) {
	File f; f.bits = true; f.type = "pfm";
	f.w = 1+s.upto(maxd-1); f.h = s.chance(15) ? f.w : 1+s.upto(maxd-1);
	size_t n = s.chance(50) ? 1 : 1+s.upto(maxn-1); int k = -1;
	for(size_t i = 0; i < n; i++) {
		std::vector<float> p = gen::image(s,f.w,f.h,&k,i ? k : -1);
		f.data += fmt("Pf\n%zu %zu\n-1\n",f.w,f.h);
		for(size_t y = f.h; y-- > 0; ) for(size_t x = 0; x < f.w; x++) files::put32(f.data,p[y*f.w+x],false);
		f.frames.push_back(p);
	}
	f.what = fmt("%zux%zu %zu images",f.w,f.h,n);
	return f;
}
static void reset(const Api& a) { inject::reset(); inject::coeffs = inject::plans = 0; inject::nfftw_bufs = inject::nfftw_plans = 0; inject::all = a.name == "still"; }
static void clean(Ctx& ctx, int fds, const std::string& what) {
	PBT_CHECK(ctx,inject::open_fds() == fds,"%s: %d files left open",what.c_str(),inject::open_fds()-fds);
	PBT_CHECK(ctx,!inject::live && !inject::coeffs && !inject::plans,"%s: %zu allocations, %ld coefficient buffers, %ld plans left",what.c_str(),inject::live,inject::coeffs,inject::plans);
	PBT_CHECK(ctx,!inject::foreign_frees,"%s: freed something that was not allocated",what.c_str());
}

static void single(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	Input in;
	in.op = (int)s.weighted({35,20,18,22,5});
	in.method = s.chance(20) ? nullptr : METHODS[s.pick(4)];
	in.mask = s.chance(70) ? 0 : (int)s.upto(3);
	if(s.chance(60)) { in.q.given = true; if(s.chance(50)) in.q.range = 1+s.upto(12); if(s.chance(60)) in.q.threshold = s.chance(50) ? 0 : s.upto(100)/100.f; if(s.chance(20)) in.q.filter = (int)s.upto(6); }
	if(in.op == 0 || (in.op == 1 && s.chance(50))) {
		in.f = detailed(s,48,3);
		for(auto& x : in.f.frames) in.px.insert(in.px.end(),x.begin(),x.end());
	}
	else in.f = files::any(s);
	in.n = in.f.frames.size(); in.w = in.f.w; in.h = in.f.h;
	static const char* const OP[] = {"resdetect","resdetect_file","resdet_read_image","frame by frame","resdet_alloc_default_parameters"};
	std::string what = std::string(a.name) + " " + OP[in.op] + " " + in.f.what;
	if(in.op < 2) what += std::string(" ") + (in.method ? in.method : "default") + " " + in.q.str();
	ctx.desc(what);
	std::unique_ptr<Route> route;
	Route::Kind rk = in.op >= 1 && in.op <= 3 ? (Route::Kind)s.weighted({70,0,15,15}) : Route::REGULAR;
	in.type = in.f.type.c_str();
	auto fresh = [&]() {
		if(in.op < 1 || in.op > 3) return true;
		route.reset();
		route.reset(new Route(ctx,rk,"f." + in.f.type,in.f.data));
		if(rk >= Route::STDIN_FILE) setvbuf(stdin,stdin_buffer,_IOFBF,sizeof stdin_buffer);
		in.path = route->name;
		return route->ok;
	};
	ParamsHandle ph(a,in.q,ctx);
	reset(a);
	if(!fresh()) return;
	int fds = inject::open_fds();
	Outcome ref = call(a,in,ph.p,ctx);
	long total = inject::count;
	clean(ctx,fds,what + ", no failure");
	PBT_CHECK(ctx,!ref.e || (in.op == 1 && ref.e == RDENOIMG) || (in.op == 1 && ref.e == RDEINVAL),"%s: error %d without any failure",what.c_str(),ref.e);
	if(!total) return;
	// every point if there are few, a sample if many
	size_t tries = std::min<size_t>(total,ctx.thorough() ? 60 : 24), hit = 0, survived = 0;
	for(size_t t = 0; t < tries; t++) {
		Plan p;
		p.at = (size_t)total <= tries ? (long)t : (long)s.upto(total-1);
		p.persistent = s.chance(40);
		reset(a);
		if(!fresh()) return;
		arm_plan(p);
		Outcome o = call(a,in,ph.p,ctx);
		if(!inject::failed) continue;
		hit++;
		std::string f = what + ", " + fault(p,total);
		if(o.e && o.e != ref.e) check_error(ctx,a,o.e,f);
		else if(!o.e) {
			PBT_CHECK(ctx,equal(o,ref),"%s: succeeded with %s instead of %s",f.c_str(),str(o).c_str(),str(ref).c_str());
			PBT_CHECK(ctx,!inject::failed_direct || in.op == 2,"%s: the call succeeded regardless",f.c_str()); // reading ahead may be given up
			survived++;
		}
		if(o.e && in.op == 3) PBT_CHECK(ctx,o.n%100 <= ref.n%100 && o.px.size() <= ref.px.size() && (o.px.empty() || !memcmp(o.px.data(),ref.px.data(),o.px.size()*4)),"%s: frames before the failure differ: %s instead of %s",f.c_str(),str(o).c_str(),str(ref).c_str());
		clean(ctx,fds,f);
		// and again without failure
		reset(a);
		if(!fresh()) return;
		Outcome again = call(a,in,ph.p,ctx);
		PBT_CHECK(ctx,equal(again,ref),"%s: afterwards %s instead of %s",f.c_str(),str(again).c_str(),str(ref).c_str());
		ctx.label(inject::failed_direct ? "failure in the library" : "failure elsewhere");
	}
	if(survived) ctx.label("survived a failure");
	ctx.label(OP[in.op]);
	if(hit) ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(in.f.data.data(),in.f.data.size(),in.mask)));
}

// ---- an analysis whose steps fail and are repeated ----
static void analysis(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	File f = detailed(s,40,5);
	const char* method = METHODS[s.weighted({20,15,50,15})];
	Params q; q.given = true; q.threshold = 0;
	if(s.chance(60)) q.range = 1+s.upto(8);
	size_t w = f.w, h = f.h;
	std::string what = fmt("%s analysis of %s, %s %s",a.name.c_str(),f.what.c_str(),method,q.str().c_str());
	ctx.desc(what);
	ParamsHandle ph(a,q,ctx);
	RDMethod* m = a.resdet_get_method(method);
	std::vector<float> all;
	for(auto& x : f.frames) all.insert(all.end(),x.begin(),x.end());
	reset(a);
	Res ref = detect(a,all.data(),f.frames.size(),w,h,method,q,ctx);
	PBT_CHECK(ctx,!ref.e,"error %d",ref.e);
	int fds = inject::open_fds();
	reset(a);
	std::string log; size_t hits = 0;
	auto plan = [&](long most) { Plan p; if(s.chance(55)) { p.at = s.upto(most); p.persistent = s.chance(40); } arm_plan(p); };
	RDAnalysis* an = nullptr;
	struct G { const Api& a; RDAnalysis*& an; ~G() { a.resdet_destroy_analysis(an); } } guard{a,an};
	for(int t = 0; !an; t++) {
		RDError e = 77;
		plan(12);
		if(t > 8) disarm();
		{ Arm arm; an = a.resdet_create_analysis(m,w,h,ph.p,&e); }
		disarm();
		log += fmt(" create=%d%s",e,inject::failed ? "!" : "");
		PBT_CHECK(ctx,inject::failed ? !an && e == RDENOMEM : an && !e,"%s:%s",what.c_str(),log.c_str());
		if(inject::failed) { hits++; clean(ctx,fds,what + ":" + log); }
	}
	auto results = [&](Res& r, bool may_fail) {
		for(int t = 0;; t++) {
			Out o; RDError e;
			plan(2); if(t > 8 || !may_fail) disarm();
			{ Arm arm; e = a.resdet_analysis_results(an,&o.rw,&o.cw,&o.rh,&o.ch); }
			disarm();
			log += fmt(" results=%d%s",e,inject::failed ? "!" : "");
			PBT_CHECK(ctx,e == (inject::failed ? RDENOMEM : RDEOK),"%s:%s",what.c_str(),log.c_str());
			r = o.take(e,ctx);
			if(!e) return;
			hits++;
		}
	};
	for(size_t i = 0; i < f.frames.size(); i++) {
		for(int t = 0;; t++) {
			size_t before = inject::live;
			plan(3); if(t > 6) disarm();
			RDError e;
			{ Arm arm; e = a.resdet_analyze_image(an,f.frames[i].data()); }
			disarm();
			log += fmt(" analyze%zu=%d%s",i,e,inject::failed ? "!" : "");
			PBT_CHECK(ctx,e == (inject::failed ? RDENOMEM : RDEOK),"%s:%s",what.c_str(),log.c_str());
			if(!e) break;
			hits++;
			PBT_CHECK(ctx,inject::live == before,"%s:%s leaves %zu allocations, %zu before",what.c_str(),log.c_str(),inject::live,before);
		}
		if(i+1 < f.frames.size() && s.chance(30)) { Res r; results(r,true); }
	}
	Res got; results(got,true);
	auto list = [](const ResList& l) { ResList o = l; std::stable_sort(o.begin(),o.end(),[](const RDResolution& x, const RDResolution& y) { return x.index < y.index; }); return o; };
	auto close = [](const ResList& x, const ResList& y, double tol) { if(x.size() != y.size()) return false; for(size_t i = 0; i < x.size(); i++) if(x[i].index != y[i].index || std::fabs(x[i].confidence-y[i].confidence) > tol) return false; return true; };
	bool good = close(list(got.w),list(ref.w),0) && close(list(got.h),list(ref.h),0);
	if(!good) ctx.fail(what + ":" + log + ": results " + ::str(got.w) + ::str(got.h) + " instead of " + ::str(ref.w) + ::str(ref.h));
	{ Arm arm; a.resdet_destroy_analysis(an); }
	an = nullptr;
	clean(ctx,fds,what + ":" + log);
	ctx.desc(log);
	if(hits) ctx.nontrivial(hash_bytes(log.data(),log.size(),hash_bytes(f.data.data(),f.data.size())));
	ctx.label(hits ? "steps failed" : "nothing failed");
}

// ---- the planner of FFTW refusing ----
static void planner(Src& s, Ctx& ctx) {
	const Api& a = apis[1];
	File f = detailed(s,30,2);
	reset(a);
	std::string what = "FFTW planner failing, " + f.what;
	ctx.desc(what);
	std::vector<float> all;
	for(auto& x : f.frames) all.insert(all.end(),x.begin(),x.end());
	Params q; q.given = true; q.threshold = 0;
	Res ref = detect(a,all.data(),f.frames.size(),f.w,f.h,nullptr,q,ctx);
	inject::fail_plan = true;
	Out o; RDError e, e2 = 77; RDAnalysis* an;
	ParamsHandle ph(a,q,ctx);
	{ Arm arm; e = a.resdetect(all.data(),f.frames.size(),f.w,f.h,&o.rw,&o.cw,&o.rh,&o.ch,nullptr,ph.p); an = a.resdet_create_analysis(nullptr,f.w,f.h,nullptr,&e2); }
	inject::fail_plan = false;
	PBT_CHECK(ctx,e && a.resdet_error_str(e) && e2 == e && !an,"%s: errors %d, %d",what.c_str(),e,e2);
	o.take(e,ctx);
	clean(ctx,inject::open_fds(),what);
	Res again = detect(a,all.data(),f.frames.size(),f.w,f.h,nullptr,q,ctx);
	PBT_CHECK(ctx,same(again.w,ref.w) && same(again.h,ref.h),"%s: afterwards the results differ",what.c_str());
	ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
}

// ---- the command line tool ----
static std::string sorted_lines(const std::string& o) { // the order among equal confidences may differ
	std::string r; size_t p = 0;
	while(p < o.size()) {
		size_t e = o.find('\n',p); if(e == std::string::npos) e = o.size();
		std::vector<std::string> t; std::string l = o.substr(p,e-p); size_t q = 0;
		while(q < l.size()) { size_t x = l.find(' ',q); if(x == std::string::npos) x = l.size(); t.push_back(l.substr(q,x-q)); q = x+1; }
		std::sort(t.begin(),t.end());
		for(auto& x : t) r += x + " ";
		r += "\n"; p = e+1;
	}
	return r;
}
static void command(Src& s, Ctx& ctx) {
	File f = s.chance(50) ? detailed(s,40,3) : files::any(s);
	Route route(ctx,Route::REGULAR,"f." + f.type,f.data);
	std::vector<std::string> opts = {"-v3","-m",METHODS[s.pick(4)]};
	if(s.chance(50)) { opts.push_back("-x"); opts.push_back(std::to_string(s.upto(60))); }
	if(s.chance(40)) { opts.push_back("-r"); opts.push_back(std::to_string(1+s.upto(8))); }
	if(s.chance(25)) { opts.push_back("-o"); opts.push_back("1"); }
	if(s.chance(20)) opts.push_back("-p");
	std::string log = ctx.scratch() + "/faillog";
	auto go = [&](long at, bool persistent, long& total, long& failed) {
		std::vector<std::string> v = {"/usr/bin/env",std::string("LD_PRELOAD=") + getenv("FAILALLOC"),"FAIL_LOG=" + log};
		if(at >= 0) v.push_back(fmt("FAIL_AT=%ld",at));
		if(persistent) v.push_back("FAIL_ALL=1");
		v.push_back(std::string(getenv("RESDET_TOOLS")) + "/resdet");
		v.insert(v.end(),opts.begin(),opts.end());
		v.push_back(route.name);
		unlink(log.c_str());
		proc::Ran r = proc::run(ctx,v);
		total = failed = -1;
		sscanf(proc::slurp(log).c_str(),"%ld %ld",&total,&failed);
		return r;
	};
	long total, failed, t2;
	std::string what = "resdet " + proc::quote(opts) + " " + f.what;
	ctx.desc(what);
	proc::Ran ref = go(-1,false,total,failed);
	PBT_CHECK(ctx,total > 3 && !failed,"%s: %ld allocations counted",what.c_str(),total);
	for(int t = 0; t < 8; t++) {
		long at = s.upto(total-1); bool persistent = s.chance(40);
		proc::Ran g = go(at,persistent,t2,failed);
		std::string w = what + fmt(", allocation %ld of %ld%s failing",at+1,total,persistent ? " and all later ones" : "");
		if(!failed) continue;
		if(g.status == 0 && ref.status == 0) PBT_CHECK(ctx,sorted_lines(g.out) == sorted_lines(ref.out),"%s: printed\n%s\ninstead of\n%s",w.c_str(),proc::brief(g.out).c_str(),proc::brief(ref.out).c_str());
		else PBT_CHECK(ctx,g.status == 1 && g.out.empty() && !g.err.empty(),"%s: exit status %d (%d without failure), printed \"%s\", stderr \"%s\"",w.c_str(),g.status,ref.status,proc::brief(g.out).c_str(),proc::brief(g.err).c_str());
		ctx.label(g.status ? "command failed" : "command survived");
	}
	ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(f.data.data(),f.data.size())));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"single",single,30000,600000,120},
		{"analysis",analysis,60000,1500000,120},
		{"command",command,1200,24000,120},
		{"planner",planner,1000,10000,120},
	},[]{
		apis = load_apis();
		std::string e = getenv("RESDET_LIBS");
		while(!e.empty()) { size_t p = e.find(';'); std::string it = e.substr(0,p); inject::library(it.substr(it.find('=')+1).c_str()); e = p == std::string::npos ? "" : e.substr(p+1); }
	});
}
