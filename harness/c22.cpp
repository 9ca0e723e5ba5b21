// C22: the resdet command line tool prints what the library computes.
#include "readcheck.hpp"
#include "routes.hpp"
#include "gen.hpp"
#include "proc.hpp"
#include <cinttypes>
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static std::string tool;

static const char* mime(const std::string& t) { return t == "pgm" ? "image/x-portable-graymap" : t == "pfm" ? "image/x-portable-floatmap" : t == "y4m" ? "video/yuv4mpeg" : t == "png" ? "image/png" : "image/jpeg"; }
static const char* reader_of(const std::string& t) { return t == "pgm" ? "PGM" : t == "pfm" ? "PFM" : t == "y4m" ? "Y4M" : t == "png" ? "libpng" : "libjpeg"; }

// a sequence of images with something to find in them
static File detailed(Src& s) {
	File f; f.bits = true; f.type = "pfm";
	f.w = 1+s.upto(60); f.h = 1+s.upto(60);
	size_t n = s.chance(50) ? 1 : s.chance(25) ? 6+s.upto(14) : 1+s.upto(4);
	bool thin = s.chance(6); // more results than any fixed number
	if(thin) { f.w = 200+s.upto(1500); f.h = 1+s.upto(1); if(s.chance(50)) std::swap(f.w,f.h); if(n > 3) n = 3; }
	f.what = fmt("PFM %zux%zu %zu frames of detail",f.w,f.h,n);
	int k = -1;
	for(size_t i = 0; i < n; i++) {
		std::vector<float> p = gen::image(s,f.w,f.h,&k,thin ? gen::NOISE : i ? k : -1);
		f.data += fmt("Pf\n%zu %zu\n-1\n",f.w,f.h);
		f.begin.push_back(f.data.size());
		for(size_t y = f.h; y-- > 0; ) for(size_t x = 0; x < f.w; x++) files::put32(f.data,p[y*f.w+x],false);
		f.frames.push_back(p); f.end.push_back(f.data.size());
	}
	return f;
}
static File content(Src& s) {
	switch(s.pick(5)) {
		case 0: return files::y4m(s);
		case 1: return files::any(s);
		default: return detailed(s);
	}
}

struct Expect { RDError e = RDEOK; int early = 0; Res r; size_t analyzed = 0; }; // early: 1 passed the end while seeking, 2 no frames left
static std::string expected_text(const Res& r, int v, bool dbl) {
	std::string o;
	auto pc = [&](float c) { return dbl ? (double)c*100 : (double)(c*100); };
	if(v == 0) return o;
	if(v == 1) return fmt("%zu %zu\n",r.w[0].index,r.h[0].index);
	if(v == 2 || v == 3) {
		for(auto* l : {&r.w,&r.h}) {
			for(auto& x : *l) o += v == 2 ? fmt("%zu ",x.index) : fmt("%zu:%f ",x.index,x.confidence);
			o += "\n";
		}
		return o;
	}
	size_t W = r.w.back().index, H = r.h.back().index;
	bool none = r.w.size() == 1 && r.h.size() == 1;
	o = fmt("given: %zux%zu\nbest guess: %zux%zu%s\n",W,H,r.w[0].index,r.h[0].index,none ? " (not upsampled)" : "");
	size_t n = std::max(r.w.size(),r.h.size())-1;
	if(n) o += "all width        height\n";
	for(size_t i = 0; i < n; i++) {
		o += i+1 < r.w.size() ? fmt("%5zu (%5.2f%%)   ",r.w[i].index,pc(r.w[i].confidence)) : std::string(17,' ');
		if(i+1 < r.h.size()) o += fmt("%5zu (%5.2f%%)",r.h[i].index,pc(r.h[i].confidence));
		o += "\n";
	}
	return o;
}

static void options(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f = content(s);
	bool damaged = s.chance(10);
	if(damaged) { if(s.chance(50)) f.data.resize(s.upto(f.data.size()-1)); else f.data[s.pick(f.data.size())] ^= (char)(1 << s.upto(7)); }
	Route::Kind kind = (Route::Kind)s.weighted({70,0,15,15});
	bool std_in = kind != Route::REGULAR;

	// naming
	std::string ext = f.type, type, reader, filter;
	std::vector<std::string> opts; // each one option with its argument
	std::vector<std::pair<std::string,std::string>> o;
	bool with_type = std_in || s.chance(35);
	if(with_type) {
		int k = (int)s.pick(3);
		if(k == 0) { type = f.type; if(s.chance(30)) for(auto& c : type) c = (char)toupper(c); }
		else if(k == 1) type = mime(f.type);
		else { reader = reader_of(f.type); if(s.chance(40)) for(auto& c : reader) c = (char)tolower(c); }
		if(!std_in) ext = s.of(std::vector<std::string>{f.type,"mp4","MKV","webp","WebM","avif","heic","dat","","JPEG","jpg","png","gif","xmp4"});
		if(!type.empty()) o.push_back({"t",type});
		if(!reader.empty()) o.push_back({"R",reader});
	}
	else if(s.chance(30)) for(auto& c : ext) if(s.chance(60)) c = (char)toupper(c);

	// parameters
	Params q; q.given = true;
	const char* method = nullptr;
	int verbosity = -1;
	uint64_t off = 0, n = 0;
	bool progress = false, exact = true;
	double pct = -1;
	if(s.chance(45)) { method = METHODS[s.pick(4)]; o.push_back({"m",method}); }
	if(s.chance(85)) { verbosity = (int)s.range(-1,3); o.push_back({"v",std::to_string(verbosity)}); }
	if(s.chance(60)) { q.range = s.chance(80) ? 1+s.upto(16) : s.chance(60) ? 1+s.upto(200) : s.of(std::vector<size_t>{255,256,257,300,65536,65537,(1ull << 32)+1,(1ull << 32)+12,UINT64_MAX}); o.push_back({"r",std::to_string(q.range)}); }
	if(s.chance(65)) {
		std::string t;
		if(s.chance(30)) t = "0";
		else if(s.chance(40)) t = std::to_string(s.upto(100));
		else { t = fmt("%u.%0*u",(unsigned)s.upto(99),(int)1+(int)s.upto(3),(unsigned)s.upto(9)); }
		pct = strtod(t.c_str(),nullptr);
		q.threshold = (float)(pct/100);
		o.push_back({"x",t});
	}
	int fk = (int)s.pick(4);
	std::string filename = ext.empty() ? "f" : "f." + ext;
	if(fk == 0) { q.filter = (int)s.upto(s.chance(80) ? 5 : 31); o.push_back({"f",std::to_string(q.filter)}); }
	else if(fk == 1) {
		std::string l; for(char c : ext) l += (char)tolower(c);
		q.filter = std_in ? 0 : l == "jpg" || l == "jpeg" || l == "mp4" || l == "mkv" ? 3 : l == "webp" || l == "webm" ? 2 : l == "avif" || l == "heic" ? 5 : 0;
		o.push_back({"f","auto"});
		ctx.label(fmt("auto filter %d",q.filter));
	}
	if(s.chance(35)) { off = f.frames.size() > 5 ? s.upto(f.frames.size()+2) : s.small(0,f.frames.size()+2); if(s.chance(3)) off = s.of(std::vector<uint64_t>{1000000,4294967296ull,UINT64_MAX}); o.push_back({"o",std::to_string(off)}); }
	if(s.chance(35)) { n = 1+(f.frames.size() > 5 ? s.upto(f.frames.size()+1) : s.small(0,f.frames.size()+1)); if(s.chance(3)) n = UINT64_MAX; o.push_back({"n",std::to_string(n)}); }
	if(s.chance(20)) { progress = true; o.push_back({"p",""}); }
	if(q.filter < 0 && q.threshold < 0 && !q.range && s.chance(50)) q.given = false;
	// shuffle, and sometimes give an option twice, where the last counts
	for(size_t i = o.size(); i > 1; i--) std::swap(o[i-1],o[s.pick(i)]);
	if(!o.empty() && s.chance(15)) {
		auto d = o[s.pick(o.size())];
		if(d.first == "v") d.second = std::to_string(s.range(-1,3));
		else if(d.first == "r") d.second = std::to_string(1+s.upto(9));
		else if(d.first == "m") d.second = METHODS[s.pick(4)];
		o.insert(o.begin(),d);
	}
	Route route(ctx,kind,filename,f.data);
	if(!route.ok) return;
	// at most one of the values is made invalid
	std::string bad;
	if(s.chance(8)) {
		static const char* const vals[][2] = {{"m","nosuch"},{"m","Sign"},{"m","sign "},{"m",""},{"R","nosuch"},{"R",""},{"R","PGMX"},{"r","0"},{"r","x"},{"r",""},{"x","-1"},{"x","100.1"},{"x","x"},{"x",""},{"x","nan"},{"x","inf"},{"x","1e9"},
			{"f","32"},{"f","255"},{"f","256"},{"f","x"},{"f",""},{"f","-1"},{"f","Auto"},{"f","4294967296"},{"o","x"},{"o",""},{"n","0"},{"n","x"},{"n",""},{"q",""},{"z","1"},{"both",""},{"none",""},{"arg",""}};
		size_t k = s.pick(sizeof vals/sizeof *vals);
		bad = vals[k][0];
		if(bad == "both") { for(size_t i = o.size(); i-- > 0; ) if(o[i].first == "R" || o[i].first == "t") o.erase(o.begin()+i); o.push_back({"R",reader_of(f.type)}); o.insert(o.begin()+s.upto(o.size()),{"t",f.type}); }
		else if(bad != "none" && bad != "arg") {
			for(size_t i = o.size(); i-- > 0; ) if(o[i].first == bad || (bad == "R" && o[i].first == "t")) o.erase(o.begin()+i);
			o.insert(o.begin()+s.upto(o.size()),{bad,vals[k][1]});
		}
		if(strlen(vals[k][1])) bad += std::string(" ") + vals[k][1];
	}
	std::vector<std::string> argv = {tool};
	bool joined = s.chance(40);
	std::string file_name = std_in ? "-" : route.name;
	for(auto& x : o) {
		if(x.first == "p" || x.first == "q") argv.push_back("-" + x.first);
		else if(joined && !x.second.empty()) argv.push_back("-" + x.first + x.second);
		else { argv.push_back("-" + x.first); argv.push_back(x.second); }
	}
	if(bad == "arg") argv.push_back("-v"); // option without its argument
	else if(bad != "none") {
		argv.push_back(file_name);
		if(s.chance(10)) argv.push_back("ignored");
	}
	std::string line = proc::quote(argv);
	for(size_t p; (p = line.find(ctx.scratch())) != std::string::npos; ) line.replace(p,ctx.scratch().size()+1,"");
	ctx.desc(f.what + (damaged ? " (damaged)" : "") + fmt(" from %s: resdet ",route.what()) + line + (bad.empty() ? "" : "  [invalid: " + bad + "]"));

	// what the library has to say
	Expect x;
	if(bad.empty()) {
		const char* nm = std_in ? "-" : route.name.c_str();
		Opened in(a,nm,type.empty() ? nullptr : type.c_str(),reader.empty() ? nullptr : reader.c_str());
		if(!in.im) x.e = in.e;
		else {
			std::vector<float> px; size_t have = 0; RDError e = RDEOK;
			// all frames are read in order; the range asked for is cut out of them
			bool stop = false;
			while(!stop) {
				if(n && have >= off && have-off >= n) break;
				if(have > 3000) break;
				px.resize((have+1)*in.w*in.h);
				if(!a.resdet_read_image_frame(in.im,&px[have*in.w*in.h],&e)) stop = true;
				else have++;
			}
			if(e) x.e = e;
			else if(have < off) x.early = 1;
			else if(have == off) x.early = 2;
			else {
				x.analyzed = have-off;
				x.r = detect(a,px.data()+off*in.w*in.h,have-off,in.w,in.h,method,q,ctx);
				x.e = x.r.e;
			}
			if(pct >= 0 && !x.e && !x.early) { // a confidence that ties with a threshold that is not exact may go either way
				float back = (float)pct;
				if((double)back != pct || (double)q.threshold*100 != pct)
					for(auto* l : {&x.r.w,&x.r.h}) for(auto& y : *l) if(std::fabs(y.confidence-q.threshold) < 1e-6) exact = false;
				Params z = q; z.threshold = q.threshold-1e-6f < 0 ? 0 : q.threshold-1e-6f;
				if((double)q.threshold*100 != pct) { Res r2 = detect(a,px.data()+off*in.w*in.h,have-off,in.w,in.h,method,z,ctx); if(r2.w.size() != x.r.w.size() || r2.h.size() != x.r.h.size()) exact = false; }
			}
		}
	}
	proc::Ran g;
	if(std_in) { // the tool gets a fresh standard input, as the library has read this one
		Route again(ctx,kind,filename,f.data);
		std::string src = again.fd >= 0 ? fmt("/proc/%d/fd/%d",(int)getpid(),again.fd) : again.path;
		g = proc::run(ctx,argv,src);
	}
	else g = proc::run(ctx,argv);

	if(!bad.empty()) {
		PBT_CHECK(ctx,g.status != 0,"exit status 0 with an invalid option; printed \"%s\"",proc::brief(g.out).c_str());
		PBT_CHECK(ctx,!g.err.empty(),"no explanation of an invalid option, exit status %d",g.status);
		if(bad[0] != 'R') PBT_CHECK(ctx,g.out.empty(),"printed \"%s\" with an invalid option",proc::brief(g.out).c_str());
		else {
			std::string l;
			for(const char* const* r = a.resdet_list_image_readers(); *r; r++) l += std::string(*r) + "\n";
			PBT_CHECK(ctx,g.out == l,"printed \"%s\" instead of the readers",proc::brief(g.out).c_str());
		}
		ctx.label("invalid -" + bad.substr(0,bad.find(' ')));
		ctx.nontrivial(hash_bytes(line.data(),line.size()));
		return;
	}
	if(x.e || x.early) {
		PBT_CHECK(ctx,g.status != 0,"exit status 0 although the library gives error %d, early %d; printed \"%s\"",x.e,x.early,proc::brief(g.out).c_str());
		PBT_CHECK(ctx,g.out.empty(),"printed \"%s\" although the library gives error %d, early %d",proc::brief(g.out).c_str(),x.e,x.early);
		PBT_CHECK(ctx,!g.err.empty(),"nothing on standard error, error %d, early %d",x.e,x.early);
		if(damaged && off) ; // whether seeking meets the damage is not specified
		else if(x.e) PBT_CHECK(ctx,g.err.find(a.resdet_error_str(x.e)) != std::string::npos,"standard error \"%s\" lacks the message for %d",proc::brief(g.err).c_str(),x.e);
		else PBT_CHECK(ctx,g.err.find(a.resdet_error_str(RDEINVAL)) == std::string::npos,"the end of the input is reported as \"%s\"",proc::brief(g.err).c_str());
		ctx.label(x.e ? "failing" : x.early == 1 ? "offset past the end" : "no frames left");
	}
	else {
		bool up = x.r.w.size() > 1 || x.r.h.size() > 1;
		if(exact) {
			PBT_CHECK(ctx,g.out == expected_text(x.r,verbosity,false) || g.out == expected_text(x.r,verbosity,true),"printed\n%s\ninstead of\n%s",proc::brief(g.out,2000).c_str(),proc::brief(expected_text(x.r,verbosity,false),2000).c_str());
			PBT_CHECK(ctx,g.status == (verbosity == 0 && !up),"exit status %d at -v%d with %zu+%zu results",g.status,verbosity,x.r.w.size()-1,x.r.h.size()-1);
		}
		else ctx.label("tie with the threshold");
		if(!progress) PBT_CHECK(ctx,g.err.empty(),"standard error \"%s\"",proc::brief(g.err).c_str());
		else {
			std::vector<unsigned long long> seen;
			for(size_t p = 0; (p = g.err.find("Analyzing frame ",p)) != std::string::npos; p += 16) seen.push_back(strtoull(g.err.c_str()+p+16,nullptr,10));
			PBT_CHECK(ctx,seen.size() == x.analyzed && (seen.empty() || seen.back() == off+x.analyzed),"progress shows %zu frames up to %llu instead of %zu up to %" PRIu64,seen.size(),seen.empty() ? 0 : seen.back(),x.analyzed,off+x.analyzed);
		}
		ctx.label(fmt("-v%d %s",verbosity,up ? "upscaled" : "not upscaled"));
		if(off) ctx.label("with offset");
		if(n && x.analyzed < f.frames.size()) ctx.label("limited frames");
		if(!up && !off && !n && x.r.w.size() == 1 && verbosity != 0) return;
	}
	ctx.nontrivial(hash_bytes(line.data(),line.size(),hash_bytes(f.data.data(),f.data.size())));
}

// what the command says about itself, and names of files that are not there
static void about(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	std::vector<std::string> names;
	for(const char* const* r = a.resdet_list_image_readers(); *r; r++) names.push_back(*r);
	int k = (int)s.pick(5);
	std::vector<std::string> argv = {tool};
	if(s.chance(40)) argv.push_back(fmt("-v%d",(int)s.range(-1,3)));
	if(s.chance(30)) argv.push_back("-p");
	if(s.chance(30)) argv.push_back("-r7");
	static const char* const K[] = {"-h","-V","-Rlist","none","missing"};
	ctx.desc(K[k]);
	if(k < 3) { argv.push_back(K[k]); if(s.chance(50)) argv.push_back("nosuchfile"); }
	if(k == 4) {
		std::string ext = s.of(std::vector<std::string>{"pgm","pfm","y4m","png","jpg"});
		argv.push_back(ctx.scratch() + "/nosuch." + ext);
	}
	proc::Ran g = proc::run(ctx,argv);
	ctx.desc(proc::quote(argv));
	if(k == 0) {
		PBT_CHECK(ctx,g.status == 0 && g.err.empty(),"-h: exit status %d, stderr %s",g.status,g.err.c_str());
		size_t i = 0;
		for(RDMethod* m = a.resdet_methods(); m->name; m++, i++)
			PBT_CHECK(ctx,g.out.find(fmt("   %-5s - %.0f%%%s\n",m->name,m->threshold*100,i ? "" : " (default method)")) != std::string::npos,"-h lacks %s: %s",m->name,g.out.c_str());
		PBT_CHECK(ctx,g.out.find(fmt("(%zu)",a.resdet_default_range())) != std::string::npos,"-h lacks the default range");
		for(char c : std::string("hVmvtRrxfpon")) PBT_CHECK(ctx,g.out.find(fmt(" -%c ",c)) != std::string::npos,"-h lacks -%c",c);
	}
	else if(k == 1) {
		std::string l;
		for(size_t i = 0; i < names.size(); i++) l += (i ? ", " : "") + names[i];
		PBT_CHECK(ctx,g.status == 0 && g.err.empty() && g.out.find(fmt("libresdet version %s\n",a.resdet_libversion())) != std::string::npos && g.out.find(l + "\n") != std::string::npos,"-V: exit status %d, \"%s\"",g.status,g.out.c_str());
	}
	else if(k == 2) {
		std::string l;
		for(auto& x : names) l += x + "\n";
		PBT_CHECK(ctx,g.status == 0 && g.err.empty() && g.out == l,"-R list: exit status %d, \"%s\"",g.status,g.out.c_str());
	}
	else {
		PBT_CHECK(ctx,g.status != 0 && g.out.empty() && !g.err.empty(),"exit status %d, stdout \"%s\", stderr \"%s\"",g.status,g.out.c_str(),g.err.c_str());
		if(k == 4) PBT_CHECK(ctx,g.err.find(strerror(ENOENT)) != std::string::npos,"a missing file is reported as \"%s\"",g.err.c_str());
	}
	ctx.label(K[k]);
	std::string line = proc::quote(argv);
	ctx.nontrivial(hash_bytes(line.data(),line.size()));
}

int main(int argc, char** argv) {
	bool san = getenv("C22_SANITIZED");
	return main_(argc,argv,{
		{"options",options,san ? 2500 : 30000,san ? 60000 : 500000,120},
		{"about",about,400,4000,120},
	},[]{ apis = load_apis(); tool = std::string(getenv("RESDET_TOOLS")) + "/resdet"; });
}
