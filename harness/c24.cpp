// C24: imgread writes what the library reads; profile counts what the library finds.
#include "readcheck.hpp"
#include "routes.hpp"
#include "gen.hpp"
#include "proc.hpp"
#include <set>
#include <sys/resource.h>
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static std::string dir;

static void imgread(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	bool extreme = s.upto(199) == 199; // more rows or columns than a short number can tell
	size_t extent = extreme ? 65536+s.upto(300) : 0;
	size_t across = s.upto(1) ? extent : 1+s.upto(3), down = across == extent ? 1+s.upto(3) : extent;
	File f = !extreme ? files::any(s) : s.chance(50) ? files::pgm(s,across,down) : files::pfm(s,across,down,false,1);
	bool damaged = !extreme && s.chance(30);
	if(damaged) { if(s.chance(70)) f.data.resize(s.upto(f.data.size()-1)); else f.data[s.pick(f.data.size())] ^= (char)(1 << s.upto(7)); }
	bool missing = s.chance(3), noout = !missing && s.chance(3), full = !missing && !noout && s.upto(29) == 29;
	std::string in = files::write(ctx,"in." + f.type,f.data), out = ctx.scratch() + (noout ? "/nosuchdir/out.pfm" : "/out.pfm");
	if(missing) in = ctx.scratch() + "/nosuch." + f.type;
	ctx.desc(f.what + (damaged ? " (damaged)" : "") + (missing ? " (missing)" : "") + (noout ? " to a directory that is not there" : ""));
	bool existing = !noout && s.chance(30);
	if(existing) files::write(ctx,"out.pfm",std::string(s.upto(5000),'x'));
	else unlink(out.c_str());
	// what the library reads
	std::vector<std::vector<float>> fr; RDError e; size_t w = 0, h = 0;
	bool opened;
	{
		Opened o(a,in,nullptr);
		opened = o.im; e = o.e; w = o.w; h = o.h;
		if(o.im) while(fr.size() < 5000 && a.resdet_read_image_frame(o.im,o.buf,&e)) fr.push_back(std::vector<float>(o.buf,o.buf+w*h));
	}
	if(full) { // nowhere to write to
		ctx.desc(" to a full device");
		proc::Ran g = proc::run(ctx,{dir + "/imgread",in,"/dev/full"});
		unlink(in.c_str());
		if(e || !fr.empty()) PBT_CHECK(ctx,g.status != 0 && !g.err.empty(),"exit status %d, stderr \"%s\", although nothing was written, library error %d",g.status,g.err.c_str(),e);
		ctx.label("full device");
		return;
	}
	proc::Ran g = proc::run(ctx,{dir + "/imgread",in,out});
	std::string got = proc::slurp(out);
	PBT_CHECK(ctx,g.out.empty(),"printed \"%s\"",proc::brief(g.out).c_str());
	if(e || noout) {
		PBT_CHECK(ctx,g.status != 0 && !g.err.empty(),"exit status %d, stderr \"%s\", with error %d%s",g.status,g.err.c_str(),e,noout ? " and no way to write" : "");
		if(e && !noout) PBT_CHECK(ctx,g.err.find(a.resdet_error_str(e)) != std::string::npos,"standard error \"%s\" lacks the message for %d",g.err.c_str(),e);
		ctx.label(e ? "failing" : "no output");
	}
	else PBT_CHECK(ctx,g.status == 0 && g.err.empty(),"exit status %d, stderr \"%s\"",g.status,g.err.c_str());
	if(!noout && opened) {
		// frames read before an error are there
		size_t p = 0;
		for(size_t i = 0; i < fr.size(); i++) {
			// parsed independently of the library
			size_t W = 0, H = 0; double sc = 0; int used = 0;
			PBT_CHECK(ctx,p < got.size() && sscanf(got.c_str()+p,"Pf %zu %zu %lf%n",&W,&H,&sc,&used) == 3 && W == w && H == h && sc,"frame %zu of %zu: bad header at byte %zu of %zu",i,fr.size(),p,got.size());
			p += used+1;
			PBT_CHECK(ctx,got.size()-p >= w*h*4,"frame %zu is cut off",i);
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
				float v; char b[4];
				for(int k = 0; k < 4; k++) b[k] = got[p+((h-1-y)*w+x)*4+(sc < 0 ? k : 3-k)];
				memcpy(&v,b,4);
				PBT_CHECK(ctx,!memcmp(&v,&fr[i][y*w+x],4),"frame %zu pixel (%zu,%zu) is %.9g instead of %.9g",i,x,y,v,fr[i][y*w+x]);
			}
			p += w*h*4;
		}
		PBT_CHECK(ctx,p == got.size(),"%zu bytes after the %zu frames",got.size()-p,fr.size());
		if(!e && !fr.empty()) { // and the library reads them back
			Opened o(a,out,nullptr);
			PBT_CHECK(ctx,o.im && o.w == w && o.h == h,"the output does not open: error %d",o.e);
			RDError e2;
			for(size_t i = 0; i < fr.size(); i++) PBT_CHECK(ctx,a.resdet_read_image_frame(o.im,o.buf,&e2) && !memcmp(o.buf,fr[i].data(),w*h*4),"frame %zu reads back differently, error %d",i,e2);
			PBT_CHECK(ctx,!a.resdet_read_image_frame(o.im,o.buf,&e2) && !e2,"reads back with more frames or error %d",e2);
		}
	}
	ctx.label(fmt("%s, %zu frames",f.type.c_str(),std::min<size_t>(fr.size(),3)));
	if(w*h > 1 || e) ctx.nontrivial(hash_bytes(f.data.data(),f.data.size()));
	unlink(out.c_str()); unlink(in.c_str());
}

static void profile(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	size_t nm = 0, pad = 0;
	for(RDMethod* m = a.resdet_methods(); m->name; m++) { nm++; pad = std::max(pad,strlen(m->name)); }
	std::string dict; std::vector<std::string> lines; // expected, with times left out
	std::vector<size_t> tp(nm), tm(nm);
	size_t n = s.small(0,4), missing = 0, nplus = 0, nminus = 0;
	std::vector<std::string> made;
	for(size_t i = 0; i < n; i++) {
		while(s.chance(20)) dict += "\n";
		size_t w = 20+s.upto(60), h = 20+s.upto(60), d = s.chance(75) ? 1 : 2;
		bool thin = s.chance(6); // more results than any fixed number
		if(thin) { w = 200+s.upto(1500); h = 1+s.upto(1); if(s.chance(50)) std::swap(w,h); }
		std::string name = fmt("%s/img %zu.pfm",ctx.scratch().c_str(),i);
		bool miss = s.chance(10);
		std::vector<float> px;
		int k = -1;
		std::string data;
		for(size_t j = 0; j < d; j++) {
			auto p = gen::image(s,w,h,&k,thin ? gen::NOISE : s.chance(50) ? gen::CROSSING : s.chance(50) ? gen::UPSCALED : -1);
			px.insert(px.end(),p.begin(),p.end());
			data += fmt("Pf\n%zu %zu\n-1\n",w,h);
			for(size_t y = h; y-- > 0; ) for(size_t x = 0; x < w; x++) files::put32(data,p[y*w+x],false);
		}
		if(!miss) { files::write(ctx,fmt("img %zu.pfm",i),data); made.push_back(name); }
		// known sizes: some of what will be found, some that will not be; distinct, in any order
		std::vector<size_t> known[2];
		std::vector<Res> found;
		for(size_t j = 0; j < nm; j++) { found.push_back(detect(a,px.data(),d,w,h,a.resdet_methods()[j].name,Params(),ctx)); PBT_CHECK(ctx,!found[j].e,"error %d",found[j].e); }
		for(int dim = 0; dim < 2; dim++) {
			std::set<size_t> k2;
			for(auto& r : found) for(auto& x : dim ? r.h : r.w) if(x.confidence >= 0 && s.chance(50)) k2.insert(x.index);
			size_t extra = s.small(0,4);
			for(size_t j = 0; j < extra; j++) k2.insert(s.chance(85) ? 1+s.upto(90) : s.upto(100000));
			if(k2.empty()) k2.insert(1+s.upto(80));
			known[dim].assign(k2.begin(),k2.end());
			for(size_t j = known[dim].size(); j > 1; j--) std::swap(known[dim][j-1],known[dim][s.pick(j)]);
		}
		dict += name + "\n";
		for(int dim = 0; dim < 2; dim++) { for(size_t j = 0; j < known[dim].size(); j++) dict += fmt("%s%zu",j ? " " : "",known[dim][j]); dict += "\n"; }
		lines.push_back(name);
		if(miss) { missing++; continue; }
		for(size_t j = 0; j < nm; j++) {
			size_t plus = 0, minus = 0;
			for(int dim = 0; dim < 2; dim++) {
				std::set<size_t> kn(known[dim].begin(),known[dim].end()), fo;
				for(auto& x : dim ? found[j].h : found[j].w) if(x.confidence >= 0) fo.insert(x.index);
				for(size_t x : fo) plus += !kn.count(x);
				for(size_t x : kn) minus += !fo.count(x);
			}
			tp[j] += plus; tm[j] += minus; nplus += plus; nminus += minus;
			lines.push_back(fmt("%-*s (+%zu -%zu)",(int)pad,a.resdet_methods()[j].name,plus,minus));
		}
	}
	lines.push_back("totals");
	for(size_t j = 0; j < nm; j++) lines.push_back(fmt("%-*s (+%zu -%zu)",(int)pad,a.resdet_methods()[j].name,tp[j],tm[j]));
	bool nonl = n && s.chance(30); // the last line may end with the file
	if(nonl) dict.pop_back();
	int bad = n ? (int)s.weighted({92,2,2,2,2}) : 0;
	if(bad) { // the dictionary is incomplete or not one
		size_t at = dict.rfind(made.empty() ? lines[0] : made.back());
		size_t w0 = dict.find('\n',at)+1, h0 = dict.find('\n',w0)+1;
		if(bad == 1) dict.resize(w0);
		else if(bad == 2) dict.resize(h0);
		else dict.insert(bad == 3 ? w0 : h0,"x");
		if(made.empty() && bad > 2) bad = 0; // the sizes of an image that is not there are not looked at
	}
	std::string dp = files::write(ctx,"dict.txt",dict);
	if(bad) {
		ctx.desc(fmt("%zu images, bad dictionary (%d)",n,bad));
		proc::Ran g = proc::run(ctx,{dir + "/profile",dp});
		for(auto& m : made) unlink(m.c_str());
		unlink(dp.c_str());
		PBT_CHECK(ctx,g.status != 0,"exit status 0 with an incomplete dictionary, output\n%s",proc::brief(g.out).c_str());
		ctx.label("bad dictionary");
		return;
	}
	ctx.desc(fmt("%zu images (%zu missing), +%zu -%zu in all",n,missing,nplus,nminus));
	proc::Ran g = proc::run(ctx,{dir + "/profile",dp});
	for(auto& m : made) unlink(m.c_str());
	unlink(dp.c_str());
	PBT_CHECK(ctx,g.status == 0,"exit status %d, stderr \"%s\"",g.status,g.err.c_str());
	PBT_CHECK(ctx,missing ? !g.err.empty() : g.err.empty(),"stderr \"%s\", %zu missing images",g.err.c_str(),missing);
	size_t p = 0;
	for(size_t i = 0; i < lines.size(); i++) {
		size_t q = g.out.find('\n',p);
		PBT_CHECK(ctx,q != std::string::npos,"output ends after %zu of %zu lines",i,lines.size());
		std::string l = g.out.substr(p,q-p), t = l;
		p = q+1;
		size_t b = l.rfind(" (+");
		if(b != std::string::npos) { // take the time out
			size_t m = l.find(' '); while(m < l.size() && l[m] == ' ') m++;
			double secs = strtod(l.c_str()+m,nullptr);
			PBT_CHECK(ctx,secs >= 0 && secs < 3600,"time in \"%s\"",l.c_str());
			t = l.substr(0,pad) + l.substr(b);
		}
		PBT_CHECK(ctx,t == lines[i],"line %zu is \"%s\" instead of \"%s\"",i,l.c_str(),lines[i].c_str());
	}
	PBT_CHECK(ctx,p == g.out.size(),"more output: \"%s\"",proc::brief(g.out.substr(p)).c_str());
	if(nplus) ctx.label("detected but not known");
	if(nminus) ctx.label("known but not detected");
	if(missing) ctx.label("missing image");
	if(nplus && nminus) ctx.nontrivial(hash_bytes(dict.data(),dict.size()));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"imgread",imgread,30000,400000,120},
		{"profile",profile,8000,150000,120},
	},[]{ apis = load_apis(); dir = getenv("RESDET_TOOLS"); });
}
