// C04: upscaled images reveal their original size, unscaled noise reveals nothing.
#include "gen.hpp"
using namespace pbt;
static std::vector<Api> apis;

static const char* const KERNEL[] = {"bilinear","bicubic","lanczos3","mitchell"};

// detailed source: noise, optionally over a smooth background, with a chosen contrast
static std::vector<float> source(Src& s, size_t w, size_t h, std::string& what) {
	Rng r = s.bulk();
	int kind = (int)s.pick(4);
	std::vector<float> p(w*h);
	double a = r.unit(), b = r.unit(), f = 1+4*r.unit();
	for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
		double v = 0;
		switch(kind) {
			case 0: v = r.unit(); break;                                                                             // white noise
			case 1: v = .5+.15*r.gauss(); break;                                                                     // gaussian noise
			case 2: v = .3*a*x/w+.3*b*std::sin(f*(x+2.*y)/(w+h))+.25+.4*r.unit(); break;                             // texture over a gradient
			case 3: v = (double)r.below(2)*.8+.1; break;                                                             // black and white dots
		}
		p[y*w+x] = (float)v;
	}
	static const char* const N[] = {"uniform noise","gaussian noise","texture","dots"};
	what = N[kind];
	return p;
}

static void quantise(std::vector<float>& p) {
	for(auto& v : p) v = (v < 0 ? 0 : v > 1 ? 1 : std::round(v*255))/255.f;
}


// methods and filters for which the claim is made: the default method always; the others on float data
static void upscale(Src& s, Ctx& ctx, bool one) {
	int dims = one ? 1+(int)s.upto(1) : 0; // 0 both, 1 width only, 2 height only
	int kernel = (int)s.pick(4);
	bool q = s.chance(50);
	int m = q ? 0 : (int)s.weighted({4,2,1,2});
	if(m == 2 && kernel == 2) m = 0;
	bool def = m == 0 && s.chance(70);
	auto pair = [&](size_t& from, size_t& to, bool scaled) {
		from = one ? 384+s.upto(64) : 64+s.upto(96);
		if(!scaled) { to = from; return; }
		double f = 1.25+s.upto(70)/100.;
		to = (size_t)std::lround(from*f);
	};
	size_t w, h, W, H;
	pair(w,W,dims != 2); pair(h,H,dims != 1);
	std::string what;
	std::vector<float> src = source(s,w,h,what);
	if(q) { for(auto& v : src) v = .25f+.5f*v; quantise(src); } // headroom, so that the filter does not clip
	std::vector<float> img = gen::resample(src,w,h,W,H,kernel);
	if(q) quantise(img);
	const Api& a = apis[s.pick(apis.size())];
	ctx.desc(fmt("%s: %s of %zux%zu %s to %zux%zu%s, method %s%s",a.name.c_str(),KERNEL[kernel],w,h,what.c_str(),W,H,q ? " 8-bit" : "",METHODS[m],def ? " (default)" : ""));
	ctx.label(fmt("%s %s%s%s",METHODS[m],KERNEL[kernel],q ? " 8-bit" : "",one ? " one dimension" : ""));
	Params none;
	Res r = detect(a,img.data(),1,W,H,def ? nullptr : METHODS[m],none,ctx);
	PBT_CHECK(ctx,r.e == RDEOK,"error %d",r.e);
	if(dims != 2) PBT_CHECK(ctx,r.w[0].index == w,"width: first is %zu, not the original %zu: %s",r.w[0].index,w,str(r.w).c_str());
	if(dims != 1) PBT_CHECK(ctx,r.h[0].index == h,"height: first is %zu, not the original %zu: %s",r.h[0].index,h,str(r.h).c_str());
	if(dims == 2 && m != 1) PBT_CHECK(ctx,r.w.size() == 1,"width was not resized but is reported as such: %s",str(r.w).c_str());
	if(dims == 1 && m != 1) PBT_CHECK(ctx,r.h.size() == 1,"height was not resized but is reported as such: %s",str(r.h).c_str());
	ctx.nontrivial(gen::hash(img));
}

static void noise(Src& s, Ctx& ctx) {
	size_t w = 384+(s.chance(60) ? s.upto(16) : s.upto(128)), h = 384+(s.chance(60) ? s.upto(16) : s.upto(128));
	int kind = (int)s.pick(4);
	Rng r = s.bulk();
	std::vector<float> p(w*h);
	for(auto& v : p) switch(kind) {
		case 0: v = (float)r.unit(); break;
		case 1: v = (float)(.5+.2*r.gauss()); break;
		case 2: v = r.below(256)/255.f; break;
		default: v = (float)r.below(2); break;
	}
	int m = (int)s.weighted({25,10,10,10,45}); // 4: default
	static const char* const N[] = {"uniform","gaussian","8-bit","binary"};
	const Api& a = apis[s.pick(apis.size())];
	ctx.desc(fmt("%s: %zux%zu %s noise, method %s",a.name.c_str(),w,h,N[kind],m == 4 ? "default" : METHODS[m]));
	ctx.label(fmt("noise %s",m == 4 ? "default" : METHODS[m]));
	Params none;
	Res q = detect(a,p.data(),1,w,h,m == 4 ? nullptr : METHODS[m],none,ctx);
	PBT_CHECK(ctx,q.e == RDEOK,"error %d",q.e);
	PBT_CHECK(ctx,q.w.size() == 1,"white noise reported as upscaled in width: %s",str(q.w).c_str());
	PBT_CHECK(ctx,q.h.size() == 1,"white noise reported as upscaled in height: %s",str(q.h).c_str());
	ctx.nontrivial(gen::hash(p));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"both-dimensions",[](Src& s, Ctx& c){ upscale(s,c,false); },3200,90000},
		{"one-dimension",[](Src& s, Ctx& c){ upscale(s,c,true); },300,12000},
		{"noise",noise,4000,60000},
	},[]{ apis = load_apis(); });
}
