// C08: PGM and PFM decoding.
#include "readcheck.hpp"
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static uint64_t hs(const std::string& s) { return hash_bytes(s.data(),s.size()); }

static void valid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	bool isp = s.chance(45);
	File f = isp ? files::pgm(s) : files::pfm(s);
	ctx.desc(f.what);
	ctx.label(isp ? "PGM" : fmt("PFM frames %zu",f.frames.size()));
	std::string path = files::write(ctx,"f." + f.type,f.data);
	std::string d = reads_as(a,f,path);
	if(!d.empty()) ctx.fail(d);
	d = bulk_as(a,f,path);
	if(!d.empty()) ctx.fail("in bulk: " + d);
	if(f.w*f.h > 1) ctx.nontrivial(hs(f.data));
}

// opens and reads until it ends; the first n frames must be those of f, then an error in `want`
static void refused(Ctx& ctx, const Api& a, const File& f, const std::string& path, size_t n, bool toobig_ok = false) {
	Opened o(a,path,nullptr);
	auto bad = [&](RDError e) { return e == RDEINVAL || (toobig_ok && e == RDETOOBIG); };
	if(!o.im) {
		PBT_CHECK(ctx,n == 0 || f.frames.empty(),"open failed with error %d although %zu frames are intact",o.e,n);
		PBT_CHECK(ctx,bad(o.e) && !o.buf && !o.w && !o.h,"open: error %d, outputs %p %zux%zu",o.e,(void*)o.buf,o.w,o.h);
	}
	else {
		PBT_CHECK(ctx,o.w == f.w && o.h == f.h,"size %zux%zu",o.w,o.h);
		for(size_t i = 0; i < n; i++) {
			RDError e = 12345;
			bool ok = a.resdet_read_image_frame(o.im,o.buf,&e);
			PBT_CHECK(ctx,ok && e == RDEOK,"intact frame %zu: error %d",i,e);
			std::string d = files::differ(f,i,o.buf);
			if(!d.empty()) ctx.fail(d);
		}
		RDError e = 12345;
		bool ok = a.resdet_read_image_frame(o.im,o.buf,&e);
		PBT_CHECK(ctx,!ok && bad(e),"frame %zu: %s with error %d, expected the invalid image error",n,ok ? "read" : "refused",e);
	}
	float* img = (float*)8; size_t c = 7, w, h;
	RDError e = a.resdet_read_image(path.c_str(),nullptr,&img,&c,&w,&h);
	PBT_CHECK(ctx,bad(e) && !img,"bulk reading: error %d, images %p",e,(void*)img);
}

static void invalid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	bool isp = s.chance(45);
	if(isp) {
		File f = files::pgm(s);
		size_t hdr = f.begin[0];
		std::string px = f.data.substr(hdr);
		std::string what;
		bool toobig = false;
		switch(s.pick(6)) {
			case 0: { static const char* const m[] = {"P2","P6","P4","p5","5P","Q5","P7","Pf","P ","\x89P"}; std::string g = m[s.pick(10)]; f.data.replace(0,2,g); what = "magic " + g; break; }
			case 1: { static const char* const m[] = {"0","256","1000","65535","65536","4294967295","18446744073709551615","x","-","2.5"}; std::string g = m[s.pick(10)]; f.data = fmt("P5\n%zu %zu\n",f.w,f.h) + g + "\n" + px + px; what = "maxval " + g; break; }
			case 2: { size_t cut = s.upto(hdr-1); f.data = f.data.substr(0,cut); what = fmt("header cut at %zu",cut); break; }
			case 3: { size_t cut = hdr+s.upto(px.size()-1); f.data = f.data.substr(0,cut); what = fmt("pixels cut at %zu of %zu",cut-hdr,px.size()); break; }
			case 4: { const char* z[] = {"P5\n0 4\n255\n","P5\n4 0\n255\n","P5\n0 0\n255\n"}; f.data = z[s.pick(3)] + px; what = "zero dimension"; toobig = true; break; }
			default: { const char* z[] = {"P5\n%zu\n\n#255\n","P5\n%zu x 255\n","P5\nx %zu 255\n","P5%zu\n4\n255,","P5\n# only a comment %zu"}; f.data = fmt(z[s.pick(5)],f.w) + px; if(f.data.find('#') != std::string::npos) f.data = f.data.substr(0,f.data.size()-px.size()); what = "malformed header"; break; }
		}
		ctx.desc(f.what + ", " + what);
		ctx.label("PGM " + what.substr(0,what.find(' ')));
		refused(ctx,a,f,files::write(ctx,"f.pgm",f.data),0,toobig);
		ctx.nontrivial(hs(f.data));
		return;
	}
	File f = files::pfm(s,0,0,false);
	size_t n = f.frames.size(), k = s.pick(n);
	size_t start = k ? f.end[k-1] : 0;
	std::string what;
	bool toobig = false;
	switch(s.pick(6)) {
		case 0: { size_t cut = start+1+s.upto(f.end[k]-start-2); f.data = f.data.substr(0,cut); what = fmt("cut at byte %zu of frame %zu (header %zu)",cut-start,k,f.begin[k]-start); break; }
		case 1: { static const char m[] = "5 gFfPp#\n"; char c; do c = m[s.pick(9)]; while(c == f.data[start+1] || c == 'f' || c == 'F'); f.data[start+1] = c; what = fmt("format character of frame %zu is %d",k,c); break; }
		case 2: if(k == 0) { f.data = fmt("Pf %zu 0 -1\n",f.w) + f.data; toobig = true; what = "zero dimension"; break; }
			{ size_t nw = f.w, nh = f.h; if(s.chance(50)) nw = nw+1; else nh = nh == 1 ? 2 : nh-1; if(s.chance(20)) { nw = f.h; nh = f.w; if(nw == nh) nw++; }
			  std::string body = f.data.substr(f.begin[k]); f.data = f.data.substr(0,start) + fmt("%s %zu %zu %s\n",f.data.substr(start,2).c_str(),nw,nh,"-1.0") + body + body; what = fmt("frame %zu is %zux%zu",k,nw,nh); break; }
		case 3: { f.data = f.data.substr(0,start) + fmt("Pf\n%zu %zu\n",f.w,f.h) + (s.chance(50) ? "x" : "-") + "\n" + f.data.substr(start); what = fmt("no scale in frame %zu",k); break; }
		case 4: { f.data = f.data.substr(0,start) + fmt("Pf\n%zu x -1\n",f.w) + f.data.substr(start); what = fmt("no height in frame %zu",k); break; }
		default: { static const char* const j[] = {"x","\n"," ","Q","\nPf","f","p","P","FRAME","\1"}; f.data = f.data.substr(0,start) + j[s.pick(10)] + (s.chance(50) ? f.data.substr(start) : ""); if(f.data.size() >= start+2 && f.data[start] == 'P' && (f.data[start+1] == 'f' || f.data[start+1] == 'F')) f.data[start] = 'x'; what = fmt("garbage before frame %zu",k); break; }
	}
	ctx.desc(f.what + ", " + what);
	ctx.label("PFM " + what.substr(0,what.find(' ')));
	refused(ctx,a,f,files::write(ctx,"f.pfm",f.data),k,toobig);
	ctx.nontrivial(hs(f.data));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"valid",valid,600000,15000000},
		{"invalid",invalid,400000,9000000},
	},[]{ files::WIDEST = 300000; apis = load_apis(); });
}
