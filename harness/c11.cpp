// C11: JPEG decoding.
#include "readcheck.hpp"
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static uint64_t hs(const std::string& s) { return hash_bytes(s.data(),s.size()); }

static void valid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	std::vector<unsigned char> orig; files::JpegSpec q;
	File f = files::jpeg(s,&orig,&q);
	ctx.desc(f.what);
	ctx.label(q.comps == 1 ? "gray" : q.rgb ? "RGB" : fmt("YCbCr %dx%d",q.hs,q.vs));
	if(q.progressive) ctx.label("progressive");
	if(q.restart) ctx.label("restart markers");
	std::string path = files::write(ctx,"f." + f.type,f.data);
	std::string d = reads_as(a,f,path);
	if(!d.empty()) ctx.fail(d);
	if(s.chance(20)) { d = bulk_as(a,f,path); if(!d.empty()) ctx.fail("in bulk: " + d); }
	if(!orig.empty() && q.quality == 100) { // survives within the coding error: at most half a unit in each of 64 coefficients
		Opened o(a,path,nullptr);
		RDError e;
		ctx.check(o.im && a.resdet_read_image_frame(o.im,o.buf,&e),"second reading failed");
		for(size_t i = 0; i < orig.size(); i++) PBT_CHECK(ctx,std::fabs(o.buf[i]*255-orig[i]) <= 6,"pixel (%zu,%zu) is %g instead of about %d",i%f.w,i/f.w,o.buf[i]*255,orig[i]);
		ctx.label("compared with the original");
	}
	if(f.w*f.h > 1) ctx.nontrivial(hs(f.data));
}

static void invalid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	std::string what;
	File f = files::jpeg(s);
	switch(s.pick(4)) {
		case 0: { size_t i = s.upto(1); f.data[i] ^= (char)(1 << s.upto(7)); what = "marker"; break; }
		case 1: { // end before the first scan's data
			size_t sos = 2;
			while(sos+4 < f.data.size() && (unsigned char)f.data[sos+1] != 0xda) sos += 2+((unsigned char)f.data[sos+2] << 8 | (unsigned char)f.data[sos+3]);
			size_t cut = s.upto(sos+1); f.data = f.data.substr(0,cut); what = fmt("headers cut at %zu of %zu",cut,sos); break; }
		case 2: { // CMYK
			files::JpegSpec q = {4,90,1,1,0,s.chance(30),false,false,true};
			std::vector<unsigned char> px(f.w*f.h*4); Rng r = s.bulk(); for(auto& v : px) v = (unsigned char)r.below(256);
			f.data = files::jpeg_encode(px,f.w,f.h,q); what = "CMYK"; break; }
		default: { f.data.clear(); Rng r = s.bulk(); for(size_t n = s.upto(60); n; n--) f.data += (char)r.below(256); if(f.data.size() >= 2 && f.data[0] == '\xff' && f.data[1] == '\xd8') f.data[0] = 0; what = "noise"; break; }
	}
	ctx.desc(f.what + ", " + what);
	ctx.label(what.substr(0,what.find(' ')));
	std::string path = files::write(ctx,"f.jpg",f.data);
	Opened o(a,path,nullptr);
	if(!o.im) PBT_CHECK(ctx,o.e == RDEINVAL && !o.buf && !o.w && !o.h,"open: error %d, outputs %p %zux%zu",o.e,(void*)o.buf,o.w,o.h);
	else {
		RDError e = 12345;
		bool ok = a.resdet_read_image_frame(o.im,o.buf,&e);
		PBT_CHECK(ctx,!ok && e == RDEINVAL,"%s with error %d, expected the invalid image error",ok ? "read" : "refused",e);
	}
	ctx.nontrivial(hs(f.data));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"valid",valid,120000,2000000},
		{"invalid",invalid,40000,600000},
	},[]{ files::WIDEST = 65000; apis = load_apis(); });
}
