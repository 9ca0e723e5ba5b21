// C10: PNG decoding.
#include "readcheck.hpp"
using namespace pbt;
using files::File;
static std::vector<Api> apis;
static uint64_t hs(const std::string& s) { return hash_bytes(s.data(),s.size()); }

static void valid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f = files::png(s);
	ctx.desc(f.what);
	size_t p = f.what.find("colour");
	ctx.label(f.what.substr(p,f.what.find(" filter")-p));
	std::string path = files::write(ctx,"f.png",f.data);
	std::string d = reads_as(a,f,path);
	if(!d.empty()) ctx.fail(d);
	if(s.chance(20)) { d = bulk_as(a,f,path); if(!d.empty()) ctx.fail("in bulk: " + d); }
	if(f.w*f.h > 1) ctx.nontrivial(hs(f.data));
}

static void invalid(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	File f = files::png(s);
	std::string what;
	size_t idat = f.data.find("IDAT")-4, iend = f.data.rfind("IEND")-4;
	bool maybe = false; // damage that a decoder may or may not notice
	switch(s.pick(5)) {
		case 0: { size_t i = s.upto(7); f.data[i] ^= (char)(1 << s.upto(7)); what = fmt("signature byte %zu",i); break; }
		case 1: { size_t cut = s.upto(idat+7); f.data = f.data.substr(0,cut); what = fmt("cut at %zu, before the image data",cut); break; }
		case 2: { size_t cut = idat+8+s.upto(iend-idat-9); f.data = f.data.substr(0,cut); what = fmt("cut at %zu, in the data chunks (%zu-%zu)",cut,idat,iend); break; }
		case 3: { // a bit of the compressed data or its checksum (chunk data, type and CRC are all covered by the CRC or the length)
			size_t i = idat+8+s.upto(iend-idat-9); f.data[i] ^= (char)(1 << s.upto(7)); what = fmt("bit flip at %zu in the data chunks",i); maybe = true; break; }
		default: { // a critical header field, with a CRC that does not fit
			size_t i = 16+s.upto(16); f.data[i] ^= (char)(1 << s.upto(7)); what = fmt("bit flip at %zu in the header",i); break; }
	}
	ctx.desc(f.what + ", " + what);
	ctx.label(what.substr(0,what.find(' ')));
	std::string path = files::write(ctx,"f.png",f.data);
	Opened o(a,path,nullptr);
	if(!o.im) {
		PBT_CHECK(ctx,o.e == RDEINVAL || (o.e == RDETOOBIG && what[0] == 'b'),"open: error %d",o.e);
		PBT_CHECK(ctx,!o.buf && !o.w && !o.h,"open: outputs %p %zux%zu",(void*)o.buf,o.w,o.h);
	}
	else {
		PBT_CHECK(ctx,what.compare(0,9,"signature"),"a bad signature was accepted");
		RDError e = 12345;
		bool ok = a.resdet_read_image_frame(o.im,o.buf,&e);
		if(ok && maybe && f.w == o.w && f.h == o.h) { // e.g. in the trailer of an ancillary chunk after the data
			std::string d = files::differ(f,0,o.buf);
			PBT_CHECK(ctx,d.empty() && e == RDEOK,"damaged data was delivered as a success: %s",d.c_str());
			ctx.label("unaffected");
		}
		else PBT_CHECK(ctx,!ok && e == RDEINVAL,"%s with error %d, expected the invalid image error",ok ? "read" : "refused",e);
		if(!ok) {
			ok = a.resdet_read_image_frame(o.im,o.buf,&e);
			PBT_CHECK(ctx,!ok,"a second attempt succeeded after the failure");
		}
	}
	ctx.nontrivial(hs(f.data));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"valid",valid,150000,2500000},
		{"invalid",invalid,60000,1000000},
	},[]{ files::WIDEST = 300000; apis = load_apis(); });
}
