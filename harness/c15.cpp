// C15: which reader opens a file.
#include "readcheck.hpp"
#include <sys/stat.h>
extern "C" {
#include <libavformat/avformat.h>
#include <libavutil/avstring.h>
}
using namespace pbt;
using files::File; using files::Gray;
static std::vector<Api> apis;

enum Rd { PGM, PFM, Y4M, JPG, PNGR, FF, MW, NONE };
static const char* const NAME[] = {"PGM","PFM","Y4M","libjpeg","libpng","FFmpeg","MagickWand","none"};
static std::vector<Rd> readers_of(const std::string& build) {
	std::vector<Rd> v = {PGM,PFM,Y4M};
	if(build == "native") return v;
	v.push_back(JPG); v.push_back(PNGR);
	if(build == "still") return v;
	if(build != "noff") v.push_back(FF);
	if(build != "nomw") v.push_back(MW);
	if(build == "nopgm") v.erase(v.begin());
	return v;
}
static bool has(const std::vector<Rd>& v, Rd r) { return std::find(v.begin(),v.end(),r) != v.end(); }
static std::string lower(std::string s) { for(auto& c : s) c = (char)tolower(c); return s; }
static bool ffmpeg_claims(const std::string& ext) {
	void* st = nullptr;
	while(const AVInputFormat* f = av_demuxer_iterate(&st)) if(av_match_name(ext.c_str(),f->extensions)) return true;
	return false;
}
static Rd by_ext(const std::vector<Rd>& rs, const std::string& e0) {
	std::string e = lower(e0);
	if(e == "pgm" && has(rs,PGM)) return PGM;
	if(e == "pfm" && has(rs,PFM)) return PFM;
	if(e == "y4m" && has(rs,Y4M)) return Y4M;
	if((e == "jpg" || e == "jpeg") && has(rs,JPG)) return JPG;
	if(e == "png" && has(rs,PNGR)) return PNGR;
	if(has(rs,FF) && (!has(rs,MW) || ffmpeg_claims(e0))) return FF;
	return has(rs,MW) ? MW : NONE;
}

// contents that tell the readers apart
enum Ct { CPGM2, CPFM, CY4M, CJPG, CPNG, CGIF, NCT };
static const char* const CNAME[] = {"two PGM images","PFM","Y4M","JPEG","PNG","GIF"};
static File content(Src& s, Ct c) {
	size_t w = 2+s.upto(14), h = 2+s.upto(14), n = 2+s.upto(1);
	auto g = files::grays(s,w,h,n);
	for(auto& x : g) { x[0] = 0; x[1] = 255; } // both ends of the range are there
	File f; f.w = w; f.h = h; f.tol = 2e-5;
	switch(c) {
		case CPGM2: for(auto& x : g) f.data += files::pgm_bytes(x,w,h); break;
		case CPFM: return files::pfm(s,w,h,false);
		case CY4M: f.data = files::y4m_bytes(g,w,h); break;
		case CJPG: return files::jpeg(s,nullptr,nullptr,w,h);
		case CPNG: f = files::png(s,w,h,true); f.tol = 2e-5; return f;
		default: f.data = files::gif_bytes(g,w,h); break;
	}
	files::set_frames(f,g);
	return f;
}

// what reader r makes of content c; returns what is wrong
static std::string outcome(const Api& a, const File& f, Ct c, Rd r, const std::string& path, const char* type, const char* reader) {
	static const Rd OWN[] = {PGM,PFM,Y4M,JPG,PNGR,NONE};
	if(r == NONE || r == OWN[c] ? false : r < FF) { // another dedicated reader
		Opened o(a,path,type,reader);
		if(o.im || o.e != RDEINVAL || o.buf || o.w || o.h) return fmt("%s, error %d, expected the invalid image error",o.im ? "opened" : "refused",o.e);
		return "";
	}
	if(r == NONE) {
		Opened o(a,path,type,reader);
		if(o.im || o.e != RDEUNSUPP || o.buf || o.w || o.h) return fmt("%s, error %d, expected the unsupported format error",o.im ? "opened" : "refused",o.e);
		return "";
	}
	if(r == PGM) return reads_as(a,f,path,type,reader,1);
	if(r < FF) return reads_as(a,f,path,type,reader);
	if(r == FF && (c == CGIF || c == CPFM || c == CJPG)) { // range or colour differ; only GIF is used to tell FFmpeg from MagickWand
		if(c != CGIF) return "";
		Opened o(a,path,type,reader);
		if(!o.im) return fmt("open failed with error %d",o.e);
		RDError e = 12345;
		if(!a.resdet_read_image_frame(o.im,o.buf,&e)) return fmt("frame 0: error %d",e);
		if(std::fabs(o.buf[1]-1) < .01) return "full range values, so read by MagickWand";
		return "";
	}
	if(r == MW && (c == CPFM || c == CJPG)) return "";
	if(r == MW && c == CY4M) {
		Opened o(a,path,type,reader);
		return o.im ? "opened, so read by FFmpeg" : "";
	}
	return reads_as(a,f,path,type,reader);
}

static const std::vector<std::string> KNOWN = {"pgm","pfm","y4m","jpg","jpeg","png"};
static std::string recase(Src& s, std::string e) { if(s.chance(40)) for(auto& c : e) if(s.chance(50)) c = (char)(isupper(c) ? tolower(c) : toupper(c)); return e; }
static std::string some_ext(Src& s) {
	switch(s.weighted({55,20,25})) {
		case 0: return recase(s,s.of(KNOWN));
		case 1: return recase(s,s.of(std::vector<std::string>{"gif","avi","mkv","mp4","webm"}));
		default: return s.of(std::vector<std::string>{"","dat","pg","pgmx","p","jpe","jpegx","jpgg","pn","pngg","y4","y4mm","pf","pfmm","xyz","png ","PGM1"});
	}
}

static void lookup(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	auto rs = readers_of(a.name);
	Ct c = (Ct)s.pick(NCT);
	File f = content(s,c);
	std::string ext = some_ext(s);
	std::string stem = s.of(std::vector<std::string>{"x","a.png","b.y4m","..","c.d.e","with space",".hidden"});
	if(s.chance(25)) { mkdir((ctx.scratch() + "/dir.pgm").c_str(),0700); stem = "dir.pgm/" + stem; }
	std::string name = stem + (ext.empty() && s.chance(50) ? "" : "." + ext);
	if(name == ".." || name.substr(name.size()-1) == "/" || (name.size() >= 3 && name.substr(name.size()-3) == "/..")) name += "z";
	std::string path = files::write(ctx,name,f.data);
	const char* type = nullptr; std::string tstore, eff;
	int k = (int)s.weighted({45,35,20});
	if(k == 1) { tstore = some_ext(s); type = tstore.c_str(); eff = tstore; }
	else if(k == 2) {
		static const char* const M[][2] = {{"image/jpeg","jpg"},{"image/png","png"},{"video/yuv4mpeg","y4m"},{"image/x-portable-graymap","pgm"},{"image/x-portable-floatmap","pfm"},{"image/unknown",""},{"video/mp4",""},{"png/",""},{"/",""},{"image/pgm",""},{"image/pngx",""},{"image/pn",""},{"image/jpegx",""},{"image/jpg",""},{"video/yuv4mpeg2",""},{"video/yuv4mpe",""},{"application/png",""},{"image/x-portable-anymap",""},{"image/x-portable-graymaps",""},{"image/",""},{"ximage/png",""}};
		size_t m = s.pick(sizeof M/sizeof *M); type = M[m][0]; eff = M[m][1];
	}
	else { size_t dot = path.rfind('.'); eff = dot == std::string::npos ? "" : path.substr(dot+1); }
	Rd r = by_ext(rs,eff);
	ctx.desc(fmt("%s build: %s in \"%s\", type %s: expect %s",a.name.c_str(),CNAME[c],name.c_str(),type ? type : "NULL",NAME[r]));
	ctx.label(fmt("%s: %s by %s",a.name.c_str(),NAME[r],k == 0 ? "name" : k == 1 ? "type" : "MIME type"));
	if(r == MW && eff == "png " ) return;
	std::string d = outcome(a,f,c,r,path,type,nullptr);
	if(!d.empty()) ctx.fail(d);
	// bulk reading and detection choose the same
	if(r < FF || r == NONE) {
		float* img; size_t n, w, h;
		RDError e = a.resdet_read_image(path.c_str(),type,&img,&n,&w,&h);
		free(img);
		static const Rd OWN[] = {PGM,PFM,Y4M,JPG,PNGR,NONE};
		RDError want = r == NONE ? RDEUNSUPP : OWN[c] == r ? RDEOK : RDEINVAL;
		PBT_CHECK(ctx,e == want,"bulk reading: error %d instead of %d",e,want);
		Out o; e = a.resdetect_file(path.c_str(),type,&o.rw,&o.cw,&o.rh,&o.ch,nullptr,nullptr);
		PBT_CHECK(ctx,e == want,"detection: error %d instead of %d",e,want);
		o.take(e,ctx);
	}
	// standard input has a format only if one is given
	if(by_ext(rs,k ? eff : "") == NONE) {
		if(!freopen(path.c_str(),"rb",stdin)) { perror("freopen"); exit(3); }
		std::string d2 = outcome(a,f,c,NONE,"-",type,nullptr);
		float* img = (float*)8; size_t n = 7, w, h;
		RDError e = a.resdet_read_image("-",type,&img,&n,&w,&h);
		if(!freopen("/dev/null","rb",stdin)) exit(3);
		if(!d2.empty()) ctx.fail("standard input: " + d2);
		PBT_CHECK(ctx,e == RDEUNSUPP && !img && !n,"standard input in bulk: error %d instead of %d",e,RDEUNSUPP);
		ctx.label("standard input of unknown type");
	}
	unlink(path.c_str());
	ctx.nontrivial(hash_bytes(name.data(),name.size(),hash_bytes(f.data.data(),f.data.size(),r*31+c)));
}

static void named(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	auto rs = readers_of(a.name);
	Ct c = (Ct)s.pick(NCT);
	File f = content(s,c);
	std::string name; Rd r = NONE;
	if(s.chance(75)) { r = (Rd)s.pick(7); name = recase(s,NAME[r]); if(!has(rs,r)) r = NONE; }
	else if(s.chance(50)) { // a name with something before, after or missing
		name = NAME[s.pick(7)];
		static const char* const X[] = {"lib","image/","x"," ",".","Image"};
		switch(s.pick(4)) {
			case 0: if(name.compare(0,3,"lib")) name = "lib" + name; else name = name.substr(3); break;
			case 1: name = X[s.pick(6)] + name; break;
			case 2: name += X[s.pick(6)]; break;
			default: name.erase(s.chance(50) ? 0 : s.pick(name.size()),1+s.upto(1)); break;
		}
		if(s.chance(30)) name = recase(s,name);
		for(int i = 0; i < 7; i++) if(lower(name) == lower(NAME[i]) && has(rs,(Rd)i)) r = (Rd)i;
	}
	else name = s.of(std::vector<std::string>{"","P","PG","PGMX","pgm ","libjpe","jpeg","png","none","FFmpe","FFmpegX","Magick","MagickWandd","list"});
	std::string file = "x." + some_ext(s);
	if(r == MW) file = c == CGIF ? "x.gif" : c == CPNG ? "x.png" : c == CPGM2 ? "x.pgm" : "x.dat"; // it goes by name and content
	ctx.desc(fmt("%s build: %s in \"%s\" with reader \"%s\": expect %s",a.name.c_str(),CNAME[c],file.c_str(),name.c_str(),NAME[r]));
	ctx.label(fmt("%s: %s named",a.name.c_str(),NAME[r]));
	std::string path = files::write(ctx,file,f.data);
	std::string d = outcome(a,f,c,r,path,nullptr,name.c_str());
	if(!d.empty()) ctx.fail(d);
	unlink(path.c_str());
	ctx.nontrivial(hash_bytes(name.data(),name.size(),hash_bytes(f.data.data(),f.data.size(),r*31+c)));
}

static void missing(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	auto rs = readers_of(a.name);
	std::string ext = some_ext(s);
	std::string base; int en = ENOENT;
	switch(s.pick(4)) {
		case 0: base = ctx.scratch() + "/nosuch"; break;
		case 1: base = ctx.scratch() + "/nodir/x"; break;
		case 2: { std::string p = files::write(ctx,"plain","x"); base = p + "/x"; en = ENOTDIR; break; }
		default: base = ctx.scratch() + "/" + std::string(300,'n'); en = ENAMETOOLONG; break;
	}
	std::string path = base + "." + ext;
	const char* type = nullptr; std::string tstore = ext;
	const char* reader = nullptr; Rd r;
	if(s.chance(30)) { r = rs[s.pick(rs.size())]; reader = NAME[r]; }
	else { if(s.chance(40)) { tstore = some_ext(s); type = tstore.c_str(); } r = by_ext(rs,tstore); }
	ctx.desc(fmt("%s build: missing (%s), .%s, type %s, reader %s: expect %s",a.name.c_str(),strerror(en),ext.c_str(),type ? type : "NULL",reader ? reader : "NULL",NAME[r]));
	ctx.label(fmt("missing, %s",NAME[r]));
	Opened o(a,path,type,reader);
	RDError want = r == NONE ? RDEUNSUPP : -en;
	if(r == MW && en != ENOENT && o.e == -ENOENT) want = o.e; // it tries other names on the way
	PBT_CHECK(ctx,!o.im && o.e == want && !o.buf && !o.w && !o.h,"%s, error %d instead of %d",o.im ? "opened" : "refused",o.e,want);
	PBT_CHECK(ctx,a.resdet_error_str(o.e) && *a.resdet_error_str(o.e),"no message for %d",o.e);
	if(!reader) {
		float* img = (float*)8; size_t n = 7, w = 7, h = 7;
		RDError e = a.resdet_read_image(path.c_str(),type,&img,&n,&w,&h);
		PBT_CHECK(ctx,e == want && !img && !n,"bulk reading: error %d instead of %d",e,want);
		Out out; e = a.resdetect_file(path.c_str(),type,&out.rw,&out.cw,&out.rh,&out.ch,nullptr,nullptr);
		PBT_CHECK(ctx,e == want,"detection: error %d instead of %d",e,want);
		out.take(e,ctx);
	}
	ctx.nontrivial(hash_bytes(path.data(),path.size(),r+(reader ? 50 : 0)+a.name.size()*100));
}

static void list(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	auto rs = readers_of(a.name);
	std::vector<std::string> got;
	for(const char* const* n = a.resdet_list_image_readers(); *n; n++) { got.push_back(*n); PBT_CHECK(ctx,got.size() < 50,"no end"); }
	PBT_CHECK(ctx,got.size() == rs.size(),"%zu readers listed instead of %zu",got.size(),rs.size());
	for(Rd r : rs) PBT_CHECK(ctx,std::count(got.begin(),got.end(),NAME[r]) == 1,"%s is listed %zd times",NAME[r],(ssize_t)std::count(got.begin(),got.end(),NAME[r]));
	PBT_CHECK(ctx,a.resdet_list_image_readers() == a.resdet_list_image_readers(),"the list moves");
	ctx.desc(a.name);
	ctx.nontrivial(s.upto(255));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"lookup",lookup,400000,5000000},
		{"named",named,200000,2500000},
		{"missing",missing,80000,900000},
		{"list",list,50,50},
	},[]{ apis = load_apis(); av_log_set_level(AV_LOG_QUIET); });
}
