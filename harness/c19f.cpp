// C19, FFmpeg: failing and ending reads. read() is replaced for the descriptors of the file at hand.
#include "readcheck.hpp"
#include "routes.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace pbt;
using files::File;
static std::vector<Api> apis;

enum Mode { NONE, STICKY, ONCE, END };
static struct { bool armed = false; dev_t dev; ino_t ino; Mode mode = NONE; size_t limit = 0, shortest = 0, pos = 0; int err = EIO; bool seekable = true, hit = false; long reads = 0; } plan;
static ssize_t next_read(int fd, void* buf, size_t n) {
	static ssize_t (*next)(int,void*,size_t);
	if(!next) next = (ssize_t (*)(int,void*,size_t))dlsym(RTLD_NEXT,"read");
	return next(fd,buf,n);
}
extern "C" __attribute__((noinline)) ssize_t read(int fd, void* buf, size_t n) {
	struct stat st;
	if(!plan.armed || fstat(fd,&st) || st.st_dev != plan.dev || st.st_ino != plan.ino) return next_read(fd,buf,n);
	plan.reads++;
	if(plan.shortest && n > plan.shortest) n = plan.shortest;
	size_t pos = plan.seekable ? (size_t)lseek(fd,0,SEEK_CUR) : plan.pos;
	if(plan.mode != NONE && pos+n > plan.limit && !(plan.mode == ONCE && plan.hit)) {
		if(pos < plan.limit) n = plan.limit-pos;
		else { plan.hit = true; if(plan.mode == END) return 0; errno = plan.err; return -1; }
	}
	ssize_t r = next_read(fd,buf,n);
	if(r > 0) plan.pos += r;
	return r;
}

static void reading(Src& s, Ctx& ctx) {
	const Api& a = apis[0];
	size_t w = files::dim(s,40), h = files::dim(s,40);
	if(s.chance(10)) { w = 90+s.upto(90); h = 90+s.upto(90); }
	size_t n = files::many(s,w,h,1+s.upto(5));
	auto g = files::grays(s,w,h,n);
	File f; f.w = w; f.h = h; f.tol = 2e-5;
	switch(s.pick(3)) {
		case 0: f.type = "pgm"; for(auto& x : g) { f.data += files::pgm_bytes(x,w,h); f.end.push_back(f.data.size()); } break;
		case 1: f.type = "y4m"; f.data = files::y4m_bytes(g,w,h); { size_t head = f.data.size()-n*(6+w*h); for(size_t i = 1; i <= n; i++) f.end.push_back(head+i*(6+w*h)); } break;
		default: f.type = "avi"; { auto audio = files::avi_audio(s,n); f.data = files::avi_bytes(g,w,h,(int)s.pick(2),audio,&f.end); } break;
	}
	files::set_frames(f,g);
	Route r(ctx,(Route::Kind)s.weighted({60,0,15,25}),"f." + f.type,f.data);
	if(!r.ok) { ctx.label("too large for a pipe"); return; }
	size_t size = f.data.size();
	plan = {};
	plan.mode = (Mode)s.weighted({8,50,22,20});
	if(f.type == "avi" && plan.mode == ONCE) plan.mode = STICKY; // FFmpeg's AVI reader resumes where it can
	plan.err = s.of(std::vector<int>{EIO,ESTALE,EISDIR,ENXIO});
	plan.limit = s.chance(50) ? s.upto(size) : std::min<size_t>(size,f.end[s.pick(n)]+s.upto(6));
	plan.shortest = s.chance(30) ? 1+s.small(0,3000) : 0;
	plan.seekable = r.kind == Route::REGULAR || r.kind == Route::STDIN_FILE;
	uint64_t seek = s.chance(25) ? 1+s.upto(n) : 0;
	bool bulk = false;
	static const char* const names[] = {"no failure","every read failing","one read failing","the input ending"};
	std::string what = fmt("%s %zux%zu, %zu frames, %s, %s at %zu of %zu (errno %d)%s%s",f.type.c_str(),w,h,n,r.what(),names[plan.mode],plan.limit,size,plan.err,plan.shortest ? fmt(", reads of at most %zu",plan.shortest).c_str() : "",seek ? fmt(", after seeking %llu frames",(unsigned long long)seek).c_str() : "");
	(void)bulk;
	ctx.desc(what);
	struct stat st;
	if(r.kind == Route::REGULAR ? stat(r.path.c_str(),&st) : fstat(0,&st)) exit(3);
	plan.dev = st.st_dev; plan.ino = st.st_ino;
	int fds = 0; for(int i = 0; i < 64; i++) fds += fcntl(i,F_GETFD) >= 0;
	struct Disarm { ~Disarm() { plan.armed = false; } } disarm;
	plan.armed = true;
	float* buf = (float*)(uintptr_t)0x5a5a5a50; size_t W = 77, H = 77; RDError e = 12345;
	RDImage* im = a.resdet_open_image_with_reader(r.name.c_str(),"FFmpeg",&W,&H,&buf,&e);
	size_t got = 0; bool seek_ok = true;
	if(!im) PBT_CHECK(ctx,e && e != 12345 && !W && !H && !buf,"refused with error %d, %zux%zu, buffer %p",e,W,H,(void*)buf);
	else {
		struct Close { const Api& a; RDImage* im; float* b; ~Close() { plan.armed = false; a.resdet_close_image(im); free(b); } } guard{a,im,buf};
		PBT_CHECK(ctx,!e && W == w && H == h,"opened with error %d, %zux%zu",e,W,H);
		if(seek) {
			e = 12345;
			seek_ok = a.resdet_seek_frame(im,seek,nullptr,nullptr,&e);
			PBT_CHECK(ctx,e != 12345 && !(seek_ok && e),"seeking gave %d with error %d",seek_ok,e);
		}
		while(seek_ok) {
			e = 12345;
			if(!a.resdet_read_image_frame(im,buf,&e)) break;
			PBT_CHECK(ctx,!e,"a frame with error %d",e);
			PBT_CHECK(ctx,seek+got < n,"%zu frames after %llu of %zu",got+1,(unsigned long long)seek,n);
			// the last frame may have been cut by the failure
			bool cut = plan.hit && f.end[seek+got] > plan.limit;
			if(!cut || plan.mode == STICKY) { std::string d = files::differ(f,seek+got,buf); if(!d.empty()) ctx.fail(d); }
			got++;
		}
		PBT_CHECK(ctx,e != 12345,"no error was set");
	}
	bool hit = plan.hit;
	PBT_CHECK(ctx,!e || a.resdet_error_str(e),"error %d",e);
	bool all = im && seek_ok && got == n-seek && !e;
	if(!hit) PBT_CHECK(ctx,all || (seek && !seek_ok && !e && seek > n),"%zu frames, error %d, seeking %d although nothing failed",got,e,seek_ok);
	else if(plan.mode == STICKY || plan.mode == ONCE) {
		PBT_CHECK(ctx,e || all,"a normal end after %zu of %zu frames, seeking %d",got,n-seek,seek_ok);
	}
	if(hit && im && plan.mode == END && f.type == "y4m") { // FFmpeg itself loses frames before the failure otherwise
		size_t intact = 0;
		while(intact < n && f.end[intact] <= plan.limit) intact++;
		if(intact > seek) PBT_CHECK(ctx,seek_ok && got >= intact-seek,"%zu frames after %llu of %zu before the failure, error %d",got,(unsigned long long)seek,intact,e);
		if(intact) ctx.label("frames before the failure");
	}
	{
		plan.armed = false;
		int now = 0; for(int i = 0; i < 64; i++) now += fcntl(i,F_GETFD) >= 0;
		PBT_CHECK(ctx,now == fds,"%d open files instead of %d",now,fds);
	}
	PBT_CHECK(ctx,r.stdin_open(),"standard input was closed");
	ctx.label(fmt("%s, %s%s",f.type.c_str(),names[plan.mode],plan.mode == NONE ? "" : hit ? ", reached" : ", not reached"));
	if(e) ctx.label(fmt("error %d",e));
	if(hit || plan.shortest) ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(f.data.data(),f.data.size())));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{{"ffmpeg",reading,100000,2000000,120}},[]{ apis = load_apis(); });
}
