// C27: calls depend on nothing but their arguments, and leave the process as it was.
#include "ops.hpp"
#include "readcheck.hpp"
#include <csignal>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <fcntl.h>
#include <locale.h>
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/wait.h>
#ifdef __SSE__
#include <xmmintrin.h>
#endif
using namespace pbt;
using ops::Op; using ops::Run;
using files::File;
extern char** environ;
static std::vector<Api> apis;
static std::vector<std::string> locales;
static const char SEP = '\x1e';

// what the library itself asks the process for, other than by its arguments, is answered differently in the other surroundings
static std::vector<void*> bases; static bool perturb; static int answer;
static bool asked_by_library(void* caller) {
	Dl_info i;
	if(!perturb || !dladdr(caller,&i)) return false;
	for(void* b : bases) if(b == i.dli_fbase) return true;
	return false;
}
#define CALLER __builtin_return_address(0)
#define REAL(f) ((decltype(&f))dlsym(RTLD_NEXT,#f))
static char* variable(const char* name) {
	static const char* const a[] = {"1","0","3","no","sign","zerox",".3","/tmp","PGM","100000","","FFmpeg"};
	if(name && *name) return const_cast<char*>(a[answer%12]);
	return nullptr;
}
extern "C" {
char* getenv(const char* n) noexcept { return asked_by_library(CALLER) ? variable(n) : REAL(getenv)(n); }
char* secure_getenv(const char* n) noexcept { return asked_by_library(CALLER) ? variable(n) : REAL(secure_getenv)(n); }
int rand() noexcept { return asked_by_library(CALLER) ? (answer += 7919)*31 & RAND_MAX : REAL(rand)(); }
long random() noexcept { return asked_by_library(CALLER) ? (answer += 7919)*31 & RAND_MAX : REAL(random)(); }
double drand48() noexcept { return asked_by_library(CALLER) ? ((answer += 7919)*31 & 1023)/1024. : REAL(drand48)(); }
time_t time(time_t* t) noexcept { time_t r = REAL(time)(nullptr); if(asked_by_library(CALLER)) r += 86400*1000L; if(t) *t = r; return r; }
clock_t clock() noexcept { return REAL(clock)() + (asked_by_library(CALLER) ? 1000000000 : 0); }
int clock_gettime(clockid_t c, timespec* t) noexcept { int r = REAL(clock_gettime)(c,t); if(!r && asked_by_library(CALLER)) { t->tv_sec += 100000; t->tv_nsec ^= answer & 1023; } return r; }
pid_t getpid() noexcept { return REAL(getpid)() + (asked_by_library(CALLER) ? 1+answer : 0); }
uid_t getuid() noexcept { return REAL(getuid)() + (asked_by_library(CALLER) ? 1 : 0); }
uid_t geteuid() noexcept { return REAL(geteuid)() + (asked_by_library(CALLER) ? 1 : 0); }
int isatty(int fd) noexcept { return asked_by_library(CALLER) ? answer & 1 : REAL(isatty)(fd); }
}

struct Env {
	std::string locale; bool thread_locale = false; // setlocale, or uselocale
	int dir = 0;              // 0: as it is, 1: the scratch directory, 2: a removed directory
	int answer = 0; bool variables = false, closed_stdin = false, tight_files = false, small_stack = false, masked = false, handlers = false;
	size_t offset = 0, stack = 96*1024; int umask = 022;
	std::string str() const {
		return (locale.empty() ? "C" : locale) + (thread_locale ? " (uselocale)" : "") + (dir == 1 ? ", other directory" : dir == 2 ? ", removed directory" : "") + (variables ? fmt(", other environment variables (%d)",answer) : "") + (closed_stdin ? ", no standard input" : "") + (tight_files ? ", few files allowed" : "") + (small_stack ? fmt(", stack of %zu KiB",stack/1024) : "") + (masked ? ", signals blocked" : "") + (handlers ? ", signal handlers" : "") + (offset ? fmt(", images at +%zu",offset) : "") + fmt(", umask %03o",umask);
	}
};

static void handler(int) {}
static std::string sets(const sigset_t& s) { std::string o; for(int i = 1; i < 65; i++) o += sigismember(&s,i) == 1 ? '1' : '0'; return o; }
// everything about the process that a library has no business changing
static std::string state() {
	std::string o = std::string("locale ") + setlocale(LC_ALL,nullptr) + fmt("\nthread locale %p",(void*)uselocale((locale_t)0));
	char d[4096]; o += std::string("\ndirectory ") + (getcwd(d,sizeof d) ? d : "none");
	mode_t m = umask(0); umask(m); o += fmt("\numask %03o",(unsigned)m);
	o += fmt("\nrounding %d, exceptions enabled %d",fegetround(),fegetexcept());
#ifdef __SSE__
	o += fmt("\nmxcsr %x",_mm_getcsr() & ~0x3fu);
#endif
	for(int i = 1; i < 65; i++) { struct sigaction s; memset(&s,0,sizeof s); if(!sigaction(i,nullptr,&s)) o += fmt("\nsignal %d %p %x %s",i,(void*)s.sa_handler,(unsigned)s.sa_flags,sets(s.sa_mask).c_str()); }
	sigset_t b; pthread_sigmask(SIG_BLOCK,nullptr,&b); o += "\nblocked " + sets(b);
	for(char** e = environ; *e; e++) o += std::string("\nvariable ") + *e;
	o += "\nfiles"; for(int i = 0; i < 256; i++) if(fcntl(i,F_GETFD) >= 0) o += fmt(" %d:%x:%x",i,fcntl(i,F_GETFD),fcntl(i,F_GETFL));
	for(int r : {RLIMIT_STACK,RLIMIT_NOFILE,RLIMIT_AS,RLIMIT_FSIZE,RLIMIT_CPU,RLIMIT_CORE}) { rlimit l; getrlimit(r,&l); o += fmt("\nlimit %d %llu %llu",r,(unsigned long long)l.rlim_cur,(unsigned long long)l.rlim_max); }
	o += fmt("\nbuffering %zu %zu",(size_t)0,(size_t)0);
	return o + "\n";
}
static std::string difference(const std::string& a, const std::string& b) {
	size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t l = a.rfind('\n',i); l = l == std::string::npos ? 0 : l+1;
	return "\"" + a.substr(l,a.find('\n',i)-l) + "\" became \"" + b.substr(l,b.find('\n',i)-l) + "\"";
}

struct Child { bool ok = false; std::string why, printed, log, bad, changed; };
struct Job { const Api* a; const Op* op; Run* run; };
static void* job(void* v) { Job& j = *(Job*)v; while(!j.run->done()) j.run->step(); return nullptr; }

// input: the file on standard input instead
static Child fresh(Ctx& ctx, const Api& a, Op op, const Env* env, bool input) {
	std::string out = ctx.scratch() + "/out", rep = ctx.scratch() + "/rep";
	fflush(nullptr);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(3); }
	if(!pid) {
		int fd = open(out.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0600);
		dup2(fd,1); dup2(fd,2); close(fd);
		int rfd = open(rep.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); if(rfd < 0) _exit(3);
		fcntl(rfd,F_DUPFD,200); close(rfd); rfd = 200;
		ops::OFFSET = 0;
		if(input) {
			int in = open(op.file.c_str(),O_RDONLY); if(in < 0 || dup2(in,0) < 0) _exit(3);
			close(in);
			op.file = "-"; op.with_type = true;
		}
		if(env) {
			if(!env->locale.empty()) {
				if(env->thread_locale) { locale_t l = newlocale(LC_ALL_MASK,env->locale.c_str(),(locale_t)0); if(!l || !uselocale(l)) { perror("newlocale"); _exit(3); } }
				else if(!setlocale(LC_ALL,env->locale.c_str())) { perror("setlocale"); _exit(3); }
			}
			std::string gone = ctx.scratch() + "/gone";
			if(env->dir == 1) { if(chdir(ctx.scratch().c_str())) _exit(3); }
			if(env->dir == 2) { mkdir(gone.c_str(),0700); if(chdir(gone.c_str()) || rmdir(gone.c_str())) _exit(3); }
			if(env->variables) {
				perturb = true; answer = env->answer;
				setenv("LANG","tr_TR",1); setenv("LC_NUMERIC","de_DE",1); setenv("TMPDIR","/nonexistent",1); setenv("HOME","/nonexistent",1); setenv("RD_MINIMUM","3",1); setenv("PNG_DEBUG","3",1); setenv("TZ","Asia/Tokyo",1); setenv("POSIXLY_CORRECT","1",1);
				unsetenv("PATH"); unsetenv("USER");
			}
			if(env->masked) { sigset_t s; sigfillset(&s); pthread_sigmask(SIG_SETMASK,&s,nullptr); }
			if(env->handlers) for(int i : {SIGPIPE,SIGINT,SIGTERM,SIGUSR1,SIGALRM,SIGFPE,SIGSEGV}) { struct sigaction s; memset(&s,0,sizeof s); s.sa_handler = i == SIGPIPE ? SIG_IGN : handler; sigaction(i,&s,nullptr); }
			if(env->closed_stdin && !input) close(0);
			if(env->tight_files) { rlimit l; getrlimit(RLIMIT_NOFILE,&l); int top = 3; for(int i = 0; i < 64; i++) if(fcntl(i,F_GETFD) >= 0) top = std::max(top,i+1); l.rlim_cur = top+1; setrlimit(RLIMIT_NOFILE,&l); }
			umask(env->umask);
			ops::OFFSET = env->offset;
		}
		std::string r, before = state(), after;
		{
			Run run(a,op);
			Job j{&a,&op,&run};
			if(env && env->small_stack) {
				pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,env->stack);
				pthread_t t; if(pthread_create(&t,&at,job,&j)) _exit(3);
				pthread_join(t,nullptr);
			}
			else job(&j);
			r = run.log + SEP + run.bad + SEP;
		}
		after = state();
		r += (before == after ? "" : difference(before,after)) + SEP;
		fflush(nullptr);
		size_t p = 0;
		while(p < r.size()) { ssize_t k = write(rfd,r.data()+p,r.size()-p); if(k < 0) _exit(3); p += k; }
		_exit(0);
	}
	Child c; int st = 0;
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC,&t0);
	for(long wait = 100000;; wait = wait < 5000000 ? wait*2 : wait) {
		pid_t w = waitpid(pid,&st,WNOHANG);
		if(w == pid) break;
		if(w < 0 && errno != EINTR) { perror("waitpid"); exit(3); }
		clock_gettime(CLOCK_MONOTONIC,&t);
		if(t.tv_sec-t0.tv_sec > 60) { kill(pid,SIGKILL); waitpid(pid,&st,0); c.why = "did not end within 60 s"; return c; }
		timespec d = {0,wait}; nanosleep(&d,nullptr);
	}
	c.printed = ops::slurp_file(out);
	std::string r = ops::slurp_file(rep);
	unlink(out.c_str()); unlink(rep.c_str());
	if(!WIFEXITED(st) || WEXITSTATUS(st)) { c.why = fmt("ended with %s %d",WIFEXITED(st) ? "status" : "signal",WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)); if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr,"child failed: %s\n",c.printed.c_str()); exit(3); } return c; }
	size_t x = r.find(SEP), y = r.find(SEP,x+1), z = r.find(SEP,y+1);
	if(z == std::string::npos) { fprintf(stderr,"report is incomplete\n"); exit(3); }
	c.log = r.substr(0,x); c.bad = r.substr(x+1,y-x-1); c.changed = r.substr(y+1,z-y-1);
	c.ok = true;
	return c;
}

// rows that don't fit the stack
static Op wide(Src& s, const std::string& dir, size_t& stack) {
	Op o;
	static const size_t L[] = {30000,32768,40000,46656,50000,60000,64800}; // both backends are quick for these
	size_t w = L[s.pick(7)], h = 1+s.upto(1);
	if(s.chance(25)) std::swap(w,h);
	o.w = w; o.h = h;
	if(s.chance(30)) {
		stack = 192*1024; // FFTW uses up to 64 KiB itself
		o.kind = ops::DETECT; o.method = METHODS[s.pick(4)]; o.steps.resize(1);
		Rng r = s.bulk();
		o.images.emplace_back(w*h);
		for(auto& v : o.images[0]) v = (float)r.unit();
		o.desc = fmt("detect %zux%zu %s",w,h,o.method);
		return o;
	}
	files::File f;
	switch(s.pick(5)) { case 0: f = files::pgm(s,w,h); break; case 1: f = files::pfm(s,w,h,true,2); break; case 2: f = files::y4m(s,w,h,2); break; case 3: f = files::png(s,w,h); break; default: f = files::jpeg(s,nullptr,nullptr,w,h); }
	o.data = f.data; o.type = f.type; o.file = dir + "/wide." + f.type;
	if(s.chance(50)) { o.kind = ops::BULK; o.steps.resize(1); }
	else { o.kind = ops::IMAGE; o.steps.push_back({0,0}); for(size_t n = 1+s.upto(2); n; n--) o.steps.push_back({s.chance(70) ? 1 : 2,(size_t)1}); o.steps.push_back({3,0}); }
	o.desc = (o.kind == ops::BULK ? "bulk " : "image ") + f.what;
	return o;
}

static void surroundings(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	bool fftw = a.name == "fftw";
	Op op = ops::make(s,40,ctx.scratch(),0,{});
	Env v;
	if(s.chance(65)) { v.locale = s.of(locales); v.thread_locale = s.chance(25); }
	if(s.chance(30)) v.dir = 1+(int)s.upto(1);
	v.variables = s.chance(30); if(v.variables) v.answer = (int)s.upto(11); v.closed_stdin = s.chance(15); v.tight_files = s.chance(20); v.masked = s.chance(15); v.handlers = s.chance(25);
	v.small_stack = s.chance(25) && !(v.thread_locale && !v.locale.empty());
	if(v.small_stack && s.chance(40)) op = wide(s,ctx.scratch(),v.stack);
	bool input = !op.data.empty() && s.chance(40);
	v.offset = s.chance(50) ? s.upto(7) : 0;
	v.umask = s.of(std::vector<int>{022,0,077,0777});
	std::string what = a.name + ": " + op.desc + (input ? " from standard input" : "") + ", in: " + v.str();
	ctx.desc(what);
	ops::write_file(op);
	struct Clean { const Op& o; ~Clean() { if(!o.file.empty()) unlink(o.file.c_str()); } } clean{op};
	Child plain = fresh(ctx,a,op,nullptr,input), other = fresh(ctx,a,op,&v,input);
	if(!plain.ok) ctx.fail("plainly, it " + plain.why);
	if(!other.ok) ctx.fail(other.why);
	for(const Child* c : {&plain,&other}) {
		PBT_CHECK(ctx,c->printed.empty(),"the library printed \"%s\"",c->printed.substr(0,1000).c_str());
		PBT_CHECK(ctx,c->bad.empty(),"%s",c->bad.c_str());
		PBT_CHECK(ctx,c->changed.empty(),"the process was changed: %s",c->changed.c_str());
	}
	// FFTW may choose another plan, and so another rounding, but does not here: plans are estimated on memory of its own
	(void)fftw;
	PBT_CHECK(ctx,plain.log == other.log,"gave%s\ninstead of%s",other.log.substr(0,3000).c_str(),plain.log.substr(0,3000).c_str());
	ctx.label(v.locale.empty() ? "C locale" : v.locale);
	if(input) ctx.label("standard input");
	if(v.small_stack) ctx.label(std::max(op.w,op.h) > 4000 ? "small stack, long rows" : "small stack");
	ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(op.data.data(),op.data.size())));
}

// files and names in every locale, in one process
static void reading(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	std::string loc = s.of(locales);
	File f = s.chance(45) ? files::pfm(s) : files::any(s);
	static const struct { const char* type,* reader,* mime; } R[] = {{"pgm","PGM","image/x-portable-graymap"},{"pfm","PFM","image/x-portable-floatmap"},{"y4m","Y4M","video/yuv4mpeg"},{"png","libpng","image/png"},{"jpg","libjpeg","image/jpeg"},{"jpeg","libjpeg","image/jpeg"}};
	std::string type, reader; int how = (int)s.pick(4);
	for(auto& r : R) if(f.type == r.type) { type = how == 2 ? r.mime : r.type; reader = r.reader; }
	std::string ext = f.type;
	for(std::string* x : {&ext,&reader,&type}) if(how != 2 || x != &type) for(auto& c : *x) if(s.chance(50)) c = (char)(c >= 'a' && c <= 'z' ? c-32 : c >= 'A' && c <= 'Z' ? c+32 : c);
	std::string name = "f." + (how == 0 ? ext : s.of(std::vector<std::string>{"x","pgm",""}));
	std::string what = fmt("%s: %s, named %s%s%s, in %s",a.name.c_str(),f.what.c_str(),name.c_str(),how == 1 || how == 2 ? ", type " : how == 3 ? ", reader " : "",how == 1 || how == 2 ? type.c_str() : how == 3 ? reader.c_str() : "",loc.c_str());
	ctx.desc(what);
	std::string path = files::write(ctx,name,f.data);
	struct Back { bool off = true; std::string path; ~Back() { setlocale(LC_ALL,"C"); unlink(path.c_str()); } } back{true,path};
	if(!setlocale(LC_ALL,loc.c_str())) { perror("setlocale"); exit(3); }
	std::string d = reads_as(a,f,path,how == 1 || how == 2 ? type.c_str() : nullptr,how == 3 ? reader.c_str() : nullptr);
	std::string now = setlocale(LC_ALL,nullptr);
	if(!d.empty()) ctx.fail(d);
	PBT_CHECK(ctx,now == loc,"the locale became %s",now.c_str());
	ctx.label(loc); ctx.label(f.type);
	ctx.nontrivial(hash_bytes(what.data(),what.size(),hash_bytes(f.data.data(),f.data.size())));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"reading",reading,120000,2500000},
		{"surroundings",surroundings,30000,600000,300},
	},[]{
		apis = load_apis();
		for(const Api& a : apis) { Dl_info i; if(dladdr((void*)a.resdetect,&i)) bases.push_back(i.dli_fbase); }
		std::string l = getenv("C27_LOCALES") ? getenv("C27_LOCALES") : "";
		for(size_t p = 0; p < l.size(); ) { size_t q = l.find(' ',p); if(q == std::string::npos) q = l.size(); locales.push_back(l.substr(p,q-p)); p = q+1; }
		if(locales.empty()) { fprintf(stderr,"no locales\n"); exit(3); }
	});
}
