#include <sys/resource.h>
#include "pbt.hpp"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <sstream>
#include <set>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

double Rng::gauss() {
	double u = unit(), v = unit();
	if(u < 1e-300) u = 1e-300;
	return std::sqrt(-2*std::log(u)) * std::cos(6.283185307179586 * v);
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
	const unsigned char* c = (const unsigned char*)p;
	for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
	return h ^ (h >> 29);
}

std::string fmt(const char* f, ...) {
	va_list ap; va_start(ap,f);
	char buf[4096];
	vsnprintf(buf,sizeof buf,f,ap);
	va_end(ap);
	return buf;
}

static const size_t MAXHIST = 1u << 19, MAXCHOICES = 1u << 17, MAXLABELS = 512, HASHSLOTS = 1u << 22, MAXSAMPLES = 64, MAXWORKERS = 64;

struct SharedSlot {           // one per worker
	uint64_t facet, index, active, nchoices;
	char msg[4096];
	char desc[16384];
	uint64_t choices[MAXCHOICES];
	uint64_t nhist;           // cases this worker process has run, as plan positions
	uint32_t hist[MAXHIST];
};
struct SharedLabel { std::atomic<uint64_t> count; char name[80]; std::atomic<int> used; };
struct Shared {
	std::atomic<uint64_t> next;
	std::atomic<uint64_t> evaluations, discards, nontrivial, distinct, stop, hangs_skipped;
	std::atomic<uint64_t> per_facet[64], per_facet_nt[64];
	std::atomic<int> lock;
	int nlabels;
	SharedLabel labels[MAXLABELS];
	std::atomic<int> nsamples;
	char samples[MAXSAMPLES][2048];
	std::atomic<int> nknown;
	char known[64][512];
	std::atomic<uint64_t> hashes[HASHSLOTS];
	SharedSlot slots[MAXWORKERS];
};
static Shared* sh;
static SharedSlot* slot;
static std::string g_scratch;
static bool g_thorough;
static std::set<std::string> g_known;
static bool quiet_stats; // during shrinking and replay, do not count

static void lock() { int e; do { e = 0; } while(!sh->lock.compare_exchange_weak(e,1)); }
static void unlock() { sh->lock = 0; }

Src::Src(uint64_t seed) : rng(seed), replay(nullptr), pos(0) { slot->nchoices = 0; }
Src::Src(const std::vector<uint64_t>& c) : rng(0), replay(&c), pos(0) { slot->nchoices = 0; }
size_t Src::count() const { return slot->nchoices; }
uint64_t Src::upto(uint64_t max) {
	uint64_t v;
	if(replay) {
		v = pos < replay->size() ? (*replay)[pos] : 0;
		if(v > max) v = max;
	}
	else v = max == UINT64_MAX ? rng.next() : rng.next() % (max+1);
	pos++;
	if(slot->nchoices < MAXCHOICES)
		slot->choices[slot->nchoices++] = v;
	else throw Discard();
	return v;
}
size_t Src::weighted(const std::vector<int>& w) {
	uint64_t total = 0;
	for(int x : w) total += x;
	uint64_t v = upto(total-1);
	for(size_t i = 0; i < w.size(); i++) {
		if(v < (uint64_t)w[i]) return i;
		v -= w[i];
	}
	return w.size()-1;
}
int64_t Src::small(int64_t lo, int64_t hi) {
	uint64_t span = hi - lo;
	uint64_t k = upto(3);
	if(k == 3) return lo + (int64_t)upto(span);
	uint64_t m = span >> (2*(3-k));
	return lo + (int64_t)upto(m < 2 ? std::min<uint64_t>(span,2) : m);
}

void Ctx::label(const std::string& name) {
	if(quiet_stats) return;
	for(int i = 0; i < sh->nlabels; i++)
		if(!strcmp(sh->labels[i].name,name.c_str())) { sh->labels[i].count++; return; }
	lock();
	for(int i = 0; i < sh->nlabels; i++)
		if(!strcmp(sh->labels[i].name,name.c_str())) { unlock(); sh->labels[i].count++; return; }
	if(sh->nlabels < (int)MAXLABELS) {
		strncpy(sh->labels[sh->nlabels].name,name.c_str(),79);
		sh->labels[sh->nlabels].count = 1;
		sh->nlabels++;
	}
	unlock();
}
void Ctx::nontrivial(uint64_t h) { is_nontrivial = true; nthash = h ? h : 1; }
void Ctx::desc(const std::string& s) {
	description += s;
	size_t n = std::min(description.size(),sizeof(slot->desc)-1);
	memcpy(slot->desc,description.data(),n);
	slot->desc[n] = 0;
}
void Ctx::fail(const std::string& msg) { throw Fail{msg}; }
void Ctx::known(const std::string& id, const std::string& msg) {
	if(!g_known.count(id)) fail("[" + id + "] " + msg);
	lock();
	bool seen = false;
	for(int i = 0; i < sh->nknown; i++)
		if(!strncmp(sh->known[i],id.c_str(),id.size()) && sh->known[i][id.size()] == ' ') seen = true;
	if(!seen && sh->nknown < 64) {
		snprintf(sh->known[sh->nknown],511,"%s %s",id.c_str(),msg.c_str());
		sh->nknown++;
	}
	unlock();
}
const std::string& Ctx::scratch() const { return g_scratch; }
bool Ctx::thorough() const { return g_thorough; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + t.tv_nsec*1e-9; }

static void cpu_alarm(int s) { itimerval it = {{0,0},{s,0}}; setitimer(ITIMER_PROF,&it,nullptr); }

// 0 ok, 1 failed (message in slot), 2 discarded
static int run_one(const Facet& f, Src& src, uint64_t index, int worker, Ctx* out) {
	Ctx ctx;
	ctx.case_index = index;
	ctx.worker = worker;
	slot->msg[0] = 0;
	slot->desc[0] = 0;
	slot->active = 1;
	cpu_alarm(f.max_cpu_s);
	int r = 0;
	try { f.run(src,ctx); }
	catch(const Fail& e) { strncpy(slot->msg,e.msg.c_str(),sizeof(slot->msg)-1); slot->msg[sizeof(slot->msg)-1] = 0; r = 1; }
	catch(const Discard&) { r = 2; }
	cpu_alarm(0);
	slot->active = 0;
	if(out) *out = ctx;
	return r;
}

static void rmtree(const std::string& d) {
	DIR* dir = opendir(d.c_str());
	if(!dir) return;
	while(dirent* e = readdir(dir)) {
		std::string n = e->d_name;
		if(n == "." || n == "..") continue;
		std::string p = d + "/" + n;
		struct stat st;
		if(lstat(p.c_str(),&st)) continue;
		if(S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
	}
	closedir(dir);
	rmdir(d.c_str());
}

static std::string make_scratch() {
	std::string base = access("/dev/shm",W_OK) == 0 ? "/dev/shm" : "/tmp";
	std::string t = base + "/rdpbt.XXXXXX";
	if(!mkdtemp(t.data())) { perror("mkdtemp"); exit(3); }
	return t;
}

static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += c; }
		else if(c < 0x20 || c >= 0x7f) o += fmt("\\u%04x",c);
		else o += c;
	}
	return o + "\"";
}

static std::vector<uint64_t> slot_choices() { return std::vector<uint64_t>(slot->choices,slot->choices+slot->nchoices); }

static std::function<void()> g_init;
static std::string g_errlog;

// run choices in a forked child; true if it failed; msg and choices used in slot
static bool fails(const Facet& f, const std::vector<uint64_t>& c, std::string* msg, std::vector<uint64_t>* used, std::string* desc = nullptr) {
	slot->msg[0] = slot->desc[0] = 0;
	slot->nchoices = 0;
	fflush(nullptr);
	pid_t p = fork();
	if(!p) {
		int fd = open(g_errlog.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
		if(fd >= 0) { dup2(fd,2); dup2(fd,1); }
		quiet_stats = true;
		if(g_init) g_init();
		Src s(c);
		int r = run_one(f,s,0,0,nullptr);
		_exit(r == 1 ? 11 : 0);
	}
	int st;
	while(waitpid(p,&st,0) < 0 && errno == EINTR);
	if(used) *used = slot_choices();
	if(desc) *desc = slot->desc;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 3) return false; // harness environment error
	if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false; // ended from outside: says nothing
	if(msg) {
		if(WIFEXITED(st) && WEXITSTATUS(st) == 11) *msg = slot->msg;
		else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) *msg = fmt("hang: case used more than %d s of CPU time",f.max_cpu_s);
		else {
			*msg = WIFSIGNALED(st) ? fmt("crash: signal %d",WTERMSIG(st)) : fmt("abnormal exit %d (sanitizer report?)",WEXITSTATUS(st));
			std::ifstream in(g_errlog);
			std::string line; int n = 0;
			while(std::getline(in,line) && n < 14)
				if(line.find("ERROR") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("    #") == 0 || line.find("SUMMARY") == 0 || line.find("WARNING: Thread") == 0) { *msg += "\n    " + line.substr(0,300); n++; }
		}
	}
	return true;
}

// a case by facet and index, as generated from the seed
typedef std::pair<int,uint64_t> CaseId;
static uint64_t case_seed(uint64_t seed, const Facet& f, uint64_t idx) { return mix(mix(seed,hash_bytes(f.name.data(),f.name.size())),idx); }

// runs generated cases one after another in one forked child; true if one of them failed
static bool history_fails(const std::vector<Facet>& facets, uint64_t seed, const std::vector<CaseId>& h, std::string* msg, std::string* desc) {
	slot->msg[0] = slot->desc[0] = 0;
	slot->nchoices = 0;
	fflush(nullptr);
	pid_t p = fork();
	if(!p) {
		int fd = open(g_errlog.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
		if(fd >= 0) { dup2(fd,2); dup2(fd,1); }
		quiet_stats = true;
		if(g_init) g_init();
		for(auto& c : h) {
			Src s(case_seed(seed,facets[c.first],c.second));
			if(run_one(facets[c.first],s,c.second,0,nullptr) == 1) _exit(11);
		}
		_exit(0);
	}
	int st;
	while(waitpid(p,&st,0) < 0 && errno == EINTR);
	if(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) return false;
	if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return false;
	if(msg) *msg = WIFEXITED(st) && WEXITSTATUS(st) == 11 ? std::string(slot->msg) : fmt("abnormal end (status %#x)",st);
	if(desc) *desc = slot->desc;
	return true;
}

static std::vector<uint64_t> shrink(const Facet& f, std::vector<uint64_t> cur, std::string& msg, std::string& desc, double budget) {
	double end = now() + budget;
	int tries = 0;
	auto attempt = [&](const std::vector<uint64_t>& cand) {
		if(now() > end) return false;
		tries++;
		std::string m, d; std::vector<uint64_t> used;
		if(!fails(f,cand,&m,&used,&d)) return false;
		// strictly simpler in shortlex order, else no progress
		if(used.size() < cur.size() || (used.size() == cur.size() && used < cur)) { cur = used; msg = m; desc = d; return true; }
		return false;
	};
	bool progress = true;
	while(progress && now() < end) {
		progress = false;
		for(size_t block = std::max<size_t>(cur.size()/2,1); block >= 1 && now() < end; block /= 2)
			for(size_t i = 0; i + block <= cur.size() && now() < end; ) {
				std::vector<uint64_t> c = cur;
				c.erase(c.begin()+i,c.begin()+i+block);
				if(attempt(c)) progress = true; else i += block;
			}
		for(size_t block = std::max<size_t>(cur.size()/2,1); block >= 1 && now() < end; block /= 2)
			for(size_t i = 0; i + block <= cur.size() && now() < end; i += block) {
				std::vector<uint64_t> c = cur;
				bool any = false;
				for(size_t j = i; j < i+block; j++) { any |= c[j] != 0; c[j] = 0; }
				if(any && attempt(c)) progress = true;
			}
		for(size_t i = 0; i < cur.size() && now() < end; i++) {
			uint64_t lo = 0;
			while(i < cur.size() && cur[i] > lo && now() < end) {
				std::vector<uint64_t> c = cur;
				c[i] = lo + (cur[i]-lo)/2;
				if(attempt(c)) progress = true; else lo = c[i]+1;
			}
		}
	}
	return cur;
}

static void on_term(int) { if(!g_scratch.empty()) rmtree(g_scratch); _exit(3); }

// huge buffers are refused rather than use up the machine, where no sanitizer needs the address space
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define SANITIZER
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define SANITIZER
#endif
#endif
bool limited = true;
static void limit_memory() {
	if(!limited) return;
#ifndef SANITIZER
	rlimit l; // the soft limit only: a facet that needs more can raise it for a call
	getrlimit(RLIMIT_AS,&l);
	l.rlim_cur = 3072ul << 20;
	if(l.rlim_max == RLIM_INFINITY || l.rlim_cur < l.rlim_max) setrlimit(RLIMIT_AS,&l);
#endif
}
int main_(int argc, char** argv, const std::vector<Facet>& facets, const std::function<void()>& init) {
	uint64_t seed = 1; int workers = 8; std::string result, replay, replaydir = ".", property = "X00", only; double cap = 0; double scale = 1;
	limit_memory();
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { if(i+1 >= argc) { fprintf(stderr,"missing value for %s\n",argv[i]); exit(3); } return argv[++i]; };
		if(a == "--seed") seed = strtoull(val().c_str(),nullptr,10);
		else if(a == "--tier") g_thorough = val() == "thorough";
		else if(a == "--workers") workers = atoi(val().c_str());
		else if(a == "--result") result = val();
		else if(a == "--replay") replay = val();
		else if(a == "--replay-dir") replaydir = val();
		else if(a == "--property") property = val();
		else if(a == "--facet") only = val();
		else if(a == "--cap") cap = atof(val().c_str());
		else if(a == "--scale") scale = atof(val().c_str());
		else if(a == "--known") { std::stringstream s(val()); std::string k; while(std::getline(s,k,',')) if(!k.empty()) g_known.insert(k); }
		else { fprintf(stderr,"unknown argument %s\n",a.c_str()); return 3; }
	}
	if(workers < 1) workers = 1;
	if(workers > (int)MAXWORKERS-1) workers = MAXWORKERS-1;
	g_init = init;
	sh = (Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	if(sh == MAP_FAILED) { perror("mmap"); return 3; }
	slot = &sh->slots[MAXWORKERS-1];
	g_scratch = make_scratch();
	g_errlog = g_scratch + "/stderr.log";
	signal(SIGTERM,on_term);
	signal(SIGINT,on_term);
	signal(SIGPIPE,SIG_IGN);
	double t0 = now();

	if(!replay.empty()) {
		std::ifstream in(replay);
		std::string line, fname; std::vector<uint64_t> c;
		std::vector<CaseId> hist; uint64_t rseed = seed;
		while(std::getline(in,line)) {
			if(line.compare(0,6,"seed: ") == 0) rseed = strtoull(line.c_str()+6,nullptr,10);
			if(line.compare(0,9,"history: ") == 0) {
				std::stringstream s(line.substr(9)); std::string t;
				while(s >> t) {
					size_t q = t.rfind('#');
					if(q == std::string::npos) continue;
					for(size_t i = 0; i < facets.size(); i++) if(facets[i].name == t.substr(0,q)) hist.push_back({(int)i,strtoull(t.c_str()+q+1,nullptr,10)});
				}
			}
			if(line.compare(0,7,"facet: ") == 0) fname = line.substr(7);
			if(line.compare(0,9,"choices: ") == 0) { std::stringstream s(line.substr(9)); uint64_t v; while(s >> v) c.push_back(v); }
		}
		if(!hist.empty()) {
			std::string m, d;
			bool bad = history_fails(facets,rseed,hist,&m,&d);
			printf("%zu cases in one process; last: %s\n%s\n",hist.size(),d.c_str(),bad ? ("FAILED: " + m).c_str() : "passed");
			rmtree(g_scratch);
			return bad ? 1 : 0;
		}
		for(auto& f : facets) if(f.name == fname) {
			std::string m, d;
			bool bad = fails(f,c,&m,nullptr,&d);
			printf("case: %s\n%s\n",d.c_str(),bad ? ("FAILED: " + m).c_str() : "passed");
			std::ifstream log(g_errlog); std::stringstream ss; ss << log.rdbuf();
			fputs(ss.str().substr(0,8000).c_str(),stdout);
			rmtree(g_scratch);
			return bad ? 1 : 0;
		}
		fprintf(stderr,"no facet \"%s\" in this harness\n",fname.c_str());
		rmtree(g_scratch);
		return 3;
	}

	// interleave facets so that a time cap cuts all of them evenly
	std::vector<uint64_t> counts;
	uint64_t total = 0;
	for(auto& f : facets) {
		uint64_t n = (only.empty() || only == f.name) ? (uint64_t)((g_thorough ? f.thorough : f.quick)*scale) : 0;
		counts.push_back(n); total += n;
	}
	std::vector<std::pair<double,std::pair<int,uint64_t>>> plan;
	plan.reserve(total);
	for(size_t f = 0; f < counts.size(); f++)
		for(uint64_t i = 0; i < counts[f]; i++)
			plan.push_back({(i+0.5)/counts[f],{(int)f,i}});
	std::stable_sort(plan.begin(),plan.end(),[](auto& a, auto& b){ return a.first < b.first; });

	auto work = [&](int w) {
		slot = &sh->slots[w];
		g_scratch += fmt("/w%d",w);
		mkdir(g_scratch.c_str(),0700);
		std::string log = g_scratch + ".err";
		int fd = open(log.c_str(),O_WRONLY|O_CREAT|O_APPEND,0600);
		if(fd >= 0) { dup2(fd,2); dup2(fd,1); }
		if(init) init();
		slot->nhist = 0;
		while(!sh->stop) {
			uint64_t k = sh->next++;
			if(k >= plan.size() || (cap && now() - t0 > cap)) break;
			int fi = plan[k].second.first; uint64_t idx = plan[k].second.second;
			slot->facet = fi; slot->index = idx;
			if(slot->nhist < MAXHIST) slot->hist[slot->nhist] = (uint32_t)k;
			slot->nhist++;
			Src s(case_seed(seed,facets[fi],idx));
			Ctx c;
			int r = run_one(facets[fi],s,idx,w,&c);
			if(r == 1) { slot->active = 2; _exit(11); }
			sh->evaluations++;
			sh->per_facet[fi]++;
			if(r == 2) { sh->discards++; continue; }
			if(c.is_nontrivial) {
				sh->nontrivial++;
				sh->per_facet_nt[fi]++;
				uint64_t h = mix(c.nthash,fi+1); if(!h) h = 1;
				for(size_t p = h & (HASHSLOTS-1), n = 0; n < 4096; p = (p+1) & (HASHSLOTS-1), n++) {
					uint64_t e = 0;
					if(sh->hashes[p].compare_exchange_strong(e,h)) { sh->distinct++; break; }
					if(e == h) break;
				}
				// early samples of every facet
				if(sh->per_facet_nt[fi] <= 3 && !c.description.empty()) {
					int n = sh->nsamples++;
					if(n < (int)MAXSAMPLES) snprintf(sh->samples[n],2047,"[%s #%llu] %s",facets[fi].name.c_str(),(unsigned long long)idx,c.description.c_str());
				}
			}
		}
		_exit(0);
	};
	std::map<pid_t,int> pids;
	auto spawn = [&](int w) { fflush(nullptr); pid_t p = fork(); if(!p) work(w); if(p > 0) pids[p] = w; else { perror("fork"); exit(3); } };
	for(int w = 0; w < workers; w++) spawn(w);

	struct Found { int facet; uint64_t index; std::vector<uint64_t> choices; };
	std::vector<Found> found;
	int unreproduced = 0, killed = 0;
	std::vector<CaseId> vhist;
	std::string notes;
	std::string vmsg, vdesc; int vfacet = -1; std::vector<uint64_t> vchoices;
	while(!pids.empty()) {
		int st; pid_t p = wait(&st);
		if(p < 0) { if(errno == EINTR) continue; break; }
		auto it = pids.find(p);
		if(it == pids.end()) continue;
		int w = it->second;
		pids.erase(it);
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		SharedSlot* s = &sh->slots[w];
		if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // memory guard or the like
			notes += fmt("worker killed from outside in facet %s case %llu; ",facets[s->facet].name.c_str(),(unsigned long long)s->index);
			if(++killed < 20 && !sh->stop) spawn(w);
			continue;
		}
		if(WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr,"harness error in worker %d\n",w); std::ifstream log(g_scratch+fmt("/w%d.err",w)); std::stringstream ss; ss << log.rdbuf(); fputs(ss.str().c_str(),stderr); sh->stop = 1; rmtree(g_scratch); return 3; }
		if(vfacet >= 0) continue;
		// confirm three times in fresh processes before believing it
		std::vector<uint64_t> c(s->choices,s->choices+s->nchoices);
		const Facet& f = facets[s->facet];
		slot = &sh->slots[MAXWORKERS-1];
		int ok = 0;
		std::string m, d; std::vector<uint64_t> used;
		for(int i = 0; i < 3; i++) if(fails(f,c,&m,&used,&d)) ok++;
		if(ok == 3) {
			sh->stop = 1;
			vfacet = s->facet; vmsg = m; vdesc = d; vchoices = used;
		}
		else {
			unreproduced++;
			// it may depend on the cases the process ran before: replay ever longer ends of its history
			std::vector<CaseId> h;
			if(ok == 0 && unreproduced <= 4 && s->nhist <= MAXHIST)
				for(uint64_t i = 0; i < s->nhist; i++) h.push_back(plan[s->hist[i]].second);
			double hend = now() + 150;
			std::string hm, hd;
			for(size_t n = 4; !h.empty() && now() < hend; n *= 8) {
				std::vector<CaseId> tail(h.end()-std::min(n,h.size()),h.end());
				if(history_fails(facets,seed,tail,&hm,&hd) && history_fails(facets,seed,tail,&hm,&hd)) { vhist = tail; break; }
				if(n >= h.size()) break;
			}
			if(!vhist.empty()) {
				sh->stop = 1;
				for(size_t block = vhist.size()/2; block >= 1 && now() < hend; block /= 2)
					for(size_t i = 0; i + block < vhist.size() && now() < hend; ) {
						std::vector<CaseId> cnd = vhist;
						cnd.erase(cnd.begin()+i,cnd.begin()+i+block);
						if(history_fails(facets,seed,cnd,nullptr,nullptr)) vhist = cnd; else i += block;
					}
				history_fails(facets,seed,vhist,&vmsg,&vdesc);
				vfacet = s->facet;
				continue;
			}
			notes += fmt("unreproduced failure in facet %s case %llu (%d of 3): %s; ",f.name.c_str(),(unsigned long long)s->index,ok,s->msg[0] ? s->msg : m.c_str());
			if(unreproduced < 50 && !sh->stop) spawn(w);
		}
	}
	std::string replay_path;
	if(vfacet >= 0) {
		const Facet& f = facets[vfacet];
		std::string m0 = vmsg;
		bool hang = vmsg.compare(0,5,"hang:") == 0 || !vhist.empty();
		std::vector<uint64_t> orig = vchoices; std::string origdesc = vdesc;
		if(!hang) {
			vchoices = shrink(f,vchoices,vmsg,vdesc,g_thorough ? 90 : 45);
			std::string m; int ok = 0;
			for(int i = 0; i < 3; i++) if(fails(f,vchoices,&m,nullptr,&vdesc)) ok++;
			if(ok < 3) { vchoices = orig; vmsg = m0; vdesc = origdesc; }
		}
		mkdir(replaydir.c_str(),0755);
		replay_path = replaydir + "/" + property + "-" + f.name + ".replay";
		std::ofstream o(replay_path);
		o << "property: " << property << "\nfacet: " << f.name << "\nseed: " << seed << "\n" << (vhist.empty() ? "choices:" : "history:");
		for(uint64_t v : vchoices) o << ' ' << v;
		for(auto& v : vhist) o << ' ' << facets[v.first].name << '#' << v.second;
		o << "\n\ncase: " << vdesc << "\n\nfailure: " << vmsg << "\n\nbefore shrinking: " << m0 << "\n";
		o.close();
		printf("FAILURE in %s/%s\n  case: %s\n  %s\n",property.c_str(),f.name.c_str(),vdesc.substr(0,2000).c_str(),vmsg.c_str());
		printf("VIOLATION property=%s replay=%s\n",property.c_str(),replay_path.c_str());
	}
	if(!result.empty()) {
		std::ofstream o(result);
		o << "{\"evaluations\": " << sh->evaluations << ", \"planned\": " << plan.size() << ", \"discards\": " << sh->discards
		  << ", \"nontrivial\": " << sh->nontrivial << ", \"distinct_nontrivial\": " << sh->distinct
		  << ", \"unreproduced\": " << unreproduced << ", \"notes\": " << jstr(notes) << ", \"wall_s\": " << now()-t0 << ", \"facets\": {";
		for(size_t i = 0; i < facets.size(); i++)
			o << (i ? ", " : "") << jstr(facets[i].name) << ": {\"cases\": " << sh->per_facet[i] << ", \"nontrivial\": " << sh->per_facet_nt[i] << "}";
		o << "}, \"labels\": {";
		for(int i = 0; i < sh->nlabels; i++)
			o << (i ? ", " : "") << jstr(sh->labels[i].name) << ": " << sh->labels[i].count;
		o << "}, \"samples\": [";
		for(int i = 0; i < std::min<int>(sh->nsamples,MAXSAMPLES); i++)
			o << (i ? ", " : "") << jstr(sh->samples[i]);
		o << "], \"known\": [";
		for(int i = 0; i < sh->nknown; i++)
			o << (i ? ", " : "") << jstr(sh->known[i]);
		o << "], \"violation\": " << (vfacet >= 0 ? jstr(replay_path) : "null") << ", \"message\": " << (vfacet >= 0 ? jstr(vmsg) : "null") << "}\n";
	}
	rmtree(g_scratch);
	return vfacet >= 0 ? 1 : 0;
}

}
