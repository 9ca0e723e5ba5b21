// C20: several threads, each with its own objects. Every case runs in a fresh process; built with
// ThreadSanitizer (stage 1), and without for the results with both transform backends (stage 2).
#include "ops.hpp"
#include <atomic>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <sched.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace pbt;
using ops::Op; using ops::Run;
static std::vector<Api> apis;

struct Program { std::vector<Op> ops; std::vector<int> order; bool yields; };

// runs a thread's operations with their steps interleaved as drawn
static void execute(const Api& a, const Program& p, std::vector<std::string>& logs, std::string& bad) {
	std::vector<std::unique_ptr<Run>> runs;
	for(auto& o : p.ops) runs.emplace_back(new Run(a,o));
	for(int i : p.order) { runs[i]->step(); if(p.yields) sched_yield(); }
	for(auto& r : runs) { logs.push_back(r->log); if(!r->bad.empty()) bad = r->bad; }
}

static std::string child(const Api& a, const std::vector<Program>& progs) {
	size_t n = progs.size();
	std::vector<std::vector<std::string>> got(n), alone(n); std::vector<std::string> bad(n);
	std::atomic<int> ready(0);
	std::vector<std::thread> t;
	for(size_t i = 0; i < n; i++) t.emplace_back([&,i]{
		ready.fetch_add(1,std::memory_order_relaxed); // no synchronisation that would hide a race
		while(ready.load(std::memory_order_relaxed) < (int)n) sched_yield();
		execute(a,progs[i],got[i],bad[i]);
	});
	for(auto& x : t) x.join();
	for(size_t i = 0; i < n; i++) {
		if(!bad[i].empty()) return bad[i];
		execute(a,progs[i],alone[i],bad[i]);
		for(size_t k = 0; k < alone[i].size(); k++) if(got[i][k] != alone[i][k])
			return fmt("thread %zu, %s: concurrently%s\nalone%s",i+1,progs[i].ops[k].desc.c_str(),got[i][k].substr(0,3000).c_str(),alone[i][k].substr(0,3000).c_str());
	}
	return "";
}

static void threads(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t n = 2+s.small(0,4), total = 0;
	std::vector<Program> progs(n);
	std::vector<const Op*> earlier;
	std::string what = a.name + ":";
	bool same_kind = s.chance(30); size_t index = 0;
	for(auto& p : progs) p.ops.reserve(6);
	for(size_t i = 0; i < n; i++) {
		Program& p = progs[i];
		size_t m = 1+s.small(0,3);
		if(i && same_kind) { p.ops = progs[0].ops; m = p.ops.size(); } // everybody does the same
		else for(size_t k = 0; k < m; k++) { p.ops.push_back(ops::make(s,40,ctx.scratch(),index++,earlier)); earlier.push_back(&p.ops.back()); }
		std::vector<size_t> left; size_t steps = 0;
		for(auto& o : p.ops) { left.push_back(o.steps.size()); steps += o.steps.size(); }
		total += steps;
		size_t cur = 0;
		while(steps) {
			if(!left[cur] || s.chance(40)) { cur = s.pick(m); while(!left[cur]) cur = (cur+1)%m; }
			p.order.push_back((int)cur); left[cur]--; steps--;
		}
		p.yields = s.chance(50);
		what += fmt(" [%zu]",i+1);
		for(auto& o : p.ops) what += " " + o.desc + ";";
	}
	ctx.desc(what);
	for(auto& p : progs) for(auto& o : p.ops) ops::write_file(o);
	std::string report = ctx.scratch() + "/report", err = ctx.scratch() + "/err";
	fflush(nullptr);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(3); }
	if(!pid) {
		int fd = open(err.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
		dup2(fd,2);
		std::string m = child(a,progs);
		fd = open(report.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
		if(write(fd,m.data(),m.size()) < 0) _exit(3);
		_exit(m.empty() ? 0 : 1);
	}
	int st = 0;
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC,&t0);
	for(long wait = 200000;; wait = wait < 5000000 ? wait*2 : wait) {
		pid_t w = waitpid(pid,&st,WNOHANG);
		if(w == pid) break;
		if(w < 0 && errno != EINTR) { perror("waitpid"); exit(3); }
		clock_gettime(CLOCK_MONOTONIC,&t);
		if(t.tv_sec-t0.tv_sec > 120) { kill(pid,SIGKILL); waitpid(pid,&st,0); ctx.fail("the threads did not end within 120 s"); }
		timespec d = {0,wait}; nanosleep(&d,nullptr);
	}
	std::string e = ops::slurp_file(err), m = ops::slurp_file(report);
	unlink(err.c_str()); unlink(report.c_str());
	for(auto& p : progs) for(auto& o : p.ops) if(!o.file.empty()) unlink(o.file.c_str());
	if(WIFEXITED(st) && WEXITSTATUS(st) == 99) ctx.fail("race: " + e.substr(0,4000));
	if(WIFEXITED(st) && WEXITSTATUS(st) == 1 && !m.empty()) ctx.fail(m);
	if(!WIFEXITED(st) || WEXITSTATUS(st)) ctx.fail(fmt("the process ended with %s %d: ",WIFEXITED(st) ? "status" : "signal",WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)) + e.substr(0,3000));
	ctx.label(fmt("%zu threads",n));
	if(same_kind) ctx.label("the same in all threads");
	if(total > n) ctx.nontrivial(hash_bytes(what.data(),what.size(),total));
}

int main(int argc, char** argv) {
	bool plain = getenv("C20_PLAIN");
	return main_(argc,argv,{
		{"threads",threads,plain ? 20000 : 6000,plain ? 400000 : 150000,600},
	},[]{
		apis = load_apis();
		for(const char* n : {"libfftw3f_threads.so.3"}) if(void* h = dlopen(n,RTLD_NOW|RTLD_GLOBAL))
			if(auto f = (void(*)())dlsym(h,"fftwf_make_planner_thread_safe")) f(); // as documented
	});
}
