// C26: histories of calls; each operation must give what it gives alone in a fresh process.
#include "ops.hpp"
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace pbt;
using ops::Op; using ops::Run;
static std::vector<Api> apis;

struct Child { bool ok = false; std::string why; std::vector<std::string> logs; std::string printed, bad; };
static const char SEP = '\x1e';

// runs the given operations, steps in the given order, in a fresh process
static Child fresh(Ctx& ctx, const Api& a, const std::vector<const Op*>& list, const std::vector<int>& order) {
	std::string out = ctx.scratch() + "/out", rep = ctx.scratch() + "/rep";
	fflush(nullptr);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(3); }
	if(!pid) {
		int fd = open(out.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0600);
		dup2(fd,1); dup2(fd,2);
		std::string r, bad;
		{
			std::vector<std::unique_ptr<Run>> runs;
			for(auto o : list) runs.emplace_back(new Run(a,*o));
			for(int i : order) runs[i]->step();
			for(auto& x : runs) { r += x->log + SEP; if(!x->bad.empty()) bad = x->bad; }
		}
		r += bad + SEP;
		fflush(nullptr);
		fd = open(rep.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
		size_t p = 0;
		while(p < r.size()) { ssize_t k = write(fd,r.data()+p,r.size()-p); if(k < 0) _exit(3); p += k; }
		_exit(0);
	}
	Child c; int st = 0;
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC,&t0);
	for(long wait = 100000;; wait = wait < 5000000 ? wait*2 : wait) {
		pid_t w = waitpid(pid,&st,WNOHANG);
		if(w == pid) break;
		if(w < 0 && errno != EINTR) { perror("waitpid"); exit(3); }
		clock_gettime(CLOCK_MONOTONIC,&t);
		if(t.tv_sec-t0.tv_sec > 60) { kill(pid,SIGKILL); waitpid(pid,&st,0); c.why = "did not end within 60 s"; return c; }
		timespec d = {0,wait}; nanosleep(&d,nullptr);
	}
	c.printed = ops::slurp_file(out);
	std::string r = ops::slurp_file(rep);
	unlink(out.c_str()); unlink(rep.c_str());
	if(!WIFEXITED(st) || WEXITSTATUS(st)) { c.why = fmt("ended with %s %d",WIFEXITED(st) ? "status" : "signal",WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)); return c; }
	size_t p = 0;
	while(p < r.size()) { size_t q = r.find(SEP,p); if(q == std::string::npos) break; c.logs.push_back(r.substr(p,q-p)); p = q+1; }
	if(c.logs.size() != list.size()+1) { fprintf(stderr,"report is incomplete\n"); exit(3); }
	c.bad = c.logs.back(); c.logs.pop_back();
	c.ok = true;
	return c;
}

static void history(Src& s, Ctx& ctx) {
	const Api& a = apis[s.pick(apis.size())];
	size_t n = 2+s.small(0,8);
	std::vector<Op> list; list.reserve(n);
	std::vector<const Op*> ptr;
	std::string what = a.name + ":";
	for(size_t i = 0; i < n; i++) {
		list.push_back(ops::make(s,40,ctx.scratch(),i,ptr));
		ptr.push_back(&list.back());
		what += " " + list.back().desc + ";";
	}
	ctx.desc(what);
	// the order of all steps: objects stay open while others are worked on
	std::vector<int> order; std::vector<size_t> left; size_t steps = 0;
	for(auto& o : list) { left.push_back(o.steps.size()); steps += o.steps.size(); }
	bool mixed = s.chance(70);
	size_t cur = 0;
	while(steps) {
		if(!left[cur]) cur = 0;
		if(!left[cur] || (mixed && s.chance(50))) { if(mixed) cur = s.pick(n); while(!left[cur]) cur = (cur+1)%n; }
		order.push_back((int)cur); left[cur]--; steps--;
	}
	for(auto& o : list) ops::write_file(o);
	struct Stat { std::string data; struct stat st; };
	auto snap = [&]() { std::vector<Stat> v; for(auto& o : list) { Stat x; memset(&x.st,0,sizeof x.st); if(!o.file.empty()) { stat(o.file.c_str(),&x.st); x.data = ops::slurp_file(o.file); } v.push_back(x); } return v; };
	std::vector<Stat> before = snap();
	struct Clean { const std::vector<Op>& l; ~Clean() { for(auto& o : l) if(!o.file.empty()) unlink(o.file.c_str()); } } clean{list};
	Child all = fresh(ctx,a,ptr,order);
	if(!all.ok) ctx.fail("the history " + all.why);
	PBT_CHECK(ctx,all.printed.empty(),"the library printed \"%s\"",all.printed.substr(0,2000).c_str());
	PBT_CHECK(ctx,all.bad.empty(),"%s",all.bad.c_str());
	std::vector<Stat> after = snap();
	for(size_t i = 0; i < n; i++) PBT_CHECK(ctx,before[i].data == after[i].data && before[i].st.st_mtim.tv_nsec == after[i].st.st_mtim.tv_nsec && before[i].st.st_mtim.tv_sec == after[i].st.st_mtim.tv_sec && before[i].st.st_mode == after[i].st.st_mode,"%s was changed",list[i].file.c_str());
	// leftovers: an unexpected file in the scratch directory would show as a file of a later "missing" name; covered by the fresh runs
	for(size_t i = 0; i < n; i++) {
		Child one = fresh(ctx,a,{ptr[i]},std::vector<int>(list[i].steps.size(),0));
		if(!one.ok) ctx.fail(list[i].desc + " alone " + one.why);
		PBT_CHECK(ctx,one.logs[0] == all.logs[i],"operation %zu, %s: in the history%s\nalone%s",i+1,list[i].desc.c_str(),all.logs[i].substr(0,3000).c_str(),one.logs[0].substr(0,3000).c_str());
	}
	ctx.label(mixed ? "interleaved" : "one after another");
	ctx.nontrivial(hash_bytes(what.data(),what.size(),order.size()));
}

int main(int argc, char** argv) {
	return main_(argc,argv,{
		{"history",history,25000,600000,300},
	},[]{ apis = load_apis(); });
}
