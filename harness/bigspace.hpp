// While it lives, more address space may be used than main_ allows, and pages of new allocations are left untouched.
#pragma once
#include <cstdlib>
#include <malloc.h>
#include <sys/resource.h>
struct BigSpace {
	rlimit old;
	explicit BigSpace(rlim_t bytes = 40ull << 30) {
		getrlimit(RLIMIT_AS,&old);
		rlimit l = old; l.rlim_cur = bytes < old.rlim_max ? bytes : old.rlim_max;
		setrlimit(RLIMIT_AS,&l);
		mallopt(M_PERTURB,0);
	}
	~BigSpace() {
		const char* p = getenv("MALLOC_PERTURB_");
		mallopt(M_PERTURB,p ? atoi(p) : 0);
		setrlimit(RLIMIT_AS,&old);
	}
	BigSpace(const BigSpace&) = delete;
};
