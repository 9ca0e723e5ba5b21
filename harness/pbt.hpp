// Choice-sequence property-based testing engine.
//
// Every random decision of a case is drawn from a Src, which records it. A case
// is therefore a list of integers: it is replayed by feeding the list back, and
// shrunk by deleting, zeroing and lowering entries of it (smaller choices are
// simpler by construction). Cases run in forked workers, so that crashes,
// sanitizer reports and hangs are failures like any other, with their choices
// recovered from shared memory.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

// splitmix64; used both for case seeds and for bulk data derived from one recorded choice
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	double unit() { return (next() >> 11) * (1.0/9007199254740992.0); }
	double gauss();
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull)); r.next(); return r.next(); }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

class Src {
public:
	Src(uint64_t seed);                                 // generate
	Src(const std::vector<uint64_t>& choices);          // replay
	uint64_t upto(uint64_t max);                        // uniform in [0,max]
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)upto((uint64_t)(hi - lo)); }
	bool chance(int percent) { return upto(99) >= (uint64_t)(100 - percent); }   // 0 -> false
	size_t pick(size_t n) { return n ? (size_t)upto(n-1) : 0; }
	template<class T> const T& of(const std::vector<T>& v) { return v[pick(v.size())]; }
	size_t weighted(const std::vector<int>& w);         // index by weight
	int64_t small(int64_t lo, int64_t hi);              // biased to lo, still covering hi
	Rng bulk() { return Rng(upto(0xffffffffull)); }     // data stream fixed by one choice
	size_t count() const;
private:
	Rng rng; const std::vector<uint64_t>* replay; size_t pos;
};

class Ctx {
public:
	void label(const std::string& name);                // classification counter
	void nontrivial(uint64_t distinct_hash);            // this case counts as non-trivial
	void desc(const std::string& s);                    // description for samples and replay files (appends)
	[[noreturn]] void fail(const std::string& msg);
	void check(bool ok, const std::string& msg) { if(!ok) fail(msg); }
	// a failure matching a listed known finding: recorded and tolerated when listed, else a failure
	void known(const std::string& id, const std::string& msg);
	const std::string& scratch() const;                 // per-worker scratch directory
	bool thorough() const;
	uint64_t case_index = 0;
	int worker = 0;
	bool is_nontrivial = false; uint64_t nthash = 0; std::string description;
};

struct Facet {
	std::string name;
	std::function<void(Src&,Ctx&)> run;
	int quick;      // number of cases, quick tier
	int thorough;   // number of cases, thorough tier
	int max_cpu_s = 60; // CPU time of one case above which it is a hang
};

std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));

// runs all facets; implements --seed --tier --workers --result --replay --replay-dir --known --property
extern bool limited; // whether main_ limits the address space
int main_(int argc, char** argv, const std::vector<Facet>& facets, const std::function<void()>& worker_init = nullptr);

}
#define PBT_CHECK(ctx, cond, ...) do { if(!(cond)) (ctx).fail(std::string(#cond " failed: ") + pbt::fmt(__VA_ARGS__)); } while(0)
