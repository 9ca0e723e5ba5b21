// Comparison of complete result lists with the model.
#pragma once
#include "gen.hpp"

inline void check_dim(pbt::Ctx& ctx, const std::string& who, const char* dim, const ResList& got, const model::Dim& m, size_t length) {
	PBT_CHECK(ctx,!got.empty() && got.back().index == length && got.back().confidence == -1,"%s %s: last entry is not the given size: %s",who.c_str(),dim,str(got).c_str());
	size_t n = m.any ? m.last-m.first : 0;
	PBT_CHECK(ctx,got.size() == n+1,"%s %s: %zu entries at threshold 0, expected %zu: %s",who.c_str(),dim,got.size(),n+1,str(got).c_str());
	std::vector<char> seen(length+1,0);
	for(size_t i = 0; i+1 < got.size(); i++) {
		size_t x = got[i].index; double c = got[i].confidence;
		PBT_CHECK(ctx,m.any && x >= m.first && x < m.last && !seen[x],"%s %s: index %zu outside [%zu,%zu) or repeated",who.c_str(),dim,x,m.first,m.last);
		seen[x] = 1;
		const model::Interval& e = m.conf[x-m.first];
		PBT_CHECK(ctx,c >= e.lo-2e-6 && c <= e.hi+2e-6,"%s %s: confidence of %zu is %.9g, model says [%.9g,%.9g]",who.c_str(),dim,x,c,e.lo,e.hi);
	}
}

