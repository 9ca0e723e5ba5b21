// Damage to file bytes.
#pragma once
#include "files.hpp"
#include <cstring>

namespace mutate {
using pbt::Src; using pbt::fmt;

inline std::string number(Src& s) {
	static const char* const n[] = {"0","1","-1","2","255","256","65535","65536","2147483647","2147483648","4294967295","4294967296","4294967297","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","99999999999999999999","1e3","nan","inf","0x10","00000000000000000001","+5","","536870912","1073741824","3037000500","6074001000","46341","65537","13107200000","4611686018427387904","2305843009213693952","1152921504606846976"};
	return s.chance(80) ? n[s.pick(sizeof n/sizeof *n)] : std::to_string(s.upto(100000));
}
// returns the first byte that differs
inline size_t once(Src& s, std::string& d, std::string& what) {
	if(d.empty()) { d += (char)s.upto(255); return 0; }
	size_t head = std::min<size_t>(d.size(),90);
	size_t p = s.chance(55) ? s.pick(head) : s.pick(d.size());
	switch(s.pick(10)) {
		case 0: d[p] ^= (char)(1 << s.upto(7)); what += fmt(" bit@%zu",p); return p;
		case 1: d[p] = (char)s.upto(255); what += fmt(" byte@%zu",p); return p;
		case 2: { size_t n = 1+s.upto(8); std::string x; for(size_t i = 0; i < n; i++) x += (char)(s.chance(50) ? "0123456789 \n#PF-.WHC"[s.pick(20)] : s.upto(255)); d.insert(p,x); what += fmt(" insert%zu@%zu",n,p); return p; }
		case 3: { size_t n = 1+s.upto(15); d.erase(p,n); what += fmt(" erase%zu@%zu",n,p); return p; }
		case 4: d.resize(p); what += fmt(" cut@%zu",p); return p;
		case 5: { // replace a decimal number near the front
			size_t a = p; while(a < d.size() && !isdigit((unsigned char)d[a])) a++;
			if(a == d.size()) { d[p] = 0; return p; }
			while(a && isdigit((unsigned char)d[a-1])) a--;
			size_t b = a; while(b < d.size() && isdigit((unsigned char)d[b])) b++;
			std::string n = number(s);
			d.replace(a,b-a,n); what += fmt(" number@%zu=%s",a,n.c_str()); return a;
		}
		case 6: { size_t n = 1+s.upto(63), q = s.pick(d.size()); std::string x = d.substr(q,n); d.insert(p,x); what += fmt(" copy%zu@%zu>%zu",n,q,p); return p; }
		case 7: { // big-endian field
			static const uint32_t v[] = {0,1,0x7fffffff,0x80000000u,0xffffffffu,0x10000,0xffff,65500,0x7fff,256};
			uint32_t x = v[s.pick(10)]; size_t n = s.chance(50) ? 4 : 2;
			for(size_t i = 0; i < n && p+i < d.size(); i++) d[p+i] = (char)(x >> (8*(n-1-i)));
			what += fmt(" field%zu@%zu=%x",n,p,x); return p;
		}
		case 8: { size_t n = 1+s.upto(40); char c = (char)s.of(std::vector<int>{0,255,' ','\n','0','9',0x80}); for(size_t i = 0; i < n && p+i < d.size(); i++) d[p+i] = c; what += fmt(" fill%zu@%zu",n,p); return p; }
		default: { size_t n = 1+s.upto(30); std::string x(n,"9 0\n#"[s.pick(5)]); d.insert(p,x); what += fmt(" run%zu@%zu",n,p); return p; }
	}
}
}
