#pragma once
#define assert(x) ((x) ? (void)0 : __builtin_trap())
