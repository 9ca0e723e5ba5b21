#pragma once
#include <string.h>
int strcasecmp(const char*, const char*); int strncasecmp(const char*, const char*, size_t);
