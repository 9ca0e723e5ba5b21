#pragma once
extern int errno;
#define ENOENT 2
#define EINTR 4
#define EIO 5
#define EAGAIN 11
#define ENOMEM 12
#define EINVAL 22
#define ENOSPC 28
#define ESPIPE 29
#define ERANGE 34
#define EOVERFLOW 75
