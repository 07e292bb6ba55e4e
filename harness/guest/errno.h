#ifndef GUEST_ERRNO_H
#define GUEST_ERRNO_H
extern int errno;
#define EINVAL 22
#endif
