/* Stand-in for AIX's <sys/vminfo.h>: the accelerated compression calls. */
#ifndef FAKE_VMINFO_H
#define FAKE_VMINFO_H
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
int accel_compress(void *in, size_t ilen, void *out, size_t *olen, int flags);
int accel_decompress(void *in, size_t ilen, void *out, size_t *olen, int flags);
#endif
