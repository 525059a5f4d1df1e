/* read() of one file (FAULT_PATH) delivers FAULT_AT bytes and then fails with EIO */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
static long given;
ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    const char *p = getenv("FAULT_PATH");
    struct stat a, b;
    if (p && fstat(fd, &a) == 0 && stat(p, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) {
        long at = atol(getenv("FAULT_AT"));
        if (given >= at) { errno = EIO; return -1; }
        if ((long)n > at - given) n = at - given;
        ssize_t r = real(fd, buf, n);
        if (r > 0) given += r;
        return r;
    }
    return real(fd, buf, n);
}
