// LD_PRELOAD: the VT_FAULT-th write to a regular file (counted from 0) fails, is cut short, or is the last thing this process does
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <stdio.h>
static long cnt, at = -2;
static char mode; static double part;
ssize_t write(int fd, const void *p, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    struct stat st;
    if (n == 0 || fd < 3 || fstat(fd, &st) || !S_ISREG(st.st_mode)) return real(fd, p, n);
    if (at == -2) { const char *e = getenv("VT_FAULT"); at = -1; if (e) sscanf(e, "%ld:%c:%lf", &at, &mode, &part); }
    if (cnt++ != at) return real(fd, p, n);
    size_t k = (size_t)(n * part);
    switch (mode) {
        case 'E': errno = ENOSPC; return -1;                                    // fails, all of it
        case 'S': if (k == 0) k = 1; return real(fd, p, k);                     // short, the rest can be written
        case 'F': if (k == 0) { errno = ENOSPC; return -1; } at = cnt; mode = 'E'; return real(fd, p, k); // short, then full
        case 'C': if (k) real(fd, p, k); _exit(77);                             // the power goes
    }
    return real(fd, p, n);
}
