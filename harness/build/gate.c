// LD_PRELOAD: every file operation below GATE_ROOT waits for the scheduler at GATE_SOCK.
// The scheduler answers with a byte: 'g' go on, 'k' die here, 'e' fail with EIO.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static __thread int sock = -1;

static int gate(const char* op, const char* path)
{
    const char *root = getenv("GATE_ROOT"), *addr = getenv("GATE_SOCK");
    if (!root || !addr || !path || strncmp(path, root, strlen(root)))
        return 0;
    int keep = errno;
    if (sock < 0)
    {
        struct sockaddr_un a = { .sun_family = AF_UNIX };
        strncpy(a.sun_path, addr, sizeof a.sun_path - 1);
        sock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (sock < 0 || connect(sock, (struct sockaddr*)&a, sizeof a))
            _exit(99);
    }
    char msg[4096];
    int n = snprintf(msg, sizeof msg, "%s %d %s %s %s\n", getenv("GATE_ID"), (int)getpid(), program_invocation_short_name, op, path);
    char c = 0;
    if (write(sock, msg, (size_t)n) != n || read(sock, &c, 1) != 1)
        _exit(98);
    if (c == 'k')
        kill(getpid(), SIGKILL);
    errno = keep;
    return c == 'e';
}

#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define FAIL(op, path) if (gate(op, path)) { errno = EIO; return -1; }

int open(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }
    REAL(open);
    FAIL((flags & O_ACCMODE) == O_RDONLY ? "read" : "write", path)
    return real(path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }
    REAL(open64);
    FAIL((flags & O_ACCMODE) == O_RDONLY ? "read" : "write", path)
    return real(path, flags, mode);
}
FILE* fopen(const char* path, const char* mode)
{
    REAL(fopen);
    if (gate(mode[0] == 'r' ? "read" : "write", path)) { errno = EIO; return NULL; }
    return real(path, mode);
}
int stat(const char* path, struct stat* st) { REAL(stat); FAIL("stat", path) return real(path, st); }
int rename(const char* a, const char* b) { REAL(rename); FAIL("rename", b) return real(a, b); }
int unlink(const char* path) { REAL(unlink); FAIL("unlink", path) return real(path); }
int chmod(const char* path, mode_t m) { REAL(chmod); FAIL("chmod", path) return real(path, m); }

// All builders start in the same microsecond when the scheduler says so.
int gettimeofday(struct timeval* tv, void* tz)
{
    const char* fixed = getenv("GATE_CLOCK");
    if (fixed && tv) { tv->tv_sec = 1700000000; tv->tv_usec = atoi(fixed); return 0; }
    int (*real)(struct timeval*, void*) = (int (*)(struct timeval*, void*))dlsym(RTLD_NEXT, "gettimeofday");
    return real(tv, tz);
}
