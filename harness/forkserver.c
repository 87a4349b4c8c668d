/*
 * Fork server around the Dictu CLI.
 *
 * The CLI's main() is compiled as dictu_main().  The client (vf/server.py)
 * sends one request per case over a pipe; every case runs in a fresh child
 * with its own stdin/stdout/stderr, working directory and CPU limit, so no
 * state of the interpreter leaks between cases.
 *
 * Request  : u32 argc, then argc * (u32 len, bytes), u32 stdin len, bytes,
 *            u32 cwd len, bytes, u32 cpu seconds, u32 wall milliseconds,
 *            u32 nenv, then nenv * (u32 len, bytes "NAME=value" or "NAME")
 * Response : i32 wait status (-1: wall limit hit, -2: memory limit hit),
 *            u32 stdout len, bytes, u32 stderr len, bytes, u32 peak memory in KB
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <grp.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int dictu_main(int argc, char **argv);

/* The embedding interface, used instead of the CLI when argv[0] is "dictu-api":
 * unlike the CLI it gives back the interpreter's memory after an error too. */
void *dictuInitVM(_Bool repl, int argc, char **argv);
int dictuInterpret(void *vm, char *moduleName, char *source);
void dictuFreeVM(void *vm);

static int api_main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL;
    if (!f) return 74;
    fseek(f, 0, SEEK_END);
    long size = ftell(f);
    rewind(f);
    char *source = malloc((size_t)size + 1);
    size = (long)fread(source, 1, (size_t)size, f);
    source[size] = 0;
    fclose(f);
    void *vm = dictuInitVM(0, argc - 1, argv + 1);
    int r = dictuInterpret(vm, argv[1], source);
    free(source);
    dictuFreeVM(vm);
    return r == 0 ? 0 : r == 1 ? 65 : 70;
}

static int reqfd, respfd;

static int readn(int fd, void *buf, size_t n) {
    char *p = buf;
    while (n) {
        ssize_t r = read(fd, p, n);
        if (r == 0) return 0;
        if (r < 0) { if (errno == EINTR) continue; return 0; }
        p += r; n -= (size_t)r;
    }
    return 1;
}

static void writen(int fd, const void *buf, size_t n) {
    const char *p = buf;
    while (n) {
        ssize_t r = write(fd, p, n);
        if (r < 0) { if (errno == EINTR) continue; _exit(3); }
        p += r; n -= (size_t)r;
    }
}

static uint32_t readu32(void) {
    uint32_t v;
    if (!readn(reqfd, &v, 4)) _exit(0);
    return v;
}

static char *readstr(uint32_t *lenp) {
    uint32_t len = readu32();
    char *s = malloc((size_t)len + 1);
    if (!s || (len && !readn(reqfd, s, len))) _exit(0);
    s[len] = 0;
    if (lenp) *lenp = len;
    return s;
}

static void sendfd(int fd, off_t limit) {
    off_t size = lseek(fd, 0, SEEK_END);
    if (size > limit) size = limit;
    uint32_t n = (uint32_t)size;
    writen(respfd, &n, 4);
    if (!n) return;
    char *buf = malloc(n);
    off_t off = 0;
    while (off < size) {
        ssize_t r = pread(fd, buf + off, (size_t)(size - off), off);
        if (r <= 0) break;
        off += r;
    }
    if (off < size) memset(buf + off, 0, (size_t)(size - off));
    writen(respfd, buf, n);
    free(buf);
}

static long rss_mb(pid_t pid) {
    char path[64], buf[128];
    snprintf(path, sizeof path, "/proc/%d/statm", (int)pid);
    FILE *f = fopen(path, "r");
    if (!f) return 0;
    long a = 0, b = 0;
    if (fgets(buf, sizeof buf, f)) sscanf(buf, "%ld %ld", &a, &b);
    fclose(f);
    return b * 4 / 1024;
}

static void on_alarm(int sig) { (void)sig; }

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: forkserver REQFD RESPFD\n"); return 2; }
    reqfd = atoi(argv[1]);
    respfd = atoi(argv[2]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct sigaction sa = {0};
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, NULL);

    for (;;) {
        uint32_t n = readu32();
        char **args = calloc(n + 1, sizeof(char *));
        for (uint32_t i = 0; i < n; i++) args[i] = readstr(NULL);
        uint32_t inlen;
        char *in = readstr(&inlen);
        char *cwd = readstr(NULL);
        uint32_t cpu = readu32();
        uint32_t wall = readu32();
        uint32_t nenv = readu32();
        char **envs = calloc(nenv + 1, sizeof(char *));
        for (uint32_t i = 0; i < nenv; i++) envs[i] = readstr(NULL);

        int infd = (int)syscall(SYS_memfd_create, "in", 0);
        int outfd = (int)syscall(SYS_memfd_create, "out", 0);
        int errfd = (int)syscall(SYS_memfd_create, "err", 0);
        if (inlen) { writen(infd, in, inlen); lseek(infd, 0, SEEK_SET); }

        fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            signal(SIGALRM, SIG_DFL);
            struct rlimit rl = { cpu, cpu + 1 };
            setrlimit(RLIMIT_CPU, &rl);
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(VF_ASAN)
            /* instrumented frames are several times as large as those of the program users run */
            struct rlimit st;
            getrlimit(RLIMIT_STACK, &st);
            if (st.rlim_cur != RLIM_INFINITY) {
                rlim_t want = st.rlim_cur * 6;
                st.rlim_cur = st.rlim_max != RLIM_INFINITY && st.rlim_max < want ? st.rlim_max : want;
                setrlimit(RLIMIT_STACK, &st);
            }
#endif
            struct rlimit fl = { 256u << 20, 256u << 20 };
            setrlimit(RLIMIT_FSIZE, &fl);
            struct rlimit cl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &cl);
            dup2(infd, 0); dup2(outfd, 1); dup2(errfd, 2);
            for (int fd = 3; fd < 64; fd++) close(fd);
            for (uint32_t i = 0; i < nenv; i++) {
                int mask, rows, cols, xp, yp;
                if (sscanf(envs[i], "VF_TTY=%d %d %d %d %d", &mask, &rows, &cols, &xp, &yp) == 5) {
                    /* the descriptors of the mask are a terminal of this size */
                    int mfd = posix_openpt(O_RDWR | O_NOCTTY);
                    if (mfd < 0 || grantpt(mfd) != 0 || unlockpt(mfd) != 0) _exit(123);
                    int sfd = open(ptsname(mfd), O_RDWR | O_NOCTTY);
                    struct winsize w = { (unsigned short)rows, (unsigned short)cols, (unsigned short)xp, (unsigned short)yp };
                    if (sfd < 0 || ioctl(sfd, TIOCSWINSZ, &w) != 0) _exit(124);
                    dup2(mfd, 100); close(mfd);
                    for (int fd = 0; fd < 3; fd++) if (mask >> fd & 1) dup2(sfd, fd);
                    close(sfd);
                }
            }
            if (chdir(cwd) != 0) _exit(121);
            for (uint32_t i = 0; i < nenv; i++) {
                if (strncmp(envs[i], "VF_TTY=", 7) == 0) continue;
                if (strncmp(envs[i], "VF_UID=", 7) == 0) {
                    /* programs that create, rename and delete files reach nothing but their own */
                    uid_t u = (uid_t)atoi(envs[i] + 7);
                    if (setgroups(0, NULL) != 0 || setgid(u) != 0 || setuid(u) != 0) _exit(122);
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    umask(002);
                    struct rlimit nf = { 128, 128 };
                    setrlimit(RLIMIT_NOFILE, &nf);
                    continue;
                }
                if (strchr(envs[i], '=')) putenv(envs[i]); else unsetenv(envs[i]);
            }
            if (n && strcmp(args[0], "dictu-api") == 0) exit(api_main((int)n, args));
            exit(dictu_main((int)n, args));
        }
        setpgid(pid, pid);

        int status = 0, timed_out = 0;
        struct rusage ru;
        memset(&ru, 0, sizeof ru);
        struct timespec t0, now;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        struct itimerval itv = { {0, 50000}, {0, 50000} };
        setitimer(ITIMER_REAL, &itv, NULL);
        for (;;) {
            pid_t r = wait4(pid, &status, 0, &ru);
            if (r == pid) break;
            if (r < 0 && errno == EINTR) {
                clock_gettime(CLOCK_MONOTONIC, &now);
                long ms = (now.tv_sec - t0.tv_sec) * 1000 + (now.tv_nsec - t0.tv_nsec) / 1000000;
                if (ms >= (long)wall) timed_out = -1;
                else if (rss_mb(pid) > 3000) timed_out = -2;
                if (timed_out) { kill(-pid, SIGKILL); kill(pid, SIGKILL); while (waitpid(pid, &status, 0) < 0 && errno == EINTR); break; }
            } else if (r < 0) break;
        }
        struct itimerval off = { {0, 0}, {0, 0} };
        setitimer(ITIMER_REAL, &off, NULL);
        kill(-pid, SIGKILL); /* nothing a case started survives it */

        int32_t st = timed_out ? timed_out : status;
        writen(respfd, &st, 4);
        sendfd(outfd, 64 << 20);
        sendfd(errfd, 4 << 20);
        uint32_t maxrss = (uint32_t)ru.ru_maxrss;
        writen(respfd, &maxrss, 4);
        close(infd); close(outfd); close(errfd);
        for (uint32_t i = 0; i < n; i++) free(args[i]);
        free(args);
        for (uint32_t i = 0; i < nenv; i++) free(envs[i]);
        free(envs);
        free(in); free(cwd);
    }
}
