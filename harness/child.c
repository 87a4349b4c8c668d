/* A program for Process to start: does what its first argument says. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *note;

static void append(const char *path, const char *text) {
    int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0666);
    if (fd < 0 || write(fd, text, strlen(text)) < 0) _exit(99);
    close(fd);
}

static void on_signal(int s) {
    char b[32];
    snprintf(b, sizeof b, "got %d", s);
    append(note, b);
    _exit(0);
}

static void all(int fd, const unsigned char *p, size_t n) {
    while (n) {
        ssize_t r = write(fd, p, n);
        if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(98); }
        p += r; n -= (size_t)r;
    }
}

int main(int argc, char **argv) {
    alarm(20);
    const char *what = argc > 1 ? argv[1] : "args";
    if (!strcmp(what, "args")) {                    /* every argument, in hex */
        printf("%d\n", argc);
        for (int i = 0; i < argc; i++) {
            for (const unsigned char *p = (unsigned char *)argv[i]; *p; p++) printf("%02x", *p);
            printf("\n");
        }
    } else if (!strcmp(what, "gen")) {              /* gen BYTES SEED CHUNK EXIT PAUSE_US: every third chunk to stderr */
        long n = atol(argv[2]), seed = atol(argv[3]), chunk = atol(argv[4]);
        unsigned char *b = malloc((size_t)n + 1);
        for (long i = 0; i < n; i++) b[i] = (unsigned char)(i * 7 + i / 251 + seed);
        int k = 0;
        for (long i = 0; i < n; i += chunk, k++) {
            all(k % 3 == 2 ? 2 : 1, b + i, (size_t)(n - i < chunk ? n - i : chunk));
            if (atol(argv[6])) usleep((useconds_t)atol(argv[6]));
        }
        return atoi(argv[5]);
    } else if (!strcmp(what, "say")) {              /* say TEXT EXIT */
        fputs(argv[2], stdout);
        fflush(stdout);
        return atoi(argv[3]);
    } else if (!strcmp(what, "sig")) {
        signal(atoi(argv[2]), SIG_DFL);
        raise(atoi(argv[2]));
    } else if (!strcmp(what, "env")) {
        const char *v = getenv(argv[2]);
        printf("%s", v ? v : "<unset>");
    } else if (!strcmp(what, "environ")) {          /* the whole environment, in hex */
        extern char **environ;
        for (char **e = environ; *e; e++) {
            for (const unsigned char *p = (unsigned char *)*e; *p; p++) printf("%02x", *p);
            printf("\n");
        }
        printf(".");
    } else if (!strcmp(what, "cwd")) {
        char b[4096];
        printf("%s", getcwd(b, sizeof b) ? b : "?");
    } else if (!strcmp(what, "append")) {           /* append FILE TEXT DELAY_MS */
        usleep((useconds_t)atoi(argv[4]) * 1000);
        append(argv[2], argv[3]);
    } else if (!strcmp(what, "wait")) {             /* wait FILE SIZE: until it has that many bytes */
        struct stat st;
        for (int i = 0; i < 5000; i++) {
            if (stat(argv[2], &st) == 0 && st.st_size >= atol(argv[3])) return 0;
            usleep(2000);
        }
        return 9;
    } else if (!strcmp(what, "target")) {           /* target PIDFILE NOTE: waits for a signal and notes which */
        note = argv[3];
        for (int s = 1; s < 32; s++) if (s != SIGALRM && s != SIGCHLD) signal(s, on_signal);
        char b[32];
        snprintf(b, sizeof b, "%08d", (int)getpid());
        append(argv[2], b);
        for (;;) pause();
    } else if (!strcmp(what, "dead")) {             /* dead PID: until the process has ended */
        char p[64], b[256];
        snprintf(p, sizeof p, "/proc/%d/stat", atoi(argv[2]));
        for (int i = 0; i < 5000; i++) {
            FILE *f = fopen(p, "r");
            if (!f) return 0;
            size_t r = fread(b, 1, sizeof b - 1, f);
            fclose(f);
            b[r] = 0;
            char *q = strrchr(b, ')');
            if (!q || q[2] == 'Z' || q[2] == 'X') return 0;
            usleep(2000);
        }
        return 9;
    }
    return 0;
}
