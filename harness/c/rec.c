/* Records an execution: its arguments when it starts, and that it ends.  One write() per record to a file
   opened with O_APPEND.  Record: "S"/"E" pid nanoseconds [argc, then for every argument its length and bytes].
   An argument containing "fail" makes it fail (status 1, 77 or 255, or killed by a signal, as the arguments add up), one containing "sleepN" makes
   it sleep N tens of milliseconds. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
static long long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
int main(int argc, char **argv)
{
    const char *log = getenv("VERIF_EXECLOG");
    size_t n = 128; unsigned sum = 0; int i, fail = 0, fd; long nap = 0;
    for (i = 0; i < argc; i++) {
        char *s;
        n += strlen(argv[i]) + 24;
        for (s = argv[i]; i && *s; s++) sum += (unsigned char)*s;
        if (i && strstr(argv[i], "fail")) fail = 1;
        if (i && (s = strstr(argv[i], "sleep"))) nap = atol(s + 5);
        if (i && strstr(argv[i], "ignoreterm")) signal(SIGTERM, SIG_IGN);
    }
    char *buf = malloc(n), *p = buf;
    p += sprintf(p, "S %d %lld %d", (int)getpid(), now(), argc);
    for (i = 0; i < argc; i++) {
        size_t l = strlen(argv[i]);
        p += sprintf(p, " %zu ", l);
        memcpy(p, argv[i], l); p += l;
    }
    *p++ = '\n';
    if (log) {
        fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666);
        if (fd < 0 || write(fd, buf, p - buf) != p - buf) _exit(125);
    }
    if (getenv("VERIF_RECOUT")) {          /* some output of its own, in two writes */
        printf("<%d", argc); fflush(stdout); printf(">\n"); fflush(stdout);
    }
    if (nap > 0) { struct timespec t = { nap / 100, (nap % 100) * 10000000L }; nanosleep(&t, NULL); }
    if (log) {
        int l = sprintf(buf, "E %d %lld 0\n", (int)getpid(), now());
        if (write(fd, buf, l) != l) _exit(125);
    }
    if (!fail) return 0;
    switch (sum % 5) {
    case 0: signal(SIGTERM, SIG_DFL); raise(SIGTERM); break;
    case 1: raise(SIGKILL); break;
    case 2: return 77;
    case 3: return 255;
    }
    return 1;
}
