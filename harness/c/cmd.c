/* A command whose end is decided from outside.  Its name is the last part of its first argument (or of its own path).
   VERIF_CMDDIR/log: "S name", "E name status", "T name" (terminated), "L name" (nobody decided within a minute), one
   write() per line.  It ends when VERIF_CMDDIR/go-name exists: its content is the exit status, or K to be killed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
static char name[300], logp[4200];
static void say(const char *what, const char *rest)
{
    char b[700];
    int n = snprintf(b, sizeof b, "%s %s%s\n", what, name, rest), fd = open(logp, O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0 || write(fd, b, n) != n) _exit(125);
    close(fd);
}
static void term(int s) { (void)s; say("T", ""); _exit(143); }
int main(int argc, char **argv)
{
    sigset_t m;
    char go[4600], b[40], e[60];
    const char *d = getenv("VERIF_CMDDIR"), *p = argc > 1 ? argv[1] : argv[0], *q = strrchr(p, '/');
    sigemptyset(&m); sigaddset(&m, SIGTERM);
    sigprocmask(SIG_BLOCK, &m, NULL);
    snprintf(name, sizeof name, "%s", q ? q + 1 : p);
    if (!d) return 125;
    snprintf(logp, sizeof logp, "%s/log", d);
    snprintf(go, sizeof go, "%s/go-%s", d, name);
    signal(SIGTERM, term);
    say("S", "");
    sigprocmask(SIG_UNBLOCK, &m, NULL);
    for (int i = 0; i < 20000; i++) {
        struct timespec t = { 0, 3000000 };
        int fd = open(go, O_RDONLY), n;
        if (fd >= 0) {
            n = read(fd, b, sizeof b - 1);
            close(fd);
            if (n > 0) {
                b[n] = 0;
                sigprocmask(SIG_BLOCK, &m, NULL);
                snprintf(e, sizeof e, " %s", *b == 'K' ? "137" : b);
                say("E", e);
                if (*b == 'K') { kill(getpid(), SIGKILL); pause(); }
                _exit(atoi(b));
            }
        }
        nanosleep(&t, NULL);
    }
    say("L", "");
    return 124;
}
