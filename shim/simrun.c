/* simrun CONF OUT SHIM PROG ARGS...: runs PROG under the simulator, with a fixed address-space layout where allowed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int c, char **v) {
    if (c < 5) return 99;
    personality(ADDR_NO_RANDOMIZE);
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    char a[4096], b[4096], s[4096];
    snprintf(a, sizeof a, "SIM_CONF=%s", v[1]); snprintf(b, sizeof b, "SIM_OUT=%s", v[2]); snprintf(s, sizeof s, "LD_PRELOAD=%s", v[3]);
    char *env[] = { a, b, s, "PATH=/usr/bin:/bin", "HOME=/home/sim", "LANG=C.UTF-8", "MALLOC_ARENA_MAX=1", 0 };
    execve(v[4], v + 4, env);
    perror("simrun"); return 99;
}
