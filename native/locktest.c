/* locktest CONF MODE NAME ITERATIONS WAIT HOLDUS DIEPCT SHARED
 * Takes and releases a lock with the library's functions; a word of the
 * shared file holds the process in the locked section.
 * Prints: one line per event group; "VIOLATION ..." when two are inside. */
#include "fidogate.h"
#include <signal.h>
#include <sys/mman.h>
#include <stdatomic.h>
#include <sys/wait.h>

struct sh { _Atomic int owner; _Atomic long inside, fails, deaths, takeover, viol, errs; };

int main(int argc, char **argv)
{
    if (argc < 9) return 2;
    char *mode = argv[2], *name = argv[3];
    int iter = atoi(argv[4]), wait = atoi(argv[5]), hold = atoi(argv[6]), die = atoi(argv[7]);
    Node node;
    cf_initialize();
    cf_read_config_file(argv[1]);
    asc_to_node("2:5030/7.3", &node, FALSE);
    int fd = open(argv[8], O_RDWR);
    if (fd < 0) return 3;
    struct sh *s = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (s == MAP_FAILED) return 3;
    int me = getpid(), bad = 0;
    srand(me * 7919);
    for (int i = 0; i < iter; i++) {
        int r = *mode == 'p' ? lock_program(name, wait) : *mode == 'f' ? lock_path(name, wait) :
            bink_bsy_create(&node, wait);
        if (r == ERROR) {
            s->fails++;
            if (wait < 0) s->errs++;
            usleep(rand() % 300);
            continue;
        }
        int z = 0;
        if (!atomic_compare_exchange_strong(&s->owner, &z, me)) {
            if (kill(z, 0) == 0) {
                fprintf(stdout, "VIOLATION %d got the lock while %d was inside\n", me, z);
                s->viol++; bad = 1;
            } else
                s->takeover++;
            s->owner = me;
        }
        s->inside++;
        if (hold) usleep(rand() % hold);
        if (s->owner != me) {
            fprintf(stdout, "VIOLATION %d inside together with %d\n", me, (int)s->owner);
            s->viol++; bad = 1;
        }
        if (die && rand() % 100 < die) {
            s->deaths++;
            fflush(stdout);
            raise(SIGKILL);
        }
        z = me;
        atomic_compare_exchange_strong(&s->owner, &z, 0);
        if (*mode == 'p') unlock_program(name);
        else if (*mode == 'f') unlock_path(name);
        else bink_bsy_delete(&node);
    }
    return bad ? 9 : 0;
}
