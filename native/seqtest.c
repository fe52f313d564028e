/* seqtest CONF SEQFILE N DIEPCT: takes N numbers, prints each (unbuffered) */
#include "fidogate.h"
#include <signal.h>

int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    cf_initialize();
    cf_read_config_file(argv[1]);
    int n = atoi(argv[3]), die = atoi(argv[4]);
    srand(getpid() * 7919);
    for (int i = 0; i < n; i++) {
        long v = sequencer_nx(argv[2], FALSE);
        char b[40];
        int l = snprintf(b, sizeof b, "%ld\n", v);
        if (write(1, b, l) != l) return 3;
        if (die && rand() % 100 < die) raise(SIGKILL);
    }
    return 0;
}
