/* histtest build BASE | look BASE: entries / keys on stdin, one per line
 * build: "text line" stored under its first field; "!text" text only
 * look: prints for every key 0, or 1 and the rest of its line */
#include "fidogate.h"
#include "dbz.h"

short int hi_init(char *);
static char line[70000];

int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    cf_initialize();
    log_file("stderr");
    if (hi_init(argv[2]) == ERROR) return 3;
    if (!strcmp(argv[1], "build")) {
        FILE *f = fopen(argv[2], "a");
        if (!f) return 4;
        while (fgets(line, sizeof line, stdin)) {
            char *p;
            long off;
            datum key, val;
            if (*line == '!') { fputs(line + 1, f); fflush(f); continue; }
            fseek(f, 0, SEEK_END);
            off = ftell(f);
            fputs(line, f);
            fflush(f);
            p = strpbrk(line, "\t\n");
            *p = 0;
            key.dptr = line; key.dsize = strlen(line) + 1;
            val.dptr = (char *)&off; val.dsize = sizeof off;
            if (dbzstore(key, val) < 0) return 5;
        }
        fclose(f);
    } else if (!strcmp(argv[1], "write")) {
        while (fgets(line, sizeof line, stdin)) {
            char *p = strpbrk(line, "\t\n");
            *p = 0;
            if (hi_write_t(atol(p + 1), 0, line) == ERROR) return 6;
        }
    } else {
        while (fgets(line, sizeof line, stdin)) {
            datum key, val;
            line[strcspn(line, "\n")] = 0;
            if (argc > 3) {
                char *s;
                key.dptr = line; key.dsize = strlen(line) + 1;
                s = hi_fetch(line, 1);
                printf("%s\n", s ? s : "0");
            } else
                printf("%d\n", hi_test(line) != 0);
        }
    }
    return hi_close() == ERROR ? 7 : 0;
}
