/* Stands for the extension: its name has to contain the extension's, so that surroundings.c answers its questions. */
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

/* Which of the odd answers came. */
int canary(int *different, int *asked) {
    struct timespec a, b;
    *asked = 0;
    *different = 0;
    for (char name[] = "SURROUNDINGS_A"; name[13] <= 'Z'; name[13]++) {
        *asked += 1;
        *different += getenv(name) != NULL;
    }
    clock_gettime(CLOCK_MONOTONIC, &a);
    for (int i = 0; i < 40; i++) {
        clock_gettime(CLOCK_MONOTONIC, &b);
        if (b.tv_sec - a.tv_sec > 1000) *different += 1;
        *asked += 1;
        a = b;
    }
    return (int)getpid();
}
