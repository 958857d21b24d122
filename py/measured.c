/* One call of `measured` is one measurement of callgrind's, which does not see where libffi jumps to itself. */
__attribute__((noinline)) void measured(void (*f)(void)) {
    f();
    __asm__ volatile("" ::: "memory");
}

void measure(void (*f)(void)) {
    measured(f);
    __asm__ volatile("" ::: "memory");
}
