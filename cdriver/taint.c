/* Client requests of valgrind memcheck, for a program which opens this with dlopen. */
#include <stddef.h>
#include <valgrind/memcheck.h>

unsigned taint_running(void) { return RUNNING_ON_VALGRIND; }
void taint_mark(void *p, size_t n) { (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
void taint_clear(void *p, size_t n) { (void)VALGRIND_MAKE_MEM_DEFINED(p, n); }
unsigned taint_errors(void) { return VALGRIND_COUNT_ERRORS; }

/* How many of n bytes have some secret bit in them. */
size_t taint_count(const void *p, size_t n)
{
    size_t i, c = 0;
    for (i = 0; i < n; i++) {
        unsigned char v = 0;
        if (VALGRIND_GET_VBITS((const char *)p + i, &v, 1) == 1 && v) c++;
    }
    return c;
}
void taint_say(const char *s) { VALGRIND_PRINTF("OPERATION %s\n", s); }
