/* Pause points around the construction of the field tables (linked into check C12 only). */
#include <stddef.h>

typedef void (*mc_hook_t)(int);
static mc_hook_t hook = 0;
static __thread int inside = 0;

extern int __real_galois_create_log_tables(int) __attribute__((weak));
extern void *__real_malloc(size_t);

void mc_set_hook(mc_hook_t h) { hook = h; }

int __wrap_galois_create_log_tables(int w) {
    int r;
    if (hook) hook(0);
    inside = 1;
    r = __real_galois_create_log_tables(w);
    inside = 0;
    if (hook) hook(100);
    return r;
}

void *__wrap_malloc(size_t s) {
    if (inside && hook) {
        int k = inside++;
        int save = inside;
        inside = 0;
        hook(k);
        inside = save;
    }
    return __real_malloc(s);
}
