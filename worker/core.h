// Pipe-driven worker around the code under test: one request, one reply.
#ifndef CORE_H
#define CORE_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
// request payload
uint32_t r_u32(void);
const uint8_t *r_blob(size_t *n);      // read-only, page-guarded copy (see guard mode)
const uint8_t *r_raw(size_t *n);       // unguarded view of the payload
size_t r_left(void);
// reply
void w_u32(uint32_t v);
void w_blob(const void *p, size_t n);
uint8_t *w_space(size_t n);            // reserve a blob of n bytes in the reply and return it
// guarded memory: freed after each request
uint8_t *g_alloc(size_t n, int fill);  // writable, flush against a forbidden page at the end (mode 0) or start (mode 1), or mode >> 1 bytes away from it
void g_protect(void *p, size_t n);     // make the pages of a g_alloc()ed buffer read-only
uint8_t *g_chk(size_t n, int fill);    // like g_alloc, with canaries in the slack; g_intact checks them
int g_intact(void);                    // 1 when no canary byte of any g_alloc was changed
extern int guard_mode, poison_byte;
void poison_stack(void);
extern int forced_on, forced_hits; extern uint8_t forced_chal[4096];
#define REPEAT(i, n) for (size_t i = 0; i < (size_t)(n); i++)
#endif
