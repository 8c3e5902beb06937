// Lets the check choose the generator's entropy: link with -Wl,--wrap=KAT_NIST_randombytes_init.
#include <stdio.h>
#include <stdlib.h>
void __real_KAT_NIST_randombytes_init(unsigned char *e, unsigned char *p, int s);
void __wrap_KAT_NIST_randombytes_init(unsigned char *e, unsigned char *p, int s) {
    unsigned char b[48]; FILE *f = fopen("entropy.in", "rb");
    if (f && fread(b, 1, 48, f) == 48) {
        FILE *g = fopen("entropy.used", "wb"); if (g) { fwrite(e, 1, 48, g); fclose(g); }
        e = b;
    }
    if (f) fclose(f);
    __real_KAT_NIST_randombytes_init(e, p, s);
}
