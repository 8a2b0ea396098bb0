/* the iconv-compatible header, used as an iconv program would */
#include <iconv.h>

iconv_t compat_open(const char *tocode, const char *fromcode) { return iconv_open(tocode, fromcode); }
size_t compat_iconv(iconv_t cd, char **in, size_t *il, char **out, size_t *ol) { return iconv(cd, in, il, out, ol); }
int compat_close(iconv_t cd) { return iconv_close(cd); }

/* the published constants, in the order of the frozen list; -9: no such constant */
const struct compat_const { const char *name; int value; } compat_consts[] = {
#define C(n) {#n, ENCODING_##n},
#define MISSING(n) {#n, -9},
#include "verif_consts_c.inc"
    {0, 0}};
