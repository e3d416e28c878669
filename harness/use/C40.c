#include <bfdev/ctype.h>
int use_const(void) { return bfdev_isascii('a') + bfdev_isxdigit('0') + bfdev_isblank('\t'); }
int use_isascii(int c) { return bfdev_isascii(c); }
