/* the architecture header of a target without compiler builtins: only the generic implementations */
#ifndef _BFDEV_ASM_BITOPS_H_
#define _BFDEV_ASM_BITOPS_H_
#include <bfdev/config.h>
#include <bfdev/asm-generic/bitops.h>
#endif
