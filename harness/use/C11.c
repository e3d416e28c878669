#include <bfdev/circle.h>
unsigned use_circle(unsigned head, unsigned tail) { return BFDEV_CIRCLE_SPACE_END(head, tail, 16) + BFDEV_CIRCLE_CNT_END(head, tail, 16) + BFDEV_CIRCLE_CNT(head, tail, 16) + BFDEV_CIRCLE_SPACE(head, tail, 16); }
