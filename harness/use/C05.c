#include <bfdev/byteorder.h>
void use_arrays(bfdev_be16 *a, bfdev_be32 *b, bfdev_be64 *c, uint16_t *x, uint32_t *y, uint64_t *z)
{
    bfdev_cpu_to_be16_array(a, x, 1); bfdev_cpu_to_be32_array(b, y, 1); bfdev_cpu_to_be64_array(c, z, 1);
    bfdev_be16_to_cpu_array(x, a, 1); bfdev_be32_to_cpu_array(y, b, 1); bfdev_be64_to_cpu_array(z, c, 1);
}
