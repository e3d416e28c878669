#define POLICY 1
#include "cache_model.h"
const char *const pbt_id = "C25", *const pbt_rule = "";
