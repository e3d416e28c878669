#include "cache_model.h"
const char *const pbt_id = "C24", *const pbt_rule = "";
