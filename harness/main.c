/* one check = one translation unit: -DPROP='"props/Cxx.c"' */
#include "sp.h"
static const pbt_meta META;
#include PROP
#include "engine.c"
#include "sp.c"
