#include_next <linux/types.h>
#ifndef VPK_IN
# include "vpk.h"
#endif
