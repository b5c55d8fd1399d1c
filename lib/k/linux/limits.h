#if __has_include_next(<linux/limits.h>)
# include_next <linux/limits.h>
#endif
#ifndef VPK_IN
# include "vpk.h"
#endif
