#if __has_include_next(<linux/compiler.h>)
# include_next <linux/compiler.h>
#endif
#ifndef VPK_IN
# include "vpk.h"
#endif
