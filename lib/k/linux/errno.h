#if __has_include_next(<linux/errno.h>)
# include_next <linux/errno.h>
#endif
#ifndef VPK_IN
# include "vpk.h"
#endif
