#if __has_include_next(<linux/ioctl.h>)
# include_next <linux/ioctl.h>
#endif
#ifndef VPK_IN
# include "vpk.h"
#endif
