#include "vpk.h"
