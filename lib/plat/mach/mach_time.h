#include "mach.h"
