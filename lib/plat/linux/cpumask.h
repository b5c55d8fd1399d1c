#include "vpcpu.h"
