/*
 * The block's size in bits and the safety margin, scaled down: included before
 * everything else, it overrides the values the library's header defines.
 */
#ifndef VP_SCALED_H
#define VP_SCALED_H
#include "jitterentropy-internal.h"
#undef DATA_SIZE_BITS
#define DATA_SIZE_BITS 2
#undef ENTROPY_SAFETY_FACTOR
#define ENTROPY_SAFETY_FACTOR 1
#endif
