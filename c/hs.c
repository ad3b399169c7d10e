/* The heatshrink decoder of one configuration, see variant.c. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vt_alloc.h"
#include "rename.h"
#include "heatshrink_decoder.c"
