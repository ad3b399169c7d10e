/* A model of the part of the HDiffPatch library that detools uses. The library
   itself is a git submodule that is not part of the tree. See model.h. */
#include "../model.h"
