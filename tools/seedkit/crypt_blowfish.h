/* Stand-in for the crypt_blowfish submodule. */
#include "ow-crypt.h"
