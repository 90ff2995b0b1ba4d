/* every operation of the growing buffers, used or not (compiled with -femit-all-decls) */
#include <stdio.h>
#include "buffer.h"
