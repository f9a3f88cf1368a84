/* for compat\/sys\/queue.h and tree.h, which name it as a system header */
#include "compat/sys/_null.h"
