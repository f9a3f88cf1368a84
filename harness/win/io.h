#ifndef WIN_IO_STANDIN_H
#define WIN_IO_STANDIN_H
#include <stdint.h>
intptr_t _get_osfhandle(int fd);
#endif
