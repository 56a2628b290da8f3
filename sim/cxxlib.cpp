/* the all-in-one source compiled as C++ (a documented way to use the library) */
#include "tommy.h"
extern "C" {
#include "tommy.c"
}
