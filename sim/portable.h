/* force-included after prelude.h: the library as a compiler with no known extensions and an unknown processor sees it,
 * so that the portable code (bit scans by multiplication, byte-wise reads) runs instead of the builtins */
#include <assert.h>
#include <limits.h>
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __i386__
#undef __x86_64__
#undef __i386
#undef __x86_64
