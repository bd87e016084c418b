#ifdef SYMX_PRELUDE_DONE
#undef assert
#define assert(e) ((e) ? (void)0 : ::symx::stop(PyExc_AssertionError, "C++ assert: " #e))
#else
#include_next <assert.h>
#endif
