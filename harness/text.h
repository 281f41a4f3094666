// Harness primitives for text output.  vp_stream(0) and vp_stream(1) are streams; their outputs are compared piece by piece.
#ifndef TEXT_H
#define TEXT_H
#include "vp.h"
// the code of std::string is wanted in the unit, that of streams is not
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <ostream>
extern "C" {
std::ostream & vp_stream( int k );
void vp_same_output( std::ostream & a, std::ostream & b, char const * msg );
}
#endif
