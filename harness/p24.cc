#define JSON2
namespace H { extern char const * const PROPERTY = "P24"; }
#include "jsonread.hh"
