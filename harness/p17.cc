namespace H { extern char const * const PROPERTY = "P17"; }
#include "jsonread.hh"
