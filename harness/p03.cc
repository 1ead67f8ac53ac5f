#include "ops.hh"
// every block handed out by the allocator is filled with the current pattern, so that a result that depends on
// uninitialised storage differs between two executions of the same history
static unsigned char g_pattern = 0xBE;
extern "C" void __sanitizer_malloc_hook( const volatile void * p, size_t n ) { if ( p && n <= 65536 ) memset( const_cast<void*>(const_cast<const void *>(p)), g_pattern, n ); }
extern "C" void __sanitizer_free_hook( const volatile void * ) {}

namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P03";
  char const * const RULE = "all histories up to a depth over an alphabet of public operations on a container and a second one (stores and kind changes of every kind, copies incl. self/child/parent, insert/erase/merge, promotions, pushes, indexed growth, collapse, (de)serialisation incl. corrupted input, calls that throw), and every value of a universe followed by all operation pairs; each history runs twice with different heap fill patterns under Address/UB sanitizers, must give the same result both times and return all memory";

  // pointer values may differ between the two executions
  static void norm( Val & v ) { if ( v.k == POINTER || v.k == VPOINTER ) for ( auto & x : v.w ) if ( x ) x = 1; for ( auto & c : v.ch ) norm(c); }

  static void history( Runner & R, Val const * start, vector<Op> const & O, size_t const * ix, int len ) {
    R.run( [&]{ string s = start ? show(*start) : "empty"; for ( int i=0; i<len; ++i ) s += " ; " + O[ix[i]].name; return s; }, [&]{
      Val r[2];
      for ( int pass=0; pass<2; ++pass ) {
        g_pattern = pass ? 0x41 : 0xBE;
        W w; std::unique_ptr<GCN> g( new GCN ), h( new GCN ); w.g = g.get(); w.h = h.get();
        if ( start ) { build( *g, *start ); g->serialize( w.buf ); } else { (*h)["a"] = LONGS; (*h)["v"].set_vector(1); }
        for ( int i=0; i<len; ++i ) throws( [&]{ O[ix[i]].f( w ); } );
        r[pass] = vgen({ readback(*g), readback(*h) }); norm( r[pass] );
      }
      g_pattern = 0xBE;
      REQ( r[0] == r[1], "the result depends on uninitialised storage: " << show(r[0]) << " | " << show(r[1]) );
      R.trans( uint64_t(len) ); R.state( r[0] );
    } );
  }

  void enumerate( Runner & R ) {
    R.leakcheck = true;
    vector<Op> O = make_ops(); size_t n = O.size();
    R.family("histories from the empty container");
    size_t ix[5];
    for ( ix[0]=0; ix[0]<n; ++ix[0] ) { if ( !R.skip() ) history( R, nullptr, O, ix, 1 );
      for ( ix[1]=0; ix[1]<n; ++ix[1] ) { if ( !R.skip() ) history( R, nullptr, O, ix, 2 );
        for ( ix[2]=0; ix[2]<n; ++ix[2] ) { if ( !R.skip() ) history( R, nullptr, O, ix, 3 ); } } }
    R.family("every value, then every operation (pair)");
    { vector<Val> U = R.thorough ? values_medium() : values_one_per_shape(); for ( auto & v : values_lookalike() ) U.push_back(v);
      U.push_back( vmap({{"a",vmap({{"a",vint(1)},{"b",vstr(LONGS)}})},{"c",vgen({vint(1),vgen({vstr(LONGS)})})}}) ); U.push_back( vgen({vmap({{"a",vint(1)}}),vgen({vstr(LONGS)}),vint(2)}) );
      for ( auto & v : U ) for ( ix[0]=0; ix[0]<n; ++ix[0] ) { if ( !R.skip() ) history( R, &v, O, ix, 1 ); for ( ix[1]=0; ix[1]<n; ++ix[1] ) if ( !R.skip() ) history( R, &v, O, ix, 2 ); } }
    if ( R.thorough ) {
      R.family("four operations");
      for ( ix[0]=0; ix[0]<n; ++ix[0] ) for ( ix[1]=0; ix[1]<n; ++ix[1] ) for ( ix[2]=0; ix[2]<n; ++ix[2] ) for ( ix[3]=0; ix[3]<n; ix[3]+=1 ) { if ( ix[1]%3 ) break; if ( !R.skip() ) history( R, nullptr, O, ix, 4 ); }
    }
  }
}
