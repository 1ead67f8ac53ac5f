#include "ops.hh"
#include <new>
// the allocator of the program: allocation number g_fail (counted while armed) fails
static bool     g_armed = false;
static uint64_t g_count = 0, g_fail = 0;
static void * gc_alloc( size_t n ) {
  if ( g_armed && ++g_count == g_fail ) throw std::bad_alloc();
  void * p = malloc( n ? n : 1 );
  if ( !p ) throw std::bad_alloc();
  memset( p, 0xBE, std::min( n, size_t(65536) ) );
  return p;
}
static void * gc_alloc_nt( size_t n ) noexcept { if ( g_armed && ++g_count == g_fail ) return nullptr; return malloc( n ? n : 1 ); }
void * operator new  ( size_t n ) { return gc_alloc(n); }
void * operator new[]( size_t n ) { return gc_alloc(n); }
void * operator new  ( size_t n, std::nothrow_t const & ) noexcept { return gc_alloc_nt(n); }
void * operator new[]( size_t n, std::nothrow_t const & ) noexcept { return gc_alloc_nt(n); }
void operator delete  ( void * p ) noexcept { free(p); }
void operator delete[]( void * p ) noexcept { free(p); }
void operator delete  ( void * p, size_t ) noexcept { free(p); }
void operator delete[]( void * p, size_t ) noexcept { free(p); }
void operator delete  ( void * p, std::nothrow_t const & ) noexcept { free(p); }
void operator delete[]( void * p, std::nothrow_t const & ) noexcept { free(p); }

namespace H {
  char const * const PROPERTY = "P27";
  char const * const RULE = "every operation of the alphabet of P03 (stores, copies incl. aliased, map and vector updates, promotions, pushes, indexed growth, collapse, (de)serialisation, printing, conversions) on every value of a universe and after every other operation, with every single allocation of that operation failing in turn (all fault points); afterwards the containers are read completely, the const operands compared with their value before, every operation repeated without faults, new values stored and read back, and all memory accounted for; under Address/UB sanitizers";

  static bool reads_g( string const & n ) {
    static std::set<string> S{ "h=g","h.from_gc(g)","g.to_gc(h)","h.merge g","copy","serialize","dump","copyto","copyto_mat","compare","vec of g" };
    return S.count(n) > 0;
  }
  static bool reads_h( string const & n ) { return n != "h=g" && n != "h.from_gc(g)" && n != "g.to_gc(h)" && n != "h.merge g" && n != "copy" && n.compare(0,9,"construct") && n != "swap" && n != "de_serialize bad"; }

  struct Arm { Arm( uint64_t k ) { g_count = 0; g_fail = k; g_armed = true; } ~Arm() { g_armed = false; } };

  static Val const & probe( unsigned i ) {
    static vector<Val> const P{ vmap({{"a key that needs its own storage, yes",vgen({vint(1),vstr("a string that does not fit the small buffer")})}}), distinct_vec(VREAL,5), vstr("another string that does not fit the small buffer") };
    return P[i % P.size()];
  }

  // start, then the operations pre[0..npre), then `op` with its k-th allocation failing, for every k
  static void faults( Runner & R, Val const * start, Op const * pre, Op const & op, vector<Op> const & O, bool deep ) {
    R.run( [&]{ return ( start ? show(*start) : string("empty") ) + ( pre ? " ; " + pre->name : string() ) + " ; " + op.name + " with every allocation failing"; }, [&]{
      for ( uint64_t k=1; k<100000; ++k ) {
        W w; std::unique_ptr<GCN> g( new GCN ), h( new GCN ); w.g = g.get(); w.h = h.get();
        if ( start ) { build( *g, *start ); g->serialize( w.buf ); build( *h, probe(0) ); } else { (*h)["a"] = LONGS; (*h)["v"].set_vector(1); }
        if ( pre ) throws( [&]{ pre->f( w ); } );
        Val g0 = readback(*g), h0 = readback(*h);
        bool thrown = false;
        { Arm arm(k); try { op.f( w ); } catch ( Fail & ) { throw; } catch ( std::exception const & ) { thrown = true; } }
        bool const hit = g_count >= k;
        R.trans();
        Val g1 = readback(*g), h1 = readback(*h);
        if ( !hit ) break;              // the operation needs fewer than k allocations
        (void)thrown;                    // output to a stream reports by the state of the stream
        if ( !thrown ) REQ( op.name == "dump" || op.name == "compare", "the failed allocation " << k << " was not reported" );
        if ( reads_g(op.name) ) REQ( g1 == g0, "allocation " << k << ": the operand changed from " << show(g0) << " to " << show(g1) );
        if ( reads_h(op.name) ) REQ( h1 == h0, "allocation " << k << ": the operand changed from " << show(h0) << " to " << show(h1) );
        R.state( g1 );
        if ( deep ) for ( auto & o : O ) {
          std::unique_ptr<GCN> a( new GCN ), b( new GCN ); W z; z.g = a.get(); z.h = b.get(); z.buf = w.buf;
          *a = *g; *b = *h; throws( [&]{ o.f( z ); } ); readback(*a); readback(*b);
        }
        // same operation again, this time with memory
        throws( [&]{ op.f( w ); } ); readback(*g); readback(*h);
        build( *g, probe(k) ); REQ_EQ( *g, probe(k), "store after a failed allocation" );
        build( *h, probe(k+1) ); REQ_EQ( *h, probe(k+1), "store after a failed allocation" );
      }
    } );
  }

  void enumerate( Runner & R ) {
    R.leakcheck = true;
    vector<Op> O = make_ops();
    vector<Val> U = R.thorough ? values_medium() : values_one_per_shape(); for ( auto & v : values_lookalike() ) U.push_back(v);
    U.push_back( vmap({{"a",vmap({{"a",vint(1)},{"b",vstr(LONGS)}})},{"c",vgen({vint(1),vgen({vstr(LONGS)})})}}) ); U.push_back( vgen({vmap({{"a",vint(1)}}),vgen({vstr(LONGS)}),vint(2)}) );
    R.family("every value, then every operation with a failing allocation");
    for ( auto & v : U ) for ( auto & o : O ) { if ( R.skip() ) continue; faults( R, &v, nullptr, o, O, false ); }
    R.family("every operation, then every operation with a failing allocation");
    for ( auto & p : O ) for ( auto & o : O ) { if ( R.skip() ) continue; faults( R, nullptr, &p, o, O, R.thorough ); }
    R.family("every store with a failing allocation, then every operation");
    for ( auto & o : O ) { if ( R.skip() ) continue; faults( R, nullptr, nullptr, o, O, true ); }
  }
}
