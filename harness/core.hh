// Reference model of a GenericContainer value + exhaustive case runner.
#pragma once
#include "GenericContainer/GenericContainer.hh"
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace H {

  using GCN = GC_namespace::GenericContainer;
  using GC_namespace::GC_type;
  using std::string;
  using std::vector;
  using std::string_view;
  typedef std::complex<double> cplx;

  // kinds of the reference model (its own numbering)
  enum Kind { NOTYPE=0, POINTER, BOOL, INT, LONG, REAL, COMPLEX, STRING,
              VPOINTER, VBOOL, VINT, VLONG, VREAL, VCOMPLEX, VSTRING,
              MINT, MLONG, MREAL, MCOMPLEX, VECTOR, MAP, NKIND };
  char const * kname( int k );
  inline bool is_scalar( int k ) { return k >= POINTER && k <= STRING; }
  inline bool is_vec( int k ) { return k >= VPOINTER && k <= VSTRING; }
  inline bool is_mat( int k ) { return k >= MINT && k <= MCOMPLEX; }

  // Plain value: numbers are kept as 64 bit patterns, so equality is bitwise.
  struct Val {
    int k{NOTYPE};
    uint32_t nr{0}, nc{0};        // matrices
    vector<uint64_t> w;           // numbers (complex: 2 words), scalars have 1 element
    vector<string> s;             // string, strings, or map keys (sorted)
    vector<Val> ch;               // children of VECTOR / MAP
    bool operator==( Val const & o ) const {
      return k==o.k && nr==o.nr && nc==o.nc && w==o.w && s==o.s && ch==o.ch;
    }
    bool operator!=( Val const & o ) const { return !(*this==o); }
    size_t size() const;          // number of elements of vectors / matrices / VECTOR / MAP, 1 for scalars
    Val const * find( string const & key ) const;
    Val * find( string const & key );
    Val & put( string const & key );   // map insert or find, keeps keys sorted
    void  del( string const & key );
  };
  inline uint64_t dbits( double d ) { uint64_t u; memcpy(&u,&d,8); return u; }
  inline double   bitsd( uint64_t u ) { double d; memcpy(&d,&u,8); return d; }

  // constructors of model values
  Val vnone();
  Val vptr( uint64_t p );
  Val vbool( bool b );
  Val vint( int32_t i );
  Val vlong( int64_t l );
  Val vreal( double r );
  Val vcplx( double re, double im );
  Val vstr( string const & s );
  Val vvec( int k, vector<Val> const & scalars );                 // typed vector from scalars of the element kind
  Val vmat( int k, unsigned nr, unsigned nc, vector<Val> const & scalars ); // column major
  Val vgen( vector<Val> const & ch );
  Val vmap( vector<std::pair<string,Val>> const & kv );
  int elem_kind( int k );                                         // VINT -> INT, MREAL -> REAL ...
  Val elem( Val const & v, size_t i );                            // i-th element as a scalar Val (typed vec/mat/VECTOR)
  double as_real( Val const & v );                                // numeric scalar -> double
  cplx   as_cplx( Val const & v );

  string show( Val const & v );          // compact description
  string show_bytes( string const & s );
  uint64_t hashv( Val const & v );
  uint64_t hashs( string const & s );

  // conversion to / from the real container
  void build( GCN & gc, Val const & v );       // store v through public setters (gc in any state)
  Val  readback( GCN const & gc );             // read with const getters only
  GC_type to_gct( int k );
  int  from_gct( GC_type t );

  // ---------------------------------------------------------------- runner
  struct Fail { string msg; };
  [[noreturn]] void fail( string const & msg );
  #define REQ(COND,MSG) do { if ( !(COND) ) { std::ostringstream o__; o__ << MSG; H::fail(o__.str()); } } while(0)
  #define REQ_EQ(GC_,VAL_,MSG) do { H::Val rb__ = H::readback(GC_); if ( rb__ != (VAL_) ) { std::ostringstream o__; o__ << MSG << " | got " << H::show(rb__) << " | expected " << H::show(VAL_); H::fail(o__.str()); } } while(0)

  // true if f() throws a std::exception (anything else is a failure)
  template <class F> bool throws( F && f ) {
    try { f(); } catch ( Fail & ) { throw; } catch ( std::exception const & ) { return true; }
    return false;
  }

  class Runner {
  public:
    bool     thorough{false};
    unsigned worker{0}, nworkers{1};
    int64_t  only{-1};
    int64_t  resume{-1};
    bool     describe{false};
    bool     leakcheck{false};
    // one enumerated case
    void run( std::function<string()> const & desc, std::function<void()> const & body );
    // cheap test whether the next case belongs to this worker; if not it is skipped
    bool skip();
    void state( uint64_t h );
    void state( Val const & v ) { if ( mine ) state( hashv(v) ); }
    void trans( uint64_t n = 1 );
    void sample( string const & s );
    void family( string const & f );     // name a group of cases (reporting only)
    bool mine{true};
    struct Impl; Impl * p{nullptr};
  };

  // to be provided by each check
  extern char const * const PROPERTY;
  extern char const * const RULE;
  void enumerate( Runner & R );

  // ---------------------------------------------------------------- universes
  vector<Val> scalars_small();                     // a few per scalar kind
  vector<Val> scalars_edge();                      // boundary values of every scalar kind
  vector<Val> scalars_of( int k, bool edge );
  vector<Val> values_one_per_shape();              // every kind, empty / one / several elements
  vector<Val> values_medium();                     // + nested
  vector<Val> values_lookalike();                  // every kind, all denoting 1 or nothing
  vector<Val> contexts( Val const & v );           // v as a part of larger containers
  vector<Val> values_large( unsigned cap );        // big members of every non-scalar shape, at most cap elements (about)
  inline int depth( Val const & v ) { int d = 0; for ( auto & c : v.ch ) d = std::max( d, 1+depth(c) ); return d; }
  vector<Val> values_nested( int depth, vector<Val> const & leaves );
  vector<int64_t> int_edges();
  vector<double>  real_edges();
  vector<string>  string_edges();
  // all vectors of every typed kind with all lengths 0..maxlen, distinct elements
  vector<Val> vectors_of_all_lengths( int maxlen );
  Val distinct_vec( int k, unsigned n );
  Val distinct_mat( int k, unsigned nr, unsigned nc );
  Val distinct_elem( int k, unsigned i );          // i-th element used by distinct_*
}
