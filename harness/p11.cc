#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P11";
  char const * const RULE = "all sequences of push_bool/int/long/real/complex/string up to depth 4 (5 thorough) from every container of the universe, conversion-edge values pushed onto every kind, and runs of several hundred pushes; after every push all elements are compared with a list model and the element kind must be the narrowest that holds old and new values";

  static void do_push( GCN & g, Val const & x, int variant ) {
    switch ( x.k ) {
    case BOOL: g.push_bool( x.w[0] != 0 ); break;
    case INT: g.push_int( int_type(x.w[0]) ); break;
    case LONG: g.push_long( long_type(x.w[0]) ); break;
    case REAL: g.push_real( bitsd(x.w[0]) ); break;
    case COMPLEX: if ( variant & 1 ) { complex_type c( bitsd(x.w[0]), bitsd(x.w[1]) ); g.push_complex( c ); REQ( dbits(c.real()) == x.w[0] && dbits(c.imag()) == x.w[1], "push_complex changed its argument" ); } else g.push_complex( bitsd(x.w[0]), bitsd(x.w[1]) ); break;
    case STRING: { string buf = "<" + x.s[0] + ">"; g.push_string( string_view( buf.data()+1, x.s[0].size() ) ); break; }
    }
  }
  static Val widen( Val const & v, int k ) {
    if ( v.k == k ) return v;
    switch ( k ) {
    case INT: return vint( int32_t(v.w[0]) );
    case LONG: return vlong( int64_t(v.w[0]) );
    case REAL: return vreal( as_real(v) );
    case COMPLEX: return vcplx( as_real(v), 0 );
    }
    return v;
  }
  static void step( GCN & g, Val & v, Val const & x, int variant ) {
    Val e; bool can = false, must = false;
    vector<Val> el; bool seq = true;
    if ( is_scalar(v.k) ) el = {v}; else if ( is_vec(v.k) || v.k == VECTOR ) for ( size_t i=0; i<v.size(); ++i ) el.push_back( elem(v,i) ); else seq = false;
    if ( v.k == VECTOR ) { e = v; e.ch.push_back(x); can = must = true; }
    else if ( v.k == VSTRING && x.k == STRING ) { e = v; e.s.push_back(x.s[0]); can = must = true; }
    else if ( seq && is_numeric(elem_kind(v.k)) && is_numeric(x.k) ) {
      int k = std::max( elem_kind(v.k), x.k ); vector<Val> s; for ( auto & y : el ) s.push_back( widen(y,k) ); s.push_back( widen(x,k) );
      e = vvec( k-POINTER+VPOINTER, s ); can = true; must = is_vec(v.k) || ( x.k >= v.k && x.k != BOOL );
    } else if ( seq ) { e = vgen(el); e.k = VECTOR; e.ch.push_back(x); can = true; must = x.k == STRING; } // no common typed vector
    bool t = throws( [&]{ do_push( g, x, variant ); } );
    if ( t ) {
      REQ( !must, "push of " << show(x) << " onto " << show(v) << " throws" );
      REQ_EQ( g, v, "the failing push changed the container" );
      return;
    }
    if ( v.k == NOTYPE ) { // not specified beyond: the pushed value is the last element
      Val r = readback(g); REQ( r.size() >= 1 && ( is_vec(r.k) || r.k == VECTOR ), "push onto an empty container gives " << show(r) );
      Val l = elem( r, r.size()-1 ); REQ( l == x, "last element is " << show(l) ); v = r; return;
    }
    REQ( can, "push of " << show(x) << " onto " << show(v) << " accepted, giving " << show(readback(g)) );
    REQ_EQ( g, e, "push of " + show(x) + " onto " + show(v) );
    REQ( g.get_num_elements() == e.size(), "get_num_elements" );
    v = e;
  }
  static void seq( Runner & R, Val const & v0, vector<Val> const & xs ) {
    if ( R.skip() ) return;
    R.run( [&]{ string s = show(v0); for ( auto & x : xs ) s += " <- " + show(x); return s; }, [&]{
      GCN g; build( g, v0 ); Val v = v0; int var = int(xs.size());
      for ( auto & x : xs ) { step( g, v, x, var++ ); R.trans(1); R.state(v); }
    } );
  }

  void enumerate( Runner & R ) {
    vector<Val> A{ vbool(true), vbool(false), vint(-5), vlong(1LL<<40), vlong(7), vreal(0.5), vcplx(1.5,-2), vstr("pushed text, long enough") };
    vector<Val> U = values_one_per_shape();
    R.family("push sequences");
    std::function<void(Val const &,vector<Val>&,int)> rec = [&]( Val const & v, vector<Val> & s, int d ) {
      if ( !s.empty() ) seq( R, v, s );
      if ( d == 0 ) return;
      for ( auto & a : A ) { s.push_back(a); rec( v, s, d-1 ); s.pop_back(); }
    };
    for ( auto & v : U ) { vector<Val> s; rec( v, s, R.thorough ? 5 : 3 ); }
    for ( auto & v : vector<Val>{ distinct_vec(VBOOL,2), distinct_vec(VINT,1), vgen({vint(1)}), vnone(), vint(3), vstr("s") } ) { vector<Val> s; rec( v, s, R.thorough ? 6 : 5 ); }
    R.family("edge values");
    { vector<Val> E = scalars_edge(); for ( auto i : dense_ints(R.thorough) ) { E.push_back( vlong(i) ); if ( i == int32_t(i) ) E.push_back( vint(int32_t(i)) ); } for ( auto d : dense_reals(R.thorough) ) { E.push_back( vreal(d) ); E.push_back( vcplx(d,-d) ); }
      for ( auto & e : E ) {
        if ( e.k == NOTYPE || e.k == POINTER ) continue;
        for ( auto & v : vector<Val>{ distinct_vec(VBOOL,2), distinct_vec(VINT,2), distinct_vec(VLONG,2), distinct_vec(VREAL,2), distinct_vec(VCOMPLEX,2), distinct_vec(VSTRING,2), vgen({vint(1),vstr("x")}) } ) seq( R, v, {e} );
        int vk = e.k-POINTER+VPOINTER; for ( auto & a : A ) { seq( R, e, {a} ); seq( R, vvec(vk,{e}), {a} ); seq( R, vgen({e}), {a} ); }
      } }
    R.family("all lengths");
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 300 : 100 ) ) for ( auto & a : A ) seq( R, v, {a} );
    R.family("long runs");
    for ( auto & a : A ) for ( auto & b : A ) for ( int k=VBOOL; k<=VSTRING; ++k ) {
      vector<Val> xs; for ( int i=0; i<(R.thorough?400:140); ++i ) xs.push_back( i%67 == 66 ? b : a );
      seq( R, distinct_vec(k,1), xs );
      if ( k == VBOOL ) seq( R, vgen({vint(0)}), xs );
    }
    R.family("other universe members");
    for ( auto & v : values_medium() ) for ( auto & a : A ) seq( R, v, {a} );
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 70000 : 4100 ) ) for ( auto & a : A ) seq( R, v, {a} );
  }
}
