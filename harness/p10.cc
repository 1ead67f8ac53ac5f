#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P10";
  char const * const RULE = "every promotion (13 promote_to_* and 8 promoting getters) from every container of the universe, all chains of promotions up to depth 3, conversion-edge numbers, all vector lengths and matrix shapes; result kind, shape, order and numbers compared with an exact oracle; a throwing promotion must leave the container bit-identical";

  struct Op { char const * name; int target; std::function<void(GCN&)> f; bool getter; };
  static vector<Op> const & ops() {
    static vector<Op> O = {
      { "promote_to_int", INT, []( GCN & g ){ REQ( &g.promote_to_int() == &g, "returned reference" ); }, false },
      { "promote_to_long", LONG, []( GCN & g ){ REQ( &g.promote_to_long() == &g, "returned reference" ); }, false },
      { "promote_to_real", REAL, []( GCN & g ){ REQ( &g.promote_to_real() == &g, "returned reference" ); }, false },
      { "promote_to_complex", COMPLEX, []( GCN & g ){ REQ( &g.promote_to_complex() == &g, "returned reference" ); }, false },
      { "promote_to_vec_int", VINT, []( GCN & g ){ REQ( &g.promote_to_vec_int() == &g, "returned reference" ); }, false },
      { "promote_to_vec_long", VLONG, []( GCN & g ){ REQ( &g.promote_to_vec_long() == &g, "returned reference" ); }, false },
      { "promote_to_vec_real", VREAL, []( GCN & g ){ REQ( &g.promote_to_vec_real() == &g, "returned reference" ); }, false },
      { "promote_to_vec_complex", VCOMPLEX, []( GCN & g ){ REQ( &g.promote_to_vec_complex() == &g, "returned reference" ); }, false },
      { "promote_to_mat_int", MINT, []( GCN & g ){ REQ( &g.promote_to_mat_int() == &g, "returned reference" ); }, false },
      { "promote_to_mat_long", MLONG, []( GCN & g ){ REQ( &g.promote_to_mat_long() == &g, "returned reference" ); }, false },
      { "promote_to_mat_real", MREAL, []( GCN & g ){ REQ( &g.promote_to_mat_real() == &g, "returned reference" ); }, false },
      { "promote_to_mat_complex", MCOMPLEX, []( GCN & g ){ REQ( &g.promote_to_mat_complex() == &g, "returned reference" ); }, false },
      { "promote_to_vector", VECTOR, []( GCN & g ){ REQ( &g.promote_to_vector() == &g, "returned reference" ); }, false },
      { "get_vec_int", VINT, []( GCN & g ){ g.get_vec_int(); }, true },
      { "get_vec_long", VLONG, []( GCN & g ){ g.get_vec_long(); }, true },
      { "get_vec_real", VREAL, []( GCN & g ){ g.get_vec_real(); }, true },
      { "get_vec_complex", VCOMPLEX, []( GCN & g ){ g.get_vec_complex(); }, true },
      { "get_mat_int", MINT, []( GCN & g ){ g.get_mat_int(); }, true },
      { "get_mat_long", MLONG, []( GCN & g ){ g.get_mat_long(); }, true },
      { "get_mat_real", MREAL, []( GCN & g ){ g.get_mat_real(); }, true },
      { "get_mat_complex", MCOMPLEX, []( GCN & g ){ g.get_mat_complex(); }, true },
    };
    return O;
  }
  // scalar widened to kind k; false if impossible
  static bool widen( Val const & v, int k, Val & o ) {
    if ( v.k == k ) { o = v; return true; }
    if ( !is_numeric(v.k) || v.k > k ) return false;
    switch ( k ) {
    case INT: o = vint( int32_t(v.w[0]) ); return true;
    case LONG: o = vlong( int64_t(v.w[0]) ); return true;
    case REAL: o = vreal( as_real(v) ); return true;
    case COMPLEX: o = vcplx( as_real(v), 0 ); return true;
    }
    return false;
  }
  // expected value; possible: the promotion keeps the data; must: it has to be accepted
  static bool expect( Val const & v, Op const & op, Val & e, bool & must ) {
    must = false; int T = op.target;
    bool vc = T == COMPLEX && v.k >= VBOOL && v.k < VCOMPLEX; if ( vc ) T = VCOMPLEX; // promote_to_complex of a vector works element-wise
    if ( v.k == T ) { e = v; must = true; return true; }
    if ( T == VECTOR ) {
      if ( is_scalar(v.k) ) { e = vgen({v}); must = true; return true; }
      if ( is_vec(v.k) ) { e = vgen({}); e.k = VECTOR; for ( size_t i=0; i<v.size(); ++i ) e.ch.push_back( elem(v,i) ); must = true; return true; }
      return false;
    }
    int ek = elem_kind(T); vector<Val> s;
    if ( is_scalar(v.k) ) { Val x; if ( !widen(v,ek,x) ) return false; s = {x}; }
    else if ( is_vec(v.k) || is_mat(v.k) ) {
      if ( is_scalar(T) ) return false;
      if ( is_mat(v.k) && is_vec(T) ) return false;
      int sk = elem_kind(v.k); if ( !( is_numeric(sk) && sk <= ek ) ) return false;
      for ( size_t i=0; i<v.size(); ++i ) { Val x; if ( !widen(elem(v,i),ek,x) ) return false; s.push_back(x); }
    } else return false;
    if ( is_scalar(T) ) { e = s[0]; must = true; return true; }
    if ( is_vec(T) ) { e = vvec(T,s); must = ( !op.getter || is_vec(v.k) ) && !vc; return true; }
    if ( is_mat(v.k) ) { e = vmat(T,v.nr,v.nc,s); must = !op.getter; return true; }
    e = vmat(T,unsigned(s.size()),1,s); must = is_vec(v.k) || ( v.k == ek && ( ek == INT || ek == REAL ) ); if ( op.getter ) must = false;
    return true;
  }
  // one promotion on the real container; updates the model
  static void step( GCN & g, Val & v, Op const & op, bool & stop ) {
    Val e; bool must, can = expect( v, op, e, must );
    bool t = throws( [&]{ op.f( g ); } );
    if ( t ) {
      REQ( !must, op.name << " throws on " << show(v) );
      REQ_EQ( g, v, string(op.name) + " threw and changed the container" );
      return;
    }
    if ( v.k == NOTYPE ) { // an empty container becomes a zero / empty value of the kind
      Val r = readback(g); REQ( r.k == op.target, op.name << " on an empty container gives " << show(r) ); v = r; return;
    }
    if ( !can && ( v.k == VECTOR || is_mat(v.k) ) && op.target != v.k ) { // not described by the model: must still denote the same numbers
      Val r = readback(g);
      // only an exact container of the requested kind with the same elements is acceptable
      REQ( r.k == op.target, op.name << " gives " << show(r) );
      size_t n = v.k == VECTOR ? v.ch.size() : v.size(); REQ( r.size() == n, op.name << " gives " << r.size() << " elements" );
      for ( size_t i=0; i<n; ++i ) { Val a = elem(v,i), b = elem(r,i); REQ( is_numeric(a.k) && same_num(as_cplx(a),as_cplx(b)), op.name << " changed element " << i ); }
      v = r; return;
    }
    REQ( can, op.name << " accepted " << show(v) << " giving " << show(readback(g)) );
    REQ_EQ( g, e, op.name );
    v = e; (void)stop;
  }
  static void chain( Runner & R, Val const & v0, vector<size_t> const & seq ) {
    if ( R.skip() ) return;
    R.run( [&]{ string s = show(v0); for ( auto i : seq ) s += string(" . ") + ops()[i].name; return s; }, [&]{
      GCN g; build( g, v0 ); Val v = v0; bool stop = false;
      for ( auto i : seq ) { step( g, v, ops()[i], stop ); R.trans(1); R.state(v); if ( stop ) break; }
    } );
  }

  void enumerate( Runner & R ) {
    size_t N = ops().size();
    vector<Val> U = values_one_per_shape();
    R.family("chains");
    for ( auto & v : values_medium() ) for ( size_t a=0; a<N; ++a ) { chain( R, v, {a} ); }
    for ( auto & v : U ) for ( size_t a=0; a<N; ++a ) for ( size_t b=0; b<N; ++b ) { chain( R, v, {a,b} ); if ( R.thorough || v.size() <= 3 ) for ( size_t c=0; c<N; ++c ) { chain( R, v, {a,b,c} ); if ( R.thorough && v.size() <= 2 ) for ( size_t d=0; d<N; ++d ) chain( R, v, {a,b,c,d} ); } }
    R.family("edge numbers");
    { vector<Val> E = scalars_edge(); for ( auto i : dense_ints(R.thorough) ) { E.push_back( vlong(i) ); if ( i == int32_t(i) ) E.push_back( vint(int32_t(i)) ); } for ( auto d : dense_reals(false) ) { E.push_back( vreal(d) ); E.push_back( vcplx(d,1.5) ); }
      for ( auto & e : E ) for ( size_t a=0; a<N; ++a ) {
        chain( R, e, {a} );
        if ( e.k == NOTYPE ) continue;
        Val z; switch ( e.k ) { case STRING: z = vstr("z"); break; case POINTER: z = vptr(8); break; case BOOL: z = vbool(true); break; case INT: z = vint(1); break; case LONG: z = vlong(1); break; case REAL: z = vreal(1); break; default: z = vcplx(1,0); }
        chain( R, vvec(e.k-POINTER+VPOINTER,{z,e,z}), {a} );
        if ( e.k >= INT && e.k <= COMPLEX ) chain( R, vmat(MINT+(e.k-INT),2,2,{z,z,e,z}), {a} );
      } }
    R.family("all lengths and shapes");
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 300 : 80 ) ) for ( size_t a=0; a<N; ++a ) chain( R, v, {a} );
    { unsigned M = R.thorough ? 14 : 7; for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned r=0; r<=M; ++r ) for ( unsigned c=0; c<=M; ++c ) for ( size_t a=0; a<N; ++a ) chain( R, distinct_mat(k,r,c), {a} ); }
    R.family("all boolean patterns");
    for ( unsigned n=0; n<=(R.thorough?10u:6u); ++n ) for ( unsigned m=0; m<(1u<<n); ++m ) { vector<Val> s; for ( unsigned i=0; i<n; ++i ) s.push_back( vbool((m>>i)&1) ); for ( size_t a=0; a<N; ++a ) chain( R, vvec(VBOOL,s), {a} ); }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 70000 : 4100 ) ) for ( size_t a=0; a<N; ++a ) chain( R, v, {a} );
  }
}
