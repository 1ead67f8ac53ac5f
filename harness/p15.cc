#include "text.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P15";
  char const * const RULE = "collapse of every generic vector up to a length over an alphabet of all scalar kinds (with boundary numbers), typed vectors, matrices, maps and nested vectors, of all two-level nestings, of maps containing them and of long uniform / almost uniform vectors; result compared with the denotation rule (uniform sequences become one typed vector or column matrix, everything else unchanged), then collapsed again";

  static void one( Runner & R, Val const & v ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "collapse " + show(v); }, [&]{
      GCN g; build( g, v ); g.collapse(); Val e = collapsed(v);
      REQ_EQ( g, e, "collapse" ); g.collapse(); REQ_EQ( g, e, "second collapse" );
      R.trans(2); R.state(v); R.state(e);
    } );
  }
  // all sequences of length n over A
  template <class F> static void seqs( vector<Val> const & A, int n, F && f ) {
    vector<size_t> ix; ix.resize(size_t(n),0); vector<Val> cur; cur.resize(size_t(n));
    while ( true ) {
      for ( int i=0; i<n; ++i ) cur[size_t(i)] = A[ix[size_t(i)]];
      f( cur );
      int p = n-1; while ( p >= 0 && ++ix[size_t(p)] == A.size() ) ix[size_t(p--)] = 0;
      if ( p < 0 ) break;
    }
  }

  void enumerate( Runner & R ) {
    R.family("values");
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v);
    for ( auto & v : U ) for ( auto & c : contexts(v) ) one( R, c );
    int64_t const B = 1LL<<53;
    vector<Val> S{ vnone(), vbool(true), vbool(false), vint(3), vint(INT32_MIN), vlong(4), vlong(B), vlong(B+1), vlong(INT64_MAX), vlong(INT64_MIN), vlong(-B-1), vreal(2.5), vreal(-0.0), vreal(INFINITY), vcplx(1,-2), vcplx(3,0), vstr(""), vstr("t"), vptr(8) };
    vector<Val> V{ vvec(VBOOL,{}), vvec(VBOOL,{vbool(true)}), vvec(VBOOL,{vbool(true),vbool(false)}), vvec(VINT,{}), vvec(VINT,{vint(3)}), vvec(VINT,{vint(3),vint(-4)}), vvec(VLONG,{vlong(B)}), vvec(VLONG,{vlong(5),vlong(B+1)}), vvec(VLONG,{vlong(7),vlong(1LL<<40)}), vvec(VREAL,{}), vvec(VREAL,{vreal(.5)}), vvec(VREAL,{vreal(.5),vreal(1e300)}), vvec(VCOMPLEX,{vcplx(1,2)}), vvec(VCOMPLEX,{vcplx(1,2),vcplx(3,0)}), vvec(VSTRING,{}), vvec(VSTRING,{vstr("q")}), vvec(VSTRING,{vstr("q"),vstr("")}), vvec(VPOINTER,{vptr(1)}), vgen({}), vgen({vint(1)}), vgen({vint(1),vreal(.5)}), vgen({vbool(true)}), vgen({vstr("z")}), vgen({vnone()}), vgen({vgen({vint(1)}),vgen({vint(2)})}), vmap({}), vmap({{"k",vgen({vint(1),vint(2)})}}), distinct_mat(MINT,2,1), distinct_mat(MREAL,1,2), distinct_mat(MCOMPLEX,1,1) };
    vector<Val> A = S; A.insert( A.end(), V.begin(), V.end() );
    R.family("generic vectors");
    for ( int n=1; n<=3; ++n ) seqs( A, n, [&]( vector<Val> const & c ){ one( R, vgen(c) ); } );
    seqs( S, 4, [&]( vector<Val> const & c ){ one( R, vgen(c) ); } );
    if ( R.thorough ) { seqs( V, 4, [&]( vector<Val> const & c ){ one( R, vgen(c) ); } ); }
    R.family("two levels");
    vector<Val> L{ vbool(true), vint(3), vlong(B+1), vreal(2.5), vcplx(1,-2), vstr("t"), vnone() };
    vector<Val> W; for ( int n=0; n<=2; ++n ) { if ( n == 0 ) W.push_back(vgen({})); else seqs( L, n, [&]( vector<Val> const & c ){ W.push_back( vgen(c) ); } ); }
    for ( auto & a : W ) for ( auto & b : W ) { one( R, vgen({a,b}) ); one( R, vmap({{"x",vgen({a,b})},{"y",a}}) ); one( R, vgen({vgen({a,b}),vgen({b,a})}) ); one( R, vgen({vmap({{"x",a}}),vmap({{"x",b}})}) ); for ( auto & s : L ) { one( R, vgen({a,s,b}) ); one( R, vgen({s,a}) ); } if ( R.thorough ) for ( auto & c : W ) one( R, vgen({a,b,c}) ); }
    R.family("long");
    for ( unsigned n=1; n<=(R.thorough?300u:90u); ++n ) for ( int k=BOOL; k<=STRING; ++k ) {
      vector<Val> e; for ( unsigned i=0; i<n; ++i ) e.push_back( distinct_elem(k,i) ); one( R, vgen(e) );
      for ( int k2=BOOL; k2<=STRING; ++k2 ) if ( k2 != k ) for ( unsigned p : {0u,n/2,n-1} ) { vector<Val> f = e; f[p] = distinct_elem(k2,p); one( R, vgen(f) ); }
    }
    for ( unsigned nr=0; nr<=(R.thorough?10u:6u); ++nr ) for ( unsigned nc=1; nc<=(R.thorough?10u:6u); ++nc ) for ( int k=VBOOL; k<=VSTRING; ++k ) for ( int k2=VBOOL; k2<=VSTRING; ++k2 ) for ( int off=0; off<2; ++off ) for ( unsigned p : { 0u, nc-1 } ) {
      vector<Val> c; for ( unsigned j=0; j<nc; ++j ) { vector<Val> e; unsigned len = nr + ( j==p && off ? 1 : 0 ); for ( unsigned i=0; i<len; ++i ) e.push_back( distinct_elem(elem_kind(j==p?k2:k),i+j*nr) ); c.push_back( ((nr+nc)&1) ? vgen(e) : vvec(j==p?k2:k,e) ); }
      one( R, vgen(c) );
    }
    R.family("large members of every shape");
    for ( auto & v : values_large( 4100 ) ) { one( R, v ); one( R, vmap({{"v",v},{"w",vgen({v,v})}}) ); }
  }
}
