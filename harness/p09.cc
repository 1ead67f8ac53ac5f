#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P09";
  char const * const RULE = "every (source container, copyto_vec_*/copyto_mat_* call, previous destination) triple: all kinds, every conversion-edge number at every position of every typed vector / matrix / generic vector up to length 4, all lengths, all matrix shapes, all generic vectors over a scalar alphabet up to length 3, all pairs of columns; elements compared with an exact oracle, source read back";

  // elements of a value read as a sequence; false if its elements are not scalars
  static bool flat( Val const & v, vector<Val> & out ) {
    if ( is_scalar(v.k) ) { out.push_back(v); return true; }
    if ( is_vec(v.k) || is_mat(v.k) ) { for ( size_t i=0; i<v.size(); ++i ) out.push_back( elem(v,i) ); return true; }
    if ( v.k == VECTOR ) { for ( auto & c : v.ch ) { if ( !is_scalar(c.k) ) return false; out.push_back(c); } return true; }
    return false;
  }
  enum Must { YES, NO, MAYBE }; // must succeed, must throw, either (but exact if it succeeds)
  template <class T> struct Conv { static Must get( Val const & v, T & o ) { return to_integer<T>(v,o) ? YES : NO; } static bool eq( T a, T b ) { return a == b; } };
  template <> struct Conv<double> { static Must get( Val const & v, double & o ) { if ( !to_double(v,o) ) return NO; if ( v.k == LONG && i128(o) != i128(int64_t(v.w[0])) ) return MAYBE; return YES; } static bool eq( double a, double b ) { return same_num(a,b); } };
  template <> struct Conv<cplx> { static Must get( Val const & v, cplx & o ) { if ( !is_numeric(v.k) ) return NO; o = as_cplx(v); if ( v.k == LONG && i128(o.real()) != i128(int64_t(v.w[0])) ) return MAYBE; return YES; } static bool eq( cplx a, cplx b ) { return same_num(a,b); } };
  template <> struct Conv<string> { static Must get( Val const & v, string & o ) { if ( v.k != STRING ) return NO; o = v.s[0]; return YES; } static bool eq( string const & a, string const & b ) { return a == b; } };

  template <class T, class F> static void vec_case( GCN const & g, Val const & v, size_t prior, T const & fill, char const * name, F && f ) {
    vector<T> d( prior, fill );
    vector<Val> e; vector<T> x; Must m = YES;
    if ( !flat(v,e) ) m = NO;
    else for ( auto & s : e ) { T t{}; Must c = Conv<T>::get( s, t ); if ( c == NO ) { m = NO; break; } if ( c == MAYBE ) m = MAYBE; x.push_back(t); }
    bool num = !std::is_same<T,string>::value;
    // nothing to convert in a container of an unrelated kind: either answer is fine
    bool kindok = num ? ( is_numeric(v.k) || ( v.k >= VBOOL && v.k <= VCOMPLEX ) || is_mat(v.k) || v.k == VECTOR ) : ( v.k == STRING || v.k == VSTRING || v.k == VECTOR );
    bool empty = v.k == NOTYPE || ( !is_scalar(v.k) && v.size() == 0 );
    if ( v.k == NOTYPE ) { m = MAYBE; x.clear(); }
    else if ( !kindok ) m = empty ? MAYBE : NO;
    // a complex element inside a generic vector may be refused by a real target
    if ( m == YES && std::is_same<T,double>::value && v.k == VECTOR ) for ( auto & s : e ) if ( s.k == COMPLEX ) m = MAYBE;
    bool t = throws( [&]{ f( g, d ); } );
    REQ( !( t && m == YES ), name << " throws" );
    REQ( !( !t && m == NO ), name << " does not throw, gives " << d.size() << " elements" );
    if ( !t && !( v.k == NOTYPE ) ) {
      REQ( d.size() == x.size(), name << " gives " << d.size() << " elements, expected " << x.size() );
      for ( size_t i=0; i<x.size(); ++i ) REQ( Conv<T>::eq( d[i], x[i] ), name << " element " << i << " differs" );
    }
    REQ_EQ( g, v, string(name) + " changed the source" );
  }
  template <class T, class F> static void mat_case( GCN const & g, Val const & v, unsigned pr, unsigned pc, int target, char const * name, F && f ) {
    mat_type<T> d( pr, pc ); for ( auto & z : d ) z = T(77);
    unsigned nr = 0, nc = 0; vector<Val> e; bool shape = true, free_shape = false;
    if ( v.k == VECTOR ) {
      nc = unsigned(v.ch.size());
      for ( auto & c : v.ch ) {
        vector<Val> col; if ( !flat(c,col) ) { shape = false; break; }
        if ( is_mat(c.k) ) free_shape = true;
        if ( &c == &v.ch[0] ) nr = unsigned(col.size()); else if ( nr != col.size() ) { shape = false; break; }
        e.insert( e.end(), col.begin(), col.end() );
      }
    } else if ( flat(v,e) ) {
      if ( is_mat(v.k) ) { nr = v.nr; nc = v.nc; } else { nr = unsigned(e.size()); nc = 1; }
    } else shape = false;
    Must m = shape ? YES : NO; vector<T> x;
    if ( shape ) for ( auto & s : e ) { T t{}; Must c = Conv<T>::get( s, t ); if ( c == NO ) { m = NO; break; } if ( c == MAYBE ) m = MAYBE; x.push_back(t); }
    if ( v.k == VECTOR ) { bool allz = true; for ( auto & c : v.ch ) if ( c.k != NOTYPE && ( is_scalar(c.k) || c.size() != 0 ) ) allz = false; if ( allz ) { m = MAYBE; nr = 0; } }
    if ( v.k == NOTYPE ) return;   // an empty container as a matrix is not specified
    if ( m == YES ) {
      // storage of a wider element kind may be refused even when the values would fit
      int ek = v.k == VECTOR ? 0 : elem_kind(v.k); if ( v.k != VECTOR && ek > elem_kind(target) ) m = MAYBE;
      if ( v.k == VECTOR ) { if ( free_shape || nc == 0 || nr == 0 ) m = MAYBE; for ( auto & c : v.ch ) if ( c.k == VECTOR ) for ( auto & s : c.ch ) if ( s.k == COMPLEX && target != MCOMPLEX ) m = MAYBE; for ( auto & c : v.ch ) if ( c.k == COMPLEX && target != MCOMPLEX ) m = MAYBE; }
      if ( v.k == POINTER || v.k == VPOINTER || v.k == VSTRING || v.k == STRING || v.k == MAP ) m = MAYBE; // only when empty
    }
    bool t = throws( [&]{ f( g, d ); } );
    REQ( !( t && m == YES ), name << " throws" );
    REQ( !( !t && m == NO ), name << " does not throw" );
    if ( !t && !free_shape && !( v.k == VECTOR && ( nr == 0 || nc == 0 ) ) && v.k != VSTRING && v.k != VPOINTER && v.k != MAP ) {
      REQ( d.num_rows() == nr && d.num_cols() == nc, name << " gives " << d.num_rows() << " x " << d.num_cols() << " expected " << nr << " x " << nc );
      REQ( d.size() == x.size(), name << " gives " << d.size() << " elements" );
      for ( size_t i=0; i<x.size(); ++i ) REQ( Conv<T>::eq( d[i], x[i] ), name << " element " << i << " differs" );
    }
    REQ_EQ( g, v, string(name) + " changed the source" );
  }

  static void all( Runner & R, Val const & v, size_t prior, string const & where ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "copyto of " + show(v) + " over " + std::to_string(prior) + " elements"; }, [&]{
      GCN g; build( g, v ); string_view w = where;
      vec_case<int_type>( g, v, prior, -7, "copyto_vec_int", [&]( GCN const & s, vec_int_type & d ){ s.copyto_vec_int(d,w); } );
      vec_case<uint_type>( g, v, prior, 7, "copyto_vec_uint", [&]( GCN const & s, vec_uint_type & d ){ s.copyto_vec_uint(d,w); } );
      vec_case<long_type>( g, v, prior, -7, "copyto_vec_long", [&]( GCN const & s, vec_long_type & d ){ s.copyto_vec_long(d,w); } );
      vec_case<ulong_type>( g, v, prior, 7, "copyto_vec_ulong", [&]( GCN const & s, vec_ulong_type & d ){ s.copyto_vec_ulong(d,w); } );
      vec_case<double>( g, v, prior, 7.5, "copyto_vec_real", [&]( GCN const & s, vec_real_type & d ){ s.copyto_vec_real(d,w); } );
      vec_case<cplx>( g, v, prior, cplx(7,7), "copyto_vec_complex", [&]( GCN const & s, vec_complex_type & d ){ s.copyto_vec_complex(d,w); } );
      vec_case<string>( g, v, prior, "fill", "copyto_vec_string", [&]( GCN const & s, vec_string_type & d ){ s.copyto_vec_string(d,w); } );
      unsigned p = unsigned(prior);
      mat_case<int_type>( g, v, p, p?2:0, MINT, "copyto_mat_int", [&]( GCN const & s, mat_int_type & d ){ s.copyto_mat_int(d,w); } );
      mat_case<long_type>( g, v, p?2:0, p, MLONG, "copyto_mat_long", [&]( GCN const & s, mat_long_type & d ){ s.copyto_mat_long(d,w); } );
      mat_case<double>( g, v, p, p?3:0, MREAL, "copyto_mat_real", [&]( GCN const & s, mat_real_type & d ){ s.copyto_mat_real(d,w); } );
      mat_case<cplx>( g, v, p, p, MCOMPLEX, "copyto_mat_complex", [&]( GCN const & s, mat_complex_type & d ){ s.copyto_mat_complex(d,w); } );
      R.trans(11); R.state(v);
    } );
  }

  void enumerate( Runner & R ) {
    R.family("all kinds, all destinations");
    for ( auto & v : values_medium() ) for ( size_t p : { size_t(0), size_t(1), size_t(5) } ) for ( string w : { "", "where" } ) all( R, v, p, w );
    R.family("edge scalars at every position");
    { vector<Val> E = scalars_edge();
      vector<int64_t> D = dense_ints(false); for ( size_t i=0; i<D.size(); ++i ) if ( D[i] > 1000 || D[i] < -1000 || i%50 == 0 || R.thorough ) { E.push_back( vlong(D[i]) ); if ( D[i] == int32_t(D[i]) ) E.push_back( vint(int32_t(D[i])) ); }
      vector<double> F = dense_reals(false); for ( size_t i=0; i<F.size(); ++i ) if ( R.thorough || std::fabs(F[i]) > 1e8 || std::fabs(F[i]) < 20 ) { E.push_back( vreal(F[i]) ); E.push_back( vcplx(F[i],0) ); if ( R.thorough || i%5 == 0 ) { E.push_back( vcplx(F[i],-0.0) ); E.push_back( vcplx(F[i],1e-300) ); E.push_back( vcplx(F[i],std::nan("")) ); } }
      for ( auto & e : E ) {
        all( R, e, 2, "" );
        if ( e.k == NOTYPE ) continue;
        Val z; switch ( e.k ) { case STRING: z = vstr("z"); break; case POINTER: z = vptr(8); break; case BOOL: z = vbool(true); break; case INT: z = vint(1); break; case LONG: z = vlong(1); break; case REAL: z = vreal(1); break; default: z = vcplx(1,0); }
        int vk = e.k-POINTER+VPOINTER;
        for ( size_t n=1; n<=(R.thorough?4u:3u); ++n ) for ( size_t pos=0; pos<n; ++pos ) {
          vector<Val> s( n, z ); s[pos] = e;
          all( R, vvec(vk,s), pos, "" );
          all( R, vgen(s), pos, "" );
          if ( n == 2 || n == 4 ) if ( e.k >= INT && e.k <= COMPLEX ) { int mk = MINT + (e.k-INT); all( R, vmat(mk,unsigned(n/2),2,s), pos, "" ); }
          if ( n == 2 ) all( R, vgen({vvec(vk,s),vvec(vk,{z,z})}), 1, "" );
          if ( n == 2 ) all( R, vgen({vvec(vk,{z,z}),vgen(s)}), 1, "" );
        }
      } }
    R.family("all lengths");
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 300 : 70 ) ) for ( size_t p : { size_t(0), size_t(3), size_t(40) } ) all( R, v, p, "" );
    for ( int k=VBOOL; k<=VSTRING; ++k ) for ( unsigned n=0; n<=(R.thorough?200u:70u); ++n ) { Val v = distinct_vec(k,n), g = vgen({}); g.k = VECTOR; for ( size_t i=0; i<v.size(); ++i ) g.ch.push_back( elem(v,i) ); all( R, g, n%7, "" ); all( R, vgen({v,v}), n%3, "" ); }
    R.family("all shapes");
    { unsigned N = R.thorough ? 12 : 6; for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=N; ++a ) for ( unsigned b=0; b<=N; ++b ) for ( size_t p : { size_t(0), size_t(2), size_t(9) } ) all( R, distinct_mat(k,a,b), p, "" ); }
    R.family("generic vectors of scalars");
    { vector<Val> A{ vbool(true), vint(-3), vint(9), vlong(1LL<<40), vlong(-5), vreal(2.5), vreal(-4), vcplx(3,0), vcplx(3,1), vstr("x"), vstr(""), vptr(16), vnone(), vreal(std::nan("")) };
      vector<vector<Val>> S{{}}; int L = R.thorough ? 4 : 3;
      for ( int l=0; l<L; ++l ) { vector<vector<Val>> N; for ( auto & s : S ) for ( auto & a : A ) { auto t = s; t.push_back(a); N.push_back(t); } for ( auto & s : N ) { all( R, vgen(s), size_t(l), "" ); if ( l < 2 ) all( R, vgen({vgen(s),vgen(s)}), 0, "" ); } S = N; } }
    R.family("columns");
    { vector<Val> C; for ( int k=VBOOL; k<=VSTRING; ++k ) for ( unsigned n=0; n<=3; ++n ) C.push_back( distinct_vec(k,n) );
      for ( int k : {VINT,VREAL} ) { Val v = distinct_vec(k,2), g = vgen({}); g.k = VECTOR; for ( size_t i=0; i<2; ++i ) g.ch.push_back( elem(v,i) ); C.push_back(g); }
      C.push_back( vint(4) ); C.push_back( vreal(4.5) ); C.push_back( vlong(1LL<<40) ); C.push_back( vmap({{"a",vint(1)}}) ); C.push_back( vnone() );
      for ( auto & a : C ) { all( R, vgen({a}), 0, "" ); for ( auto & b : C ) { all( R, vgen({a,b}), 2, "" ); if ( R.thorough || (hashv(a)^hashv(b))%4 == 0 ) for ( auto & c : C ) all( R, vgen({a,b,c}), 2, "" ); } } }
    R.family("large members of every shape");
    for ( auto & v : values_large( 70000 ) ) all( R, v, 3, "" );
  }
}
