#include "core.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P04";
  char const * const RULE = "every value of the universe x every destination content: serialize into exact / larger buffers and de_serialize from exact / larger buffers, plus all pairs stored back to back";

  static void rt( Runner & R, Val const & v, Val const & prior ) {
    if ( R.skip() ) return;
    R.run( [&]{ return show(v) + " into " + show(prior); }, [&]{
      auto S = std::make_unique<GCN>(); build( *S, v );
      int32_t n = S->mem_size();
      REQ( n >= 4, "mem_size " << n );
      std::unique_ptr<uint8_t[]> b( new uint8_t[size_t(n)] );
      int32_t w = S->serialize( n, b.get() );
      REQ( w == n, "serialize returned " << w << ", mem_size " << n );
      REQ_EQ( *S, v, "source after serialize" );
      { // larger buffer: same bytes, tail untouched
        size_t extra = 19; vector<uint8_t> big( size_t(n)+extra, 0xA5 );
        int32_t w2 = S->serialize( int32_t(big.size()), big.data() );
        REQ( w2 == n, "serialize into a larger buffer returned " << w2 );
        REQ( memcmp( big.data(), b.get(), size_t(n) ) == 0, "bytes differ in a larger buffer" );
        for ( size_t i=size_t(n); i<big.size(); ++i ) REQ( big[i] == 0xA5, "byte " << i << " beyond mem_size " << n << " written" );
        vector<uint8_t> vb( static_cast<size_t>(n) ); w2 = S->serialize( vb );
        REQ( w2 == n && vb.size() == size_t(n) && memcmp( vb.data(), b.get(), size_t(n) ) == 0, "serialize(vector) " << w2 );
        auto D = std::make_unique<GCN>(); build( *D, prior );
        int32_t r2 = D->de_serialize( vb ); REQ( r2 == n, "de_serialize(vector) returned " << r2 ); REQ_EQ( *D, v, "de_serialize(vector)" );
        auto E = std::make_unique<GCN>(); build( *E, prior );
        r2 = E->de_serialize( int32_t(big.size()), big.data() ); REQ( r2 == n, "de_serialize from a larger buffer returned " << r2 ); REQ_EQ( *E, v, "de_serialize from a larger buffer" );
      }
      auto D = std::make_unique<GCN>(); build( *D, prior );
      int32_t r = D->de_serialize( n, b.get() );
      REQ( r == n, "de_serialize returned " << r << ", expected " << n );
      REQ_EQ( *D, v, "round trip" );
      REQ( D->mem_size() == n, "mem_size of the copy " << D->mem_size() );
      R.trans(5); R.state(v);
    } );
  }
  static void back2back( Runner & R, Val const & a, Val const & b ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "back to back " + show(a) + " " + show(b); }, [&]{
      GCN A, B; build( A, a ); build( B, b );
      int32_t na = A.mem_size(), nb = B.mem_size();
      vector<uint8_t> buf( size_t(na+nb) );
      int32_t w = A.serialize( na+nb, buf.data() ); REQ( w == na, "first" );
      w = B.serialize( nb, buf.data()+na ); REQ( w == nb, "second" );
      GCN C, D;
      int32_t r = C.de_serialize( na+nb, buf.data() ); REQ( r == na, "first consumed " << r );
      r = D.de_serialize( nb, buf.data()+r ); REQ( r == nb, "second consumed " << r );
      REQ_EQ( C, a, "first" ); REQ_EQ( D, b, "second" );
      R.trans(4); R.state(a); R.state(b);
    } );
  }

  // the same containers and buffers used for one value after another
  static void reuse( Runner & R, Val const & a, Val const & b ) {
    if ( R.skip() ) return;
    R.run( [&]{ return "one after another " + show(a) + " then " + show(b); }, [&]{
      GCN S, D; vector<uint8_t> own;
      vector<uint8_t> fr[2]; int32_t nn[2];
      for ( int i=0; i<2; ++i ) { GCN F; build( F, i ? b : a ); nn[i] = F.serialize( fr[i] ); REQ( size_t(nn[i]) <= fr[i].size() && nn[i] == F.mem_size(), "serialize into an empty vector gives " << fr[i].size() << " bytes and returns " << nn[i] ); }
      for ( int i=0; i<4; ++i ) {
        Val const * v = i&1 ? &b : &a; int32_t n = nn[i&1]; vector<uint8_t> const & fresh = fr[i&1];
        build( S, *v );
        int32_t w = S.serialize( own ); REQ( w == n && own.size() >= size_t(n), "serialize into a used vector returns " << w << " expected " << n );
        REQ( memcmp( own.data(), fresh.data(), size_t(n) ) == 0, "bytes differ from those of a fresh container" ); REQ( S.mem_size() == n, "mem_size" );
        REQ( D.de_serialize( own ) == n, "de_serialize" ); REQ_EQ( D, *v, "de_serialize from the used vector" );
        R.trans(3); R.state(*v);
      }
    } );
  }

  void enumerate( Runner & R ) {
    auto U = values_one_per_shape(); auto M = values_medium();
    R.family("into every content");
    for ( auto & v : M ) for ( auto & p : U ) rt( R, v, p );
    R.family("one value after another");
    for ( auto & a : M ) for ( auto & b : R.thorough ? M : U ) reuse( R, a, b );
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( unsigned n=0; n<6; ++n ) for ( unsigned m=0; m<6; ++m ) { reuse( R, distinct_vec(k,n), distinct_vec(k,m) ); reuse( R, vgen({distinct_vec(k,n),vint(1)}), vgen({vstr("longer text, longer than the rest"),distinct_vec(k,m)}) ); }
    for ( unsigned n : { 0u, 1u, 20u, 300u } ) for ( unsigned m : { 0u, 1u, 20u, 300u } ) { reuse( R, vvec(VSTRING,{vstr("a"),vstr(string(n,'x'))}), vvec(VSTRING,{vstr(string(m,'y')),vstr("b")}) ); reuse( R, vmap({{string(n,'k'),vint(1)}}), vmap({{string(m,'l'),vstr("v")}}) ); reuse( R, vgen({vstr(string(n,'x'))}), vgen({vmap({{"k",vstr(string(m,'x'))}})}) ); }
    R.family("back to back");
    for ( auto & a : M ) for ( auto & b : U ) back2back( R, a, b );
    R.family("edge scalars, alone and inside sequences");
    for ( auto & v : scalars_edge() ) { rt( R, v, vnone() ); rt( R, vgen({v,vint(1),v}), vnone() ); rt( R, vmap({{"k",v},{"l",vint(1)}}), vnone() ); rt( R, vvec(VPOINTER+(v.k-POINTER),{v,distinct_elem(v.k,3),v}), vint(3) );
      if ( v.k == INT ) rt( R, vmat(MINT,2,1,{v,vint(5)}), vnone() );
      if ( v.k == LONG ) rt( R, vmat(MLONG,2,1,{v,vlong(5)}), vnone() );
      if ( v.k == REAL ) rt( R, vmat(MREAL,1,2,{vreal(5),v}), vnone() );
      if ( v.k == COMPLEX ) rt( R, vmat(MCOMPLEX,1,2,{vcplx(5,6),v}), vnone() ); }
    R.family("all lengths");
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 1100 : 300 ) ) rt( R, v, vnone() );
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 40 : 12 ) ) for ( auto & p : vectors_of_all_lengths( R.thorough ? 9 : 4 ) ) rt( R, v, p );
    R.family("large");
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( unsigned n : {4095u,4096u,32767u,32768u,65535u,65536u,65537u} ) rt( R, distinct_vec(k,n), vnone() );
    R.family("matrix shapes");
    { unsigned L = R.thorough ? 20 : 9; for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=L; ++a ) for ( unsigned b=0; b<=L; ++b ) { rt( R, distinct_mat(k,a,b), vnone() ); rt( R, vgen({distinct_mat(k,a,b),vint(7)}), distinct_mat(k,2,2) ); }
      for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned n : {127u,128u,255u,256u,257u,300u} ) { rt( R, distinct_mat(k,n,1), vnone() ); rt( R, distinct_mat(k,1,n), vnone() ); rt( R, distinct_mat(k,n,2), vnone() ); } }
    R.family("all texts of one and two bytes as strings and keys");
    for ( int a=0; a<256; ++a ) { string s(1,char(a)); rt( R, vstr(s), vnone() ); rt( R, vvec(VSTRING,{vstr(s),vstr("t"),vstr(s+s)}), vnone() ); rt( R, vmap({{s,vint(a)},{s+"x",vstr(s)}}), vnone() ); }
    for ( int a=0; a<256; ++a ) for ( int b=0; b<256; b += (R.thorough?1:3) ) { string s; s += char(a); s += char(b); rt( R, vstr(s), vnone() ); if ( R.thorough ) rt( R, vmap({{s,vint(a)}}), vnone() ); }
    R.family("string and key lengths");
    for ( int n=0; n<(R.thorough?5000:1100); ++n ) { string s; for ( int i=0; i<n; ++i ) s += char((i*31)%251); rt( R, vstr(s), vnone() ); rt( R, vmap({{s,vbool(true)}}), vnone() ); rt( R, vvec(VSTRING,{vstr(s),vstr("end")}), vnone() ); }
    R.family("nested");
    for ( auto & v : values_nested( 2, { vnone(), vint(3), vstr("") } ) ) rt( R, v, vnone() );
    for ( auto & v : values_nested( 2, { vptr(16), vbool(true), distinct_mat(MCOMPLEX,1,2) } ) ) rt( R, v, vnone() );
    if ( R.thorough ) { for ( auto & v : values_nested( 2, { vreal(1), distinct_vec(VINT,2), distinct_vec(VSTRING,2), vcplx(1,2) } ) ) rt( R, v, vmap({{"z",vint(1)}}) ); for ( auto & v : values_nested( 3, { vint(1) } ) ) rt( R, v, vnone() ); }
    for ( int d=1; d<=(R.thorough?400:120); ++d ) { Val t = vint(d); for ( int i=0; i<d; ++i ) t = (i&1) ? vgen({vstr("e"),t}) : vmap({{"k",t}}); rt( R, t, vnone() ); }
    R.family("large members of every shape");
    for ( auto & v : values_large( 70000 ) ) { rt( R, v, vnone() ); rt( R, vmap({{"v",v},{"w",vint(1)}}), vint(3) ); }
  }
}
