// Exact numeric oracle shared by the conversion checks.
#pragma once
#include "core.hh"
namespace H {
  typedef __int128 i128;
  inline bool is_numeric( int k ) { return k >= BOOL && k <= COMPLEX; }
  // the scalar as an exact integer; false if it is not a whole real number (or not a number)
  inline bool whole( Val const & v, i128 & out ) {
    switch ( v.k ) {
    case BOOL: case INT: case LONG: out = i128(int64_t(v.w[0])); return true;
    case COMPLEX: if ( bitsd(v.w[1]) != 0 ) return false; // NaN != 0 too
      [[fallthrough]];
    case REAL: {
      double d = bitsd(v.w[0]);
      if ( !(std::fabs(d) < 1e30) ) return false;
      if ( d != std::floor(d) ) return false;
      out = i128(d); return true;
    }
    }
    return false;
  }
  // lossless value in an integer target, or not convertible
  template <class T> bool to_integer( Val const & v, T & out ) {
    i128 x; if ( !whole(v,x) ) return false;
    if ( x < i128(std::numeric_limits<T>::min()) || x > i128(std::numeric_limits<T>::max()) ) return false;
    out = T(x); return true;
  }
  inline bool to_double( Val const & v, double & out ) {
    if ( !is_numeric(v.k) ) return false;
    if ( v.k == COMPLEX && !(bitsd(v.w[1]) == 0) ) return false;
    out = as_real(v); return true;
  }
  inline bool same_num( double a, double b ) { return a == b || ( a != a && b != b ); }
  inline bool same_num( float a, float b ) { return a == b || ( a != a && b != b ); }
  inline bool same_num( cplx a, cplx b ) { return same_num(a.real(),b.real()) && same_num(a.imag(),b.imag()); }

  // dense families of numbers around every power of two
  vector<double>  dense_reals( bool thorough );
  vector<int64_t> dense_ints( bool thorough );
  inline vector<double> dense_reals( bool thorough ) {
    std::set<uint64_t> S; auto add = [&]( double d ) { S.insert(dbits(d)); };
    for ( double d : real_edges() ) add(d);
    int K = thorough ? 4000 : 600;
    for ( int k=-K; k<=K; ++k ) { add(k); add(k*0.25); add(k*0.1); }
    for ( int e=-1074; e<1024; ++e ) {
      if ( !thorough && ( e < -60 || e > 70 ) && e % 37 != 0 ) continue;
      double p = std::ldexp(1.0,e);
      for ( double s : {1.0,-1.0} ) { double q = s*p; for ( double x : { q, q+1, q-1, q+0.5, q-0.5, std::nextafter(q,1e308), std::nextafter(q,-1e308), q*1.5, q*3-1 } ) add(x); }
    }
    for ( double b : { 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9223372036854775807.0, 18446744073709551615.0 } )
      for ( int k=-3; k<=3; ++k ) for ( double s : {1.0,-1.0} ) { add(s*b+k); add(s*b+k+0.5); add(s*b+k+0.25); double x = s*b; for ( int t=0; t<=k; ++t ) x = std::nextafter(x,0); add(x); x = s*b; for ( int t=0; t<=k; ++t ) x = std::nextafter(x,s*1e300); add(x); }
    vector<double> r; for ( auto b : S ) r.push_back(bitsd(b)); return r;
  }
  inline vector<int64_t> dense_ints( bool thorough ) {
    std::set<int64_t> S; for ( auto i : int_edges() ) S.insert(i);
    int K = thorough ? 70000 : 1100;
    for ( int k=-K; k<=K; ++k ) S.insert(k);
    for ( int e=0; e<64; ++e ) for ( int d=-4; d<=4; ++d ) { uint64_t p = (uint64_t(1)<<e) + uint64_t(int64_t(d)); S.insert(int64_t(p)); S.insert(int64_t(0-p)); S.insert(int64_t(p*3)); S.insert(int64_t(p*5+1)); }
    for ( int64_t p=1; p<1000000000000000000; p*=10 ) for ( int d=-1; d<=1; ++d ) { S.insert(p+d); S.insert(-p+d); S.insert(p*9+d); }
    return vector<int64_t>( S.begin(), S.end() );
  }
}
