#include "core.hh"
namespace H {
  char const * const PROPERTY = "P06";
  char const * const RULE = "all ordered pairs of a value universe (every kind, empty/short/long/nested) and, for every value, every single-point mutation at every position, and all pairs of edge strings (any bytes) as values, keys and elements; compare_content must be empty exactly for equal values";

  // every value that differs from v in one place
  static void mutants( Val const & v, vector<Val> & out, int depth = 0 ) {
    if ( v.k == VECTOR || v.k == MAP ) {
      for ( size_t i=0; i<v.ch.size(); ++i ) {
        vector<Val> sub; mutants( v.ch[i], sub, depth+1 );
        for ( auto & x : sub ) { Val m = v; m.ch[i] = x; out.push_back(m); }
        if ( v.k == VECTOR ) {
          Val m = v; m.ch.erase( m.ch.begin()+long(i) ); out.push_back(m);
          if ( i > 0 && v.ch[i] != v.ch[i-1] ) { m = v; std::swap(m.ch[i],m.ch[i-1]); out.push_back(m); }
        } else {
          Val m = v; m.del(v.s[i]); out.push_back(m);
          m = v; Val c = v.ch[i]; m.del(v.s[i]); string nk = v.s[i]+"'"; if ( !m.find(nk) ) { m.put(nk) = c; out.push_back(m); }
        }
      }
      Val m = v; if ( v.k == VECTOR ) m.ch.push_back(vint(77)); else m.put("zz") = vint(77);
      out.push_back(m);
      return;
    }
    if ( v.k == NOTYPE ) { out.push_back(vbool(false)); return; }
    size_t nw = v.w.size();
    for ( size_t i=0; i<nw; ++i ) {
      int ek = elem_kind(v.k);
      vector<uint64_t> alt;
      if ( ek == BOOL ) alt = { v.w[i]^1 };
      else if ( ek == INT ) alt = { uint64_t(int64_t(int32_t(uint32_t(v.w[i])^1u))), uint64_t(int64_t(int32_t(uint32_t(v.w[i])^0x80000000u))) };
      else if ( ek == LONG || ek == POINTER ) alt = { v.w[i]^1, v.w[i]^(1ull<<40), v.w[i]^(1ull<<63) };
      else { double d = bitsd(v.w[i]); alt = { dbits(d+1), dbits(d-1), dbits(std::nextafter(d,1e300)) }; }
      for ( auto a : alt ) { if ( (ek == REAL || ek == COMPLEX) && bitsd(a) == bitsd(v.w[i]) ) continue; Val m = v; m.w[i] = a; out.push_back(m); }
    }
    for ( size_t i=0; i<v.s.size(); ++i ) {
      Val m = v; m.s[i] += "x"; out.push_back(m);
      m = v; m.s[i] += string(1,'\0'); out.push_back(m);
      if ( !v.s[i].empty() ) { m = v; m.s[i].pop_back(); out.push_back(m); m = v; m.s[i].back() ^= 1; out.push_back(m); m = v; m.s[i][0] ^= 32; out.push_back(m); }
    }
    if ( is_vec(v.k) ) {
      size_t n = v.size();
      { vector<Val> e; for ( size_t i=0; i<n; ++i ) e.push_back(elem(v,i)); e.push_back(distinct_elem(elem_kind(v.k),0)); out.push_back(vvec(v.k,e)); }
      if ( n > 0 ) { vector<Val> e; for ( size_t i=0; i+1<n; ++i ) e.push_back(elem(v,i)); out.push_back(vvec(v.k,e)); }
      if ( n > 0 ) { vector<Val> e; for ( size_t i=1; i<n; ++i ) e.push_back(elem(v,i)); out.push_back(vvec(v.k,e)); }
    }
    if ( is_mat(v.k) && v.size() > 0 && v.nr != v.nc ) { Val m = v; std::swap(m.nr,m.nc); out.push_back(m); }
    if ( is_mat(v.k) ) { out.push_back(distinct_mat(v.k,v.nr+1,v.nc)); out.push_back(distinct_mat(v.k,v.nr,v.nc+1)); }
  }

  static bool has_nan( Val const & v ) {
    int ek = elem_kind(v.k);
    if ( ek == REAL || ek == COMPLEX ) for ( auto x : v.w ) if ( std::isnan(bitsd(x)) ) return true;
    for ( auto & c : v.ch ) if ( has_nan(c) ) return true;
    return false;
  }
  // numbers compare as numbers (0 == -0)
  static bool same( Val const & a, Val const & b ) {
    if ( a.k != b.k || a.nr != b.nr || a.nc != b.nc || a.s != b.s || a.w.size() != b.w.size() || a.ch.size() != b.ch.size() ) return false;
    int ek = elem_kind(a.k);
    for ( size_t i=0; i<a.w.size(); ++i ) if ( a.w[i] != b.w[i] && !( (ek == REAL || ek == COMPLEX) && bitsd(a.w[i]) == bitsd(b.w[i]) ) ) return false;
    for ( size_t i=0; i<a.ch.size(); ++i ) if ( !same(a.ch[i],b.ch[i]) ) return false;
    return true;
  }

  static void pair_case( Runner & R, Val const & a, Val const & b ) {
    if ( same(a,b) != (a == b) ) return; // 0 against -0: not decided here
    if ( R.skip() ) return;
    R.run( [&]{ return show(a) + "  <=>  " + show(b); }, [&]{
      auto A = std::make_unique<GCN>(); auto B = std::make_unique<GCN>();
      build( *A, a ); build( *B, b );
      string r1 = A->compare_content( *B, "" ), r2 = B->compare_content( *A, "" );
      bool eq = same(a,b);
      REQ( r1.empty() == eq, "a.compare_content(b) gives '" << r1 << "' for " << (eq?"equal":"different") << " containers" );
      REQ( r2.empty() == eq, "b.compare_content(a) gives '" << r2 << "' for " << (eq?"equal":"different") << " containers" );
      REQ_EQ( *A, a, "left operand changed" ); REQ_EQ( *B, b, "right operand changed" );
      if ( eq ) { REQ( A->compare_content(*A).empty(), "container differs from itself" ); }
      R.trans(2); R.state(a); R.state(b);
    } );
  }

  void enumerate( Runner & R ) {
    vector<Val> U;
    for ( auto & v : values_medium() ) if ( !has_nan(v) ) U.push_back(v);
    for ( auto & v : scalars_small() ) if ( !has_nan(v) ) U.push_back(v);
    R.family("pairs");
    for ( auto & a : U ) for ( auto & b : U ) pair_case( R, a, b );
    R.family("scalar pairs");
    for ( int k=POINTER; k<=STRING; ++k ) {
      auto e = scalars_of(k,true);
      for ( auto & a : e ) for ( auto & b : e ) if ( !has_nan(a) && !has_nan(b) ) pair_case( R, a, b );
    }
    R.family("lookalike pairs inside larger containers");
    { vector<Val> L = values_lookalike();
      for ( auto & a : L ) { auto ca = contexts(a); for ( auto & b : L ) { auto cb = contexts(b); for ( size_t i=0; i<ca.size(); ++i ) pair_case( R, ca[i], cb[i] ); } } }
    R.family("pairs of strings and keys");
    { vector<string> E = string_edges();
      for ( auto const & x : { string("a\0c",3), string("a\0",2), string("a\0bd",4), string("b\0b",3), string("A"), string("abc "), string("Abc"), string("abd"), string("\0",1)+"a", string("\xc3\xa8"), string("\xe9"), string(300,'k')+"1", string(300,'k')+"2" } ) E.push_back(x);
      for ( auto const & x : E ) for ( auto const & y : E ) {
        pair_case( R, vstr(x), vstr(y) );
        pair_case( R, vmap({{x,vint(1)}}), vmap({{y,vint(1)}}) );
        if ( x != "t" && y != "t" ) pair_case( R, vmap({{x,vnone()},{"t",vstr(x)}}), vmap({{y,vnone()},{"t",vstr(x)}}) );
        pair_case( R, vvec(VSTRING,{vstr("t"),vstr(x)}), vvec(VSTRING,{vstr("t"),vstr(y)}) );
        pair_case( R, vgen({vint(1),vmap({{"k",vstr(x)}})}), vgen({vint(1),vmap({{"k",vstr(y)}})}) );
      } }
    R.family("single-point mutations");
    vector<Val> M = U;
    for ( auto & v : values_nested( 2, { vint(5), vstr("q") } ) ) M.push_back(v);
    if ( R.thorough ) for ( auto & v : values_nested( 2, { vnone(), vreal(0.5), distinct_vec(VINT,2) } ) ) M.push_back(v);
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 120 : 40 ) ) M.push_back(v);
    for ( auto & v : M ) {
      pair_case( R, v, v );
      vector<Val> ms; mutants( v, ms );
      for ( auto & m : ms ) pair_case( R, v, m );
    }
    R.family("long sequences");
    for ( int k=VPOINTER; k<=VSTRING; ++k ) for ( unsigned n : {100u,255u,256u,257u,1000u,1025u,4097u,65537u} ) {
      Val v = distinct_vec(k,n);
      pair_case( R, v, v );
      for ( unsigned pos : {0u,1u,n/2,n-2,n-1,63u,64u,99u} ) { if ( pos >= n ) continue; vector<Val> e; for ( unsigned i=0; i<n; ++i ) e.push_back(elem(v,i)); Val old = e[pos]; e[pos] = distinct_elem(elem_kind(k),pos+1); if ( e[pos] == old ) e[pos] = distinct_elem(elem_kind(k),pos+2); if ( e[pos] == old ) continue; pair_case( R, v, vvec(k,e) ); }
    }
    for ( auto & v : values_large( 1100 ) ) {
      if ( has_nan(v) ) continue;
      pair_case( R, v, v ); vector<Val> ms; if ( v.size() <= 260 && depth(v) < 5 ) mutants( v, ms ); for ( auto & m : ms ) pair_case( R, v, m );
      if ( v.k == VECTOR || v.k == MAP ) for ( size_t p : { size_t(0), v.ch.size()/2, v.ch.size()-1 } ) { Val m = v; m.ch[p] = v.ch[p].k == STRING ? vreal(7) : vstr("other"); pair_case( R, v, m ); m = v; m.ch.erase( m.ch.begin()+long(p) ); if ( m.k == MAP ) m.s.erase( m.s.begin()+long(p) ); pair_case( R, v, m ); if ( v.k == MAP ) { m = v; m.ch.back() = vint(77); m.s.back() += "x"; pair_case( R, v, m ); } }
      if ( v.k == STRING ) for ( size_t p : { size_t(0), v.s[0].size()/2, v.s[0].size()-1 } ) { Val m = v; m.s[0][p] ^= 1; pair_case( R, v, m ); m = v; m.s[0].erase(p,1); pair_case( R, v, m ); }
    }
  }
}
