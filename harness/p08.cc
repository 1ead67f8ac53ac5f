#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P08";
  char const * const RULE = "every map over every subset of a key alphabet (empty, prefixes of one another, embedded NUL, high bytes, long) queried with every key (as a view into a longer buffer) and every key list up to length 3, with every value kind; every stored scalar of the conversion universe through every typed lookup; every path of a nested map; non-map containers. Outcome, value, untouched outputs and untouched map compared with a dictionary model";

  static vector<string> const KEYS{ "a", "ab", "", string("a\0b",3), "\xff", "A", "a key that is longer than the small string buffer" };

  // key as a view that is followed by other characters in memory
  struct View { string buf; string_view v; View( string const & k ) : buf( "<" + k + "b>" ), v( buf.data()+1, k.size() ) {} };

  template <class T> static bool want( Val const & v, T & out ) { return to_integer<T>(v,out); }
  template <> bool want<bool>( Val const & v, bool & out ) { if ( v.k != BOOL ) return false; out = v.w[0] != 0; return true; }
  template <> bool want<double>( Val const & v, double & out ) { return to_double(v,out); }
  template <> bool want<cplx>( Val const & v, cplx & out ) { if ( !is_numeric(v.k) ) return false; out = as_cplx(v); return true; }
  template <> bool want<string>( Val const & v, string & out ) { if ( v.k != STRING ) return false; out = v.s[0]; return true; }
  template <class T> static bool eq( T const & a, T const & b ) { return a == b; }
  template <> bool eq<double>( double const & a, double const & b ) { return same_num(a,b); }
  template <> bool eq<cplx>( cplx const & a, cplx const & b ) { return same_num(a,b); }

  template <class T> static void lookup_one( GCN const & g, Val const & m, string const & key, T const & init, char const * tn ) {
    View k(key); T e = init; Val const * p = m.k == MAP ? m.find(key) : nullptr;
    bool ok = p && want<T>( *p, e );
    T out = init; bool r = g.get_if_exists( k.v, out );
    REQ( r == ok, "get_if_exists<" << tn << ">(" << show_bytes(key) << ") = " << r );
    REQ( eq<T>( out, ok ? e : init ), "get_if_exists<" << tn << ">(" << show_bytes(key) << ") " << (ok?"gives a wrong value":"touched the output") );
    if ( key.find('\0') == string::npos ) {
      T o2 = init; bool r2 = g.get_if_exists( key.c_str(), o2 );
      REQ( r2 == ok && eq<T>( o2, ok ? e : init ), "get_if_exists<" << tn << ">(char*)" );
    }
  }
  template <class T> static void lookup_list( GCN const & g, Val const & m, vector<string> const & keys, T const & init, char const * tn ) {
    T e = init; bool ok = false;
    if ( m.k == MAP ) for ( auto & k : keys ) { Val const * p = m.find(k); if ( p && want<T>(*p,e) ) { ok = true; break; } }
    T out = init; bool r = g.get_if_exists( keys, out );
    REQ( r == ok, "get_if_exists<" << tn << ">(list) = " << r );
    REQ( eq<T>( out, ok ? e : init ), "get_if_exists<" << tn << ">(list) " << (ok?"gives the wrong value":"touched the output") );
  }
  template <class F> static void all_types( F && f ) {
    f( true, "bool" ); f( false, "bool" ); f( int_type(-77), "int" ); f( uint_type(77), "uint" ); f( long_type(-777), "long" ); f( ulong_type(777), "ulong" );
    f( 7.75, "real" ); f( cplx(7.75,-7.25), "complex" ); f( string("unset"), "string" );
  }


  // a vector of numbers under the key; a narrower one may be promoted in place (same numbers) or refused
  template <class F> static void vec_lookup( GCN const & g0, Val const & m, Val const * p, int target, char const * name, F && f ) {
    bool narrower = p && ( p->k == NOTYPE || ( p->k >= VBOOL && p->k < target ) );
    GCN tmp; GCN const * gp = &g0;
    if ( narrower ) { tmp.from_gc( g0 ); gp = &tmp; }
    vector<cplx> r; bool t = throws( [&]{ for ( auto const & x : f( *gp ) ) r.push_back( cplx(x) ); } );
    bool ok = p && p->k == target;
    if ( narrower ) { if ( t ) { REQ_EQ( tmp, m, string(name) + " that throws changed the map" ); return; } }
    else REQ( t != ok, name << (t ? " throws" : " accepts a value of another kind") );
    if ( t ) return;
    REQ( r.size() == p->size(), name << " returns " << r.size() << " elements" );
    for ( size_t i=0; i<r.size(); ++i ) REQ( same_num( r[i], as_cplx( elem(*p,i) ) ), name << " element " << i << " = " << r[i] );
    if ( narrower ) {
      Val a = readback(tmp); REQ( a.k == MAP && a.s == m.s && a.ch.size() == m.ch.size(), name << " changed the keys of the map" );
      for ( size_t i=0; i<a.ch.size(); ++i ) if ( a.ch[i] != m.ch[i] ) {
        REQ( &m.ch[i] == p || target == 0, name << " changed another entry" );
        REQ( a.ch[i].size() == m.ch[i].size(), name << " changed the entry" );
        for ( size_t j=0; j<a.ch[i].size(); ++j ) REQ( same_num( as_cplx(elem(a.ch[i],j)), as_cplx(elem(m.ch[i],j)) ), name << " changed the entry" );
      }
    }
  }

  // get_map_* : value or exception
  static void get_map_single( GCN const & g, Val const & m, string const & key, string const & where ) {
    View k(key); Val const * p = m.k == MAP ? m.find(key) : nullptr;
    string_view w = where;
    { bool e{}, r{}; bool ok = p && want<bool>(*p,e); bool t = throws( [&]{ r = g.get_map_bool(k.v,w); } ); REQ( t != ok && ( t || r == e ), "get_map_bool" ); }
    { int_type e{}, r{}; bool ok = p && want<int_type>(*p,e); bool t = throws( [&]{ r = g.get_map_int(k.v,w); } ); REQ( t != ok && ( t || r == e ), "get_map_int " << (t?"throws":"returns ") << r ); }
    { double e{}, r{}; bool ok = p && want<double>(*p,e); bool t = throws( [&]{ r = g.get_map_number(k.v,w); } );
      if ( p && p->k == COMPLEX ) { if ( !t ) REQ( ok && same_num(r,e), "get_map_number of a complex" ); } else REQ( t != ok && ( t || same_num(r,e) ), "get_map_number" ); }
    { string e, r; bool ok = p && want<string>(*p,e); bool t = throws( [&]{ r = string(g.get_map_string(k.v,w)); } ); REQ( t != ok && ( t || r == e ), "get_map_string" ); }
    vec_lookup( g, m, p, VREAL, "get_map_vec_real", [&]( GCN const & x ) -> vec_real_type const & { return x.get_map_vec_real(k.v,w); } );
    vec_lookup( g, m, p, VCOMPLEX, "get_map_vec_complex", [&]( GCN const & x ) -> vec_complex_type const & { return x.get_map_vec_complex(k.v,w); } );
    { vec_string_type const * r = nullptr; bool ok = p && p->k == VSTRING; bool t = throws( [&]{ r = &g.get_map_vec_string(k.v,w); } ); REQ( t != ok, "get_map_vec_string" ); if ( ok ) REQ( vector<string>(*r) == p->s, "get_map_vec_string value" ); }
    // operator() and exists
    REQ( g.exists( k.v ) == ( p != nullptr ), "exists(" << show_bytes(key) << ")" );
    { GCN const * r = nullptr; bool t = throws( [&]{ r = &g( k.v, w ); } ); REQ( t == (p==nullptr), "operator() const" ); if ( p ) REQ_EQ( *r, *p, "operator() const" ); }
    { GCN const * r = nullptr; bool t = throws( [&]{ r = &g[k.v]; } ); REQ( t == (p==nullptr), "operator[] const" ); if ( p ) REQ_EQ( *r, *p, "operator[] const" ); }
    { GCN * r = nullptr; bool t = throws( [&]{ r = &const_cast<GCN&>(g)( k.v, w ); } ); REQ( t == (p==nullptr), "operator()" ); if ( p ) REQ_EQ( *r, *p, "operator()" ); }
  }
  static void get_map_list( GCN const & g, Val const & m, vector<string> const & keys, string const & where ) {
    Val const * p = nullptr; string who;
    if ( m.k == MAP ) for ( auto & k : keys ) if ( (p = m.find(k)) ) { who = k; break; }
    string_view w = where;
    REQ( g.exists( keys ) == ( p != nullptr ), "exists(list)" );
    { string r; bool t = throws( [&]{ r = g.must_exists(keys,w); } ); REQ( t == (p==nullptr) && ( t || r == who ), "must_exists returns " << r ); }
    { bool e{}, r{}; bool ok = p && want<bool>(*p,e); bool t = throws( [&]{ r = g.get_map_bool(keys,w); } ); REQ( t != ok && ( t || r == e ), "get_map_bool(list)" ); }
    { int_type e{}, r{}; bool ok = p && want<int_type>(*p,e); bool t = throws( [&]{ r = g.get_map_int(keys,w); } ); REQ( t != ok && ( t || r == e ), "get_map_int(list)" ); }
    { double e{}, r{}; bool ok = p && want<double>(*p,e); bool t = throws( [&]{ r = g.get_map_number(keys,w); } );
      if ( p && p->k == COMPLEX ) { if ( !t ) REQ( ok && same_num(r,e), "get_map_number(list) of a complex" ); } else REQ( t != ok && ( t || same_num(r,e) ), "get_map_number(list)" ); }
    { string e, r; bool ok = p && want<string>(*p,e); bool t = throws( [&]{ r = string(g.get_map_string(keys,w)); } ); REQ( t != ok && ( t || r == e ), "get_map_string(list)" ); }
    vec_lookup( g, m, p, VREAL, "get_map_vec_real", [&]( GCN const & x ) -> vec_real_type const & { return x.get_map_vec_real(keys,w); } );
    vec_lookup( g, m, p, VCOMPLEX, "get_map_vec_complex", [&]( GCN const & x ) -> vec_complex_type const & { return x.get_map_vec_complex(keys,w); } );
    { vec_string_type const * r = nullptr; bool ok = p && p->k == VSTRING; bool t = throws( [&]{ r = &g.get_map_vec_string(keys,w); } ); REQ( t != ok, "get_map_vec_string(list)" ); if ( ok ) REQ( vector<string>(*r) == p->s, "get_map_vec_string(list) value" ); }
    { GCN const * r = nullptr; bool t = throws( [&]{ r = &g( keys, w ); } ); REQ( t == (p==nullptr), "operator()(list) const" ); if ( p ) REQ_EQ( *r, *p, "operator()(list) const" ); }
    { GCN * r = nullptr; bool t = throws( [&]{ r = &const_cast<GCN&>(g)( keys, w ); } ); REQ( t == (p==nullptr), "operator()(list)" ); if ( p ) REQ_EQ( *r, *p, "operator()(list)" ); }
  }
  // initializer_list form: a path of keys through nested maps
  template <class F> static void with_list( vector<string> const & k, F && f ) {
    switch ( k.size() ) {
    case 0: f( std::initializer_list<string>{} ); break;
    case 1: f( { k[0] } ); break;
    case 2: f( { k[0], k[1] } ); break;
    case 3: f( { k[0], k[1], k[2] } ); break;
    case 4: f( { k[0], k[1], k[2], k[3] } ); break;
    case 5: f( { k[0], k[1], k[2], k[3], k[4] } ); break;
    case 6: f( { k[0], k[1], k[2], k[3], k[4], k[5] } ); break;
    case 7: f( { k[0], k[1], k[2], k[3], k[4], k[5], k[6] } ); break;
    case 8: f( { k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7] } ); break;
    default: f( { k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8] } ); break; // at most 9 keys are used
    }
  }
  static void get_map_path( GCN const & g, Val const & m, vector<string> const & keys ) {
    Val const * p = &m; for ( auto & k : keys ) { p = p && p->k == MAP ? p->find(k) : nullptr; }
    typedef std::initializer_list<string> IL;
    with_list( keys, [&]( IL il ){
      { bool e{}, r{}; bool ok = p && want<bool>(*p,e); bool t = throws( [&]{ r = g.get_map_bool(il); } ); REQ( t != ok && ( t || r == e ), "get_map_bool(path)" ); }
      { int_type e{}, r{}; bool ok = p && want<int_type>(*p,e); bool t = throws( [&]{ r = g.get_map_int(il); } ); if ( !ok || p->k == INT ) REQ( t != ok && ( t || r == e ), "get_map_int(path)" ); else if ( !t ) REQ( r == e, "get_map_int(path) value" ); }
      { double e{}, r{}; bool ok = p && want<double>(*p,e); bool t = throws( [&]{ r = g.get_map_number(il); } ); if ( p && p->k == COMPLEX ) { if ( !t ) REQ( ok && same_num(r,e), "get_map_number(path) of a complex" ); } else REQ( t != ok && ( t || same_num(r,e) ), "get_map_number(path)" ); }
      { string e, r; bool ok = p && want<string>(*p,e); bool t = throws( [&]{ r = string(g.get_map_string(il)); } ); REQ( t != ok && ( t || r == e ), "get_map_string(path)" ); }
      { vec_real_type const * r = nullptr; bool ok = p && p->k == VREAL; if ( !( p && p->k >= VBOOL && p->k < VREAL ) ) { bool t = throws( [&]{ r = &g.get_map_vec_real(il); } ); REQ( t != ok, "get_map_vec_real(path)" ); if ( ok ) { REQ( r->size() == p->size(), "size" ); for ( size_t i=0; i<r->size(); ++i ) REQ( same_num( cplx((*r)[i]), as_cplx(elem(*p,i)) ), "get_map_vec_real(path) element" ); } } }
      { vec_complex_type const * r = nullptr; bool ok = p && p->k == VCOMPLEX; if ( !( p && p->k >= VBOOL && p->k < VCOMPLEX ) ) { bool t = throws( [&]{ r = &g.get_map_vec_complex(il); } ); REQ( t != ok, "get_map_vec_complex(path)" ); if ( ok ) { REQ( r->size() == p->size(), "size" ); for ( size_t i=0; i<r->size(); ++i ) REQ( same_num( cplx((*r)[i]), as_cplx(elem(*p,i)) ), "get_map_vec_complex(path) element" ); } } }
      { vec_string_type const * r = nullptr; bool ok = p && p->k == VSTRING; bool t = throws( [&]{ r = &g.get_map_vec_string(il); } ); REQ( t != ok, "get_map_vec_string(path)" ); if ( ok ) REQ( vector<string>(*r) == p->s, "value" ); }
    } );
  }

  static string showk( vector<string> const & k ) { string s = "("; for ( auto & x : k ) s += show_bytes(x) + " "; return s + ")"; }

  // all queries of one map
  static void query_all( Runner & R, Val const & m, vector<string> const & keys, int maxlist ) {
    for ( auto & k : keys ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "key " + show_bytes(k) + " in " + show(m); }, [&]{
        GCN g; build( g, m );
        all_types( [&]( auto init, char const * tn ){ lookup_one( g, m, k, init, tn ); } );
        for ( string w : { "", "where" } ) get_map_single( g, m, k, w );
        REQ_EQ( g, m, "map after the lookups" );
        R.trans(30); R.state(m);
      } );
    }
    // lists
    size_t n = keys.size();
    for ( int len=0; len<=maxlist; ++len ) {
      size_t tot = 1; for ( int i=0; i<len; ++i ) tot *= n;
      for ( size_t c=0; c<tot; ++c ) {
        if ( R.skip() ) continue;
        vector<string> L; size_t x = c; for ( int i=0; i<len; ++i ) { L.push_back( keys[x%n] ); x /= n; }
        R.run( [&]{ return "list " + showk(L) + " in " + show(m); }, [&]{
          GCN g; build( g, m );
          all_types( [&]( auto init, char const * tn ){ lookup_list( g, m, L, init, tn ); } );
          get_map_list( g, m, L, "where" );
          get_map_path( g, m, L );
          REQ_EQ( g, m, "map after the lookups" );
          R.trans(26);
        } );
      }
    }
  }

  void enumerate( Runner & R ) {
    R.family("subsets of the key alphabet");
    vector<Val> vals{ vint(5), vstr("text"), vbool(true), vreal(2.5), vlong(1LL<<40), distinct_vec(VREAL,2), vcplx(1,0) };
    for ( unsigned mask=0; mask<(1u<<KEYS.size()); ++mask ) {
      Val m = vmap({}); m.k = MAP;
      for ( size_t i=0; i<KEYS.size(); ++i ) if ( mask>>i & 1 ) m.put(KEYS[i]) = vals[(i+mask)%vals.size()];
      query_all( R, m, KEYS, R.thorough ? 3 : 2 );
    }
    R.family("value kinds under every key of a list");
    { vector<Val> U = values_one_per_shape(); vector<string> K{ "a", "ab", "b" };
      for ( auto & u : U ) for ( auto & v : U ) {
        if ( !R.thorough && (hashv(u)^hashv(v)) % 3 && u.k != BOOL && v.k != BOOL ) continue;
        Val m = vmap({{"a",u},{"ab",v}}); query_all( R, m, K, 2 );
      } }
    R.family("three candidates");
    { vector<Val> U{ vbool(true), vbool(false), vint(3), vstr("s"), vreal(0.5), vreal(4), vlong(1LL<<40), vcplx(2,0), vcplx(2,1), vnone(), distinct_vec(VINT,2), vint(-1) };
      vector<string> K{ "a", "b", "c" };
      for ( auto & x : U ) for ( auto & y : U ) for ( auto & z : U ) {
        Val m = vmap({{"a",x},{"b",y},{"c",z}});
        for ( auto & L : vector<vector<string>>{ {"a","b","c"}, {"c","b","a"}, {"zz","b","c","a"}, {"a","a","b","c"}, {"b","zz","a"} } ) {
          if ( R.skip() ) continue;
          R.run( [&]{ return "list " + showk(L) + " in " + show(m); }, [&]{
            GCN g; build( g, m );
            all_types( [&]( auto init, char const * tn ){ lookup_list( g, m, L, init, tn ); } );
            get_map_list( g, m, L, "" ); REQ_EQ( g, m, "map after the lookups" ); R.trans(19);
          } );
        }
      } }
    R.family("scalar conversions");
    auto scal = [&]( Val const & v ) {
      if ( R.skip() ) return;
      R.run( [&]{ return "lookup of " + show(v); }, [&]{
        Val m = vmap({{"x",vint(1)},{"key",v},{"keys",vstr("no")}}); GCN g; build( g, m );
        all_types( [&]( auto init, char const * tn ){ lookup_one( g, m, "key", init, tn ); lookup_list( g, m, {"k","key","x"}, init, tn ); } );
        get_map_single( g, m, "key", "w" ); get_map_list( g, m, {"k","key","x"}, "w" ); get_map_path( g, m, {"key"} );
        REQ_EQ( g, m, "map after the lookups" ); R.trans(40); R.state(v);
      } );
    };
    for ( auto & v : scalars_edge() ) scal( v );
    for ( int64_t i : dense_ints( R.thorough ) ) { scal( vlong(i) ); if ( i >= INT32_MIN && i <= INT32_MAX ) scal( vint(int32_t(i)) ); }
    for ( double d : dense_reals( R.thorough ) ) { scal( vreal(d) ); for ( double im : { 0.0, 1.0, 1e-300, -1e-15, std::nan("") } ) scal( vcplx(d,im) ); }
    R.family("paths");
    { vector<Val> L{ vint(1), vbool(true), vstr("s"), distinct_vec(VREAL,1), vreal(7), vlong(8), distinct_vec(VSTRING,2), distinct_vec(VCOMPLEX,2) };
      vector<string> K{ "a", "b", "" };
      for ( auto & l : L ) for ( auto & l2 : L ) {
        vector<Val> T{ vmap({{"a",vmap({{"a",l},{"b",l2},{"",vmap({{"a",l2}})}})},{"b",l},{"",vmap({{"",l}})}}), vmap({{"a",vgen({l})},{"b",vmap({{"b",vmap({{"b",l2}})}})}}) };
        for ( auto & m : T ) query_all( R, m, K, 3 );
      } }
    R.family("not a map");
    for ( auto & v : values_medium() ) if ( v.k != MAP ) query_all( R, v, {"a",""}, 2 );
    R.family("key lengths and neighbours"); // the byte for byte comparison for every length
    for ( size_t n=0; n<(R.thorough?400u:120u); ++n ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "key of " + std::to_string(n) + " bytes"; }, [&]{
        string k; for ( size_t i=0; i<n; ++i ) k += char('a'+i%26);
        vector<string> near{ k+"a", k+string(1,'\0'), k+"\xff" }; if ( n ) { near.push_back(k.substr(0,n-1)); string q = k; q.back()++; near.push_back(q); q = k; q[0]++; near.push_back(q); q = k; q[n/2] = 'Z'; near.push_back(q); q = k; q[0] = char(q[0]-32); near.push_back(q); }
        Val m = vmap({}); m.k = MAP; m.put(k) = vint(int(n));
        for ( auto & q : near ) { GCN g; build( g, m ); lookup_one( g, m, k, int_type(-1), "int" ); lookup_one( g, m, q, int_type(-1), "int" ); get_map_single( g, m, q, "" ); get_map_list( g, m, {q,k}, "" ); Val m2 = m; m2.put(q) = vint(-5); build( g, m2 ); lookup_one( g, m2, k, int_type(-1), "int" ); lookup_one( g, m2, q, int_type(-1), "int" ); get_map_list( g, m2, {q,k}, "" ); REQ_EQ( g, m2, "map" ); }
        R.trans(near.size()*6);
      } );
    }
    R.family("long lists"); // the qualifying key at any position of the list
    { vector<Val> V{ vbool(true), vint(3), vstr("s"), vreal(.5), distinct_vec(VREAL,2), vnone() };
      vector<int> N; for ( int n=1; n<=(R.thorough?40:18); ++n ) N.push_back(n); N.push_back(100); N.push_back(300);
      for ( int n : N ) for ( int pos=0; pos<=n; ++pos ) { if ( n > 40 && pos > 3 && pos < n-3 && pos % 37 ) continue;
        for ( size_t vi=0; vi<V.size(); ++vi ) for ( int second=0; second<2; ++second ) {
          if ( R.skip() ) continue;
          R.run( [&]{ return "list of " + std::to_string(n) + " keys, key " + std::to_string(pos) + " present with " + show(V[vi]) + (second?", a later one too":""); }, [&]{
            vector<string> L; for ( int i=0; i<n; ++i ) L.push_back( "k" + std::to_string(i) );
            Val m = vmap({{"other",vint(1)}}); if ( pos < n ) m.put(L[size_t(pos)]) = V[vi]; if ( second ) m.put(L.back()) = V[(vi+1)%V.size()];
            GCN g; build( g, m ); all_types( [&]( auto init, char const * tn ){ lookup_list( g, m, L, init, tn ); } ); get_map_list( g, m, L, "where" );
            REQ_EQ( g, m, "map after the lookups" ); R.trans(26);
          } );
        } } }
    R.family("long paths");
    for ( int n=1; n<=9; ++n ) for ( int cut=0; cut<=n; ++cut ) for ( auto & v : { vbool(true), vint(3), vstr("s"), vreal(.5), distinct_vec(VREAL,2), distinct_vec(VCOMPLEX,1), distinct_vec(VSTRING,3), vnone() } ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "path of " + std::to_string(n) + " keys to " + show(v) + ", key " + std::to_string(cut) + " missing"; }, [&]{
        Val m = v; vector<string> L; for ( int i=n-1; i>=0; --i ) { string k = "k" + std::to_string(i); L.insert( L.begin(), k ); m = vmap({{i==cut?k+"x":k,m},{"z",vint(9)}}); }
        GCN g; build( g, m ); get_map_path( g, m, L ); REQ_EQ( g, m, "map after the lookups" ); R.trans(7);
      } );
    }
  }
}
