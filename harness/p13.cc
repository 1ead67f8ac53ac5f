#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P13";
  char const * const RULE = "all histories of map operations (insert, overwrite, erase, nested update, merge with each of a set of maps, merge with itself / own child, failing merges, set_map, clear, lookups) up to a depth over a small key alphabet from several start states, and all pairs of maps for merge; after every step keys, count, lookups and values are compared with a sorted dictionary model";

  struct Op { string name; std::function<void(GCN&,Val&)> f; };  // acts on the container and on the model
  static Val & mput( Val & m, string const & k ) { if ( m.k != MAP ) { m = Val(); m.k = MAP; } return m.put(k); }  // operator[](key) turns anything else into a map

  static void observe( GCN const & g, Val const & m ) {
    REQ_EQ( g, m, "content" );
    vec_string_type keys{ "junk" }; g.get_keys( keys );
    if ( m.k == MAP ) {
      REQ( vector<string>(keys) == m.s, "get_keys reports " << keys.size() << " keys" );
      string all; for ( size_t i=0; i<m.s.size(); ++i ) { if ( i ) all += ", "; all += m.s[i]; }
      REQ( g.get_keys() == all, "get_keys() = '" << g.get_keys() << "' expected '" << all << "'" );
      REQ( g.get_num_elements() == m.s.size(), "get_num_elements = " << g.get_num_elements() );
      REQ( g.num_cols() == m.s.size(), "num_cols = " << g.num_cols() );
      for ( string k : { "a", "b", "ab", "", "zz" } ) { Val const * p = m.find(k); REQ( g.exists(k) == (p!=nullptr), "exists(" << k << ")" ); if ( p ) REQ_EQ( g(k), *p, "value of " + k ); else REQ( throws( [&]{ g(k); } ), "lookup of a missing key" ); }
    } else REQ( keys.empty() && g.get_keys().empty(), "keys of a container that is not a map" );
  }
  static vector<Op> make_ops() {
    vector<Op> O; vector<string> K{ "a", "b", "" };
    for ( auto & k : K ) {
      O.push_back( { "["+k+"]=int", [k]( GCN & g, Val & m ){ bool ok = true; bool t = throws( [&]{ g[k] = 7; } ); REQ( t == !ok, "insertion " << (t?"throws":"accepted") ); if ( ok ) mput(m,k) = vint(7); } } );
      O.push_back( { "erase "+k, [k]( GCN & g, Val & m ){ bool ok = m.k == MAP; string buf = k + "x"; bool t = throws( [&]{ g.erase( string_view(buf.data(),k.size()) ); } ); REQ( t == !ok, "erase " << (t?"throws":"accepted") ); if ( ok ) m.del(k); } } );
    }
    O.push_back( { "[a]=string", []( GCN & g, Val & m ){ bool ok = true; bool t = throws( [&]{ g["a"] = "a text longer than the small buffer"; } ); REQ( t == !ok, "insertion" ); if ( ok ) mput(m,"a") = vstr("a text longer than the small buffer"); } } );
    O.push_back( { "[a][b]=real", []( GCN & g, Val & m ){ g["a"]["b"] = 2.5; mput( mput(m,"a"), "b" ) = vreal(2.5); } } );
    O.push_back( { "[b][a][a]=vec", []( GCN & g, Val & m ){ vec_int_type v{1,2,3}; g["b"]["a"]["a"] = v; mput( mput( mput(m,"b"), "a" ), "a" ) = vvec(VINT,{vint(1),vint(2),vint(3)}); } } );
    O.push_back( { "[ab]", []( GCN & g, Val & m ){ bool ok = true; bool t = throws( [&]{ g["ab"]; } ); REQ( t == !ok, "[]" ); mput(m,"ab"); } } );
    O.push_back( { "[a]=clear", []( GCN & g, Val & m ){ bool ok = true; bool t = throws( [&]{ g["a"].clear(); } ); REQ( t == !ok, "[]" ); if ( ok ) mput(m,"a") = vnone(); } } );
    O.push_back( { "[a]=self copy", []( GCN & g, Val & m ){ bool ok = m.k == MAP; if ( !ok ) return; g["b"] = g; Val e = m; if ( !m.find("b") ) e.put("b") = vnone(); Val old = e; m = e; m.put("b") = old; /* the key exists when the copy is made */
      Val r = readback(g); Val alt = e; alt.put("b") = m.find("b") ? *m.find("b") : vnone(); (void)alt;
      // either order of evaluation of the insertion and the copy is allowed by the language
      Val without = old; REQ( r.k == MAP && r.find("b") && r.s == m.s, "self copy" ); m = r; } } );
    O.push_back( { "set_map", []( GCN & g, Val & m ){ map_type & r = g.set_map(); REQ( r.empty(), "set_map not empty" ); m = vmap({}); m.k = MAP; } } );
    O.push_back( { "clear", []( GCN & g, Val & m ){ g.clear(); m = vnone(); } } );
    O.push_back( { "get_map()[b]", []( GCN & g, Val & m ){ bool ok = m.k == MAP; bool t = throws( [&]{ g.get_map()["b"].set_bool(true); } ); REQ( t == !ok, "get_map" ); if ( ok ) m.put("b") = vbool(true); } } );
    vector<Val> MS{ vmap({{"a",vint(1)},{"c",vstr("m")}}), vmap({{"a",vmap({{"x",vint(2)}})}}), vmap({{"",vnone()},{"b",distinct_vec(VREAL,2)}}), Val() };
    MS[3].k = MAP;
    for ( auto & x : MS ) O.push_back( { "merge "+show(x), [x]( GCN & g, Val & m ){
      bool ok = m.k == MAP || m.k == NOTYPE; GCN o; build( o, x ); bool t = throws( [&]{ g.merge( o, "where" ); } ); REQ( t == !ok, "merge " << (t?"throws":"accepted") );
      REQ_EQ( o, x, "merge changed its argument" ); if ( ok ) { m.k = MAP; for ( size_t i=0; i<x.s.size(); ++i ) m.put(x.s[i]) = x.ch[i]; } } } );
    for ( auto & x : vector<Val>{ vint(3), vstr("s"), vgen({vint(1)}), distinct_mat(MREAL,1,1) } ) O.push_back( { "merge "+show(x), [x]( GCN & g, Val & m ){ GCN o; build( o, x ); REQ( throws( [&]{ g.merge( o, "where" ); } ), "merge with a non-map accepted" ); REQ_EQ( o, x, "merge changed its argument" ); (void)m; } } );
    O.push_back( { "merge none", []( GCN & g, Val & m ){ GCN o; bool t = throws( [&]{ g.merge( o, "w" ); } ); (void)t; (void)m; } } );
    O.push_back( { "merge itself", []( GCN & g, Val & m ){ if ( m.k == MAP ) g.merge( g, "w" ); } } );
    O.push_back( { "merge child a", []( GCN & g, Val & m ){ if ( m.k == MAP && m.find("a") && m.find("a")->k == MAP ) { g.merge( g["a"], "w" ); Val c = *m.find("a"); for ( size_t i=0; i<c.s.size(); ++i ) m.put(c.s[i]) = c.ch[i]; } } } );
    O.push_back( { "merge into child b", []( GCN & g, Val & m ){ if ( m.k == MAP && m.find("b") && m.find("b")->k == MAP ) { g["b"].merge( g, "w" ); Val c = m; Val b = *m.find("b"); for ( size_t i=0; i<c.s.size(); ++i ) b.put(c.s[i]) = c.ch[i]; m.put("b") = b; } } } );
    return O;
  }

  void enumerate( Runner & R ) {
    vector<Op> O = make_ops();
    vector<Val> start{ vnone(), vmap({{"a",vint(1)},{"b",vstr("x")}}), vmap({{"a",vmap({{"b",vint(1)}})},{"b",vmap({{"a",vmap({{"a",vint(3)},{"k",vstr("v")}})}})},{"",vbool(true)}}), vint(5), vgen({vint(1)}) };
    R.family("histories");
    int D = R.thorough ? 4 : 3;
    for ( size_t si=0; si<start.size(); ++si ) {
      int d = si < 3 ? D : 2; size_t n = O.size();
      for ( int len=1; len<=d; ++len ) {
        size_t tot = 1; for ( int i=0; i<len; ++i ) tot *= n;
        for ( size_t c=0; c<tot; ++c ) {
          if ( R.skip() ) continue;
          R.run( [&]{ string s = show(start[si]); size_t x = c; for ( int i=0; i<len; ++i ) { s += " ; " + O[x%n].name; x /= n; } return s; }, [&]{
            GCN g; build( g, start[si] ); Val m = start[si]; size_t x = c;
            for ( int i=0; i<len; ++i ) { O[x%n].f( g, m ); x /= n; if ( i == len-1 || len < d ) observe( g, m ); }
            R.trans(uint64_t(len)); R.state(m);
          } );
        }
      }
    }
    // deeper histories over the core operations
    R.family("insert/erase histories");
    { vector<size_t> core; for ( size_t i=0; i<O.size(); ++i ) if ( O[i].name.substr(0,5) == "erase" || O[i].name.find("]=int") != string::npos || O[i].name == "[ab]" || O[i].name.find("merge map{\"a\":int") == 0 ) core.push_back(i);
      size_t n = core.size(); int L = R.thorough ? 7 : 5; size_t tot = 1; for ( int i=0; i<L; ++i ) tot *= n;
      for ( size_t c=0; c<tot; ++c ) {
        if ( R.skip() ) continue;
        R.run( [&]{ string s; size_t x = c; for ( int i=0; i<L; ++i ) { s += " ; " + O[core[x%n]].name; x /= n; } return s; }, [&]{
          GCN g; Val m; size_t x = c; for ( int i=0; i<L; ++i ) { O[core[x%n]].f( g, m ); x /= n; } observe( g, m ); R.trans(uint64_t(L)); R.state(m);
        } );
      } }
    R.family("one key looked up during a history of insertions and erases");
    { vector<size_t> core; for ( size_t i=0; i<O.size(); ++i ) if ( O[i].name.substr(0,5) == "erase" || O[i].name.find("]=int") != string::npos || O[i].name == "[ab]" || O[i].name == "[a]=string" || O[i].name == "set_map" || O[i].name == "clear" || O[i].name.find("merge map{\"a\":int") == 0 ) core.push_back(i);
      size_t n = core.size(); int L = R.thorough ? 6 : 4; size_t tot = 1; for ( int i=0; i<L; ++i ) tot *= n;
      for ( size_t c=0; c<tot; ++c ) for ( string k : { "a", "b", "" } ) for ( int how=0; how<6; ++how ) {
        if ( how != 0 && !R.thorough && c % 4 != size_t(how%4) ) continue;
        if ( R.skip() ) continue;
        R.run( [&]{ string s = "lookup " + std::to_string(how) + " of '" + k + "' after each of"; size_t x = c; for ( int i=0; i<L; ++i ) { s += " ; " + O[core[x%n]].name; x /= n; } return s; }, [&]{
          GCN g; Val m; size_t x = c; GCN const & q = g;
          for ( int i=0; i<L; ++i ) {
            O[core[x%n]].f( g, m ); x /= n;
            Val const * p = m.k == MAP ? m.find(k) : nullptr; Val r; bool f = false;
            switch ( how ) {
              case 0: f = q.exists(k); if ( p ) r = *p; break;
              case 1: f = !throws( [&]{ r = readback( q(k) ); } ); break;
              case 2: f = !throws( [&]{ r = readback( g(k) ); } ); break;
              case 3: f = !throws( [&]{ r = readback( q[k] ); } ); break;
              case 4: f = !throws( [&]{ r = readback( q( vec_string_type{ "zz", k } ) ); } ); break;
              case 5: { int_type v = -1; f = q.get_if_exists( k, v ); REQ( f == ( p && p->k == INT ), "get_if_exists" ); if ( f ) REQ( v == 7 || v == 1, "get_if_exists value " << v ); f = p != nullptr; if ( p ) r = *p; break; }
            }
            REQ( f == ( p != nullptr ), "the key is " << ( p ? "not found" : "found" ) << " after step " << i ); if ( p ) REQ( r == *p, "value " << show(r) << " expected " << show(*p) );
          }
          REQ_EQ( g, m, "content" ); R.trans(uint64_t(2*L)); R.state(m);
        } );
      } }
    R.family("merge of all pairs");
    { vector<Val> L{ vreal(0.0), vreal(-0.0), vint(1), vstr("s"), vnone(), distinct_vec(VINT,2), vgen({vint(1),vstr("q")}) }; vector<Val> M; { Val e; e.k = MAP; M.push_back(e); }
      for ( auto & l : L ) { M.push_back( vmap({{"a",l}}) ); M.push_back( vmap({{"b",l}}) ); M.push_back( vmap({{"a",vmap({{"x",l}})}}) ); M.push_back( vmap({{"a",vmap({{"y",l},{"z",vint(0)}})},{"c",l}}) ); for ( auto & k : L ) M.push_back( vmap({{"a",l},{"b",k}}) ); }
      for ( auto & a : M ) for ( auto & b : M ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return show(a) + " merge " + show(b); }, [&]{
          GCN A, B; build( A, a ); build( B, b ); A.merge( B, "w" ); Val e = a; for ( size_t i=0; i<b.s.size(); ++i ) e.put(b.s[i]) = b.ch[i];
          observe( A, e ); REQ_EQ( B, b, "argument of merge" ); A.clear(); REQ_EQ( B, b, "argument of merge after clearing the result" ); R.trans(1); R.state(e);
        } );
      }
      for ( auto & v : values_medium() ) for ( auto & w : values_medium() ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return show(v) + " merge " + show(w); }, [&]{
          GCN A, B; build( A, v ); build( B, w ); bool ok = ( v.k == MAP || v.k == NOTYPE ) && w.k == MAP; bool t = throws( [&]{ A.merge( B, "w" ); } );
          if ( w.k == NOTYPE ) { REQ_EQ( A, v, "merge with an empty container" ); return; }
          REQ( t == !ok, "merge " << (t?"throws":"accepted") ); if ( !ok ) { REQ_EQ( A, v, "failing merge changed the container" ); } else { Val e = v; e.k = MAP; for ( size_t i=0; i<w.s.size(); ++i ) e.put(w.s[i]) = w.ch[i]; REQ_EQ( A, e, "merge" ); }
          REQ_EQ( B, w, "argument of merge" ); R.trans(1);
        } );
      } }
    R.family("many keys");
    for ( int n=0; n<=(R.thorough?400:150); ++n ) for ( int order=0; order<3; ++order ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return std::to_string(n) + " keys, order " + std::to_string(order); }, [&]{
        GCN g; g.set_map(); Val m; m.k = MAP; auto key = [&]( int i ) { int j = order == 0 ? i : order == 1 ? n-1-i : (i*7919)%(n?n:1); return "k" + std::to_string(j); };
        for ( int i=0; i<n; ++i ) { string k = key(i); g[k] = i; m.put(k) = vint(i); }
        observe( g, m );
        for ( int i=0; i<n; i+=3 ) { string k = key(i); g.erase(k); m.del(k); } observe( g, m );
        for ( int i=0; i<n; i+=2 ) { string k = key(i); g[k] = "again"; m.put(k) = vstr("again"); } observe( g, m );
        R.trans(uint64_t(2*n));
      } );
    }
    R.family("keys of any bytes"); // also given as views into longer text
    { vector<string> E = string_edges();
      for ( auto const & x : { string("a\0c",3), string("a\0",2), string("a\0bd",4), string("b\0b",3), string("A"), string("abc "), string("\0a",2), string("\xc3\xa8"), string("\xe9"), string(300,'k')+"1", string(300,'k')+"2" } ) E.push_back(x);
      for ( auto const & x : E ) for ( auto const & y : E ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return "keys " + show_bytes(x) + " and " + show_bytes(y); }, [&]{
          string bx = x + "tail", by = y + "0"; string_view vx( bx.data(), x.size() ), vy( by.data(), y.size() );
          GCN g; Val m; g[vx] = 1; mput(m,x) = vint(1); observe( g, m ); g[vy] = "two"; mput(m,y) = vstr("two"); observe( g, m );
          REQ( g.exists(vx) && g.exists(vy), "exists" ); REQ_EQ( g(vx), *m.find(x), "value" ); REQ_EQ( g(vy), *m.find(y), "value" ); REQ_EQ( static_cast<GCN const &>(g)[vx], *m.find(x), "value by const []" ); REQ_EQ( g[vy], *m.find(y), "value by []" ); observe( g, m );
          GCN o; Val om; o[y] = 3; o[x] = 4; mput(om,y) = vint(3); mput(om,x) = vint(4); GCN q( g ); q.merge( o, "w" ); observe( q, om );
          g[vx][vy] = true; mput(mput(m,x),y) = vbool(true); observe( g, m );
          g.erase( vx ); m.del(x); observe( g, m ); if ( x != y ) { REQ( !g.exists(vx) && throws( [&]{ g(vx); } ), "erased key" ); g.erase( vy ); m.del(y); observe( g, m ); }
          R.trans(12); R.state(om);
        } );
      } }
  }
}
