#include "text.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "lua.hpp"
#include <fstream>
#include <unistd.h>
#include <algorithm>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P20";
  char const * const RULE = "every value of the kind/shape/nesting universes, all sequences up to a length over a mixed scalar/table alphabet, all byte pairs in strings and keys and dense numbers: stored as a Lua global, passed to and returned from Lua functions, described by a Lua-side serializer and read from generated Lua source; all histories of exchanges, failing calls and Lua statements up to a depth on one interpreter, against a dictionary model; every graph of three tables (shared and cyclic) and guarded tables of globals; Lua stack height checked on a caller-owned state and by Lua's API checks";

  // Lua -> canonical text, evaluated inside Lua
  static char const * const SER =
    "function ser(x)\n"
    "  local t = type(x)\n"
    "  if t == 'nil' then return 'N' end\n"
    "  if t == 'boolean' then return x and 'T' or 'F' end\n"
    "  if t == 'string' then return 'S' .. #x .. ':' .. x end\n"
    "  if t == 'number' then\n"
    "    if math.type(x) == 'integer' then return 'I' .. string.format('%d',x) end\n"
    "    if x ~= x then return 'Rnan' end\n"
    "    return 'R' .. string.format('%a',x)\n"
    "  end\n"
    "  if t == 'table' then\n"
    "    local seq, map, n = {}, {}, 0\n"
    "    for k,v in pairs(x) do if type(k) == 'string' then map[#map+1] = k elseif k > n then n = k end end\n"
    "    if n > 0 and #map > 0 then return '?mixed' end\n"
    "    if n > 0 then for i=1,n do seq[i] = ser(x[i]) end return '[' .. table.concat(seq,',') .. ']' end\n"
    "    table.sort(map)\n"
    "    for i,k in ipairs(map) do seq[i] = 'S' .. #k .. ':' .. k .. '=' .. ser(x[k]) end\n"
    "    return '{' .. table.concat(seq,',') .. '}'\n"
    "  end\n"
    "  return '?' .. t\n"
    "end\n"
    "function id(x) return x end\n"
    "function none(x) end\n"
    "function wrap(x) return { x, { k = x } } end\n"
    "function bad(x) error('bad') end\n"
    "function badnil(x) error(nil) end\n"
    "function badtab(x) error({1,2}) end\n";
  static bool memcmp_less( string const & a, string const & b ) { return a < b; }
  // the same text computed from the model; wholeness of numbers decides int/real by value
  static string ser( Val const & p ) {
    switch ( p.k ) {
    case NOTYPE: return "N";
    case BOOL: return p.w[0] ? "T" : "F";
    case INT: case LONG: return "I" + std::to_string(int64_t(p.w[0]));
    case REAL: { double d = bitsd(p.w[0]); if ( d != d ) return "Rnan"; char b[64]; snprintf( b, sizeof b, "R%a", d ); return b; }
    case STRING: return "S" + std::to_string(p.s[0].size()) + ":" + p.s[0];
    case VECTOR: { size_t n = p.ch.size(); while ( n > 0 && p.ch[n-1].k == NOTYPE ) --n; /* trailing nils are no entries */ if ( n == 0 ) return "{}"; string r = "["; for ( size_t i=0; i<n; ++i ) { if ( i ) r += ","; r += ser(p.ch[i]); } return r + "]"; }
    case MAP: { vector<std::pair<string,size_t>> K; for ( size_t i=0; i<p.s.size(); ++i ) if ( p.ch[i].k != NOTYPE ) K.push_back({p.s[i],i}); std::sort(K.begin(),K.end(),[]( auto & a, auto & b ){ return memcmp_less(a.first,b.first); } ); string r = "{"; for ( size_t i=0; i<K.size(); ++i ) { if ( i ) r += ","; r += "S" + std::to_string(K[i].first.size()) + ":" + K[i].first + "=" + ser(p.ch[K[i].second]); } return r + "}"; }
    }
    return "?";
  }
  // Lua source text of a plain value
  static string lit( Val const & p ) {
    switch ( p.k ) {
    case BOOL: return p.w[0] ? "true" : "false";
    case INT: case LONG: { int64_t l = int64_t(p.w[0]); return l == INT64_MIN ? "math.mininteger" : "(" + std::to_string(l) + ")"; }
    case REAL: { double d = bitsd(p.w[0]); if ( d != d ) return "(0/0)"; if ( std::isinf(d) ) return d>0?"(1/0)":"(-1/0)"; char b[64]; snprintf( b, sizeof b, "(%a)", d ); string s = b; return s; }
    case STRING: { string r = "\""; for ( unsigned char c : p.s[0] ) { char b[8]; snprintf( b, sizeof b, "\\%03d", c ); r += b; } return r + "\""; }
    case VECTOR: { string r = "{"; for ( auto & c : p.ch ) r += lit(c) + ","; return r + "}"; }
    case MAP: { string r = "{"; for ( size_t i=0; i<p.s.size(); ++i ) r += "[" + lit(vstr(p.s[i])) + "]=" + lit(p.ch[i]) + ";"; return r + "}"; }
    }
    return "nil";
  }
  static bool supported( Val const & v ) {
    return all_of( v, []( Val const & x ) { return x.k != NOTYPE && x.k != POINTER && x.k != VPOINTER && x.k != COMPLEX && x.k != VCOMPLEX && !is_mat(x.k); } );
  }
  // empty tables carry no kind
  static Val emptied( Val p ) { if ( ( p.k == VECTOR || p.k == MAP ) && p.ch.empty() ) return vnone(); for ( auto & c : p.ch ) c = emptied(c); return p; }
  static void same( GCN const & g, Val const & p, string const & what ) {
    Val rb = readback(g); Val a = plain(rb); Val e = emptied(p);
    REQ( same_data( a, e ), what << ": got " << show(rb) << " | expected " << show(e) );
  }
  static void call( LuaInterpreter & L, char const * f, GCN const & arg, GCN & res ) { GCN io; io["function"] = f; io["args"] = arg; L.call( io, res ); }

  static void exchange( Runner & R, Val const & v, unsigned pre ) {
    LuaInterpreter L; L.execute( SER ); Val p = plain(v); GCN g, h; build( g, v );
    static vector<Val> const PRE{ vnone(), vmap({{"old",vint(1)}}), distinct_vec(VREAL,3), vgen({vint(1),vstr("x")}), vvec(VBOOL,{vbool(true)}), vstr("old"), distinct_mat(MINT,2,2), vcplx(1,2) };
    build( h, PRE[pre%PRE.size()] );
    L.GC_to_global( g, "gv" ); REQ_EQ( g, v, "GC_to_global changed its argument" ); L.global_to_GC( "gv", h ); same( h, p, "global" );
    build( h, PRE[(pre/8)%PRE.size()] );
    call( L, "id", g, h ); same( h, p, "id" ); REQ_EQ( g, v, "call changed its argument" );
    { GCN s; call( L, "ser", g, s ); string got( s.get_string() ); REQ( got == ser(p), "Lua sees " << show_bytes(got) << " | expected " << show_bytes(ser(p)) ); }
    { GCN w; call( L, "wrap", g, w ); same( w, vgen({p,vmap({{"k",p}})}), "wrap" ); }
    L.execute( "s = ser(gv)" ); L.global_to_GC( "s", h ); REQ( h.get_string() == ser(p), "Lua global is " << show_bytes(string(h.get_string())) );
    string src = "lv = " + lit(p);
    if ( src.size() < 60000 ) { L.execute( src.c_str() ); build( h, PRE[(pre/3)%PRE.size()] ); L.global_to_GC( "lv", h ); same( h, p, "Lua literal" ); }
    R.trans(8); R.state(v);
  }
  // entries without a Lua form are nil; the others keep their place
  static Val lua_form( Val const & v ) {
    if ( v.k == POINTER || v.k == VPOINTER || v.k == COMPLEX || v.k == VCOMPLEX || is_mat(v.k) ) return vnone();
    Val r = v; for ( auto & c : r.ch ) c = lua_form(c); return r;
  }
  // every entry that has a Lua form is read back at its place
  static void same_places( GCN const & g, Val const & e, string const & what ) {
    if ( e.k == NOTYPE ) return; // unspecified what a hole reads as
    bool holes = !all_of( e, []( Val const & x ) { return x.k != NOTYPE; } );
    if ( !holes ) { Val rb = readback(g); REQ( same_data( plain(rb), emptied(plain(e)) ), what << ": got " << show(rb) << " | expected " << show(e) ); return; }
    Val rb = plain(readback(g));
    if ( e.k == MAP ) {
      size_t n = 0; for ( size_t i=0; i<e.s.size(); ++i ) if ( e.ch[i].k != NOTYPE ) { ++n; REQ( g.exists(e.s[i]), what << ": missing " << show_bytes(e.s[i]) << " in " << show(rb) ); same_places( g(e.s[i]), e.ch[i], what + "." + e.s[i] ); }
      if ( n == 0 ) REQ( rb.k == NOTYPE, what << ": got " << show(rb) << " expected null" );
      else REQ( rb.k == MAP && rb.s.size() == n, what << ": got " << show(rb) );
    } else {
      size_t n = e.ch.size(); while ( n > 0 && e.ch[n-1].k == NOTYPE ) --n;
      if ( n == 0 ) { REQ( rb.k == NOTYPE, what << ": got " << show(rb) << " expected null" ); return; }
      REQ( rb.k == VECTOR && rb.ch.size() == n, what << ": got " << show(rb) << " expected " << n << " entries" );
      for ( size_t i=0; i<n; ++i ) if ( e.ch[i].k != NOTYPE ) { GCN h; build( h, rb.ch[i] ); same_places( h, plain(e.ch[i]), what + "[" + std::to_string(i) + "]" ); }
    }
  }
  static void holes( Runner & R, Val const & v ) {
    LuaInterpreter L; L.execute( SER ); Val e = lua_form(v); for ( int i=0; i<1; ++i ) e = plain(e); GCN g, h; build( g, v );
    { GCN s; L.GC_to_global( g, "gv" ); L.execute( "s = ser(gv)" ); L.global_to_GC( "s", s ); string got( s.get_string() ); REQ( got == ser(e), "Lua global is " << show_bytes(got) << " | expected " << show_bytes(ser(e)) ); }
    { GCN s; call( L, "ser", g, s ); string got( s.get_string() ); REQ( got == ser(e), "Lua sees " << show_bytes(got) << " | expected " << show_bytes(ser(e)) ); }
    REQ_EQ( g, v, "argument changed" );
    if ( e.k != NOTYPE ) { L.global_to_GC( "gv", h ); same_places( h, e, "global" ); }
    call( L, "id", g, h ); same_places( h, e, "id" ); R.trans(4);
  }
  static void raw( Runner & R, Val const & v, unsigned depth ) {
    // caller-owned state with values already on the stack
    lua_State * L = luaL_newstate(); struct C { lua_State * L; ~C() { lua_close(L); } } c{L};
    Val p = plain(v); GCN g, h; build( g, v );
    for ( unsigned i=0; i<depth; ++i ) lua_pushinteger( L, 100+i );
    for ( int rep=0; rep<40; ++rep ) {
      Lua_GC_to_global( L, g, "x" ); REQ( lua_gettop(L) == int(depth), "stack height after GC_to_global " << lua_gettop(L) );
      Lua_global_to_GC( L, "x", h ); REQ( lua_gettop(L) == int(depth), "stack height after global_to_GC " << lua_gettop(L) << " expected " << depth );
      bool t = throws( [&]{ Lua_global_to_GC( L, "missing", h ); } ); REQ( t && lua_gettop(L) == int(depth), "failing global_to_GC: thrown " << t << " height " << lua_gettop(L) );
    }
    Lua_global_to_GC( L, "x", h ); same( h, p, "raw state" );
    for ( unsigned i=0; i<depth; ++i ) REQ( lua_tointeger( L, int(i+1) ) == 100+i, "caller's stack entry " << i << " changed" );
    R.trans(121);
  }
  // ---- histories on one interpreter
  struct Op { string name; std::function<void( LuaInterpreter &, std::map<string,Val> & )> f; };
  static vector<Op> alphabet() {
    vector<Op> A;
    vector<Val> V{ vint(7), vstr(string("a\0b",3)), vvec(VBOOL,{vbool(true),vbool(false)}), vgen({vint(1),vstr("x"),vmap({{"k",vreal(.5)}})}), vmap({{"m",vvec(VLONG,{vlong((1ll<<53)+1),vlong(2)})}}), vnone() };
    for ( char const * n : {"a","b"} ) for ( auto & v : V ) {
      string nm = n;
      A.push_back( { "set " + nm + "=" + show(v), [nm,v]( LuaInterpreter & L, std::map<string,Val> & M ) { GCN g; build(g,v); L.GC_to_global(g,nm.c_str()); if ( v.k == NOTYPE ) M.erase(nm); else M[nm] = plain(v); } } );
    }
    for ( char const * n : {"a","b"} ) { string nm = n;
      A.push_back( { "get " + nm, [nm]( LuaInterpreter & L, std::map<string,Val> & M ) { GCN g; g["junk"] = 1; bool t = throws( [&]{ L.global_to_GC(nm.c_str(),g); } ); auto it = M.find(nm); REQ( t == (it==M.end()), "get: thrown " << t ); if ( !t ) same( g, it->second, "get" ); } } );
    }
    A.push_back( { "exec b=a", []( LuaInterpreter & L, std::map<string,Val> & M ) { L.execute("b = a"); if ( M.count("a") ) M["b"] = M["a"]; else M.erase("b"); } } );
    A.push_back( { "exec a={1,b}", []( LuaInterpreter & L, std::map<string,Val> & M ) { L.execute("a = { 1, b }"); M["a"] = M.count("b") ? vgen({vint(1),M["b"]}) : vgen({vint(1)}); } } );
    A.push_back( { "call wrap(5)", []( LuaInterpreter & L, std::map<string,Val> & ) { GCN g, r; g.set_long(5); call( L, "wrap", g, r ); same( r, vgen({vint(5),vmap({{"k",vint(5)}})}), "wrap" ); } } );
    A.push_back( { "call none", []( LuaInterpreter & L, std::map<string,Val> & ) { GCN g, r; r.set_vec_int(2); call( L, "none", g, r ); REQ( r.get_type() == GC_type::NOTYPE, "no result expected, got " << show(readback(r)) ); } } );
    for ( char const * f : { "bad", "badnil", "badtab", "nosuch" } ) { string fn = f; A.push_back( { "call " + fn, [fn]( LuaInterpreter & L, std::map<string,Val> & ) { GCN g, r; g.set_int(1); REQ( throws( [&]{ call(L,fn.c_str(),g,r); } ), "error not reported" ); } } ); }
    A.push_back( { "exec error", []( LuaInterpreter & L, std::map<string,Val> & ) { REQ( throws( [&]{ L.execute("error('x')"); } ), "error not reported" ); } } );
    A.push_back( { "exec syntax", []( LuaInterpreter & L, std::map<string,Val> & ) { REQ( throws( [&]{ L.execute("a = ( ("); } ), "error not reported" ); } } );
    A.push_back( { "get function", []( LuaInterpreter & L, std::map<string,Val> & ) { GCN g; REQ( throws( [&]{ L.global_to_GC("id",g); } ), "a function cannot be converted" ); } } );
    return A;
  }

  void enumerate( Runner & R ) {
    unsigned cnt = 0;
    auto one = [&]( Val const & v ) { ++cnt; if ( !supported(v) ) return; if ( R.skip() ) return; unsigned c = cnt; R.run( [&]{ return "exchange " + show(v); }, [&]{ exchange(R,v,c); } ); };
    auto rawone = [&]( Val const & v, unsigned d ) { if ( !supported(v) ) return; if ( R.skip() ) return; R.run( [&]{ return "raw state, stack " + std::to_string(d) + ": " + show(v); }, [&]{ raw(R,v,d); } ); };
    R.leakcheck = true;
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v); for ( auto & v : scalars_edge() ) U.push_back(v);
    R.family("values in contexts");
    for ( auto & v : U ) for ( auto & c : contexts(v) ) one( c );
    R.family("stack height");
    for ( auto & v : U ) for ( unsigned d : {0u,1u,7u} ) rawone( v, d );
    R.family("sequences");
    vector<Val> S{ vbool(true), vbool(false), vint(3), vlong(1ll<<40), vlong((1ll<<53)+1), vlong(INT64_MIN), vreal(2.5), vreal(4), vreal(1e300), vreal(std::nan("")), vstr(""), vstr("s"), vvec(VINT,{vint(1)}), vvec(VREAL,{vreal(.5),vreal(2)}), vvec(VSTRING,{vstr("p")}), vmap({{"k",vint(1)}}), vgen({vgen({vint(1),vstr("z")})}), vgen({}), vmap({}) };
    for ( auto & a : S ) { one( vgen({a}) ); for ( auto & b : S ) { one( vgen({a,b}) ); one( vmap({{"p",a},{"q",b}}) ); for ( auto & c : S ) { one( vgen({a,b,c}) ); if ( R.thorough ) { one( vgen({vgen({a,b}),c}) ); one( vmap({{"v",vgen({a,b})},{"w",c}}) ); for ( auto & d : S ) one( vgen({a,b,c,d}) ); } } } }
    R.family("nested");
    { vector<Val> L{ vint(5), vstr("x"), vvec(VREAL,{vreal(.5)}) }; for ( auto & v : values_nested( 2, L ) ) one( v ); }
    for ( int d=1; d<=140; d += (R.thorough?1:9) ) { Val x = vint(d); for ( int i=0; i<d; ++i ) x = (i&1) ? vgen({x,vint(i)}) : vmap({{"k",x}}); one( x ); }
    R.family("lengths");
    for ( auto & v : vectors_of_all_lengths( R.thorough?150:50 ) ) one( v );
    R.family("strings");
    vector<string> T; for ( int c=0; c<256; ++c ) T.push_back( string(1,char(c)) ); for ( auto & s : string_edges() ) T.push_back(s);
    for ( int a=0; a<256; a += (R.thorough?1:15) ) for ( int b=0; b<256; b += (R.thorough?3:17) ) T.push_back( string(1,char(a))+string(1,char(b)) );
    for ( auto & s : T ) { one( vstr(s) ); one( vmap({{s,vint(1)},{s+"z",vstr(s)}}) ); one( vvec(VSTRING,{vstr(s),vstr(s+s)}) ); }
    R.family("numbers");
    for ( double d : dense_reals(false) ) { one( vreal(d) ); one( vvec(VREAL,{vreal(d),vreal(0.5)}) ); one( vgen({vlong(1),vreal(d)}) ); one( vmap({{"d",vreal(d)}}) ); }
    for ( int64_t l : dense_ints(false) ) { if ( !R.thorough && l > 50 && l < 1000 ) continue; one( vlong(l) ); one( vvec(VLONG,{vlong(l),vlong(-1)}) ); one( vgen({vreal(.5),vlong(l)}) ); one( vgen({vlong(l),vreal(.5)}) ); if ( l >= INT32_MIN && l <= INT32_MAX ) one( vint(int32_t(l)) ); }
    R.family("unsupported kinds");
    for ( auto & v : values_one_per_shape() ) if ( v.k == POINTER || v.k == COMPLEX || v.k == VPOINTER || v.k == VCOMPLEX || is_mat(v.k) || v.k == NOTYPE ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "not convertible " + show(v); }, [&]{ LuaInterpreter L; L.execute(SER); GCN g, h; build(g,v); for ( int i=0; i<30; ++i ) { L.GC_to_global(g,"u"); L.execute("ok = (u == nil)"); L.global_to_GC("ok",h); REQ( h.get_type() == GC_type::BOOL, "" ); } GCN s; call( L, "id", vgen({}).k ? g : g, s ); R.trans(91); } );
    }
    R.family("entries without a Lua form");
    { vector<Val> HO{ vnone(), vcplx(1,2), distinct_mat(MINT,2,2), vvec(VCOMPLEX,{vcplx(1,2)}), vint(1), vstr("s"), vvec(VINT,{vint(4),vint(5)}), vbool(true), vreal(.5), vmap({{"k",vint(1)}}), vgen({vnone(),vint(2)}), vmap({{"n",vnone()},{"m",vstr("z")}}) };
      auto hole = [&]( Val const & v ) { if ( R.skip() ) return; R.run( [&]{ return "entries without a Lua form " + show(v); }, [&]{ holes(R,v); } ); };
      auto both = [&]( vector<Val> const & c ) { hole( vgen(c) ); Val m = vmap({}); for ( size_t i=0; i<c.size(); ++i ) { m.s.push_back( string(1,char('a'+i)) ); m.ch.push_back(c[i]); } hole( m ); };
      for ( auto & a : HO ) { both({a}); for ( auto & b : HO ) { both({a,b}); for ( auto & c : HO ) { both({a,b,c}); if ( R.thorough ) for ( auto & d : HO ) { both({a,b,c,d}); } } } }
      for ( unsigned n=1; n<=12; ++n ) for ( unsigned m=0; m < (1u<<std::min(n,R.thorough?12u:8u)); ++m ) { vector<Val> c; for ( unsigned i=0; i<n; ++i ) c.push_back( (m>>i)&1 ? vnone() : vint(int(i)+1) ); hole( vgen(c) ); }
    }
    R.family("histories");
    auto A = alphabet(); int N = R.thorough ? 4 : 3;
    for ( int n=1; n<=N; ++n ) {
      vector<size_t> ix(size_t(n),0);
      while ( true ) {
        if ( !R.skip() ) {
          R.run( [&]{ string d = "history:"; for ( auto i : ix ) d += " ; " + A[i].name; return d; }, [&]{
            LuaInterpreter L; L.execute(SER); std::map<string,Val> M;
            for ( auto i : ix ) A[i].f( L, M );
            for ( char const * k : {"a","b"} ) { GCN g; bool t = throws( [&]{ L.global_to_GC(k,g); } ); auto it = M.find(k); REQ( t == (it==M.end()), k << ": thrown " << t ); if ( !t ) same( g, it->second, k ); }
            R.trans( n+2 );
          } );
        }
        int p = n-1; while ( p >= 0 && ++ix[size_t(p)] == A.size() ) ix[size_t(p--)] = 0;
        if ( p < 0 ) break;
      }
    }
    R.family("long runs");
    for ( auto & o : A ) for ( auto & q : A ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "60 times: " + o.name + " ; " + q.name; }, [&]{ LuaInterpreter L; L.execute(SER); std::map<string,Val> M; for ( int i=0; i<60; ++i ) { if ( M.count("a") && M["a"].k == VECTOR && i > 8 ) { L.execute("a = nil b = nil"); M.clear(); } o.f(L,M); q.f(L,M); } R.trans(120); } );
    }
    R.family("very long tables");
    for ( unsigned n : { 65535u, 65536u, 70000u, 140000u } ) for ( int how=0; how<4; ++how ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "table of " + std::to_string(n) + " elements, kind " + std::to_string(how); }, [&]{
        char const * E[] = { "i", "i+.5", "i%3==0", "'s'..i" }; auto el = [&]( unsigned i ) { switch ( how ) { case 0: return vlong(i); case 1: return vreal(i+.5); case 2: return vbool(i%3==0); } return vstr( "s" + std::to_string(i) ); };
        LuaInterpreter L; string N = std::to_string(n); L.execute( ( "x = {} for i=1," + N + " do x[i] = " + E[how] + " end" ).c_str() );
        GCN g; L.global_to_GC( "x", g ); vector<Val> e; for ( unsigned i=1; i<=n; ++i ) e.push_back( el(i) );
        Val rb = readback(g); REQ( same_data( plain(rb), vgen(e) ), "table read differs, " << rb.size() << " elements" );
        L.GC_to_global( g, "y" ); L.execute( ( "ok = #y == " + N + " for i=1," + N + " do if x[i] ~= y[i] then ok = false end end" ).c_str() ); GCN ok; L.global_to_GC( "ok", ok ); REQ( ok.get_bool(), "table written differs" );
        R.trans(2);
      } );
    }
    R.family("files");
    struct F { char const * text; bool ok; };
    for ( F f : { F{"x = { 1, 2.5, 'z' }",true}, F{"x = ",false}, F{"error('e')",false}, F{"error(nil)",false}, F{"error({})",false}, F{nullptr,false} } ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return string("do_file ") + (f.text?f.text:"<missing>"); }, [&]{
        char dir[] = "/tmp/gcp20.XXXXXX"; REQ( mkdtemp(dir), "mkdtemp" ); string fn = string(dir)+"/d.lua"; if ( f.text ) { std::ofstream o(fn); o << f.text; }
        bool bad = false; string msg;
        { LuaInterpreter L; for ( int i=0; i<40 && !bad; ++i ) { bool t = throws( [&]{ L.do_file(fn.c_str()); } ); if ( t == f.ok ) { bad = true; msg = t?"thrown":"error not reported"; } } if ( !bad && f.ok ) { GCN g; L.global_to_GC("x",g); Val rb = readback(g); if ( !same_data( plain(rb), vgen({vint(1),vreal(2.5),vstr("z")}) ) ) { bad = true; msg = show(rb); } } }
        unlink( fn.c_str() ); rmdir( dir ); REQ( !bad, msg ); R.trans(40);
      } );
    }
    R.family("table graphs");
    // every graph of three tables with two entries each: shared tables are copied, tables that contain themselves are refused
    for ( unsigned g=0; g<32768; ++g ) {
      if ( !R.thorough && g%5 != 0 && ( g&31 ) > 7 ) continue;
      if ( R.skip() ) continue;
      struct T { bool map; unsigned e[2]; }; T t[3]; { unsigned x = g; for ( auto & q : t ) { q.map = x&1; q.e[0] = (x>>1)&3; q.e[1] = (x>>3)&3; x >>= 5; } }
      string src = "local t = { {}, {}, {} }\n";
      for ( int i=0; i<3; ++i ) for ( int k=0; k<2; ++k ) src += "t[" + std::to_string(i+1) + "]" + ( t[i].map ? ( k ? ".q" : ".p" ) : ( k ? "[2]" : "[1]" ) ) + " = " + ( t[i].e[k] == 3 ? std::to_string(10*i+k) : "t[" + std::to_string(t[i].e[k]+1) + "]" ) + "\n";
      src += "x = t[1]\nfunction f() return x end\n";
      R.run( [&]{ return "table graph " + src; }, [&]{
        bool cyc = false; Val e;
        std::function<Val(int,int)> un = [&]( int i, int d ) -> Val { if ( d > 3 ) { cyc = true; return vnone(); } Val c[2]; for ( int k=0; k<2; ++k ) { if ( cyc ) return vnone(); c[k] = t[i].e[k] == 3 ? vint(10*i+k) : un( int(t[i].e[k]), d+1 ); } return t[i].map ? vmap({{"p",c[0]},{"q",c[1]}}) : vgen({c[0],c[1]}); };
        e = un(0,1);
        LuaInterpreter L; L.execute( src.c_str() );
        for ( int rep=0; rep<2; ++rep ) {
          GCN h; bool th = throws( [&]{ L.global_to_GC("x",h); } ); REQ( th == cyc, "global_to_GC: thrown " << th << " contains itself " << cyc ); if ( !cyc ) same( h, plain(e), "graph" );
          GCN a, r; a.set_int(1); th = throws( [&]{ call( L, "f", a, r ); } ); REQ( th == cyc, "call: thrown " << th << " contains itself " << cyc ); if ( !cyc ) same( r, plain(e), "result" );
        }
        GCN a, b; a.set_long(77); L.GC_to_global( a, "y" ); L.global_to_GC( "y", b ); same( b, vint(77), "afterwards" );
        R.trans(6);
      } );
    }
    R.family("guarded globals");
    // interpreters whose table of globals refuses unknown names: an error, not the end of the program
    for ( char const * err : { "error('undeclared ' .. tostring(n))", "error({})", "error(nil)", "local x = nil; return x.y" } ) for ( int what=0; what<8; ++what ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return string("guarded globals: ") + err + " #" + std::to_string(what); }, [&]{
        LuaInterpreter L; L.execute( SER ); L.execute( "known = 5" );
        bool rd = what & 1, wr = what & 2, pre = what & 4;
        if ( pre ) L.execute( "a = 3" );
        L.execute( ( string("setmetatable(_G,{") + ( rd ? string("__index=function(t,n) ") + err + " end," : "" ) + ( wr ? string("__newindex=function(t,n,v) ") + err + " end" : "" ) + "})" ).c_str() );
        for ( int i=0; i<30; ++i ) {
          GCN g, h; REQ( throws( [&]{ L.global_to_GC( "unknown", h ); } ), "missing global not reported" );
          bool t = throws( [&]{ g.set_int(i), L.GC_to_global( g, "a" ); } ); REQ( t == ( wr && !pre ), "write: thrown " << t );
          if ( !t ) { L.global_to_GC( "a", h ); same( h, vint(i), "a" ); }
          L.global_to_GC( "known", h ); same( h, vint(5), "known" );
          GCN r; REQ( throws( [&]{ call( L, "nosuch", g, r ); } ), "missing function not reported" );
          call( L, "id", GCN(i), r ); same( r, vint(i), "id" ); R.trans(5);
        }
      } );
    }
    R.family("large members of every shape");
    for ( auto & v : values_large( R.thorough ? 70000 : 4100 ) ) if ( depth(v) < 150 ) /* nesting limit of the parser used */ one( v );
  }
}
