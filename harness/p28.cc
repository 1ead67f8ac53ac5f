#include "ops.hh"
#include "readops.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include <atomic>
#include <thread>
#include <sched.h>
// ThreadSanitizer calls this for each pair of conflicting accesses that are not ordered by synchronisation
static std::atomic<int> g_races{0};
extern "C" void __tsan_on_report( void * ) { g_races.fetch_add( 1, std::memory_order_relaxed ); }

namespace H {
  char const * const PROPERTY = "P28";
  char const * const RULE = "two threads without any synchronisation between them: every read-only operation against all the read-only operations on one shared container of every kind; every pair of mutating operations, and every pair of readers/writers of JSON, YAML, TOML, tables, bytes and Lua interpreters, on containers of their own (also copies of one another), each in both orders of execution; vector-clock race detection on every execution (with no synchronisation operations all the interleavings of a pair are equivalent to the explored ones), results compared with a sequential execution";

  typedef std::function<void()> Job;
  static void quiet( Job const & j ) { try { j(); } catch ( std::exception const & ) {} }
  // first `a`, then `b`, in two threads; the order is imposed by a relaxed flag, which does not synchronise
  static void in_order( Job const & a, Job const & b ) {
    std::atomic<int> done{0};
    std::thread x( [&]{ quiet(a); done.store( 1, std::memory_order_relaxed ); } );
    std::thread y( [&]{ while ( !done.load( std::memory_order_relaxed ) ) sched_yield(); quiet(b); } );
    x.join(); y.join();
  }
  static void at_once( Job const & a, Job const & b ) {
    std::thread x( [&]{ quiet(a); } ), y( [&]{ quiet(b); } );
    x.join(); y.join();
  }
  static void no_race( char const * what ) { int n = g_races.exchange(0); REQ( n == 0, n << " data race(s): " << what ); }

  // operations on containers (and interpreters) of their own
  struct IOp { string name; std::function<string()> f; };
  static string canon( GCN const & g ) { return show( readback(g) ); }
  static vector<IOp> own_ops() {
    vector<IOp> O;
    #define I(NAME,...) O.push_back( { NAME, []() -> string { GCN g; __VA_ARGS__; return canon(g); } } )
    static char const * const J = "{\"a\":[1,2,3],\"b\":{\"c\":\"x\\u00e9y\",\"d\":[[1,2],[3,4]]},\"e\":1.5e3,\"f\":null,\"g\":[true,\"s\",{}],\"h\":\"1+2i\"}";
    I("from_json", std::istringstream s(J); g.from_json(s)); I("from_json bad", std::istringstream s("{\"a\":[1,}"); g.from_json(s)); I("from_json2", std::istringstream s(J); g.from_json2(s)); I("from_json2 bad", std::istringstream s("{\"a\":[1,}"); quiet([&]{ g.from_json2(s); }));
    I("from_yaml", std::istringstream s("a: [1, 2, 3]\nb:\n  c: 'x'\n  d: [[1,2],[3,4]]\ne: 1.5\nf: null\n"); g.from_yaml(s)); I("from_yaml bad", std::istringstream s("a: \"x"); g.from_yaml(s));
    I("from_toml", std::istringstream s("a=[1,2,3]\ne=1.5\n[b]\nc='x'\nd=[[1,2],[3,4]]\n"); g.from_toml(s)); I("from_toml bad", std::istringstream s("a=[1,"); g.from_toml(s));
    I("read_formatted_data", std::istringstream s("# c\na b\n1 2\n3 4\n"); g.read_formatted_data(s)); I("read_formatted_data2", std::istringstream s("#! p = 3\n# c\na b\n1 2\n3 4\n"); GCN p; g.read_formatted_data2(s,"#"," \t",&p));
    I("lua", LuaInterpreter L; L.execute("a = { 1, 2, x = 'y', z = { 1.5, 'q' } } function f(t) return { t, 1 } end"); quiet([&]{ L.global_to_GC("a",g); }); GCN f; f["function"] = "f"; f["args"] = 3; quiet([&]{ L.call(f,g); }); quiet([&]{ L.execute("error('x')"); }); L.GC_to_global(g,"b"));
    I("bytes", g["a"].set_vec_real({1,2}); g["b"]["c"] = LONGS; vector<uint8_t> b; g.serialize(b); GCN h; h.de_serialize(b); g = h);
    #define T(NAME,...) O.push_back( { NAME, []() -> string { GCN g; g["1##-head"] = LONGS; g["v"].set_vec_complex({cplx(1,2),cplx(.1,-3)}); g["w"]["x"].set_vec_string({"a\n","\"q\""}); g["z"] = 1.0/3; g["c"].set_complex(1,-2); std::ostringstream s; __VA_ARGS__; return s.str(); } } )
    T("dump", g.dump(s)); T("print", s << g.print()); T("types", g.print_content_types(s)); T("info", g.info(s); s << g.get_type_name()); T("to_json", g.to_json(s)); T("to_yaml", g.to_yaml(s)); T("to_toml", g.to_toml(s)); T("errors", try { g.get_int("where"); } catch ( std::exception const & e ) { s << e.what(); }); T("compare", GCN h(g); h["z"] = 2; s << g.compare_content(h));
    T("table", GCN h; h["headers"].set_vec_string({"a","b"}); h["data"].set_vector(2); h["data"][0].set_vec_real({1,2}); h["data"][1].set_vec_real({3,4}); h.write_formatted_data(s); write_table_formatted( h("headers").get_vec_string(), h("data").get_vector(), s )); T("to_string", s << to_string( cplx(1.25,-2) ) << to_string( GC_type::VEC_REAL )); T("escape", string_escape( s, "a\"\n\t\x01" ));
    T("keys", for ( auto const & k : g.get_keys() ) s << k << ' ';);
    return O;
  }

  void enumerate( Runner & R ) {
    vector<COp> C = const_ops(); vector<SOp> S = stream_ops();
    for ( auto & o : S ) C.push_back( { o.name, [o]( GCN const & g ){ std::ostringstream s; o.f( g, s ); } } );
    C.push_back( { "readback", []( GCN const & g ){ readback(g); } } );
    vector<Val> U = values_medium(); for ( auto & v : values_lookalike() ) U.push_back(v);
    U.push_back( vmap({{"1##-head",vstr("x")},{"a",distinct_vec(VREAL,3)},{"b",vmap({{"b",vint(1)}})}}) );
    U.push_back( vmap({{"headers",vvec(VSTRING,{vstr("p"),vstr("q")})},{"data",vgen({distinct_vec(VREAL,3),distinct_vec(VREAL,3)})}}) );
    for ( auto & v : values_large( 300 ) ) U.push_back(v);
    auto shared = [&]( Val const & v, string const & what, std::function<void(GCN const &)> const & a, std::function<void(GCN const &)> const & b, int mode ) {
      R.run( [&]{ return "threads on one container " + show(v).substr(0,200) + ": " + what; }, [&]{
        GCN g0; build( g0, v ); GCN const & g = g0;
        g_races = 0;
        if ( mode == 0 ) in_order( [&]{ a(g); }, [&]{ b(g); } ); else if ( mode == 1 ) in_order( [&]{ b(g); }, [&]{ a(g); } ); else at_once( [&]{ a(g); }, [&]{ b(g); } );
        R.trans(2); R.state( v );
        no_race( "read-only operations on one container" );
        REQ_EQ( g, v, "content after concurrent reading" );
      } );
    };
    auto all = [&]( GCN const & g ){ for ( auto & o : C ) quiet( [&]{ o.f(g); } ); };
    R.family("all read-only operations in two threads");
    for ( auto & v : U ) for ( int mode : { 0, 2 } ) { if ( R.skip() ) continue; shared( v, "all read-only operations twice", all, all, mode ); }
    R.family("each read-only operation against all");
    { vector<Val> W = R.thorough ? U : vector<Val>{ vstr("x"), vreal(1.5), distinct_vec(VREAL,3), distinct_mat(MCOMPLEX,2,2), vmap({{"a",vint(1)},{"b",vmap({{"b",vstr("q")}})},{"",vbool(true)}}), vgen({vint(1),vstr("s"),distinct_vec(VINT,2)}), U[U.size()-1] };
      for ( auto & v : W ) for ( auto & o : C ) for ( int mode : { 0, 1 } ) { if ( R.skip() ) continue; shared( v, o.name + ( mode ? " after all" : " before all" ), o.f, all, mode ); } }
    vector<Op> O = make_ops();
    R.family("mutating operations on containers of their own");
    { vector<Val> X{ vnone(), distinct_vec(VINT,3), vgen({vint(1),vstr(LONGS)}), vmap({{"a",vmap({{"b",vstr(LONGS)}})}}) }; if ( !R.thorough ) X = { vnone(), vmap({{"a",vmap({{"b",vstr(LONGS)}})}}) };
      for ( auto & v : X ) for ( auto & p : O ) for ( auto & q : O ) { if ( R.skip() ) continue;
        R.run( [&]{ return "threads on two copies of " + show(v) + ": " + p.name + " | " + q.name; }, [&]{
          GCN g1, h1; build( g1, v ); build( h1, v ); GCN g2(g1), h2(h1);
          W w1; w1.g = &g1; w1.h = &h1; W w2; w2.g = &g2; w2.h = &h2;
          GCN e1(g1), f1(h1), e2(g1), f2(h1); W z1; z1.g = &e1; z1.h = &f1; W z2; z2.g = &e2; z2.h = &f2;
          quiet( [&]{ p.f(z1); } ); quiet( [&]{ q.f(z2); } );
          g_races = 0;
          in_order( [&]{ p.f(w1); }, [&]{ q.f(w2); } );
          R.trans(2);
          no_race( "operations on different containers" );
          if ( p.name != "=pointer" ) { REQ_EQ( g1, readback(e1), "first container" ); REQ_EQ( h1, readback(f1), "second operand of the first thread" ); }
          if ( q.name != "=pointer" ) { REQ_EQ( g2, readback(e2), "second container" ); REQ_EQ( h2, readback(f2), "second operand of the second thread" ); }
          R.state( hashv( readback(g1) ) ^ 31*hashv( readback(g2) ) );
        } ); } }
    R.family("all mutating operations, readers and Lua exchanges on own containers of every kind");
    { vector<Val> X = values_medium();
      for ( auto & v : values_lookalike() ) X.push_back(v);
      for ( int k=VBOOL; k<=VSTRING; ++k ) for ( int l=VBOOL; l<=VSTRING; ++l ) X.push_back( vgen({distinct_vec(k,3),distinct_vec(l,3)}) );
      for ( int k=BOOL; k<=STRING; ++k ) for ( int l=BOOL; l<=STRING; ++l ) X.push_back( vgen({distinct_elem(k,1),distinct_elem(l,2)}) );
      X.push_back( vgen({vgen({vint(1),vint(2)}),vgen({vreal(1.5),vint(2)})}) ); X.push_back( vmap({{"headers",vvec(VSTRING,{vstr("p"),vstr("q")})},{"data",vgen({distinct_vec(VREAL,3),distinct_vec(VREAL,3)})}}) ); X.push_back( vmap({{"headers",vvec(VSTRING,{vstr("p"),vstr("q")})},{"data",distinct_mat(MREAL,3,2)}}) );
      // everything one thread can do with containers of its own that start as `v`; the result tells all the outcomes
      auto everything = [&O]( Val const & v ) -> uint64_t {
        uint64_t r = 1;
        for ( auto & o : O ) {
          if ( o.name == "=pointer" ) continue;
          GCN g, h; W w; w.g = &g; w.h = &h; quiet( [&]{ build( g, v ); build( h, v ); g.serialize( w.buf ); } );
          bool threw = false; try { o.f(w); } catch ( std::exception const & ) { threw = true; }
          r = r*31 + hashv( readback(g) ) + 7*hashv( readback(h) ) + threw;
        }
        auto text = [&]( std::function<void(GCN &,std::ostream &)> const & out, std::function<void(GCN &,std::istream &)> const & in ) { quiet( [&]{
          GCN g, h; build( g, v ); std::ostringstream s; out( g, s ); r = r*31 + hashs( s.str() ); std::istringstream t( s.str() ); in( h, t ); r = r*31 + hashv( readback(h) ); } ); };
        text( []( GCN & g, std::ostream & s ){ g.to_json(s); }, []( GCN & g, std::istream & s ){ g.from_json(s); } );
        text( []( GCN & g, std::ostream & s ){ g.to_json(s); }, []( GCN & g, std::istream & s ){ g.from_json2(s); } );
        text( []( GCN & g, std::ostream & s ){ g.to_yaml(s); }, []( GCN & g, std::istream & s ){ g.from_yaml(s); } );
        text( []( GCN & g, std::ostream & s ){ g.to_toml(s); }, []( GCN & g, std::istream & s ){ g.from_toml(s); } );
        text( []( GCN & g, std::ostream & s ){ s << "#! a = 1\n#! b = x\n# c\n"; g.write_formatted_data(s,' '); }, [&r]( GCN & g, std::istream & s ){ GCN p; g.read_formatted_data2(s,"#"," ",&p); r = r*31 + hashv( readback(p) ); } );
        text( []( GCN & g, std::ostream & s ){ g.write_formatted_data(s,','); }, []( GCN & g, std::istream & s ){ g.read_formatted_data(s,"#",","); } );
        text( []( GCN & g, std::ostream & s ){ s << g.print(); }, []( GCN & g, std::istream & s ){ g.from_yaml(s); } );
        LuaInterpreter L; quiet( [&]{ GCN g, h; build( g, v ); L.GC_to_global( g, "v" ); L.global_to_GC( "v", h ); r = r*31 + hashv( readback(h) ); L.execute( "function f(t) return {t,t} end" ); GCN f; f["function"] = "f"; f["args"] = g; L.call( f, h ); r = r*31 + hashv( readback(h) ); } );
        return r;
      };
      for ( auto & v : X ) for ( int mode : { 0, 2 } ) { if ( R.skip() ) continue;
        R.run( [&]{ return "threads working on own containers that start as " + show(v).substr(0,200) + ( mode ? " at once" : " in order" ); }, [&]{
          uint64_t e = everything( v ), a = 0, b = 0;
          g_races = 0;
          if ( mode ) at_once( [&]{ a = everything(v); }, [&]{ b = everything(v); } ); else in_order( [&]{ a = everything(v); }, [&]{ b = everything(v); } );
          R.trans( 2*(O.size()+8) ); R.state( e );
          no_race( "operations on different containers" );
          REQ( a == e && b == e, "what a thread obtains differs from what it obtains alone" );
        } ); } }
    R.family("readers and writers on containers of their own");
    { vector<IOp> Q = own_ops();
      for ( auto & p : Q ) for ( auto & q : Q ) for ( int mode : { 0, 2 } ) { if ( R.skip() ) continue;
        R.run( [&]{ return "threads: " + p.name + " | " + q.name + ( mode ? " at once" : " in order" ); }, [&]{
          string r1 = p.f(), r2 = q.f(), a, b;
          g_races = 0;
          if ( mode ) at_once( [&]{ a = p.f(); }, [&]{ b = q.f(); } ); else in_order( [&]{ a = p.f(); }, [&]{ b = q.f(); } );
          R.trans(2); R.state( hashs(a) );
          no_race( "operations on different containers" );
          REQ( a == r1 && b == r2, "result in a thread differs: " << a << " | " << r1 << " / " << b << " | " << r2 );
        } ); } }
  }
}
