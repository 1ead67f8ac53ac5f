// P31: a refused call throws a standard exception whose text contains the position given by the caller.
#include "num.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P31";
  char const * const RULE = "every public call that takes a position for its error message, on every value of a universe (alone and inside maps and vectors), with positions that are views without a terminator: a refusal is a std::runtime_error whose text contains the position byte for byte and, when the stored kind is the reason, the name of the stored kind; the same call with another position (or none) is refused alike; nothing beyond the view is read";
  struct Op { string name; std::function<void(GCN &,string_view)> f; bool kind; string key{}; };

  // the view ends where its block ends
  struct Tight { char * p; size_t n; explicit Tight( string const & s ) : p( static_cast<char*>(malloc(s.size()?s.size():1)) ), n(s.size()) { memcpy(p,s.data(),n); } ~Tight() { free(p); } string_view v() const { return string_view(p,n); } };

  static vector<Op> make() {
    vector<Op> O;
    #define M(N,K,...) O.push_back( { N, []( GCN & g, string_view w ){ (void)w; __VA_ARGS__; }, K } )
    #define B(N,K,CALL) M( N " const", K, GCN const & c = g; c.CALL ); M( N, K, g.CALL )
    // typed access: the stored kind decides
    B("get_bool",true,get_bool(w)); B("get_int",true,get_int(w)); B("get_long",true,get_long(w)); B("get_real",true,get_real(w)); B("get_complex",true,get_complex(w)); B("get_string",true,get_string(w));
    B("get_vector",true,get_vector(w)); B("get_vec_pointer",true,get_vec_pointer(w)); B("get_vec_bool",true,get_vec_bool(w)); B("get_vec_int",true,get_vec_int(w)); B("get_vec_long",true,get_vec_long(w)); B("get_vec_real",true,get_vec_real(w)); B("get_vec_complex",true,get_vec_complex(w)); B("get_vec_string",true,get_vec_string(w));
    B("get_mat_int",true,get_mat_int(w)); B("get_mat_long",true,get_mat_long(w)); B("get_mat_real",true,get_mat_real(w)); B("get_mat_complex",true,get_mat_complex(w)); B("get_map",true,get_map(w));
    M("get_pvoid",true,g.get_pvoid(w)); M("get_ppvoid",true,g.get_ppvoid(w));
    // conversions: the value may decide
    M("get_as_int",false,g.get_as_int(w)); M("get_as_uint",false,g.get_as_uint(w)); M("get_as_long",false,g.get_as_long(w)); M("get_as_ulong",false,g.get_as_ulong(w)); M("get_number",false,g.get_number(w)); M("get_complex_number",false,g.get_complex_number(w));
    M("get_value int",false,int_type v;g.get_value(v,w)); M("get_value uint",false,uint_type v;g.get_value(v,w)); M("get_value long",false,long_type v;g.get_value(v,w)); M("get_value ulong",false,ulong_type v;g.get_value(v,w)); M("get_value float",false,float v;g.get_value(v,w)); M("get_value double",false,double v;g.get_value(v,w));
    M("copyto_vec_int",false,vec_int_type v;g.copyto_vec_int(v,w)); M("copyto_vec_uint",false,vec_uint_type v;g.copyto_vec_uint(v,w)); M("copyto_vec_long",false,vec_long_type v;g.copyto_vec_long(v,w)); M("copyto_vec_ulong",false,vec_ulong_type v;g.copyto_vec_ulong(v,w)); M("copyto_vec_real",false,vec_real_type v;g.copyto_vec_real(v,w)); M("copyto_vec_complex",false,vec_complex_type v;g.copyto_vec_complex(v,w)); M("copyto_vec_string",false,vec_string_type v;g.copyto_vec_string(v,w));
    M("copyto_mat_int",false,mat_int_type v;g.copyto_mat_int(v,w)); M("copyto_mat_long",false,mat_long_type v;g.copyto_mat_long(v,w)); M("copyto_mat_real",false,mat_real_type v;g.copyto_mat_real(v,w)); M("copyto_mat_complex",false,mat_complex_type v;g.copyto_mat_complex(v,w));
    for ( unsigned i : { 0u, 1u, 2u, 3u, 0xFFFFFFFFu } ) { string n = "(" + std::to_string(i) + ")";
      #define MI(N,...) O.push_back( { N+n, [i]( GCN & g, string_view w ){ GCN const & c = g; (void)c; __VA_ARGS__; }, false } )
      MI("get_number_at",g.get_number_at(i,w)); MI("get_complex_number_at",g.get_complex_number_at(i,w)); MI("get_complex_number_at2",real_type a,b;g.get_complex_number_at(i,a,b,w));
      MI("get_bool_at",c.get_bool_at(i,w)); MI("get_int_at",c.get_int_at(i,w)); MI("get_long_at",c.get_long_at(i,w)); MI("get_real_at",c.get_real_at(i,w)); MI("get_complex_at",c.get_complex_at(i,w)); MI("get_string_at",c.get_string_at(i,w)); MI("get_gc_at",c.get_gc_at(i,w));
      MI("() const",c(i,w)); MI("()",g(i,w));
      for ( unsigned j : { 0u, 1u, 2u, 0xFFFFFFFFu } ) { string n2 = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
        #define MJ(N,...) O.push_back( { N+n2, [i,j]( GCN & g, string_view w ){ GCN const & c = g; __VA_ARGS__; }, false } )
        MJ("get_int_at",c.get_int_at(i,j,w)); MJ("get_long_at",c.get_long_at(i,j,w)); MJ("get_real_at",c.get_real_at(i,j,w)); MJ("get_complex_at",c.get_complex_at(i,j,w)); }
    }
    for ( string k : { "a", "b", "", "zz" } ) { string n = "('" + k + "')";
      #define MK(N,...) O.push_back( { N+n, [k]( GCN & g, string_view w ){ GCN const & c = g; (void)c; Tight t(k); string_view const q = t.v(); vec_string_type const l{"q",k}; (void)q; (void)l; __VA_ARGS__; }, false } )
      MK("() const",c(q,w)); MK("()",g(q,w)); O[O.size()-1].key = O[O.size()-2].key = k; MK("() const list",c(l,w)); MK("() list",g(l,w)); MK("must_exists",c.must_exists(l,w));
      MK("get_map_bool",c.get_map_bool(q,w)); MK("get_map_int",c.get_map_int(q,w)); MK("get_map_number",c.get_map_number(q,w)); MK("get_map_string",c.get_map_string(q,w)); MK("get_map_vec_real",c.get_map_vec_real(q,w)); MK("get_map_vec_complex",c.get_map_vec_complex(q,w)); MK("get_map_vec_string",c.get_map_vec_string(q,w));
      for ( size_t j=1; j<=7; ++j ) O[O.size()-j].key = k;
      MK("get_map_bool list",c.get_map_bool(l,w)); MK("get_map_int list",c.get_map_int(l,w)); MK("get_map_number list",c.get_map_number(l,w)); MK("get_map_string list",c.get_map_string(l,w)); MK("get_map_vec_real list",c.get_map_vec_real(l,w)); MK("get_map_vec_complex list",c.get_map_vec_complex(l,w)); MK("get_map_vec_string list",c.get_map_vec_string(l,w));
    }
    for ( vec_string_type const & l : { vec_string_type{}, vec_string_type{"zz"}, vec_string_type{"b"}, vec_string_type{"x","y","zz"}, vec_string_type{"","q"}, vec_string_type(20,"q"), vec_string_type{string(300,'k'),"a"} } ) {
      string n = "(list of " + std::to_string(l.size()) + ( l.empty() ? "" : " '" + l.back() + "'" ) + ")";
      #define ML(N,...) O.push_back( { N+n, [l]( GCN & g, string_view w ){ GCN const & c = g; (void)c; __VA_ARGS__; }, false } )
      ML("() const",c(l,w)); ML("()",g(l,w)); ML("must_exists",c.must_exists(l,w));
      ML("get_map_bool",c.get_map_bool(l,w)); ML("get_map_int",c.get_map_int(l,w)); ML("get_map_number",c.get_map_number(l,w)); ML("get_map_string",c.get_map_string(l,w)); ML("get_map_vec_real",c.get_map_vec_real(l,w)); ML("get_map_vec_complex",c.get_map_vec_complex(l,w)); ML("get_map_vec_string",c.get_map_vec_string(l,w));
    }
    M("merge int",false,GCN o;o=1;g.merge(o,w)); M("merge map",false,GCN o;o["a"]=1;g.merge(o,w)); M("merged",false,GCN o;o.merge(g,w));
    M("exception",false,GCN::exception(w));
    return O;
  }

  static void one( Runner & R, Val const & v, Op const & o, string const & where ) {
    if ( R.skip() ) return;
    R.run( [&]{ return o.name + " at " + show_bytes(where) + " on " + show(v); }, [&]{
      auto call = [&]( string_view w, string & msg ) {
        GCN g; build( g, v );
        try { o.f( g, w ); return false; }
        catch ( std::runtime_error const & e ) { msg = e.what(); return true; }
        catch ( std::exception const & e ) { REQ( false, "refused by something else than std::runtime_error: " << e.what() ); }
        return true;
      };
      string m, m0; bool t, t0; { Tight w( where ); t = call( w.v(), m ); } t0 = call( "", m0 );
      REQ( t == t0, "refused or not depending on the position given" );
      if ( t ) {
        REQ( m.find( where ) != string::npos, "the error text does not contain the position: " << m );
        if ( o.name == "exception" ) REQ( m == where && m0.empty(), "the text given is " << show_bytes(where) << " the text thrown " << show_bytes(m) );
        if ( !o.key.empty() && v.k == MAP && !v.find(o.key) ) REQ( m.find( o.key ) != string::npos, "the error text does not contain the missing key: " << m );
        if ( o.kind && v.k != NOTYPE ) { GCN g; build( g, v ); REQ( m.find( string(g.get_type_name()) ) != string::npos, "the error text does not name the stored kind " << g.get_type_name() << ": " << m ); }
      }
      R.trans(2); R.state(v);
    } );
  }

  // lookups along a path of keys: the error names the keys followed up to the failing one, the kind that is stored there, or nothing is wrong
  static void path( Runner & R, Val const & v, std::initializer_list<string> const & L ) {
    if ( R.skip() ) return;
    R.run( [&]{ string s = "path"; for ( auto & k : L ) s += " -> " + k; return s + " on " + show(v); }, [&]{
      GCN g; build( g, v ); GCN const & c = g; Val const * at = &v; string bad; bool missing = false; vector<string> seen;
      for ( auto & k : L ) { seen.push_back(k); if ( at->k != MAP || !at->find(k) ) { missing = true; break; } at = at->find(k); }
      auto one = [&]( char const * n, auto && f ) {
        string m; bool t = false; try { f(); } catch ( std::runtime_error const & e ) { t = true; m = e.what(); } catch ( std::exception const & e ) { REQ( false, n << " refused by something else than std::runtime_error: " << e.what() ); }
        if ( missing ) REQ( t, n << " not refused" );
        if ( t && L.size() > 0 ) for ( auto & k : seen ) REQ( m.find("`"+k+"`") != string::npos, n << ": the error text does not name the key " << show_bytes(k) << ": " << m );
        R.trans();
      };
      one( "get_map_bool", [&]{ c.get_map_bool(L); } ); one( "get_map_int", [&]{ c.get_map_int(L); } ); one( "get_map_number", [&]{ c.get_map_number(L); } ); one( "get_map_string", [&]{ c.get_map_string(L); } );
      one( "get_map_vec_real", [&]{ c.get_map_vec_real(L); } ); one( "get_map_vec_complex", [&]{ c.get_map_vec_complex(L); } ); one( "get_map_vec_string", [&]{ c.get_map_vec_string(L); } );
      R.state(v);
    } );
  }

  void enumerate( Runner & R ) {
    vector<Op> O = make();
    vector<Val> U = values_medium(); for ( auto & v : scalars_small() ) U.push_back(v); for ( auto & v : values_lookalike() ) U.push_back(v);
    for ( auto & v : values_one_per_shape() ) { U.push_back( vmap({{"a",v}}) ); U.push_back( vgen({v}) ); U.push_back( vmap({{"b",v},{"q",v}}) ); U.push_back( vgen({vint(1),v,v}) ); }
    R.family("every call on every value");
    for ( auto & v : U ) for ( auto & o : O ) for ( string w : { "<pos 12>", "w" } ) one( R, v, o, w );
    R.family("paths of keys");
    for ( auto & v : values_one_per_shape() ) for ( auto & x : { vmap({{"a",v}}), vmap({{"a",vmap({{"b",v}})}}), vmap({{"a",vmap({{"b",vmap({{"c",v}})}})}}), v } ) {
      path( R, x, {"a"} ); path( R, x, {"zz"} ); path( R, x, {"a","b"} ); path( R, x, {"a","zz"} ); path( R, x, {"zz","a"} ); path( R, x, {"a","b","c"} ); path( R, x, {"a","b","zz"} ); path( R, x, {"a","zz","c"} ); path( R, x, {"a","b","c","d"} ); path( R, x, {"",""} ); }
    R.family("positions");
    vector<string> W{ "", "a\nb\t\"%s%d\\", string(300,'x'), string(15,'y'), string(16,'z'), "\xc3\xa9\xff" }; for ( size_t n=1; n<(R.thorough?200:40); ++n ) W.push_back( string(n,'p') + ">" );
    for ( auto & v : values_one_per_shape() ) for ( auto & o : O ) for ( auto & w : W ) { if ( !R.thorough && w.size() > 20 && w.size() < 300 ) continue; one( R, v, o, w ); }
  }
}
