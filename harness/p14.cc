#include "readops.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P14";
  char const * const RULE = "every container of a universe (every kind, empty/short/long/nested, special map keys) x every read-only operation with in-range, boundary and out-of-range arguments, x every mutable accessor / promotion / push that can throw, x every output stream state of a small set for the text producing operations; content (and for writers the stream state) before and after compared";

  struct MOp { string name; std::function<void(GCN &)> f; };
  #define M(NAME,...) O.push_back( { NAME, []( GCN & g ){ __VA_ARGS__; } } )
  static vector<MOp> mut_ops() {
    vector<MOp> O;
    M("get_bool", g.get_bool()); M("get_int", g.get_int()); M("get_long", g.get_long()); M("get_real", g.get_real()); M("get_complex", g.get_complex()); M("get_string", g.get_string());
    M("get_vector", g.get_vector()); M("get_vec_pointer", g.get_vec_pointer()); M("get_vec_bool", g.get_vec_bool()); M("get_vec_int", g.get_vec_int()); M("get_vec_long", g.get_vec_long()); M("get_vec_real", g.get_vec_real()); M("get_vec_complex", g.get_vec_complex()); M("get_vec_string", g.get_vec_string());
    M("get_mat_int", g.get_mat_int()); M("get_mat_long", g.get_mat_long()); M("get_mat_real", g.get_mat_real()); M("get_mat_complex", g.get_mat_complex()); M("get_map", g.get_map());
    M("get_pointer", g.get_pointer<void*>()); M("get_int_pointer", g.get_int_pointer()); M("get_long_pointer", g.get_long_pointer()); M("get_real_pointer", g.get_real_pointer()); M("get_complex_pointer", g.get_complex_pointer());
    M("free_pointer", g.free_pointer());
    M("promote_to_int", g.promote_to_int()); M("promote_to_long", g.promote_to_long()); M("promote_to_real", g.promote_to_real()); M("promote_to_complex", g.promote_to_complex()); M("promote_to_vec_int", g.promote_to_vec_int()); M("promote_to_vec_long", g.promote_to_vec_long()); M("promote_to_vec_real", g.promote_to_vec_real()); M("promote_to_vec_complex", g.promote_to_vec_complex()); M("promote_to_mat_int", g.promote_to_mat_int()); M("promote_to_mat_long", g.promote_to_mat_long()); M("promote_to_mat_real", g.promote_to_mat_real()); M("promote_to_mat_complex", g.promote_to_mat_complex()); M("promote_to_vector", g.promote_to_vector());
    M("push_bool", g.push_bool(true)); M("push_int", g.push_int(1)); M("push_long", g.push_long(1)); M("push_real", g.push_real(1.5)); M("push_complex", g.push_complex(1,2)); M("push_string", g.push_string("s"));
    for ( unsigned i : { 0u, 1u, 2u, 7u } ) {
      string n = "(" + std::to_string(i) + ")";
      #define MI(NAME,...) O.push_back( { NAME+n, [i]( GCN & g ){ __VA_ARGS__; } } )
      MI("()", g(i));
      for ( unsigned j : { 0u, 1u, 7u } ) { string n2 = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
        #define MJ(NAME,...) O.push_back( { NAME+n2, [i,j]( GCN & g ){ __VA_ARGS__; } } )
        MJ("get_int_at", g.get_int_at(i,j)); }
    }
    for ( string k : { "a", "b", "", "zz" } ) { string n = "('" + k + "')";
      #define MK(NAME,...) O.push_back( { NAME+n, [k]( GCN & g ){ __VA_ARGS__; } } )
      MK("()", g(k)); MK("() list", g( vec_string_type{"q",k} )); }
    M("merge int", GCN o; o = 1; g.merge(o,"w")); M("merge vector", GCN o; o.set_vector(2); g.merge(o,"w")); M("merge string", GCN o; o = "s"; g.merge(o,"w"));
    M("erase", g.erase("nokey"));
    return O;
  }
  void enumerate( Runner & R ) {
    vector<Val> U = values_medium();
    for ( auto & v : values_lookalike() ) U.push_back(v);
    for ( auto & v : scalars_small() ) U.push_back(v);
    for ( auto & v : values_one_per_shape() ) { U.push_back( vmap({{"a",v},{"1##-head",v}}) ); U.push_back( vgen({v,v}) ); U.push_back( vmap({{"3#=t",v},{"12##x",v},{"4 # y",vint(255)}}) ); }
    U.push_back( vmap({{"headers",distinct_vec(VSTRING,2)},{"data",distinct_mat(MREAL,3,2)}}) );
    U.push_back( vmap({{"headers",distinct_vec(VSTRING,2)},{"data",vgen({distinct_vec(VREAL,3),distinct_vec(VREAL,3)})}}) );
    U.push_back( vmap({{"p",vptr(255)},{"q",vint(255)},{"r",vvec(VPOINTER,{vptr(16),vptr(17)})},{"s",vint(255)}}) );
    U.push_back( vgen({vptr(255),vint(255),vvec(VPOINTER,{vptr(16),vptr(17)}),vint(255),vstr("\x01\x7f\xe9")}) );
    if ( R.thorough ) for ( auto & v : values_lookalike() ) for ( auto & c : contexts(v) ) U.push_back(c);
    for ( auto & v : values_large( R.thorough ? 1100 : 200 ) ) U.push_back(v);
    R.family("read-only operations");
    { vector<COp> O = const_ops();
      for ( auto & v : U ) for ( auto & o : O ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return o.name + " on " + show(v); }, [&]{
          GCN g; build( g, v ); bool t = throws( [&]{ o.f( g ); } ); REQ_EQ( g, v, "changed by a read-only operation that " << (t?"throws":"succeeds") );
          R.trans(1); R.state(v);
        } );
      } }
    R.family("mutable operations that throw");
    { vector<MOp> O = mut_ops();
      for ( auto & v : U ) for ( auto & o : O ) {
        if ( o.name.compare(0,10,"get_int_at") == 0 && ( v.k == BOOL || v.k == INT || v.k == VBOOL || v.k == VINT ) ) continue; // may promote before the position turns out to be out of range
        if ( R.skip() ) continue;
        R.run( [&]{ return o.name + " on " + show(v); }, [&]{
          GCN g; build( g, v ); bool t = throws( [&]{ o.f( g ); } ); if ( t ) REQ_EQ( g, v, "changed by an operation that throws" );
          R.trans(1);
        } );
      } }
    R.family("stream state");
    { vector<SOp> O = stream_ops();
      struct St { char const * n; std::ios::fmtflags f; int prec; char fill; };
      vector<St> ST{ { "default", std::ios::dec|std::ios::skipws, 6, ' ' }, { "hex", std::ios::hex|std::ios::skipws, 3, '*' }, { "fixed", std::ios::dec|std::ios::fixed|std::ios::boolalpha|std::ios::left, 10, ' ' }, { "sci", std::ios::oct|std::ios::scientific|std::ios::showpos|std::ios::uppercase|std::ios::showbase|std::ios::internal|std::ios::unitbuf, 17, '0' } };
      for ( auto & v : U ) for ( auto & o : O ) for ( auto & st : ST ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return o.name + " stream " + st.n + " on " + show(v); }, [&]{
          GCN g; build( g, v ); std::ostringstream s; s.flags( st.f ); s.precision( st.prec ); s.fill( st.fill ); auto ex = s.exceptions();
          throws( [&]{ o.f( g, s ); } );
          REQ( s.flags() == st.f, "stream flags changed" ); REQ( s.precision() == st.prec, "stream precision changed to " << s.precision() ); REQ( s.fill() == st.fill, "stream fill changed" ); REQ( s.width() == 0, "stream width left at " << s.width() ); REQ( s.good() && s.exceptions() == ex, "stream state" );
          REQ_EQ( g, v, "changed by a text producing operation" );
          R.trans(1);
        } );
      } }
  }
}
