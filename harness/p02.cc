#include "core.hh"
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P02";
  char const * const RULE = "every (source, destination content, copy operation) triple of the universe followed by every in-place modification at every node of either side, and every (node, node) aliased assignment inside every tree of the universe";

  typedef vector<size_t> Path;
  static void paths( Val const & v, Path const & pre, vector<Path> & out ) {
    out.push_back(pre);
    for ( size_t i=0; i<v.ch.size(); ++i ) { Path p = pre; p.push_back(i); paths( v.ch[i], p, out ); }
  }
  static Val & at( Val & v, Path const & p ) { Val * x = &v; for ( auto i : p ) x = &x->ch[i]; return *x; }
  static GCN & at( GCN & g, Val const & model, Path const & p ) {
    GCN * x = &g; Val const * m = &model;
    for ( auto i : p ) {
      if ( m->k == VECTOR ) x = &x->get_vector().at(i); else x = &x->get_map().at(m->s[i]);
      m = &m->ch[i];
    }
    return *x;
  }
  static string showp( Path const & p ) { string s = "/"; for ( auto i : p ) s += std::to_string(i) + "/"; return s; }

  struct Copy { char const * name; std::function<void(GCN&,GCN const &)> f; };
  static vector<Copy> const & copies() {
    static vector<Copy> C = {
      { "operator=", []( GCN & d, GCN const & s ){ d = s; } },
      { "from_gc", []( GCN & d, GCN const & s ){ d.from_gc(s); } },
      { "load", []( GCN & d, GCN const & s ){ d.load(s); } },
      { "to_gc", []( GCN & d, GCN const & s ){ s.to_gc(d); } },
    };
    return C;
  }

  // modify the node in place; the model is not needed: only the other container is checked
  static int const NMUT = 4;
  static bool mutate( GCN & g, Val const & m, int kind ) {
    switch ( kind ) {
    case 0: g.set_int(-99); return true;
    case 1: g.clear(); return true;
    case 2: { vector_type & v = g.set_vector(2); v[0] = 3; v[1] = "mutated"; return true; }
    case 3: // through references into the stored data
      switch ( m.k ) {
      case POINTER: g.get_pointer<void*>() = reinterpret_cast<void*>(0x77); return true;
      case BOOL: g.get_bool() = !g.get_bool(); return true;
      case INT: g.get_int() ^= 5; return true;
      case LONG: g.get_long() ^= 5; return true;
      case REAL: g.get_real() = 77.5; return true;
      case COMPLEX: g.get_complex() = cplx(7,8); return true;
      case STRING: g.get_string() += "mut"; return true;
      case VPOINTER: g.get_vec_pointer().push_back(nullptr); for ( auto & x : g.get_vec_pointer() ) x = nullptr; return true;
      case VBOOL: g.get_vec_bool().flip(); g.get_vec_bool().push_back(true); return true;
      case VINT: for ( auto & x : g.get_vec_int() ) x ^= 3; g.get_vec_int().push_back(1); return true;
      case VLONG: for ( auto & x : g.get_vec_long() ) x ^= 3; g.get_vec_long().push_back(1); return true;
      case VREAL: for ( auto & x : g.get_vec_real() ) x += 3; g.get_vec_real().push_back(1); return true;
      case VCOMPLEX: for ( auto & x : g.get_vec_complex() ) x += 3; g.get_vec_complex().push_back(1); return true;
      case VSTRING: for ( auto & x : g.get_vec_string() ) x += "y"; g.get_vec_string().push_back("z"); return true;
      case MINT: for ( auto & x : g.get_mat_int() ) x ^= 3; g.get_mat_int().resize(1,1); return true;
      case MLONG: for ( auto & x : g.get_mat_long() ) x ^= 3; g.get_mat_long().resize(1,1); return true;
      case MREAL: for ( auto & x : g.get_mat_real() ) x += 3; g.get_mat_real().resize(1,1); return true;
      case MCOMPLEX: for ( auto & x : g.get_mat_complex() ) x += 3; g.get_mat_complex().resize(1,1); return true;
      case VECTOR: for ( auto & x : g.get_vector() ) x = 1; g.get_vector().resize(5); return true;
      case MAP: for ( auto & x : g.get_map() ) x.second = "m"; g["new key"] = 1; return true;
      default: return false;
      }
    }
    return false;
  }

  static void copy_case( Runner & R, Val const & s, Val const & d ) {
    vector<Path> P; paths( s, {}, P );
    for ( size_t ci=0; ci<=copies().size(); ++ci ) {
      string name = ci < copies().size() ? copies()[ci].name : "copy constructor";
      if ( ci == copies().size() && d.k != NOTYPE ) continue;
      // copy + the modification of every node, source and destination side
      for ( size_t pi=0; pi<P.size(); ++pi ) for ( int mk=0; mk<NMUT; ++mk ) for ( int side=0; side<2; ++side ) {
        if ( R.skip() ) continue;
        R.run( [&]{ return name + " " + show(s) + " -> over " + show(d) + ", then modify(" + std::to_string(mk) + ") " + (side?"copy":"source") + " at " + showp(P[pi]); }, [&]{
          auto S = std::make_unique<GCN>(); build( *S, s );
          std::unique_ptr<GCN> D;
          if ( ci == copies().size() ) D = std::make_unique<GCN>( *S );
          else { D = std::make_unique<GCN>(); build( *D, d ); copies()[ci].f( *D, *S ); }
          REQ_EQ( *D, s, "copy" ); REQ_EQ( *S, s, "source after copy" );
          GCN & X = side ? *D : *S; GCN & Y = side ? *S : *D;
          if ( mutate( at( X, s, P[pi] ), at( const_cast<Val&>(s), P[pi] ), mk ) ) REQ_EQ( Y, s, "other container after the modification" );
          if ( side ) { D.reset(); REQ_EQ( *S, s, "source after destroying the copy" ); }
          else        { S.reset(); REQ_EQ( *D, s, "copy after destroying the source" ); }
          R.trans(3); R.state(s);
        } );
      }
    }
  }

  static void alias_case( Runner & R, Val const & t ) {
    vector<Path> P; paths( t, {}, P );
    for ( auto const & C : copies() ) for ( auto & p : P ) for ( auto & q : P ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return string("in ") + show(t) + ": node " + showp(p) + " " + C.name + " node " + showp(q); }, [&]{
        auto T = std::make_unique<GCN>(); build( *T, t );
        GCN & dst = at( *T, t, p ); GCN & src = at( *T, t, q );
        C.f( dst, src );
        Val e = t; Val q0 = at( e, q ); at( e, p ) = q0;
        REQ_EQ( *T, e, "tree after aliased copy" );
        // once more: the state must still be usable
        build( *T, t ); REQ_EQ( *T, t, "rebuild" );
        R.trans(2); R.state(e);
      } );
    }
  }

  // a string, number, vector or matrix that lives in the tree, stored into (or pushed onto) a node of the tree
  static int const NOWN = 6;
  static bool store_own( GCN & d, GCN & s, Val const & dm, Val const & sm, int how, Val & e ) { // false: does not apply
    GCN const & c = s;
    if ( how < 2 ) {
      e = sm;
      #define ST(K,SET,GET) case K: if ( how ) d = c.GET(); else d.SET( c.GET() ); return true
      switch ( sm.k ) {
      ST(COMPLEX,set_complex,get_complex); ST(STRING,set_string,get_string); case VPOINTER: if ( how ) return false; d.set_vec_pointer( c.get_vec_pointer() ); return true; ST(VBOOL,set_vec_bool,get_vec_bool); ST(VINT,set_vec_int,get_vec_int); ST(VLONG,set_vec_long,get_vec_long); ST(VREAL,set_vec_real,get_vec_real); ST(VCOMPLEX,set_vec_complex,get_vec_complex); ST(VSTRING,set_vec_string,get_vec_string);
      ST(MINT,set_mat_int,get_mat_int); ST(MLONG,set_mat_long,get_mat_long); ST(MREAL,set_mat_real,get_mat_real); ST(MCOMPLEX,set_mat_complex,get_mat_complex);
      }
      return false;
    }
    // the last string or complex number
    size_t n = sm.size(); bool str = sm.k == STRING || sm.k == VSTRING, cp = sm.k == COMPLEX || sm.k == VCOMPLEX || sm.k == MCOMPLEX; if ( !( str || cp ) || n == 0 ) return false;
    string_view v; complex_type * z = nullptr; Val x;
    switch ( sm.k ) {
    case STRING: v = c.get_string(); break;
    case VSTRING: v = c.get_vec_string()[n-1]; break;
    case COMPLEX: z = &s.get_complex(); break;
    case VCOMPLEX: z = &s.get_vec_complex()[n-1]; break;
    case MCOMPLEX: z = &s.get_mat_complex()[unsigned(n-1)]; break;
    }
    if ( str ) { if ( how == 4 || how == 5 ) { if ( v.empty() ) return false; v = v.substr( v.size()/2 ); } x = vstr(string(v)); } else { if ( how == 4 || how == 5 ) return false; x = vcplx( z->real(), z->imag() ); }
    if ( how == 2 || how == 4 ) { if ( str ) d.set_string( v ); else d.set_complex( *z ); e = x; return true; }
    e = dm;
    if ( dm.k == VECTOR ) e.ch.push_back( x );
    else if ( str && dm.k == STRING ) e = vgen({dm,x});
    else if ( str && dm.k == VSTRING ) e.s.push_back( x.s[0] );
    else if ( cp && dm.k == VCOMPLEX ) { e.w.push_back( x.w[0] ); e.w.push_back( x.w[1] ); }
    else if ( cp && dm.k == COMPLEX ) e = vvec( VCOMPLEX, {dm,x} );
    else return false;
    if ( str ) d.push_string( v ); else d.push_complex( *z );
    return true;
  }
  static void own_case( Runner & R, Val const & t ) {
    vector<Path> P; paths( t, {}, P ); static char const * const N[] = { "set_*", "=", "set_* of the last element", "push_*", "set_string of the second half", "push_string of the second half" };
    for ( auto & p : P ) for ( auto & q : P ) { if ( at( const_cast<Val&>(t), q ).k < COMPLEX || at( const_cast<Val&>(t), q ).k >= VECTOR ) continue; for ( int how=0; how<NOWN; ++how ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return string("in ") + show(t) + ": node " + showp(p) + " " + N[how] + " content of node " + showp(q); }, [&]{
        auto T = std::make_unique<GCN>(); build( *T, t ); Val m = t, e;
        if ( !store_own( at( *T, t, p ), at( *T, t, q ), at( m, p ), Val( at( m, q ) ), how, e ) ) return;
        at( m, p ) = e; REQ_EQ( *T, m, "tree after the store" ); build( *T, t ); REQ_EQ( *T, t, "rebuild" );
        R.trans(2); R.state(m);
      } );
    } }
  }

  void enumerate( Runner & R ) {
    auto U = values_one_per_shape();
    R.family("copy over every content");
    for ( auto & s : U ) for ( auto & d : U ) copy_case( R, s, d );
    R.family("copy of edge values");
    for ( auto & s : scalars_edge() ) { copy_case( R, s, vnone() ); copy_case( R, s, vmap({{"a",vstr("b")}}) ); }
    R.family("copy of all lengths");
    for ( auto & s : vectors_of_all_lengths( R.thorough ? 140 : 50 ) ) {
      if ( s.k == VECTOR || s.k == MAP ) {
        for ( auto const & C : copies() ) {
          if ( R.skip() ) continue;
          R.run( [&]{ return string(C.name) + " " + show(s); }, [&]{ auto S = std::make_unique<GCN>(); build(*S,s); auto D = std::make_unique<GCN>(); build(*D,distinct_vec(VINT,3)); C.f(*D,*S); REQ_EQ(*D,s,"copy"); S.reset(); REQ_EQ(*D,s,"copy after destroying the source"); R.trans(1); R.state(s); } );
        }
      } else { copy_case( R, s, vnone() ); copy_case( R, s, distinct_vec(s.k,7) ); }
    }
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned a=0; a<=4; ++a ) for ( unsigned b=0; b<=4; ++b ) for ( unsigned c=0; c<=3; ++c ) copy_case( R, distinct_mat(k,a,b), distinct_mat(k,c,2) );
    R.family("copy of nested values");
    for ( auto & s : values_nested( 2, { vint(3), vstr("q") } ) ) { if ( !R.thorough && (hashv(s)%3) ) continue; copy_case( R, s, vnone() ); }
    for ( auto & s : values_nested( 1, { vnone(), distinct_vec(VSTRING,2), distinct_mat(MREAL,2,1), vcplx(1,2), vptr(64) } ) ) copy_case( R, s, vgen({vint(1)}) );
    for ( int d=1; d<=(R.thorough?90:40); ++d ) { Val t = vint(d); for ( int i=0; i<d; ++i ) t = (i&1) ? vgen({vstr("e"),t}) : vmap({{"k",t}});
      for ( auto const & C : copies() ) { if ( R.skip() ) continue;
        R.run( [&]{ return string(C.name) + " nesting depth " + std::to_string(d); }, [&]{ auto S = std::make_unique<GCN>(); build(*S,t); auto D = std::make_unique<GCN>(); C.f(*D,*S); REQ_EQ(*D,t,"copy"); GCN E(*D); D.reset(); REQ_EQ(E,t,"copy of copy"); R.trans(2); } ); } }
    R.family("aliased");
    vector<Val> L{ vnone(), vint(3), vstr("a text that does not fit the small buffer"), distinct_vec(VREAL,3), distinct_vec(VSTRING,2), distinct_mat(MINT,2,1), vcplx(1,2), distinct_vec(VBOOL,9), vptr(4096) };
    for ( auto & t : values_nested( 1, L ) ) alias_case( R, t );
    for ( auto & t : values_nested( 2, { vint(3), vstr("q") } ) ) { if ( !R.thorough && (hashv(t)%7) ) continue; alias_case( R, t ); }
    for ( auto & l : L ) {
      alias_case( R, vgen({l,vmap({{"a",l},{"b",vgen({l,vint(1)})}})}) );
      alias_case( R, vmap({{"a",vgen({vmap({{"x",l}}),l})},{"b",l},{"c",vmap({})}}) );
      alias_case( R, vmap({{"a",vmap({{"a",vmap({{"a",vmap({{"a",l}})}})}})}}) );
      alias_case( R, vgen({vgen({vgen({vgen({l})})}),vgen({})}) );
    }
    R.family("content of its own");
    for ( auto & v : U ) for ( auto & t : { v, vgen({v,v,vint(1)}), vmap({{"a",v},{"b",vgen({v})}}), vmap({{"a",vmap({{"a",v}})},{"b",vstr("x")}}) } ) own_case( R, t );
    for ( auto & v : vectors_of_all_lengths( R.thorough ? 70 : 20 ) ) { own_case( R, v ); own_case( R, vgen({v}) ); }
    for ( auto & a : L ) for ( auto & b : L ) own_case( R, vmap({{"a",vgen({a,b})},{"b",vmap({{"c",b},{"d",a}})}}) );
    { Val big = vgen({}); for ( int i=0; i<9; ++i ) { big.ch.push_back( vstr( string(size_t(40+i),char('a'+i)) ) ); big.ch.push_back( vcplx(i,-i) ); own_case( R, big ); } }
    R.family("large members of every shape");
    for ( auto & v : values_large( 70000 ) ) for ( auto const & C : copies() ) { if ( R.skip() ) continue;
      R.run( [&]{ return string(C.name) + " " + show(v); }, [&]{ auto S = std::make_unique<GCN>(); build(*S,v); auto D = std::make_unique<GCN>(); build(*D,distinct_vec(VINT,3)); C.f(*D,*S); REQ_EQ(*D,v,"copy"); S.reset(); REQ_EQ(*D,v,"copy after destroying the source"); R.trans(2); R.state(v); } ); }
  }
}
