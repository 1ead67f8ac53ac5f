#include "num.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
#include <fcntl.h>
#include <unistd.h>
namespace H {
  using namespace GC_namespace;
  char const * const PROPERTY = "P21";
  char const * const RULE = "all command sequences of the C interface: the full command alphabet up to depth 3 (thorough adds a 26 command alphabet at depth 4), a structural alphabet (cursor moves, stores, id changes, deletes, key iteration) up to depth 4 (5 thorough), key iteration from prepared maps up to depth 6, a cursor alphabet of 10 commands up to depth 5 (6 thorough), the full alphabet to depth 1 (2 thorough) with the cursor on every position of every start tree; after each sequence status codes, every getter at the cursor and the trees of all ids are compared with a reference cursor machine, and every byte allocated is returned after GC_delete";

  struct Step { bool map; string key; unsigned pos; };
  struct Ent { Val root; vector<Step> path; vector<string> keys; size_t next{0}; vector<Step> kpath; bool inited{false}, kvalid{true}; GCN * mem{nullptr}; };
  struct M { std::map<string,Ent> ids; string active; bool has{false}; };
  static Val * walk( Val & root, vector<Step> const & p ) {
    Val * v = &root;
    for ( auto & s : p ) {
      if ( s.map ) { if ( v->k != MAP ) return nullptr; v = v->find(s.key); if ( !v ) return nullptr; }
      else { if ( v->k != VECTOR || s.pos >= v->ch.size() ) return nullptr; v = &v->ch[s.pos]; }
    }
    return v;
  }
  struct Op { string name; std::function<int()> call; std::function<bool(M&)> model; };  // model: true if the call must succeed
  static Ent * act( M & m ) { return m.has ? &m.ids[m.active] : nullptr; }
  static Val * cur( M & m ) { Ent * e = act(m); return e ? walk( e->root, e->path ) : nullptr; }
  static void enter( M & m, string const & id ) {
    Ent & e = m.ids[id]; m.active = id; m.has = true;
    if ( !e.mem ) { e.mem = static_cast<GCN*>( GC_mem_ptr( id.c_str() ) ); REQ( e.mem, "GC_mem_ptr" ); }
  }
  template <class F> static Op store( string const & n, Val const & x, F f ) { return Op{ n, f, [x]( M & m ){ Val * v = cur(m); if ( !v ) return false; *v = x; return true; } }; }
  template <class F, class G> static Op push( string const & n, Val const & x, F f, G g ) {
    return Op{ n, f, [x,g]( M & m ){
      Val * v = cur(m); if ( !v ) return false;
      if ( v->k == VECTOR ) { v->ch.push_back(x); return true; }
      if ( is_vec(v->k) && elem_kind(v->k) == x.k ) { for ( auto w : x.w ) v->w.push_back(w); for ( auto & s : x.s ) v->s.push_back(s); return true; }
      GCN t; build( t, *v ); bool thr = throws( [&]{ g(t); } ); if ( thr ) return false; *v = readback(t); return true;  // promotion rules: property P11
    } };
  }
  static Val none_vec( unsigned n ) { Val v; v.k = VECTOR; v.ch.resize(n); return v; }
  static Val empty( int k ) { Val v; v.k = k; return v; }
  static Val filled() {
    auto R = []( double x ) { return vreal(x); };
    return vgen({ vint(1), vvec(VREAL,{R(0),R(0),R(123),R(0),R(0),R(0),R(0),R(0),R(0),R(0)}),
      vmap({{"pippo",vint(13)},{"pluto",vint(1)},{"paperino",vint(3)},{"aaa",vstr("stringa1")},{"bbb",vstr("stringa2")}}),
      vvec(VSTRING,{vstr("string1"),vstr("string2"),vstr("string3"),vstr("string4")}), vreal(1.3), vstr("pippo"),
      vmap({{"aaa",vint(123)},{"bbb",vreal(3.4)},{"vector",vvec(VINT,{vint(12),vint(10),vint(1)})}}),
      vgen({vint(123),vreal(3.14),vstr("nonna papera"),vvec(VCOMPLEX,{vcplx(1,0),vcplx(2,0),vcplx(3,0),vcplx(-12,2)})}),
      vmat(MREAL,2,2,{R(0),R(0),R(3),R(2)}), vmat(MCOMPLEX,2,2,{vcplx(0,0),vcplx(0,0),vcplx(1,-1),vcplx(2,2)}), vbool(true) });
  }
  static Op sel( string const & n, string const & id, int (*f)(char const*) ) { return Op{ n+id, [f,id]{ return f(id.c_str()); }, [id]( M & m ){ enter(m,id); return true; } }; }
  static Op mpos( string const & k ) { return Op{ "map["+k+"]", [k]{ string t = k; int r = GC_push_map_position( t.c_str() ); for ( auto & c : t ) c = '!'; return r; }, [k]( M & m ){ Val * v = cur(m); if ( !v || v->k != MAP ) return false; v->put(k); act(m)->path.push_back({true,k,0}); return true; } }; }
  static Op vpos( int i ) { return Op{ "vec["+std::to_string(i)+"]", [i]{ return GC_push_vector_position(i); }, [i]( M & m ){ Val * v = cur(m); if ( !v || v->k != VECTOR || i < 0 ) return false; if ( size_t(i) >= v->ch.size() ) v->ch.resize(i+1); act(m)->path.push_back({false,"",unsigned(i)}); return true; } }; }
  static Op del( string const & id ) { return Op{ "delete "+id, [id]{ return GC_delete(id.c_str()); }, [id]( M & m ){ if ( m.has && m.active == id ) m.has = false; m.ids.erase(id); return true; } }; }
  static Op pop() { return Op{ "pop", []{ return GC_pop_head(); }, []( M & m ){ Ent * e = act(m); if ( !e || e->path.empty() ) return false; e->path.pop_back(); return true; } }; }
  static Op reset() { return Op{ "reset", []{ return GC_reset_head(); }, []( M & m ){ Ent * e = act(m); if ( !e ) return false; e->path.clear(); return true; } }; }
  static char const * last_key; static bool key_asked;
  static Op ikey() { return Op{ "init_map_key", []{ return GC_init_map_key(); }, []( M & m ){ Val * v = cur(m); if ( !v || v->k != MAP ) return false; Ent * e = act(m); e->keys = v->s; e->next = 0; e->kpath = e->path; e->inited = e->kvalid = true; return true; } }; }
  static Op nkey() { return Op{ "next_key", []{ last_key = GC_get_next_key(); return 0; }, []( M & m ){
    Ent * e = act(m); if ( !e ) { REQ( !last_key, "key without an active container" ); return true; }
    if ( !e->inited ) { REQ( !last_key, "key before GC_init_map_key: " << last_key ); return true; }
    if ( e->kvalid ) { Val * v = walk( e->root, e->kpath ); if ( !v || v->k != MAP || v->s != e->keys ) e->kvalid = false; }
    if ( !e->kvalid ) { if ( last_key ) (void)string(last_key); return true; }   // map modified since: only safe
    if ( e->next < e->keys.size() ) { REQ( last_key, "no key, expected " << e->keys[e->next] ); REQ( e->keys[e->next] == last_key, "key " << last_key << " expected " << e->keys[e->next] ); ++e->next; }
    else REQ( !last_key, "key '" << last_key << "' after the last one" );
    return true; } }; }

  static vector<Op> structural() {
    vector<Op> O;
    O.push_back( sel("select ","A",GC_select) ); O.push_back( sel("select ","B",GC_select) ); O.push_back( del("A") );
    O.push_back( store( "set_map", empty(MAP), []{ return GC_set_map(); } ) );
    O.push_back( Op{ "set_vector 2", []{ return GC_set_vector(2); }, []( M & m ){ Val * v = cur(m); if ( !v ) return false; Val e = none_vec(2);
      if ( v->k == VECTOR ) { Val kept = *v; kept.ch.resize(2); Ent * a = act(m); Val r = readback( *a->mem ); Val * w = walk( r, a->path ); if ( w && *w == kept ) e = kept; }  // the elements of an existing vector may be kept
      *v = e; return true; } } );
    O.push_back( store( "set_int 7", vint(7), []{ return GC_set_int(7); } ) );
    O.push_back( push( "push_int 5", vint(5), []{ return GC_push_int(5); }, []( GCN & g ){ g.push_int(5); } ) );
    O.push_back( mpos("a") ); O.push_back( mpos("b") ); O.push_back( vpos(0) ); O.push_back( vpos(3) );
    O.push_back( pop() ); O.push_back( reset() ); O.push_back( ikey() ); O.push_back( nkey() );
    return O;
  }
  static vector<Op> everything() {
    vector<Op> O = structural();
    O.push_back( sel("new ","A",GC_new) ); O.push_back( sel("new ","B",GC_new) ); O.push_back( del("B") ); O.push_back( del("absent") );
    O.push_back( Op{ "mem_ptr A", []{ return GC_mem_ptr("A") ? 0 : 1; }, []( M & m ){ enter(m,"A"); return true; } } );
    O.push_back( Op{ "fill_for_test B", []{ return GC_fill_for_test("B"); }, []( M & m ){ enter(m,"B"); Ent & e = m.ids["B"]; e.root = filled(); e.path.clear(); return true; } } );
    O.push_back( store( "set_bool", vbool(true), []{ return GC_set_bool(2); } ) );
    O.push_back( store( "set_bool 0", vbool(false), []{ return GC_set_bool(0); } ) );
    O.push_back( store( "set_int min", vint(INT32_MIN), []{ return GC_set_int(INT32_MIN); } ) );
    O.push_back( store( "set_real", vreal(-0.1), []{ return GC_set_real(-0.1); } ) );
    O.push_back( store( "set_complex", vcplx(1.5,-2.5), []{ c_complex_type c{1.5,-2.5}; return GC_set_complex(&c); } ) );
    O.push_back( store( "set_complex2", vcplx(-7,1e300), []{ return GC_set_complex2(-7,1e300); } ) );
    O.push_back( store( "set_string", vstr("a string longer than the small buffer"), []{ char b[] = "a string longer than the small buffer"; int r = GC_set_string(b); memset(b,'x',sizeof(b)-1); return r; } ) );
    O.push_back( store( "set_string empty", vstr(""), []{ return GC_set_string(""); } ) );
    O.push_back( push( "push_bool 2", vbool(true), []{ return GC_push_bool(2); }, []( GCN & g ){ g.push_bool(true); } ) );
    O.push_back( push( "push_bool 0", vbool(false), []{ return GC_push_bool(0); }, []( GCN & g ){ g.push_bool(false); } ) );
    O.push_back( push( "push_real", vreal(2.25), []{ return GC_push_real(2.25); }, []( GCN & g ){ g.push_real(2.25); } ) );
    O.push_back( push( "push_complex", vcplx(3,-4), []{ c_complex_type c{3,-4}; return GC_push_complex(&c); }, []( GCN & g ){ g.push_complex(3,-4); } ) );
    O.push_back( push( "push_complex2", vcplx(5,6), []{ return GC_push_complex2(5,6); }, []( GCN & g ){ g.push_complex(5,6); } ) );
    O.push_back( push( "push_string", vstr("pushed"), []{ char b[] = "pushed"; int r = GC_push_string(b); memset(b,'x',6); return r; }, []( GCN & g ){ g.push_string("pushed"); } ) );
    O.push_back( store( "set_empty_vector_of_bool", empty(VBOOL), []{ return GC_set_empty_vector_of_bool(); } ) );
    O.push_back( store( "set_empty_vector_of_int", empty(VINT), []{ return GC_set_empty_vector_of_int(); } ) );
    O.push_back( store( "set_empty_vector_of_real", empty(VREAL), []{ return GC_set_empty_vector_of_real(); } ) );
    O.push_back( store( "set_empty_vector_of_complex", empty(VCOMPLEX), []{ return GC_set_empty_vector_of_complex(); } ) );
    O.push_back( store( "set_empty_vector_of_string", empty(VSTRING), []{ return GC_set_empty_vector_of_string(); } ) );
    O.push_back( store( "set_vector_of_bool", vvec(VBOOL,{vbool(true),vbool(false),vbool(true)}), []{ int a[] = {3,0,-1}; return GC_set_vector_of_bool(a,3); } ) );
    O.push_back( store( "set_vector_of_int", vvec(VINT,{vint(4),vint(-5),vint(6)}), []{ int a[] = {4,-5,6}; return GC_set_vector_of_int(a,3); } ) );
    O.push_back( store( "set_vector_of_real", vvec(VREAL,{vreal(0.5),vreal(-1e-9)}), []{ double a[] = {0.5,-1e-9}; return GC_set_vector_of_real(a,2); } ) );
    O.push_back( store( "set_vector_of_complex", vvec(VCOMPLEX,{vcplx(1,4),vcplx(2,5),vcplx(3,6)}), []{ double a[] = {1,2,3}, b[] = {4,5,6}; return GC_set_vector_of_complex(a,b,3); } ) );
    O.push_back( store( "set_vector_of_string", vvec(VSTRING,{vstr("x"),vstr(""),vstr("zzz")}), []{ char const * a[] = {"x","","zzz"}; return GC_set_vector_of_string(a,3); } ) );
    O.push_back( store( "set_vector_of_bool 0", empty(VBOOL), []{ int a = 1; return GC_set_vector_of_bool(&a,0); } ) );
    O.push_back( store( "set_vector_of_int 0", empty(VINT), []{ int a = 1; return GC_set_vector_of_int(&a,0); } ) );
    O.push_back( store( "set_vector_of_real 0", empty(VREAL), []{ double a = 1; return GC_set_vector_of_real(&a,0); } ) );
    O.push_back( store( "set_vector_of_complex 0", empty(VCOMPLEX), []{ double a = 1; return GC_set_vector_of_complex(&a,&a,0); } ) );
    O.push_back( store( "set_vector_of_string 0", empty(VSTRING), []{ char const * a[] = {"x"}; return GC_set_vector_of_string(a,0); } ) );
    O.push_back( store( "set_vector 0", empty(VECTOR), []{ return GC_set_vector(0); } ) );
    O.push_back( store( "set_empty_vector", empty(VECTOR), []{ return GC_set_empty_vector(); } ) );
    auto never = []( M & ){ return false; };
    O.push_back( Op{ "set_vector -1", []{ return GC_set_vector(-1); }, never } );
    O.push_back( Op{ "set_vector_of_* -1", []{ int a = 1; double d = 1; char const * s[] = {"x"}; return GC_set_vector_of_bool(&a,-1) && GC_set_vector_of_int(&a,-1) && GC_set_vector_of_real(&d,-1) && GC_set_vector_of_complex(&d,&d,-1) && GC_set_vector_of_string(s,-1) ? 1 : 0; }, never } );
    O.push_back( mpos("") ); O.push_back( vpos(1) ); O.push_back( vpos(-1) );
    return O;
  }

  static double num( Val const & v, bool & ok ) { double d = 0; ok = to_double( v, d ); return d; }
  static void observe( M & m ) {
    Val * vp = cur(m); REQ( !m.has || vp, "model" );
    Val v = vp ? *vp : vnone();
    try {
      int ty = GC_get_type(); char const * tn = GC_get_type_name();
      if ( vp ) { REQ( ty == int(to_gct(v.k)), "GC_get_type " << ty << " on " << show(v) ); GCN t; build(t,v); REQ( tn && string(t.get_type_name()) == tn, "GC_get_type_name " << tn ); }
      else { REQ( ty < 0, "GC_get_type without a container" ); REQ( tn && !*tn, "GC_get_type_name without a container" ); }
      int b = GC_get_bool(), i = GC_get_int(); long l = GC_get_long(); double r = GC_get_real(); c_complex_type c = GC_get_complex(); double cr = GC_get_complex_re(), ci = GC_get_complex_im(); char const * s = GC_get_string();
      if ( v.k == BOOL ) REQ( b == int(v.w[0]), "GC_get_bool " << b );
      if ( v.k == INT ) REQ( i == int32_t(v.w[0]), "GC_get_int " << i );
      if ( v.k == LONG ) REQ( l == int64_t(v.w[0]), "GC_get_long " << l );
      if ( v.k == REAL ) REQ( dbits(r) == v.w[0], "GC_get_real " << r );
      if ( v.k == COMPLEX ) { REQ( dbits(c.real) == v.w[0] && dbits(c.imag) == v.w[1], "GC_get_complex" ); REQ( dbits(cr) == v.w[0] && dbits(ci) == v.w[1], "GC_get_complex_re/im " << cr << " " << ci ); }
      if ( v.k == STRING ) REQ( s && string(v.s[0].c_str()) == s, "GC_get_string " << s );
      bool seq = is_vec(v.k) || is_mat(v.k) || v.k == VECTOR;
      int sz = GC_get_vector_size(); if ( is_vec(v.k) || v.k == VECTOR ) REQ( sz == int(v.size()), "GC_get_vector_size " << sz );
      int nr = GC_get_matrix_num_rows(), nc = GC_get_matrix_num_cols(); if ( is_mat(v.k) ) REQ( nr == int(v.nr) && nc == int(v.nc), "matrix size " << nr << " x " << nc );
      int n = seq ? int(v.size()) : 0;
      for ( int p=-1; p<=n+1 && p < 300; ++p ) {
        bool in = p >= 0 && p < n; Val e = in ? elem(v,p) : vnone(); bool rk; double x = num(e,rk);
        int pb = GC_get_bool_at_pos(p), pi = GC_get_int_at_pos(p); double pr = GC_get_real_at_pos(p); c_complex_type pc = GC_get_complex_at_pos(p); double pcr = GC_get_complex_real_at_pos(p), pci = GC_get_complex_imag_at_pos(p); char const * ps = GC_get_string_at_pos(p);
        string w = " at " + std::to_string(p) + " of " + show(v);
        if ( seq && !in ) { REQ( !pb && !pi && pr == 0 && pc.real == 0 && pc.imag == 0 && pcr == 0 && pci == 0 && !ps, "a value out of range" << w ); continue; }
        if ( !in ) continue;
        bool g = v.k == VECTOR, tv = is_vec(v.k);
        if ( ( tv || g ) && e.k == BOOL ) REQ( pb == int(e.w[0]), "GC_get_bool_at_pos " << pb << w );
        if ( ( tv || g ) && e.k == INT ) REQ( pi == int32_t(e.w[0]), "GC_get_int_at_pos " << pi << w );
        if ( v.k == VBOOL ) REQ( pi == int32_t(e.w[0]), "GC_get_int_at_pos " << pi << w );
        if ( rk && e.k != COMPLEX ) REQ( same_num(pr,x), "GC_get_real_at_pos " << pr << w );
        if ( is_numeric(e.k) ) { cplx z = as_cplx(e); REQ( same_num(cplx(pc.real,pc.imag),z), "GC_get_complex_at_pos" << w ); REQ( same_num(cplx(pcr,pci),z), "GC_get_complex_real/imag_at_pos" << w ); }
        if ( ( tv || g ) && e.k == STRING ) REQ( ps && string(e.s[0].c_str()) == ps, "GC_get_string_at_pos" << w );
      }
      int mr = is_mat(v.k) ? int(v.nr) : 0, mc = is_mat(v.k) ? int(v.nc) : 0;
      for ( int p=-1; p<=mr; ++p ) for ( int q=-1; q<=mc; ++q ) {
        bool in = p >= 0 && q >= 0 && p < mr && q < mc; double x = GC_get_real_at_coor(p,q); c_complex_type y = GC_get_complex_at_coor(p,q); double yr = GC_get_complex_real_at_coor(p,q), yi = GC_get_complex_imag_at_coor(p,q);
        if ( !is_mat(v.k) ) continue;
        if ( !in ) { REQ( x == 0 && y.real == 0 && y.imag == 0 && yr == 0 && yi == 0, "a value out of the matrix" ); continue; }
        Val e = elem( v, p+size_t(q)*v.nr );
        if ( v.k == MREAL ) REQ( same_num(x,as_real(e)), "GC_get_real_at_coor(" << p << "," << q << ") = " << x << " on " << show(v) );
        if ( v.k == MREAL || v.k == MCOMPLEX ) { cplx z = as_cplx(e); REQ( same_num(cplx(y.real,y.imag),z), "GC_get_complex_at_coor(" << p << "," << q << ") on " << show(v) ); REQ( same_num(cplx(yr,yi),z), "GC_get_complex_real/imag_at_coor(" << p << "," << q << ") on " << show(v) ); }
      }
      std::ostringstream od, ot; auto old = std::cout.rdbuf( od.rdbuf() ); int d = GC_dump(); std::cout.rdbuf( ot.rdbuf() ); int t = GC_print_content_types(); std::cout.rdbuf( old );
      if ( vp ) { GCN x; build( x, v ); std::ostringstream xd, xt; x.dump( xd ); x.print_content_types( xt ); REQ( od.str() == xd.str(), "GC_dump prints " << show_bytes(od.str()) << " | expected " << show_bytes(xd.str()) ); REQ( ot.str() == xt.str(), "GC_print_content_types prints " << show_bytes(ot.str()) << " | expected " << show_bytes(xt.str()) ); }
      REQ( vp ? d == 0 && t == 0 : d != 0 && t != 0, "GC_dump/GC_print_content_types status " << d << " " << t );
    } catch ( Fail & ) { throw; } catch ( ... ) { fail( "exception through the C interface, cursor at " + show(v) ); }
    for ( auto & e : m.ids ) REQ_EQ( *e.second.mem, e.second.root, "content of " + e.first + " (after the getters)" );
  }
  static void go( Runner & R, string const & pre, std::function<void(M&)> const & init, vector<Op const *> const & ops ) {
    if ( R.skip() ) return;
    R.run( [&]{ string s = pre; for ( auto o : ops ) s += "; " + o->name; return s; }, [&]{
      M m; GC_delete("A"); GC_delete("B"); GC_select("A"); enter(m,"A");
      init(m);
      for ( auto o : ops ) {
        int st; try { st = o->call(); } catch ( ... ) { fail( "exception through the C interface in " + o->name ); }
        M old = m; bool ok = o->model(m); if ( !ok ) m = old;
        REQ( ( st == 0 ) == ok, o->name << " returns " << st << ", expected " << ( ok ? "success" : "an error" ) );
        for ( auto & e : m.ids ) REQ_EQ( *e.second.mem, e.second.root, "content of " + e.first + " after " + o->name );
        R.trans(1);
      }
      observe(m);
      for ( auto & e : m.ids ) R.state( e.second.root );
      GC_delete("A"); GC_delete("B"); GC_delete("absent");
    } );
  }

  void enumerate( Runner & R ) {
    R.leakcheck = true; last_key = nullptr; key_asked = false;
    std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr);
    GC_delete("A"); GC_delete("B");
    vector<Op> S = structural(), E = everything();
    auto nothing = []( M & ){};
    std::function<void(vector<Op> const &,string const &,std::function<void(M&)> const &,vector<Op const *>&,int,int)> rec =
      [&]( vector<Op> const & O, string const & pre, std::function<void(M&)> const & init, vector<Op const *> & q, int d, int mind ) {
        if ( int(q.size()) >= mind ) go( R, pre, init, q );
        if ( d == 0 ) return;
        for ( auto & o : O ) { q.push_back(&o); rec( O, pre, init, q, d-1, mind ); q.pop_back(); }
      };
    vector<Op const *> q;
    auto pick = []( vector<Op> const & O, vector<string> const & n ) { vector<Op> r; for ( auto & x : n ) { bool f = false; for ( auto & o : O ) if ( o.name == x ) { r.push_back(o); f = true; } REQ( f, "no op " << x ); } return r; };
    vector<Op> C = pick( E, { "select A", "select B", "delete A", "set_map", "set_vector 2", "map[a]", "vec[1]", "pop", "set_int 7", "reset" } );
    vector<Op> W = pick( E, { "select A", "select B", "delete A", "set_map", "set_vector 2", "map[a]", "map[b]", "vec[0]", "vec[3]", "pop", "reset", "init_map_key", "next_key", "set_int 7", "push_int 5", "new B", "fill_for_test B", "set_string", "push_string", "push_real", "push_bool 2", "set_vector_of_int", "set_vector_of_bool", "set_empty_vector", "set_complex", "vec[-1]" } );
    R.family("full alphabet"); rec( E, "A", nothing, q, 3, 0 );
    R.family("structural alphabet"); rec( S, "A", nothing, q, 4, 4 );
    R.family("cursor alphabet"); rec( C, "A", nothing, q, R.thorough ? 6 : 5, 5 );
    if ( R.thorough ) { R.family("wide alphabet"); rec( W, "A", nothing, q, 4, 4 ); }
    R.family("cursor on every position of every tree");
    vector<Val> T; for ( auto & v : values_one_per_shape() ) { T.push_back(v); T.push_back( vmap({{"a",v},{"z",vint(1)}}) ); T.push_back( vgen({vint(1),v}) ); }
    for ( auto & v : values_medium() ) T.push_back(v);
    for ( auto & v : values_lookalike() ) T.push_back(v);
    for ( int k=MINT; k<=MCOMPLEX; ++k ) for ( unsigned r=0; r<=(R.thorough?5u:3u); ++r ) for ( unsigned c=0; c<=(R.thorough?5u:3u); ++c ) T.push_back( distinct_mat(k,r,c) );
    for ( auto & v : scalars_edge() ) { T.push_back(v); if ( v.k != NOTYPE ) { T.push_back( vvec( v.k-POINTER+VPOINTER, {v,v} ) ); T.push_back( vgen({v}) ); } }
    T.push_back( filled() );
    for ( auto & t : T ) {
      vector<vector<Step>> P; std::function<void(Val const &,vector<Step>)> pos = [&]( Val const & v, vector<Step> p ) {
        P.push_back(p);
        if ( v.k == MAP ) for ( size_t i=0; i<v.s.size(); ++i ) { if ( v.s[i].find('\0') != string::npos ) continue; auto n = p; n.push_back({true,v.s[i],0}); pos( v.ch[i], n ); }
        if ( v.k == VECTOR ) for ( size_t i=0; i<v.ch.size(); ++i ) { auto n = p; n.push_back({false,"",unsigned(i)}); pos( v.ch[i], n ); }
      };
      pos( t, {} );
      for ( auto & p : P ) {
        auto init = [&]( M & m ){ Ent & e = m.ids["A"]; build( *e.mem, t ); e.root = t; for ( auto & s : p ) { int st = s.map ? GC_push_map_position( s.key.c_str() ) : GC_push_vector_position( int(s.pos) ); REQ( st == 0, "cursor move" ); e.path.push_back(s); } REQ_EQ( *e.mem, t, "cursor moves changed the tree" ); };
        string pre = show(t); for ( auto & s : p ) pre += s.map ? "/" + s.key : "/" + std::to_string(s.pos);
        rec( E, pre, init, q, R.thorough && P.size() < 2 && t.size() <= 2 && hashv(t)%4 == 0 ? 2 : 1, 0 );
      }
    }
    R.family("key iteration histories");
    { vector<Op> K = pick( E, { "init_map_key", "next_key", "map[a]", "pop", "select A", "select B", "map[b]", "set_int 7" } ); if ( !R.thorough ) K.resize(6);
      for ( auto & t : vector<Val>{ vmap({{"a",vint(1)}}), vmap({{"a",vmap({{"b",vint(1)},{"c",vint(2)}})},{"k",vint(3)}}), vmap({{"a",vint(1)},{"b",vint(2)},{"c",vmap({})}}) } ) {
        auto init = [&]( M & m ){ Ent & e = m.ids["A"]; build( *e.mem, t ); e.root = t; };
        rec( K, show(t), init, q, 6, 4 );
      } }
    R.family("key iteration");
    for ( unsigned n=0; n<=(R.thorough?200u:40u); ++n ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return std::to_string(n) + " keys"; }, [&]{
        GC_select("A"); GC_set_map(); std::set<string> K; for ( unsigned i=0; i<n; ++i ) { string k = "k" + std::to_string((i*7919u)%1000u) + ( i%3 ? "" : " longer than sixteen characters" ); K.insert(k); REQ( GC_push_map_position(k.c_str()) == 0, "push" ); GC_set_int(int(i)); GC_pop_head(); }
        for ( int twice=0; twice<2; ++twice ) {
          REQ( GC_init_map_key() == 0, "init" );
          for ( auto & k : K ) { char const * c = GC_get_next_key(); REQ( c && k == c, "key " << (c?c:"null") << " expected " << k ); REQ( GC_push_map_position(c) == 0, "push" ); GC_get_int(); REQ( GC_pop_head() == 0, "pop" ); REQ( k == c, "the key changed while it was used" ); }
          for ( int z=0; z<3; ++z ) REQ( !GC_get_next_key(), "key after the last" );
        }
        REQ( GC_get_vector_size() == int(K.size()) , "size" );
        GC_delete("A"); R.trans(n*8);
      } );
    }
    R.family("long histories");
    for ( int n : { 10, 100, 1000 } ) {
      if ( R.skip() ) continue;
      R.run( [&]{ return "nesting " + std::to_string(n); }, [&]{
        GC_select("A"); Val e = vint(1);
        for ( int i=0; i<n; ++i ) { if ( i%2 ) { GC_set_map(); REQ( GC_push_map_position("k") == 0, "push" ); } else { GC_set_vector(2); REQ( GC_push_vector_position(1) == 0, "push" ); } }
        GC_set_int(1);
        for ( int i=n; i-- > 0; ) { REQ( GC_pop_head() == 0, "pop" ); if ( i%2 ) e = vmap({{"k",e}}); else { Val t = none_vec(2); t.ch[1] = e; e = t; } }
        REQ( GC_pop_head() != 0, "pop above the root" );
        if ( n <= 100 ) REQ_EQ( *static_cast<GCN*>(GC_mem_ptr("A")), e, "tree" );
        GC_delete("A"); R.trans(n*3);
      } );
    }
    GC_select("A"); GC_delete("A");
  }
}
