// Alphabet of public operations on two containers, shared by the history checks (P03, P27).
#pragma once
#include "num.hh"
namespace H {
  using namespace GC_namespace;
  struct W { GCN * g; GCN * h; vector<uint8_t> buf; };
  struct Op { string name; std::function<void(W&)> f; };
  #define P(NAME,...) O.push_back( { NAME, []( W & w ){ GCN & g = *w.g; GCN & h = *w.h; (void)g; (void)h; __VA_ARGS__; } } )
  static char const * const LONGS = "a string that does not fit the small buffer";

  static vector<Op> make_ops() {
    vector<Op> O;
    P("clear", g.clear());
    P("=bool", g = true); P("=int", g.set_int(-5)); P("=long", g.set_long(1LL<<40)); P("=real", g.set_real(2.5)); P("=complex", g.set_complex(1,2)); P("=string", g.set_string(LONGS)); P("=cstr", g = "s"); P("=pointer", g.set_pointer(&w));
    P("=vec_pointer", g.set_vec_pointer(3)); P("=vec_bool", g.set_vec_bool({true,false,true})); P("=vec_int", g.set_vec_int({1,-2,3})); P("=vec_long", g.set_vec_long({1,1LL<<40})); P("=vec_real", g.set_vec_real({.5,1,2})); P("=vec_complex", g.set_vec_complex({cplx(1,2),cplx(3,0)})); P("=vec_string", g.set_vec_string({"x",LONGS})); P("=vec_int 0", g.set_vec_int(0u)); P("=vec_string n", g.set_vec_string(4u));
    P("=mat_int", mat_int_type m(2,2); for ( auto & x : m ) x = 3; g.set_mat_int(m)); P("=mat_long", mat_long_type m(1,2); for ( auto & x : m ) x = 4; g = m); P("=mat_real", mat_real_type m(3,1); for ( auto & x : m ) x = .5; g.set_mat_real(m)); P("=mat_complex", mat_complex_type m(1,1); m(0,0) = cplx(1,2); g.set_mat_complex(m)); P("=mat 0x2", g.set_mat_real(0,2));
    P("=vector", g.set_vector(2); g[0] = 1; g[1] = LONGS); P("=vector nested", g.set_vector(2); g[0].set_vec_int({1,2}); g[1]["k"] = "v"); P("=vector nums", g.set_vector(2); g[0] = 1; g[1] = 2.5); P("=vector cols", g.set_vector(2); g[0].set_vec_int({1,2}); g[1].set_vec_real({3,4.5}));
    P("=map", g.set_map()); P("[a]=string", g["a"] = LONGS); P("[a][b]=vec", g["a"]["b"].set_vec_real({1,2,3})); P("[a]=vector", g["a"].set_vector(3)); P("erase a", g.erase("a")); P("erase zz", g.erase("zz"));
    P("g=g", g = g); P("g=h", g = h); P("h=g", h = g); P("h.from_gc(g)", h.from_gc(g)); P("g.to_gc(h)", g.to_gc(h)); P("g.load(h)", g.load(h)); P("copy", GCN c(g); c["z"] = 1; h = c);
    P("g=g[a]", g = g("a")); P("g[a]=g", GCN & c = g("a"); c = g); P("g=g(0)", g = g(0u)); P("g(0)=g", GCN & c = g(0u); c = g); P("g(1)=g(0)", g(1u) = g(0u)); P("[c]=h", g["c"] = h); P("vec of h", g.set_vector(1); g[0] = h; g[1] = h); P("g(0).to_gc(g)", g(0u).to_gc(g)); P("g.to_gc(g(a))", g.to_gc( g("a") ));
    P("merge h", g.merge(h,"w")); P("merge g", g.merge(g,"w")); P("merge g(a)", g.merge(g("a"),"w")); P("h.merge g", h.merge(g,"w"));
    P("promote_to_int", g.promote_to_int()); P("promote_to_long", g.promote_to_long()); P("promote_to_real", g.promote_to_real()); P("promote_to_complex", g.promote_to_complex()); P("promote_to_vec_int", g.promote_to_vec_int()); P("promote_to_vec_long", g.promote_to_vec_long()); P("promote_to_vec_real", g.promote_to_vec_real()); P("promote_to_vec_complex", g.promote_to_vec_complex()); P("promote_to_mat_int", g.promote_to_mat_int()); P("promote_to_mat_long", g.promote_to_mat_long()); P("promote_to_mat_real", g.promote_to_mat_real()); P("promote_to_mat_complex", g.promote_to_mat_complex()); P("promote_to_vector", g.promote_to_vector());
    P("push_bool", g.push_bool(true)); P("push_int", g.push_int(7)); P("push_long", g.push_long(1LL<<41)); P("push_real", g.push_real(.25)); P("push_complex", g.push_complex(3,4)); P("push_string", g.push_string(LONGS));
    P("[2]", g[2].set_string(LONGS)); P("[0]", g[0u]); P("get_bool_at", g.get_bool_at(3)); P("get_int_at", g.get_int_at(3) = 1); P("get_long_at", g.get_long_at(3) = 1); P("get_real_at", g.get_real_at(3) = 1); P("get_complex_at", g.get_complex_at(3) = 1); P("get_string_at", g.get_string_at(3) = LONGS);
    P("get_int_at(i,j)", g.get_int_at(1,1) = 2); P("get_long_at(i,j)", g.get_long_at(0,0) = 2); P("get_real_at(i,j)", g.get_real_at(0,1) = 2); P("get_complex_at(i,j)", g.get_complex_at(1,0) = 2);
    P("get_bool", g.get_bool()); P("get_int", g.get_int()); P("get_long", g.get_long()); P("get_real", g.get_real()); P("get_complex", g.get_complex()); P("get_string", g.get_string()); P("get_vec_int", g.get_vec_int().push_back(1)); P("get_vec_long", g.get_vec_long()); P("get_vec_real", g.get_vec_real()); P("get_vec_complex", g.get_vec_complex()); P("get_vec_string", g.get_vec_string().clear()); P("get_vec_bool", g.get_vec_bool()); P("get_mat_real", g.get_mat_real()); P("get_mat_complex", g.get_mat_complex().resize(3,2)); P("get_vector.resize", g.get_vector().resize(5)); P("get_map.clear", g.get_map().clear());
    P("free_pointer", g.free_pointer()); P("collapse", g.collapse());
    P("serialize", w.buf.clear(); g.serialize(w.buf)); P("de_serialize", g.de_serialize(w.buf)); P("de_serialize cut", if ( w.buf.size() > 5 ) { vector<uint8_t> b( w.buf.begin(), w.buf.end()-1 ); g.de_serialize(b); }); P("de_serialize bad", if ( w.buf.size() > 8 ) { vector<uint8_t> b( w.buf ); b[4] ^= 2; b[8] ^= 1; h.de_serialize(b); });
    P("dump", std::ostringstream o; g.dump(o); g.print_content_types(o); g.info(o)); P("copyto", vec_real_type v; g.copyto_vec_real(v)); P("copyto_mat", mat_complex_type v; g.copyto_mat_complex(v)); P("compare", g.compare_content(h));
    P("construct string", h = GCN( LONGS ); h = GCN( string(LONGS) ); h = GCN( string_view(LONGS) )); P("construct complex", h = GCN( cplx(1,2) ));
    P("swap", GCN t(g); g = h; h = t);
    return O;
  }
}
