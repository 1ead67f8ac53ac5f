// Read-only operations of a container, shared by P14 and P28.
#pragma once
#include "num.hh"
namespace H {
  using namespace GC_namespace;
  struct COp { string name; std::function<void(GCN const &)> f; };
  struct SOp { string name; std::function<void(GCN const &,std::ostream &)> f; };
  #define C(NAME,...) O.push_back( { NAME, []( GCN const & g ){ __VA_ARGS__; } } )
  static vector<COp> const_ops() {
    vector<COp> O;
    C("get_keys(v)", vec_string_type k; g.get_keys(k)); C("get_keys()", g.get_keys());
    C("get_type", g.get_type(); g.get_type_name(); g.info()); C("sizes", g.get_num_elements(); g.num_rows(); g.num_cols());
    C("get_number", g.get_number("w")); C("get_complex_number", g.get_complex_number("w")); C("get_complex_number2", real_type a,b; g.get_complex_number(a,b));
    C("get_pvoid", g.get_pvoid("w")); C("get_ppvoid", g.get_ppvoid("w")); C("get_int_pointer", g.get_int_pointer()); C("get_long_pointer", g.get_long_pointer()); C("get_real_pointer", g.get_real_pointer()); C("get_complex_pointer", g.get_complex_pointer());
    C("get_value int", int_type v; g.get_value(v,"w")); C("get_value uint", uint_type v; g.get_value(v,"w")); C("get_value long", long_type v; g.get_value(v,"w")); C("get_value ulong", ulong_type v; g.get_value(v,"w")); C("get_value float", float v; g.get_value(v,"w")); C("get_value double", double v; g.get_value(v,"w"));
    C("get_pointer", (void)g.get_pointer<void*>());
    C("get_as_int", g.get_as_int()); C("get_as_uint", g.get_as_uint()); C("get_as_long", g.get_as_long()); C("get_as_ulong", g.get_as_ulong());
    C("get_bool", g.get_bool()); C("get_int", g.get_int()); C("get_long", g.get_long()); C("get_real", g.get_real()); C("get_complex", g.get_complex()); C("get_string", g.get_string());
    C("get_vector", g.get_vector()); C("get_vec_pointer", g.get_vec_pointer()); C("get_vec_bool", g.get_vec_bool()); C("get_vec_int", g.get_vec_int()); C("get_vec_long", g.get_vec_long()); C("get_vec_real", g.get_vec_real()); C("get_vec_complex", g.get_vec_complex()); C("get_vec_string", g.get_vec_string());
    C("get_mat_int", g.get_mat_int()); C("get_mat_long", g.get_mat_long()); C("get_mat_real", g.get_mat_real()); C("get_mat_complex", g.get_mat_complex()); C("get_map", g.get_map());
    C("copyto_vec_int", vec_int_type v{1}; g.copyto_vec_int(v)); C("copyto_vec_uint", vec_uint_type v{1}; g.copyto_vec_uint(v)); C("copyto_vec_long", vec_long_type v{1}; g.copyto_vec_long(v)); C("copyto_vec_ulong", vec_ulong_type v{1}; g.copyto_vec_ulong(v)); C("copyto_vec_real", vec_real_type v{1}; g.copyto_vec_real(v)); C("copyto_vec_complex", vec_complex_type v(2); g.copyto_vec_complex(v)); C("copyto_vec_string", vec_string_type v(2); g.copyto_vec_string(v));
    C("copyto_mat_int", mat_int_type v(2,1); g.copyto_mat_int(v)); C("copyto_mat_long", mat_long_type v(2,1); g.copyto_mat_long(v)); C("copyto_mat_real", mat_real_type v(2,1); g.copyto_mat_real(v)); C("copyto_mat_complex", mat_complex_type v(2,1); g.copyto_mat_complex(v));
    for ( unsigned i : { 0u, 1u, 2u, 3u, 1000u, 0xFFFFFFFFu } ) {
      string n = "(" + std::to_string(i) + ")";
      #define CI(NAME,...) O.push_back( { NAME+n, [i]( GCN const & g ){ __VA_ARGS__; } } )
      CI("get_number_at", g.get_number_at(i)); CI("get_complex_number_at", g.get_complex_number_at(i)); CI("get_complex_number_at2", real_type a,b; g.get_complex_number_at(i,a,b));
      CI("get_bool_at", g.get_bool_at(i,"w")); CI("get_int_at", g.get_int_at(i,"w")); CI("get_long_at", g.get_long_at(i,"w")); CI("get_real_at", g.get_real_at(i,"w")); CI("get_complex_at", g.get_complex_at(i,"w")); CI("get_string_at", g.get_string_at(i,"w")); CI("get_gc_at", g.get_gc_at(i,"w")); CI("get_pointer_at", (void)g.get_pointer_at<void*>(i)); CI("[]", g[i]); CI("()", g(i));
      for ( unsigned j : { 0u, 1u, 1000u } ) { string n2 = "(" + std::to_string(i) + "," + std::to_string(j) + ")";
        #define CJ(NAME,...) O.push_back( { NAME+n2, [i,j]( GCN const & g ){ __VA_ARGS__; } } )
        CJ("get_int_at", g.get_int_at(i,j,"w")); CJ("get_long_at", g.get_long_at(i,j,"w")); CJ("get_real_at", g.get_real_at(i,j,"w")); CJ("get_complex_at", g.get_complex_at(i,j,"w")); }
    }
    for ( string k : { "a", "b", "", "zz", "1##-head" } ) {
      string n = "('" + k + "')";
      #define CK(NAME,...) O.push_back( { NAME+n, [k]( GCN const & g ){ __VA_ARGS__; } } )
      CK("[]", g[string_view(k)]); CK("()", g(k)); CK("exists", g.exists(k)); CK("exists list", g.exists( vec_string_type{"q",k} )); CK("must_exists", g.must_exists( vec_string_type{"q",k}, "w" )); CK("() list", g( vec_string_type{"q",k} ));
      CK("get_map_bool", g.get_map_bool(k)); CK("get_map_int", g.get_map_int(k)); CK("get_map_number", g.get_map_number(k)); CK("get_map_string", g.get_map_string(k)); CK("get_map_vec_string", g.get_map_vec_string(k));
      CK("get_map_bool path", g.get_map_bool({k,k})); CK("get_map_int path", g.get_map_int({k,k})); CK("get_map_number path", g.get_map_number({k,k})); CK("get_map_string path", g.get_map_string({k,k}));
      CK("get_map_bool list", g.get_map_bool(vec_string_type{"q",k})); CK("get_map_int list", g.get_map_int(vec_string_type{"q",k})); CK("get_map_number list", g.get_map_number(vec_string_type{"q",k})); CK("get_map_string list", g.get_map_string(vec_string_type{"q",k}));
      CK("if_exists bool", bool v; g.get_if_exists(k,v)); CK("if_exists int", int_type v; g.get_if_exists(k,v)); CK("if_exists uint", uint_type v; g.get_if_exists(k,v)); CK("if_exists long", long_type v; g.get_if_exists(k,v)); CK("if_exists ulong", ulong_type v; g.get_if_exists(k,v)); CK("if_exists real", real_type v; g.get_if_exists(k,v)); CK("if_exists complex", complex_type v; g.get_if_exists(k,v)); CK("if_exists string", string_type v; g.get_if_exists(k,v));
      CK("if_exists list", real_type v; g.get_if_exists(vec_string_type{"q",k},v));
    }
    C("compare self", g.compare_content(g)); C("compare none", GCN o; g.compare_content(o)); C("compare map", GCN o; o["a"]=1; g.compare_content(o)); C("compare copy", GCN o(g); g.compare_content(o));
    C("print()", g.print()); C("to_gc", GCN o; g.to_gc(o)); C("copy", GCN o(g); o.clear()); C("assign from", GCN o; o["x"]=1; o = g; o.clear());
    C("mem_size", g.mem_size()); C("serialize vec", vector<uint8_t> b; g.serialize(b)); C("serialize", vector<uint8_t> b(size_t(g.mem_size())); g.serialize(int32_t(b.size()),b.data())); C("serialize short", vector<uint8_t> b(size_t(g.mem_size()-1)+1); g.serialize(int32_t(b.size()-1),b.data()));
    C("merge into other", GCN o; o["a"]=1; o.merge(g,"w"));
    return O;
  }
  static vector<SOp> stream_ops() {
    vector<SOp> O;
    #define S(NAME,...) O.push_back( { NAME, []( GCN const & g, std::ostream & s ){ __VA_ARGS__; } } )
    S("info", g.info(s)); S("dump", g.dump(s)); S("dump prefix", g.dump(s,"> ","..")); S("print", g.print(s)); S("print_content_types", g.print_content_types(s)); S("print_content_types prefix", g.print_content_types(s,"> ",".."));
    S("to_json", g.to_json(s)); S("to_json prefix", g.to_json(s,"  ")); S("to_yaml", g.to_yaml(s)); S("to_yaml prefix", g.to_yaml(s,"  ")); S("to_toml", g.to_toml(s));
    S("write_formatted_data", if ( g.exists("headers") ) g.write_formatted_data(s,','));
    S("write_table_formatted", if ( g.exists("headers") && g("headers").get_type() == GC_type::VEC_STRING ) { if ( g("data").get_type() == GC_type::MAT_REAL ) write_table_formatted( g("headers").get_vec_string(), g("data").get_mat_real(), s ); else write_table_formatted( g("headers").get_vec_string(), g("data").get_vector(), s ); });
    S("string_escape", if ( g.get_type() == GC_type::STRING ) string_escape( s, string(g.get_string()) ));
    S("vec <<", if ( g.get_type() == GC_type::VEC_REAL ) s << g.get_vec_real(); if ( g.get_type() == GC_type::VEC_INTEGER ) s << g.get_vec_int(); if ( g.get_type() == GC_type::VEC_COMPLEX ) s << g.get_vec_complex(););
    return O;
  }

}
