// Shared by the text format checks: collapse model, plain (untyped) view of a
// container, strict JSON reader used as an oracle.
#pragma once
#include "num.hh"
namespace H {
  // ------------------------------------------------------------------ collapse
  inline bool exact_real( int64_t l ) { __int128 r = (__int128)(double)l; return r == (__int128)l; }
  inline bool num_scalar( int k ) { return k >= BOOL && k <= COMPLEX; }
  inline bool num_vec( int k ) { return k >= VBOOL && k <= VCOMPLEX; }
  // scalar value seen as element kind ek (wider or equal)
  inline Val widen( Val const & s, int ek ) {
    if ( s.k == ek ) return s;
    switch ( ek ) {
    case INT: return vint( int32_t(s.w[0]) );
    case LONG: return vlong( int64_t(s.w[0]) );
    case REAL: return vreal( as_real(s) );
    case COMPLEX: return vcplx( as_real(s), 0 );
    }
    return s;
  }
  // what collapse() must turn v into
  inline Val collapsed( Val v ) {
    for ( auto & c : v.ch ) c = collapsed(c);
    if ( v.k != VECTOR || v.ch.empty() ) return v;
    bool str = true, num = true, vec = true, ex = true; int mk = 0; size_t len = v.ch[0].size(); bool same = true;
    for ( auto & c : v.ch ) {
      if ( c.k != STRING ) str = false;
      if ( !num_scalar(c.k) ) num = false;
      if ( !num_vec(c.k) ) vec = false;
      if ( num_vec(c.k) && c.size() != len ) same = false;
      if ( c.k == LONG || c.k == VLONG ) for ( auto x : c.w ) if ( !exact_real(int64_t(x)) ) ex = false;
      mk = std::max( mk, c.k );
    }
    if ( str ) return vvec( VSTRING, v.ch );
    if ( num ) {
      if ( mk >= REAL && !ex ) return v;
      vector<Val> e; for ( auto & c : v.ch ) e.push_back( widen(c,mk) );
      return vvec( mk==BOOL?VBOOL:mk==INT?VINT:mk==LONG?VLONG:mk==REAL?VREAL:VCOMPLEX, e );
    }
    if ( vec && same && mk > VBOOL ) {
      if ( mk >= VREAL && !ex ) return v;
      int ek = elem_kind(mk); vector<Val> e; for ( auto & c : v.ch ) for ( size_t i=0; i<c.size(); ++i ) e.push_back( widen(elem(c,i),ek) );
      return vmat( mk==VINT?MINT:mk==VLONG?MLONG:mk==VREAL?MREAL:MCOMPLEX, unsigned(len), unsigned(v.ch.size()), e );
    }
    return v;
  }

  // ------------------------------------------------------------------ plain view
  // null, bool, int, long, real, complex, string, VECTOR and MAP only; a matrix is the sequence of its columns
  inline Val plain( Val const & v ) {
    if ( is_vec(v.k) ) { vector<Val> e; for ( size_t i=0; i<v.size(); ++i ) e.push_back( elem(v,i) ); return vgen(e); }
    if ( is_mat(v.k) ) {
      vector<Val> cols;
      for ( unsigned j=0; j<v.nc; ++j ) { vector<Val> e; for ( unsigned i=0; i<v.nr; ++i ) e.push_back( elem(v,i+size_t(j)*v.nr) ); cols.push_back( vgen(e) ); }
      return vgen(cols);
    }
    Val r = v; for ( auto & c : r.ch ) c = plain(c); return r;
  }
  // same data in plain views: numbers compare by value (int/long/real), everything else by kind
  inline bool same_data( Val const & a, Val const & b ) {
    if ( a.k >= INT && a.k <= REAL && b.k >= INT && b.k <= REAL ) {
      if ( a.k != REAL && b.k != REAL ) return a.w[0] == b.w[0];
      i128 x, y; bool wa = whole(a,x), wb = whole(b,y);
      if ( wa || wb ) return wa && wb && x == y;
      return same_num( as_real(a), as_real(b) );
    }
    if ( a.k != b.k || a.ch.size() != b.ch.size() || a.s != b.s || a.w != b.w ) return false;
    for ( size_t i=0; i<a.ch.size(); ++i ) if ( !same_data(a.ch[i],b.ch[i]) ) return false;
    return true;
  }
  // every empty sequence is the same thing in a text format
  inline Val norm_empty( Val const & v ) {
    if ( (is_vec(v.k) && v.size()==0) || (is_mat(v.k) && v.nc==0) ) return vgen({});
    if ( is_mat(v.k) && v.nr==0 ) { vector<Val> e(v.nc); for ( auto & x : e ) x = vgen({}); return vgen(e); }
    Val r = v; for ( auto & c : r.ch ) c = norm_empty(c); return r;
  }
  template <class P> inline bool all_of( Val const & v, P && p ) {
    if ( !p(v) ) return false;
    for ( auto & c : v.ch ) if ( !all_of(c,p) ) return false;
    return true;
  }
  inline bool utf8( string const & s ) {
    size_t i = 0, n = s.size();
    while ( i < n ) {
      unsigned char c = (unsigned char)s[i]; size_t l; unsigned cp;
      if ( c < 0x80 ) { ++i; continue; }
      if ( c >= 0xC2 && c <= 0xDF ) { l = 1; cp = c & 0x1F; } else if ( (c & 0xF0) == 0xE0 ) { l = 2; cp = c & 0x0F; } else if ( c >= 0xF0 && c <= 0xF4 ) { l = 3; cp = c & 7; } else return false;
      if ( i+l >= n ) return false;
      for ( size_t k=1; k<=l; ++k ) { unsigned char d = (unsigned char)s[i+k]; if ( (d & 0xC0) != 0x80 ) return false; cp = (cp<<6) | (d & 0x3F); }
      if ( (l==2 && cp < 0x800) || (l==3 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp <= 0xDFFF) ) return false;
      i += l+1;
    }
    return true;
  }
  inline bool has_finite_numbers( Val const & v ) {
    int ek = is_vec(v.k)||is_mat(v.k) ? elem_kind(v.k) : v.k;
    if ( ek == REAL || ek == COMPLEX ) for ( auto w : v.w ) if ( !std::isfinite(bitsd(w)) ) return false;
    return true;
  }

  // ------------------------------------------------------------------ strict JSON reader (RFC 8259)
  struct JsonReader {
    string const & t; size_t i{0}; bool unspec{false}, hugenum{false}; // unspec: valid grammar, but value not pinned down (lone surrogates, huge numbers, duplicate keys)
    explicit JsonReader( string const & x ) : t(x) {}
    void ws() { while ( i < t.size() && ( t[i]==' ' || t[i]=='\t' || t[i]=='\n' || t[i]=='\r' ) ) ++i; }
    bool lit( char const * l ) { size_t n = strlen(l); if ( t.compare(i,n,l) ) return false; i += n; return true; }
    bool doc( Val & v ) { ws(); if ( !value(v) ) return false; ws(); return i == t.size(); }
    bool digit() const { return i < t.size() && t[i] >= '0' && t[i] <= '9'; }
    bool value( Val & v ) {
      if ( i >= t.size() ) return false;
      switch ( t[i] ) {
      case 'n': v = vnone(); return lit("null");
      case 't': v = vbool(true); return lit("true");
      case 'f': v = vbool(false); return lit("false");
      case '"': { string s; if ( !str(s) ) return false; v = vstr(s); return true; }
      case '[': {
        ++i; ws(); v = vgen({}); if ( i < t.size() && t[i] == ']' ) { ++i; return true; }
        while ( true ) { Val e; ws(); if ( !value(e) ) return false; v.ch.push_back(e); ws(); if ( i >= t.size() ) return false; if ( t[i] == ']' ) { ++i; return true; } if ( t[i] != ',' ) return false; ++i; }
      }
      case '{': {
        ++i; ws(); v = vmap({}); if ( i < t.size() && t[i] == '}' ) { ++i; return true; }
        while ( true ) {
          string k; Val e; ws(); if ( i >= t.size() || t[i] != '"' || !str(k) ) return false; ws(); if ( i >= t.size() || t[i] != ':' ) return false; ++i; ws();
          if ( !value(e) ) return false; if ( v.find(k) ) unspec = true; v.put(k) = e; ws();
          if ( i >= t.size() ) return false; if ( t[i] == '}' ) { ++i; return true; } if ( t[i] != ',' ) return false; ++i;
        }
      }
      }
      return number(v);
    }
    bool number( Val & v ) {
      size_t b = i; bool isint = true;
      if ( t[i] == '-' ) ++i;
      if ( !digit() ) return false;
      if ( t[i] == '0' ) ++i; else while ( digit() ) ++i;
      if ( i < t.size() && t[i] == '.' ) { isint = false; ++i; if ( !digit() ) return false; while ( digit() ) ++i; }
      if ( i < t.size() && ( t[i] == 'e' || t[i] == 'E' ) ) { isint = false; ++i; if ( i < t.size() && ( t[i] == '+' || t[i] == '-' ) ) ++i; if ( !digit() ) return false; long ex = 0; while ( digit() ) { if ( ex < 100000 ) ex = ex*10+(t[i]-'0'); ++i; } if ( ex > 280 ) unspec = hugenum = true; }
      string n = t.substr(b,i-b);
      if ( isint && n.size() <= 20 ) {
        __int128 x = 0; bool neg = n[0]=='-'; for ( char c : n ) if ( c != '-' ) x = x*10+(c-'0'); if ( neg ) x = -x;
        if ( x >= INT32_MIN && x <= INT32_MAX ) { v = vint(int32_t(x)); return true; }
        if ( x >= INT64_MIN && x <= INT64_MAX ) { v = vlong(int64_t(x)); return true; }
      }
      double d = strtod( n.c_str(), nullptr ); if ( !std::isfinite(d) ) unspec = hugenum = true;
      v = vreal(d); return true;
    }
    bool hex4( unsigned & u ) { u = 0; for ( int k=0; k<4; ++k, ++i ) { if ( i >= t.size() ) return false; char c = t[i]; int d = c>='0'&&c<='9' ? c-'0' : c>='a'&&c<='f' ? c-'a'+10 : c>='A'&&c<='F' ? c-'A'+10 : -1; if ( d < 0 ) return false; u = u*16+unsigned(d); } return true; }
    static void put8( string & s, unsigned cp ) {
      if ( cp < 0x80 ) s += char(cp);
      else if ( cp < 0x800 ) { s += char(0xC0|(cp>>6)); s += char(0x80|(cp&63)); }
      else if ( cp < 0x10000 ) { s += char(0xE0|(cp>>12)); s += char(0x80|((cp>>6)&63)); s += char(0x80|(cp&63)); }
      else { s += char(0xF0|(cp>>18)); s += char(0x80|((cp>>12)&63)); s += char(0x80|((cp>>6)&63)); s += char(0x80|(cp&63)); }
    }
    bool str( string & s ) {
      ++i;
      while ( true ) {
        if ( i >= t.size() ) return false;
        unsigned char c = (unsigned char)t[i++];
        if ( c == '"' ) return true;
        if ( c < 0x20 ) return false;
        if ( c != '\\' ) { s += char(c); continue; }
        if ( i >= t.size() ) return false;
        char e = t[i++];
        switch ( e ) {
        case '"': case '\\': case '/': s += e; break;
        case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
        case 'u': {
          unsigned u; if ( !hex4(u) ) return false;
          if ( u >= 0xD800 && u <= 0xDBFF && i+1 < t.size() && t[i] == '\\' && t[i+1] == 'u' ) { size_t save = i; i += 2; unsigned w; if ( !hex4(w) ) return false; if ( w >= 0xDC00 && w <= 0xDFFF ) u = 0x10000 + ((u-0xD800)<<10) + (w-0xDC00); else i = save; }
          if ( u >= 0xD800 && u <= 0xDFFF ) unspec = true;
          put8( s, u ); break;
        }
        default: return false;
        }
      }
    }
  };
}
