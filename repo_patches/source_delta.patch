From cc64e4f7cb36214aaaa044232d80519dc4eabe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:52 +0000
Subject: [PATCH 01/76] fix: compare_content must advance in vectors and not
 compare reals as pointers

---
 src/GenericContainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..0e8d62c 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -417,7 +417,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
@@ -478,6 +478,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From 26f142ec2dbe87d20046d1cb4eddd2b0f1c856eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 02/76] fix: get_if_exists(list of keys, bool&) must select
 boolean values, not the others

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 0e8d62c..75ef751 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2594,7 +2594,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From 8844a8e72810ef574fd5545ebc08fc5a7cb9c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 03/76] fix: map lookups must honour the length of string_view
 keys

---
 src/GenericContainer.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 75ef751..baa120e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2358,7 +2358,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2390,7 +2390,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2422,7 +2422,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2454,7 +2454,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2486,7 +2486,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2518,7 +2518,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2549,7 +2549,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2557,7 +2557,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2579,7 +2579,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2610,7 +2610,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2660,7 +2660,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2712,7 +2712,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2762,7 +2762,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2814,7 +2814,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2862,7 +2862,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2909,7 +2909,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3324,7 +3324,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3342,7 +3342,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3398,7 +3398,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   GenericContainer const &
@@ -3409,7 +3409,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   /*
-- 
2.43.0


From e1ded64746ec98976316636f3f87185835a123a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 04/76] fix: operator[](string) const must not insert missing
 keys

---
 src/GenericContainer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index baa120e..42bc178 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3409,7 +3409,13 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[string(s)];
+    auto const iv{ m_data.m->find(string(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s <<
+      "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
-- 
2.43.0


From 00c2136502059e56fd045c9d52ab82a96b0fa14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 05/76] fix: set_vec_*/set_vector/set_map must start from the
 requested (possibly empty) content

---
 src/GenericContainer.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 42bc178..b0f1694 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -779,7 +779,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_POINTER;
       m_data.v_p  = new vec_pointer_type();
     }
-    if ( sz > 0 ) m_data.v_p->resize( sz );
+    m_data.v_p->resize( sz );
   }
 
   GenericContainer &
@@ -803,7 +803,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_BOOL;
       m_data.v_b  = new vec_bool_type();
     }
-    if ( sz > 0 ) m_data.v_b->resize( sz );
+    m_data.v_b->resize( sz );
   }
 
   void
@@ -813,7 +813,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_INTEGER;
       m_data.v_i  = new vec_int_type();
     }
-    if ( sz > 0 ) m_data.v_i->resize( sz );
+    m_data.v_i->resize( sz );
   }
 
   void
@@ -823,7 +823,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_LONG;
       m_data.v_l  = new vec_long_type();
     }
-    if ( sz > 0 ) m_data.v_l->resize( sz );
+    m_data.v_l->resize( sz );
   }
 
   void
@@ -833,7 +833,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_REAL;
       m_data.v_r  = new vec_real_type();
     }
-    if ( sz > 0 ) m_data.v_r->resize( sz );
+    m_data.v_r->resize( sz );
   }
 
   void
@@ -843,7 +843,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_COMPLEX;
       m_data.v_c  = new vec_complex_type();
     }
-    if ( sz > 0 ) m_data.v_c->resize( sz );
+    m_data.v_c->resize( sz );
   }
 
   void
@@ -897,7 +897,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VEC_STRING;
       m_data.v_s  = new vec_string_type();
     }
-    if ( sz > 0 ) m_data.v_s->resize( sz );
+    m_data.v_s->resize( sz );
   }
 
   void
@@ -907,7 +907,7 @@ namespace GC_namespace {
       m_data_type = GC_type::VECTOR;
       m_data.v    = new vector_type();
     }
-    if ( sz > 0 ) m_data.v->resize( sz );
+    m_data.v->resize( sz );
   }
 
   void
@@ -916,6 +916,8 @@ namespace GC_namespace {
       clear();
       m_data_type = GC_type::MAP;
       m_data.m    = new map_type();
+    } else {
+      m_data.m->clear();
     }
   }
 
-- 
2.43.0


From fbadf579cf21687f0a95feea7243bfed467e8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:51 +0000
Subject: [PATCH 06/76] fix: copying between a container and a part of itself
 must not destroy the source

---
 src/GenericContainer.cc | 74 +++++++++--------------------------------
 1 file changed, 15 insertions(+), 59 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b0f1694..724a341 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -966,10 +966,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
-    clear();
-    m_data_type = GC_type::COMPLEX;
-    m_data.c    = new complex_type;
-    return (*m_data.c=value);
+    return set_complex( value.real(), value.imag() ); // value may be stored in *this
   }
 
   complex_type &
@@ -3726,49 +3723,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3782,6 +3737,16 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    if ( this == &gc ) return;
+    // gc and *this may be part of one another:
+    // copy the children first and release the old content last
+    vector_type v;
+    map_type    m;
+    if ( gc.get_type() == GC_type::VECTOR ) v = *gc.m_data.v;
+    if ( gc.get_type() == GC_type::MAP    ) m = *gc.m_data.m;
+    GenericContainer old;
+    std::swap( m_data,      old.m_data );
+    std::swap( m_data_type, old.m_data_type );
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
       this->clear();
@@ -3821,19 +3786,10 @@ namespace GC_namespace {
       break;
 
     case GC_type::VECTOR:
-      this->set_vector();
-      { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          vv[i].from_gc(v[i]);
-      }
+      this->set_vector().swap(v);
       break;
     case GC_type::MAP:
-      this->set_map();
-      { map_type const & m{*gc.m_data.m};
-        for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
-      }
+      this->set_map().swap(m);
       break;
     case GC_type::MAT_INTEGER:
       this->set_mat_int(*gc.m_data.m_i);
@@ -3878,7 +3834,7 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
+    { map_type const m{gc.get_map()}; // copy: gc may be part of *this
       for ( const auto &[fst, snd] : m )
         (*this)[fst].from_gc(snd);
     }
-- 
2.43.0


From aaf9c7578d4ae62415ce2f3ccbdf27dc21ee073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:35 +0000
Subject: [PATCH 07/76] fix: scalar conversions to integer types must reject
 out of range values

---
 src/GenericContainer.cc | 63 ++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 724a341..93f4cf1 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -51,13 +52,16 @@ using GC_namespace::real_type;
 //{ return FP_ZERO == fpclassify(x); }
 
 static bool isZero0( real_type const x )
-{ int const c = fpclassify(x); return FP_ZERO == c || FP_SUBNORMAL == c; }
-
-static bool isInteger( real_type const x )
-{ using std::round; return isZero0( x-round(x) ); }
-
-static bool isUnsigned( real_type const x )
-{ return isInteger(x) && x >= 0; }
+{ return FP_ZERO == fpclassify(x); }
+
+// x is a whole number representable in the integer type T
+template <typename T>
+static bool fits( real_type const x ) {
+  using std::numeric_limits;
+  return x == std::trunc(x) &&
+         x >= static_cast<real_type>(numeric_limits<T>::min()) &&
+         x <  std::ldexp( real_type(1), numeric_limits<T>::digits );
+}
 
 #endif
 
@@ -1562,15 +1566,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && static_cast<uint_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) negative or too large `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        fits<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1578,7 +1582,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fits<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1618,11 +1622,16 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        static_cast<int_type>(m_data.l) == m_data.l,
+        where << " in get_value(...) `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        fits<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1630,7 +1639,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fits<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1684,7 +1693,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        fits<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1692,7 +1701,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fits<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1737,7 +1746,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        fits<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1745,7 +1754,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && fits<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
@@ -2619,14 +2628,15 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( static_cast<int_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !fits<int_type>(iv->second.m_data.r) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( fits<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2670,15 +2680,16 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 ||
+           static_cast<uint_type>(iv->second.m_data.l) != iv->second.m_data.l ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! fits<uint_type>(iv->second.m_data.r) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( fits<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2724,11 +2735,11 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( ! fits<long_type>(iv->second.m_data.r) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+      if ( ! ( fits<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2776,11 +2787,11 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( ! fits<ulong_type>(iv->second.m_data.r) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
-      if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+      if ( ! ( fits<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
-- 
2.43.0


From f6ead0962680082e7937a89c8d395892899cebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 08/76] fix: copyto_vec_* must reject unrepresentable values
 and accept all convertible ones

---
 src/GenericContainerPromote.cc | 74 ++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..278afeb 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -25,6 +25,7 @@
 #include <iomanip>
 #include <cmath>
 #include <algorithm>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -44,13 +45,16 @@ namespace GC_namespace {
   using std::fpclassify;
 
   static bool isZero0( real_type const x )
-  { int const c{ fpclassify(x) }; return FP_ZERO == c || FP_SUBNORMAL == c; }
+  { return FP_ZERO == fpclassify(x); }
 
-  static bool isInteger( real_type const x )
-  { using std::round; return isZero0( x-round(x) ); }
-
-  static bool isUnsigned( real_type const x )
-  { return isInteger(x) && x >= 0; }
+  // x is a whole number representable in the integer type T
+  template <typename T>
+  static bool fits( real_type const x ) {
+    using std::numeric_limits;
+    return x == std::trunc(x) &&
+           x >= static_cast<real_type>(numeric_limits<T>::min()) &&
+           x <  std::ldexp( real_type(1), numeric_limits<T>::digits );
+  }
 
   #endif
 
@@ -86,7 +90,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          fits<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +114,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fits<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +123,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fits<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +132,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fits<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +153,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fits<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +162,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fits<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -212,7 +216,7 @@ namespace GC_namespace {
       case GC_type::LONG:
         lval = m_data.l;
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -221,7 +225,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          fits<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -242,7 +246,7 @@ namespace GC_namespace {
       case GC_type::VEC_LONG:
         lval = (*m_data.v_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +255,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fits<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +264,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fits<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +273,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fits<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -287,7 +291,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:
         lval = (*m_data.m_l)[i];
         GC_ASSERT(
-          static_cast<int_type>(lval) == lval && lval >= 0,
+          static_cast<uint_type>(lval) == lval && lval >= 0,
           where << " copyto_vec_uint: v[" << i << "] = " << lval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -296,7 +300,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fits<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +309,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fits<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +358,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          fits<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +376,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fits<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +385,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fits<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +394,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fits<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +409,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          fits<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +418,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && fits<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +481,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          fits<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +511,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fits<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +520,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fits<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +529,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fits<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +556,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          fits<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +565,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && fits<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -637,7 +641,7 @@ namespace GC_namespace {
         val = cval.real();
         break;
       case GC_type::VECTOR:
-        val = (*this)(i).get_number();
+        (*this)(i).get_value( val, where );
         break;
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -680,7 +684,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number( where );                           break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
-- 
2.43.0


From b8537f9ae882a1153f942139370fd36133778f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 09/76] fix: binary serialization of MAT_COMPLEX and
 de-serialization of pointers

---
 src/GenericContainerSerialize.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..b1d5ae0 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -327,6 +327,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -380,6 +381,7 @@ namespace GC_namespace {
     this->clear();
 
     int32_t nr, nc, i32;
+    int64_t i64;
     nbyte = nb = buffer_to_int32( buffer, &i32 );
     buffer += nb;
 
@@ -410,6 +412,10 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      m_data_type = GC_type::POINTER;
+      nb = buffer_to_int64( buffer, &i64 );
+      buffer += nb; nbyte += nb;
+      m_data.p = reinterpret_cast<pointer_type>(i64);
       break;
     case GC_type::STRING:
       nb = buffer_to_int32( buffer, &i32 );
@@ -426,6 +432,14 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      nb = buffer_to_int32( buffer, &i32 );
+      buffer += nb; nbyte += nb;
+      allocate_vec_pointer(i32);
+      for ( auto & p : *m_data.v_p ) {
+        sz = buffer_to_int64( buffer, &i64 );
+        nb += sz; buffer += sz; nbyte += sz;
+        p = reinterpret_cast<pointer_type>(i64);
+      }
       break;
     case GC_type::VEC_BOOL:
       nb = buffer_to_int32( buffer, &i32 );
@@ -522,6 +536,7 @@ namespace GC_namespace {
         sz = buffer_to_double( buffer, &bf ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
-- 
2.43.0


From ba52b3d6c494114651bbde3f8e112add57cc1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 10/76] fix: de_serialize must use the stored length of strings
 and keys (embedded NUL)

---
 src/GenericContainerSerialize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index b1d5ae0..52197a1 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -421,7 +421,7 @@ namespace GC_namespace {
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
+      m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
@@ -544,7 +544,7 @@ namespace GC_namespace {
       for ( auto & s : *m_data.v_s ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
+        s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
@@ -564,7 +564,7 @@ namespace GC_namespace {
       for ( int32_t i = 0; i < nr; ++i ) {
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
+        string_type const key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
-- 
2.43.0


From e352fefb95e5710f44ffa2d9143a85d128f04f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:30 +0000
Subject: [PATCH 11/76] fix: de_serialize must reject truncated or corrupted
 data instead of reading out of bounds

---
 src/GenericContainerSerialize.cc | 62 ++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 52197a1..d147785 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -193,6 +193,8 @@ namespace GC_namespace {
   int32_t
   GenericContainer::serialize( int32_t buffer_dim, uint8_t * buffer) const {
 
+    GC_ASSERT( buffer_dim >= 0, msg );
+
     int32_t sz, available{buffer_dim};
 
     int32_t nb = int32_to_buffer( static_cast<int32_t>(m_data_type), buffer, available );
@@ -382,6 +384,26 @@ namespace GC_namespace {
 
     int32_t nr, nc, i32;
     int64_t i64;
+    // the data still to be decoded must contain n blocks of size bytes
+    auto check = [&]( int64_t const n, int64_t const size ) -> void {
+      GC_ASSERT(
+        n >= 0 && n <= (static_cast<int64_t>(buffer_dim)-nbyte)/size,
+        "GenericContainer::de_serialize, corrupted data or buffer too small"
+      );
+    };
+
+    auto check_mat = [&]( int32_t const nrow, int32_t const ncol, int64_t const size ) -> void {
+      GC_ASSERT( nrow >= 0 && ncol >= 0, "GenericContainer::de_serialize, bad matrix dimension" );
+      check( static_cast<int64_t>(nrow)*ncol, size );
+    };
+
+    auto check_string = [&]( int32_t const len ) -> void {
+      GC_ASSERT( len > 0, "GenericContainer::de_serialize, bad string length" );
+      check( len, 1 );
+    };
+
+    nbyte = 0;
+    check( 1, 4 );
     nbyte = nb = buffer_to_int32( buffer, &i32 );
     buffer += nb;
 
@@ -392,39 +414,47 @@ namespace GC_namespace {
     case GC_type::BOOL:
       m_data_type = GC_type::BOOL;
       uint8_t b;
+      check( 1, 1 );
       nb = buffer_to_uint8( buffer, &b );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
       m_data_type = GC_type::INTEGER;
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &m_data.i );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
       m_data_type = GC_type::LONG;
+      check( 1, 8 );
       nb = buffer_to_int64( buffer, &m_data.l );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
       m_data_type = GC_type::REAL;
+      check( 1, 8 );
       nb = buffer_to_double( buffer, &m_data.r );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
       m_data_type = GC_type::POINTER;
+      check( 1, 8 );
       nb = buffer_to_int64( buffer, &i64 );
       buffer += nb; nbyte += nb;
       m_data.p = reinterpret_cast<pointer_type>(i64);
       break;
     case GC_type::STRING:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
       allocate_string();
+      check_string( i32 );
       m_data.s->assign( reinterpret_cast<char const*>(buffer), i32-1 );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
+      check( 2, 8 );
       allocate_complex();
       nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
@@ -432,8 +462,10 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 8 );
       allocate_vec_pointer(i32);
       for ( auto & p : *m_data.v_p ) {
         sz = buffer_to_int64( buffer, &i64 );
@@ -442,8 +474,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 1 );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
@@ -454,8 +488,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_INTEGER:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 4 );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
         sz = buffer_to_int32( buffer, &i );
@@ -463,8 +499,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_LONG:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 8 );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
         sz = buffer_to_int64( buffer, &i );
@@ -472,8 +510,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_REAL:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 8 );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
         sz = buffer_to_double( buffer, &r );
@@ -481,8 +521,10 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_COMPLEX:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 16 );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
         sz = buffer_to_double( buffer, &bf ); c.real(bf);
@@ -492,10 +534,12 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_INTEGER:
+      check( 2, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_mat( nr, nc, 4 );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
         sz = buffer_to_int32( buffer, &i );
@@ -503,10 +547,12 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_LONG:
+      check( 2, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_mat( nr, nc, 8 );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
         sz = buffer_to_int64( buffer, &i );
@@ -514,10 +560,12 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_REAL:
+      check( 2, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_mat( nr, nc, 8 );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
         sz = buffer_to_double( buffer, &r );
@@ -525,10 +573,12 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAT_COMPLEX:
+      check( 2, 4 );
       nb = buffer_to_int32( buffer, &nr );
       buffer += nb; nbyte += nb;
       nb = buffer_to_int32( buffer, &nc );
       buffer += nb; nbyte += nb;
+      check_mat( nr, nc, 16 );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
         sz = buffer_to_double( buffer, &bf ); c.real(bf);
@@ -538,19 +588,25 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_STRING:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 5 );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
+        check( 1, 4 );
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
+        check_string( i32 );
         s.assign( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
+      check( i32, 4 );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -558,12 +614,16 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
+      check( 1, 4 );
       nb = buffer_to_int32( buffer, &i32 ); nr = i32;
       buffer += nb; nbyte += nb;
+      check( nr, 9 );
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
+        check( 1, 4 );
         nb = buffer_to_int32( buffer, &i32 );
         buffer += nb; nbyte += nb;
+        check_string( i32 );
         string_type const key( reinterpret_cast<char const*>(buffer), i32-1 );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
@@ -571,6 +631,8 @@ namespace GC_namespace {
         buffer += sz; nbyte += sz;
       }
       break;
+    default:
+      GC_DO_ERROR( "GenericContainer::de_serialize, unknown data type: " << i32 );
     }
     GC_ASSERT(
       nbyte <= buffer_dim,
-- 
2.43.0


From 9dde8924a90ac014cfd9b32f4c81db4279882b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 12/76] fix: serialize(vector) must grow the buffer when too
 small, as documented

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index d147785..d0ba85a 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -186,6 +186,8 @@ namespace GC_namespace {
 
   int32_t
   GenericContainer::serialize( std::vector<uint8_t> & buffer ) const {
+    size_t const required{ static_cast<size_t>(this->mem_size()) };
+    if ( buffer.size() < required ) buffer.resize( required );
     int32_t const sz{ static_cast<int32_t>(buffer.size()) };
     return this->serialize( sz, buffer.data() );
   }
-- 
2.43.0


From b96cb20658eb99e9359a5980e3d342e4040ae259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:27 +0000
Subject: [PATCH 13/76] fix: collapse must not throw on, flatten or round mixed
 vectors

---
 src/GenericContainerCollapse.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..31f60e3 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -42,6 +42,14 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  // true if the integer survives the conversion to real_type
+  static
+  bool
+  is_exact_real( long_type const v ) {
+    real_type const r{ static_cast<real_type>(v) };
+    return r < 9223372036854775808.0 && static_cast<long_type>(r) == v;
+  }
+
   void
   GenericContainer::collapse() {
     switch (m_data_type) {
@@ -57,12 +65,21 @@ namespace GC_namespace {
         auto max_sub_type{GC_type::NOTYPE};
         bool can_collapse{true};
         bool all_string{true};
+        bool all_number{true};
+        bool all_vector{true};
+        bool all_exact{true};
         int_type last_nelem{-1};
         for ( auto & vi : v ) {
           vi.collapse();
           // get type
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
+          if ( ti < GC_type::BOOL     || ti > GC_type::COMPLEX     ) all_number = false;
+          if ( ti < GC_type::VEC_BOOL || ti > GC_type::VEC_COMPLEX ) all_vector = false;
+          if ( ti == GC_type::LONG && !is_exact_real( vi.get_long() ) ) all_exact = false;
+          if ( ti == GC_type::VEC_LONG )
+            for ( auto const & l : vi.get_vec_long() )
+              if ( !is_exact_real( l ) ) all_exact = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
@@ -79,6 +96,12 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        // do not mix numbers with other types or with vectors
+        if ( !( all_number || all_vector ) ) break;
+        // do not lose digits converting integers to floating point numbers
+        if ( !all_exact &&
+             ( max_sub_type == GC_type::REAL     || max_sub_type == GC_type::COMPLEX ||
+               max_sub_type == GC_type::VEC_REAL || max_sub_type == GC_type::VEC_COMPLEX ) ) break;
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From 41b4220fa8c249f06109bfc68d9d3e5a3eb20a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:09 +0000
Subject: [PATCH 14/76] fix: promote_to_vector/promote_to_mat_* must keep the
 values

---
 src/GenericContainerPromote.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 278afeb..2720e2f 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1575,7 +1575,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1584,7 +1584,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
@@ -1631,9 +1631,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1814,7 +1814,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1823,7 +1823,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1832,7 +1832,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1841,7 +1841,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
@@ -1894,25 +1894,25 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
+      { pointer_type const tmp{m_data.p}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
+      { bool_type const tmp{m_data.b}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
+      { int_type const tmp{m_data.i}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
+      { long_type const tmp{m_data.l}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
+      { real_type const tmp{m_data.r}; set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
+      { complex_type const tmp(*m_data.c); set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { string_type const tmp(*m_data.s); set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From 55e5b82448e888676e1c68e55c1237f2be5ae19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:10 +0000
Subject: [PATCH 15/76] fix: copyto_mat_complex must accept complex matrices,
 mat_type::data() empty ones

---
 include/GenericContainer/GenericContainer.hh | 4 ++--
 src/GenericContainerPromote.cc               | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..d84e2c3 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -406,7 +406,7 @@ namespace GC_namespace {
     //! int *dataPtr = matrix.data();  // Pointer to matrix data
     //! \endcode
     //!
-    TYPE * data() { return &vector<TYPE>::front(); }
+    TYPE * data() { return vector<TYPE>::data(); }
 
     //!
     //! Returns a constant pointer to the underlying data block of the matrix.
@@ -419,7 +419,7 @@ namespace GC_namespace {
     //! const int *dataPtr = matrix.data();  // Constant pointer to matrix data
     //! \endcode
     //!
-    TYPE const * data() const { return &vector<TYPE>::front(); }
+    TYPE const * data() const { return vector<TYPE>::data(); }
   };
 
   // ---------------------------------------------------------------------------
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 2720e2f..2f82689 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1080,6 +1080,9 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      m = *m_data.m_c;
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1107,7 +1110,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
-- 
2.43.0


From 6ac03d41cd7f6573babaeb040ff15ea05b0a0a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 16/76] fix: element access must check position, row and column
 against the actual size

---
 src/GenericContainer.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 93f4cf1..008cea3 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -138,6 +138,10 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") out of range " << m_num_rows << " x " << m_num_cols
+    );
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -150,6 +154,10 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << ") out of range " << m_num_rows << " x " << m_num_cols
+    );
     try {
       return this->at(i+j*m_num_rows);
     } catch ( std::exception const & exc ) {
@@ -1949,6 +1957,7 @@ namespace GC_namespace {
 
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT( i < this->get_num_elements(), where << "get_number_at( " << i << " ) out of range" );
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
     case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
@@ -1981,6 +1990,7 @@ namespace GC_namespace {
 
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
+    GC_ASSERT( i < this->get_num_elements(), where << "get_complex_number_at( " << i << " ) out of range" );
     switch (m_data_type) {
     case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
     case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
@@ -2976,7 +2986,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3027,7 +3037,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3077,7 +3087,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3095,7 +3105,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3129,7 +3139,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
-- 
2.43.0


From 9798cc0dad9204ac301eb8c172650e125af9598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 17/76] fix: get_*_at(i) on a generic vector must not reset an
 element of the right type

---
 src/GenericContainer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 008cea3..b029d34 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2946,6 +2946,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
+    if ( (*m_data.v)[i].m_data_type == GC_type::BOOL ) return (*m_data.v)[i].m_data.b;
     return (*m_data.v)[i].set_bool(false);
   }
 
@@ -2971,6 +2972,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
+    if ( (*m_data.v)[i].m_data_type == GC_type::INTEGER ) return (*m_data.v)[i].m_data.i;
     return (*m_data.v)[i].set_int(0);
   }
 
@@ -3022,6 +3024,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
+    if ( (*m_data.v)[i].m_data_type == GC_type::LONG ) return (*m_data.v)[i].m_data.l;
     return (*m_data.v)[i].set_long(0);
   }
 
@@ -3072,6 +3075,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
+    if ( (*m_data.v)[i].m_data_type == GC_type::REAL ) return (*m_data.v)[i].m_data.r;
     return (*m_data.v)[i].set_real(0);
   }
 
@@ -3124,6 +3128,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
+    if ( (*m_data.v)[i].m_data_type == GC_type::COMPLEX ) return *(*m_data.v)[i].m_data.c;
     return (*m_data.v)[i].set_complex(0,0);
   }
 
@@ -3169,6 +3174,7 @@ namespace GC_namespace {
       return (*m_data.v_s)[i];
     }
     promote_to_vector();
+    if ( (*this)[i].m_data_type == GC_type::STRING ) return *(*this)[i].m_data.s;
     return (*this)[i].set_string("");
   }
 
-- 
2.43.0


From 578844c464d23303e785631403c654c9c6cf1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:27 +0000
Subject: [PATCH 18/76] fix: get_{bool,int,long,real} on an empty container
 must not expose uninitialised data

---
 src/GenericContainer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b029d34..b8b8bcd 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2030,6 +2030,7 @@ namespace GC_namespace {
 
   bool_type &
   GenericContainer::get_bool( string_view const where ) {
+    if ( m_data_type == GC_type::NOTYPE ) set_bool(false);
     ck_or_set(where,GC_type::BOOL);
     return m_data.b;
   }
@@ -2042,6 +2043,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int( string_view const where ) {
+    if ( m_data_type == GC_type::NOTYPE ) set_int(0);
     ck_or_set(where,GC_type::INTEGER);
     return m_data.i;
   }
@@ -2054,6 +2056,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long( string_view const where ) {
+    if ( m_data_type == GC_type::NOTYPE ) set_long(0);
     ck_or_set(where,GC_type::LONG);
     return m_data.l;
   }
@@ -2094,6 +2097,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real( string_view const where ) {
+    if ( m_data_type == GC_type::NOTYPE ) set_real(0);
     ck_or_set(where,GC_type::REAL);
     return m_data.r;
   }
-- 
2.43.0


From ba5523cfa49841c364c28a09fdd11b33dd52cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 19/76] fix: de_serialize must not leave an uninitialised
 scalar behind when it rejects the data

---
 src/GenericContainerSerialize.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index d0ba85a..e684214 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -414,34 +414,34 @@ namespace GC_namespace {
       m_data_type = GC_type::NOTYPE;
       break;
     case GC_type::BOOL:
+      check( 1, 1 );
       m_data_type = GC_type::BOOL;
       uint8_t b;
-      check( 1, 1 );
       nb = buffer_to_uint8( buffer, &b );
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
-      m_data_type = GC_type::INTEGER;
       check( 1, 4 );
+      m_data_type = GC_type::INTEGER;
       nb = buffer_to_int32( buffer, &m_data.i );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
-      m_data_type = GC_type::LONG;
       check( 1, 8 );
+      m_data_type = GC_type::LONG;
       nb = buffer_to_int64( buffer, &m_data.l );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
-      m_data_type = GC_type::REAL;
       check( 1, 8 );
+      m_data_type = GC_type::REAL;
       nb = buffer_to_double( buffer, &m_data.r );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
-      m_data_type = GC_type::POINTER;
       check( 1, 8 );
+      m_data_type = GC_type::POINTER;
       nb = buffer_to_int64( buffer, &i64 );
       buffer += nb; nbyte += nb;
       m_data.p = reinterpret_cast<pointer_type>(i64);
-- 
2.43.0


From cf90435980cb4a146ff6e523ce1869e84cd820be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 20/76] fix: get_map_bool/get_map_string must not turn an empty
 entry of a const map into a value

---
 src/GenericContainer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b8b8bcd..259374a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2348,7 +2348,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_bool( where );
+    return (*this)(key,where).get_bool( where );
   }
 
   bool_type
@@ -2371,7 +2371,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_bool( where );
+    return (*this)(who,where).get_bool( where );
   }
 
   int_type
@@ -2444,7 +2444,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_string( where );
+    return (*this)(key,where).get_string( where );
   }
 
   string_view
@@ -2467,7 +2467,7 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_string( where );
+    return (*this)(who,where).get_string( where );
   }
 
   vec_real_type const &
-- 
2.43.0


From 3a88e5a29cecc061d88763da1058ffde75a0802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:30 +0000
Subject: [PATCH 21/76] fix: printing a pointer must not leave the output
 stream in hexadecimal mode

---
 src/GenericContainer.cc       | 9 +++++++--
 src_json_interface/to_json.cc | 7 ++++++-
 src_yaml_interface/to_yaml.cc | 7 ++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 259374a..25b32e2 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3469,7 +3469,9 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      { auto const flags{ stream.flags() }; // do not leave the stream in hex mode
+        stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream.flags( flags ); }
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3491,9 +3493,12 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
+        auto const flags{ stream.flags() };
+        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i ) {
           stream << prefix << "vec_pointer(" << i << "): "
                  << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+          stream.flags( flags );
+        }
       }
       break;
     case GC_type::VEC_BOOL:
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..a5c0e71 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -179,16 +179,21 @@ namespace GC_namespace {
         GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
         break;
       }
-      case GC_type::POINTER:
+      case GC_type::POINTER: {
+        auto const flags{ stream.flags() };
         stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        stream.flags( flags );
         break;
+      }
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
+        auto const flags{ stream.flags() };
         char const * pre{"[ "};
         for ( auto const & vi : V ) {
           stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
           pre = ", ";
         }
+        stream.flags( flags );
         stream << " ]";
         break;
       }
diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..1377158 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -188,15 +188,20 @@ namespace GC_namespace {
         GC_PRINT_MATRIX;
         break;
       }
-      case GC_type::POINTER:
+      case GC_type::POINTER: {
+        auto const flags{ stream.flags() };
         stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream.flags( flags );
         break;
+      }
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
+        auto const flags{ stream.flags() };
         stream << '\n';
         for ( auto const & vi : V ) {
           stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
         }
+        stream.flags( flags );
         break;
       }
     }
-- 
2.43.0


From 0283df6feca408ba902140d4d594eab33d0e7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:07 +0000
Subject: [PATCH 22/76] fix: get_pointer_at must not destroy a vector of
 pointers

---
 include/GenericContainer/GenericContainer.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index d84e2c3..829c6d2 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -2724,8 +2724,11 @@ namespace GC_namespace {
     //! \endcode
     //!
     template <typename T>
-    T& get_pointer_at( unsigned i )
-    { return (*this)[i].get_pointer<T>(); }
+    T& get_pointer_at( unsigned i ) {
+      if ( m_data_type != GC_type::VEC_POINTER ) return (*this)[i].get_pointer<T>();
+      if ( i >= m_data.v_p->size() ) m_data.v_p->resize( i+1 );
+      return *reinterpret_cast<T*>( &(*m_data.v_p)[i] );
+    }
 
     //!
     //! Get the `i`-th pointer of the vector of pointers.
@@ -2740,8 +2743,10 @@ namespace GC_namespace {
     //! \endcode
     //!
     template <typename T>
-    T get_pointer_at( unsigned i ) const
-    { return (*this)[i].get_pointer<T>(); }
+    T get_pointer_at( unsigned i ) const {
+      if ( m_data_type != GC_type::VEC_POINTER ) return (*this)[i].get_pointer<T>();
+      return reinterpret_cast<T>( m_data.v_p->at(i) );
+    }
     //!< Return `i`-th generic pointer (if fails issue an error).
 
     //!
-- 
2.43.0


From 12b1820335bf788e799784507dbb7c9d0e64044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:07 +0000
Subject: [PATCH 23/76] fix: to_toml must reject empty containers and tag real
 and complex matrices as such

---
 src_toml_interface/to_toml.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..7cdb6e9 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -63,7 +63,7 @@ namespace GC_namespace {
     std::unique_ptr<toml::array> empty;
     switch ( gc.get_type() ) {
       case GC_type::NOTYPE:
-        return empty;
+        throw std::runtime_error("an empty container cannot be represented in TOML");
       case GC_type::BOOL:    return NEW_UNIQUE( toml::value<bool>,    gc.get_bool() );
       case GC_type::INTEGER: return NEW_UNIQUE( toml::value<int64_t>, gc.get_int()  );
       case GC_type::LONG:    return NEW_UNIQUE( toml::value<int64_t>, gc.get_long() );
@@ -151,7 +151,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +166,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From ebe5f310b8d981e5e7b42397d2b830dec64d60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:07 +0000
Subject: [PATCH 24/76] fix: from_toml must not truncate 64 bit integers in
 arrays

---
 src_toml_interface/from_toml.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..acf5e16 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -140,10 +140,15 @@ namespace GC_namespace {
       bool is_string_array  { true };
       bool is_integer_array { true };
       bool is_float_array   { true };
+      bool is_long_array    { false }; // integers that do not fit int_type
       for ( const auto & value : *ary ) {
         if ( !value.is_string()         ) is_string_array  = false;
         if ( !value.is_integer()        ) is_integer_array = false;
         if ( !value.is_floating_point() ) is_float_array   = false;
+        if ( value.is_integer() ) {
+          std::int64_t const tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int32_t>::min() || tmp > numeric_limits<int32_t>::max() ) is_long_array = true;
+        }
       }
       size_t N{ ary->size() };
       if ( is_string_array ) {
@@ -152,6 +157,12 @@ namespace GC_namespace {
         V.reserve( N );
         for ( const auto & value : *ary ) V.emplace_back( value.as_string()->get() );
 
+      } else if (is_integer_array && is_long_array) {
+
+        GC::vec_long_type & V{ gc.set_vec_long() };
+        V.reserve( N );
+        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+
       } else if (is_integer_array) {
 
         GC::vec_int_type & V{ gc.set_vec_int() };
-- 
2.43.0


From 2e72d3ca067685067de69cc3e8a1e0b9773db8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:25 +0000
Subject: [PATCH 25/76] fix: unsigned integers larger than INT_MAX must not be
 stored as negative numbers

---
 include/GenericContainer/GenericContainer.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 829c6d2..668fb6e 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -37,6 +37,7 @@
 #include <iostream>
 #include <string>
 #include <string_view>
+#include <limits>
 #include <complex>
 #include <map>
 #include <deque>
@@ -3362,7 +3363,11 @@ namespace GC_namespace {
     //! container.set(42u); // Store 42 as an unsigned integer in the container
     //! \endcode
     //!
-    void set( uint_type const & a ) { this->set_int(int_type(a)); }
+    void set( uint_type const & a ) {
+      // values that do not fit `int_type` are stored as long integers
+      if ( a <= uint_type(std::numeric_limits<int_type>::max()) ) this->set_int(int_type(a));
+      else                                                        this->set_long(long_type(a));
+    }
 
     //!
     //! Assign an integer to the generic container.
@@ -3528,7 +3533,7 @@ namespace GC_namespace {
     //! \param[in] a integer to be stored
     //!
     GenericContainer & operator = ( uint_type const & a )
-    { this->set_int(int_type(a)); return * this; }
+    { this->set(a); return * this; }
 
     //!
     //! Assign an integer to the generic container.
-- 
2.43.0


From ad15103cbe0dc646d6a7bec692a25a7699c50837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:25 +0000
Subject: [PATCH 26/76] fix: to_json must write empty vectors, maps and
 matrices and complex matrices as valid JSON

---
 src_json_interface/to_json.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index a5c0e71..cbc20a5 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -76,7 +76,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        string_view pre{"[ "};
+        string_view pre{" "};
+        stream << '[';
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -85,7 +86,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+      string_view pre = " ";                      \
+        stream << '[';                            \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -112,7 +114,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]";
@@ -120,7 +123,9 @@ namespace GC_namespace {
       }
       case GC_type::VECTOR: {
         vector_type const & v{*m_data.v};
-        if ( !v.empty() ) {
+        if ( v.empty() ) {
+          stream << "[ ]";
+        } else {
           stream << '\n' << prefix;
           char const * pre{"[\n"};
           for ( auto const & vi : v ) {
@@ -134,7 +139,9 @@ namespace GC_namespace {
       }
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
-        if ( !m.empty() ) {
+        if ( m.empty() ) {
+          stream << "{ }";
+        } else {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
@@ -149,15 +156,15 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << "[\n";                             \
-        string pre0 = prefix1+"[ ";                  \
+        stream << "[";                               \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          string pre{pre0};                          \
+          stream << (j>0?",\n":"\n") << prefix1 << '['; \
+          char const * pre{" "};                     \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
-          pre0 = " ],\n"+prefix1+"[ ";               \
+          stream << " ]";                            \
         }                                            \
-        stream << " ]\n" << prefix << "]"
+        stream << '\n' << prefix << "]"
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
@@ -176,7 +183,7 @@ namespace GC_namespace {
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER: {
@@ -188,7 +195,8 @@ namespace GC_namespace {
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         auto const flags{ stream.flags() };
-        char const * pre{"[ "};
+        char const * pre{" "};
+        stream << '[';
         for ( auto const & vi : V ) {
           stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
           pre = ", ";
-- 
2.43.0


From 54bb31f554e1c78eda392ae26c8713b6bac090e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:25 +0000
Subject: [PATCH 27/76] fix: to_json must escape map keys and all the control
 characters

---
 src/GenericContainer.cc       | 7 +++++--
 src_json_interface/to_json.cc | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 25b32e2..dea0bae 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -92,10 +92,13 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
+      else if ( static_cast<unsigned char>(c) < 0x20 ) {
+        // other control characters are not allowed inside JSON/YAML strings
+        char const * hex{"0123456789abcdef"};
+        stream << "\\u00" << hex[c>>4] << hex[c&0x0F];
+      }
       else                    stream << c;
     }
     stream << '"';
diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index cbc20a5..48a7d75 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -145,7 +145,9 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
-- 
2.43.0


From 8966769b0bf3c4d5c6df0818ca5c3dd8931a7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:25 +0000
Subject: [PATCH 28/76] fix: from_json must keep large unsigned integers,
 embedded NULs and all the digits of reals

---
 src_json_interface/from_json.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..6332c2f 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -69,20 +69,20 @@ namespace GC_namespace {
     } else if ( value.IsInt64() ) {
       gc = value.GetInt64();
     } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
+      gc = static_cast<real_type>(value.GetUint64()); // does not fit long_type
     } else if ( value.IsDouble() ) {
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( string_view( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
-      for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
-        decode_json( V[i], value[i] );
+      for ( rapidjson::SizeType i{0}; ok && i < value.Size(); ++i )
+        ok = decode_json( V[i], value[i] );
     } else if ( value.IsObject() ) {
       map_type & M{ gc.set_map() };
       map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[std::string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
@@ -101,7 +101,7 @@ namespace GC_namespace {
     rapidjson::Document document;
 
     // Parse del file
-    document.ParseStream(isw);
+    document.ParseStream<rapidjson::kParseFullPrecisionFlag>(isw);
 
     // Controllare eventuali errori di parsing
     if (document.HasParseError()) {
-- 
2.43.0


From c74d3dbf77a238c24662b94878ec622a6e690a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:52 +0000
Subject: [PATCH 29/76] fix: to_yaml must write empty vectors and complex
 vectors and matrices as YAML sequences

---
 src_yaml_interface/to_yaml.cc | 39 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 1377158..5bdf719 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -75,7 +75,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -83,34 +84,36 @@ namespace GC_namespace {
         stream << " ]\n";
         break;
       }
-      #define GC_PRINT_VECTOR                  \
-        char const * pre = "[ ";               \
-        for ( auto const & vi : v )            \
-          { stream << pre << vi; pre = ", "; } \
+      #define GC_PRINT_VECTOR(VDATA)              \
+        char const * pre = " ";                   \
+        stream << '[';                            \
+        for ( auto const & vi : v )               \
+          { stream << pre << VDATA; pre = ", "; } \
         stream << " ]\n"
       case GC_type::VEC_INTEGER: {
         vec_int_type const & v{*m_data.v_i};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_LONG: {
         vec_long_type const & v{*m_data.v_l};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_COMPLEX: {
         vec_complex_type const & v{*m_data.v_c};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(to_string(vi));
         break;
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]\n";
@@ -144,15 +147,15 @@ namespace GC_namespace {
         }
         break;
       }
-      #define GC_PRINT_MATRIX                        \
+      #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
         stream << '\n';                              \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
+          stream << prefix << "- [";                 \
+          char const * pre = " ";                    \
           for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << M(i,j); pre = ", "; } \
+            { stream << pre << MDATA; pre = ", "; }  \
           stream << " ]\n";                          \
         }
 
@@ -170,22 +173,22 @@ namespace GC_namespace {
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_LONG: {
         mat_long_type const & M{*m_data.m_l};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(to_string(M(i,j)));
         break;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From 37dd654d0e1adb2bca5538f40944fa4f12943430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:52 +0000
Subject: [PATCH 30/76] fix: to_yaml must quote keys that are not plain words

---
 src_yaml_interface/to_yaml.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 5bdf719..2dc80b9 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -36,6 +36,20 @@
 
 namespace GC_namespace {
 
+  // keys that can be written without quotes
+  static
+  bool
+  is_plain_key( string_view const key ) {
+    if ( key.empty() || (key.front() >= '0' && key.front() <= '9') ) return false;
+    for ( char const c : key )
+      if ( !( (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' ) ) return false;
+    string low{key};
+    for ( char & c : low ) if ( c >= 'A' && c <= 'Z' ) c += 'a'-'A';
+    for ( auto const w : { "null", "true", "false", "yes", "no", "on", "off", "y", "n" } )
+      if ( low == w ) return false;
+    return true;
+  }
+
   /*
   //   _                                 _
   //  | |_ ___     _   _  __ _ _ __ ___ | |
@@ -141,7 +155,10 @@ namespace GC_namespace {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
           for ( auto const & im : m ) {
-            stream << prefix << im.first << ": ";
+            stream << prefix;
+            if ( is_plain_key( im.first ) ) stream << im.first;
+            else                            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_yaml(stream,prefix2);
           }
         }
-- 
2.43.0


From 5742e91109e68de9662903c2be7f1485f31b9113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:44 +0000
Subject: [PATCH 31/76] fix: to_yaml must write a matrix without columns as
 null

---
 src_yaml_interface/to_yaml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 2dc80b9..f958e17 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -167,7 +167,7 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << '\n';                              \
+        stream << (NC>0?"\n":"null\n");              \
         for ( unsigned j{0}; j < NC; ++j ) {         \
           stream << prefix << "- [";                 \
           char const * pre = " ";                    \
-- 
2.43.0


From b50583a317c7aac3cff3a39a25f87d5e3cebaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:08 +0000
Subject: [PATCH 32/76] fix: YAML reader must find the end of a quoted string
 that starts with backslashes

---
 src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 130a9d3..3e8a232 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -817,7 +817,7 @@ private:
                         break;
                     }
                     ++backslash_counts;
-                } while (p != m_token_begin_itr);
+                } while (p >= m_token_begin_itr);
                 is_closed = ((backslash_counts & 1u) == 0); // true: even, false: odd
             }
 
-- 
2.43.0


From 60d3f91d04dd2d5e37a5037865b369cf61b86cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:46 +0000
Subject: [PATCH 33/76] fix: to_toml must not lose newlines at the beginning of
 strings

---
 src_toml_interface/to_toml.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index 7cdb6e9..14d424b 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -194,7 +194,9 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       std::unique_ptr<toml::node> root{ GC_to_TOML( *this ) };
-      if ( ok ) stream << toml::toml_formatter(*root);
+      // multi line strings lose a leading newline
+      auto const flags{ toml::toml_formatter::default_flags & ~toml::format_flags::allow_multi_line_strings };
+      if ( ok ) stream << toml::toml_formatter( *root, flags );
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::to_toml: " << e.what() << '\n';
-- 
2.43.0


From 1b3eba4e51b0b821ac2df7de8e00ef0fad45fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:15 +0000
Subject: [PATCH 34/76] fix: TOML reader must report, not assume, a valid key
 in a table header

---
 src_toml_interface/toml++/impl/parser.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_toml_interface/toml++/impl/parser.inl b/src_toml_interface/toml++/impl/parser.inl
index 6f0136f..266c59d 100644
--- a/src_toml_interface/toml++/impl/parser.inl
+++ b/src_toml_interface/toml++/impl/parser.inl
@@ -3034,7 +3034,6 @@ TOML_IMPL_NAMESPACE_START
 		{
 			return_if_error({});
 			assert_not_eof();
-			TOML_ASSERT_ASSUME(is_bare_key_character(*cp) || is_string_delimiter(*cp));
 			push_parse_scope("key"sv);
 
 			key_buffer.clear();
-- 
2.43.0


From dc0497d1e73ae935a31c776983c488861edf9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:56 +0000
Subject: [PATCH 35/76] fix: TOML reader must report, not assume, a digit after
 the date of a date-time

---
 src_toml_interface/toml++/impl/parser.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_toml_interface/toml++/impl/parser.inl b/src_toml_interface/toml++/impl/parser.inl
index 266c59d..0765ad5 100644
--- a/src_toml_interface/toml++/impl/parser.inl
+++ b/src_toml_interface/toml++/impl/parser.inl
@@ -2342,7 +2342,6 @@ TOML_IMPL_NAMESPACE_START
 		{
 			return_if_error({});
 			assert_not_eof();
-			TOML_ASSERT_ASSUME(is_decimal_digit(*cp));
 			push_parse_scope("time"sv);
 
 			static constexpr size_t max_digits = 64; // far more than necessary but needed to allow fractional
-- 
2.43.0


From 30582557f64e8f010107bf7932cab83a25552eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:13 +0000
Subject: [PATCH 36/76] fix: a vector of bool must arrive in Lua as a table,
 not as nil

---
 src_lua_interface/GenericContainerInterface_lua.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..93ab127 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -261,7 +261,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
-- 
2.43.0


From 79e940d1e6f2274732c85c6f2bf3b3ed972ba156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:13 +0000
Subject: [PATCH 37/76] fix: strings and keys with embedded NULs must pass
 through Lua unchanged

---
 .../GenericContainerInterface_lua.cc          | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 93ab127..8f21838 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -103,6 +103,15 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc );
 
+  // string at position `idx` of the stack (it may contain NULs)
+  static
+  string_view
+  lua_to_string_view( lua_State * L, int idx ) {
+    size_t       len{0};
+    char const * str{ lua_tolstring( L, idx, &len ) };
+    return str == nullptr ? string_view{} : string_view( str, len );
+  }
+
   static
   void
   push_vec_element( lua_State * L, GenericContainer & gc ) {
@@ -132,7 +141,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = lua_to_string_view(L, -1);
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc[idx] );
@@ -146,7 +155,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key{ lua_to_string_view(L, -2) };
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -160,7 +169,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(lua_to_string_view(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -205,7 +214,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(lua_to_string_view(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
@@ -248,7 +257,7 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      lua_pushlstring( L, gc.get_string().data(), gc.get_string().size() );
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -293,7 +302,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].data(), vs[i].size() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -311,7 +320,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring( L, it->first.data(), it->first.size() );
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -448,7 +457,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(lua_to_string_view(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-- 
2.43.0


From 7e4bb7602fd416e6f7a90dbea906191b3a43738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:13 +0000
Subject: [PATCH 38/76] fix: integers and sequences of mixed kinds must be read
 from Lua without losing or reinterpreting values

---
 .../GenericContainerInterface_lua.cc          | 117 +++++++++++++-----
 1 file changed, 84 insertions(+), 33 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 8f21838..229b663 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -88,7 +88,10 @@ namespace GC_namespace {
   inline
   bool
   isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  {
+    if ( !( x >= -9223372036854775808.0 && x < 9223372036854775808.0 ) ) return false; // also NaN
+    return isZero( x-floor(x) );
+  }
 
   /*
   //   _                _           ____  ____
@@ -103,6 +106,27 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc );
 
+  static
+  inline
+  bool
+  is_exact_real( long_type x ) {
+    constexpr long_type B{ 9007199254740992 }; // 2^53
+    return x >= -B && x <= B;
+  }
+
+  // store the number at the top of the stack
+  static
+  void
+  lua_number_to_GC( lua_State * L, GenericContainer & gc ) {
+    if ( lua_isinteger(L, -1) ) {
+      gc.set_long( long_type(lua_tointeger(L, -1)) );
+    } else {
+      real_type val = lua_tonumber(L, -1);
+      if ( isInteger64(val) ) gc.set_long(long_type(val));
+      else                    gc.set_real(val);
+    }
+  }
+
   // string at position `idx` of the stack (it may contain NULs)
   static
   string_view
@@ -117,33 +141,72 @@ namespace GC_namespace {
   push_vec_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
     // index start from 1 in LUA
-    unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
+    lua_Integer const key{ lua_tointeger(L, -2) };
+    GC_ASSERT(
+      lua_isinteger(L, -2) && key > 0 && key <= 0x7FFFFFFF,
+      "Lua table with a key that is neither a string nor a valid position"
+    )
+    unsigned    idx  = unsigned(key-1);
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
     case LUA_TBOOLEAN:
       {
-        gc.get_bool_at(idx);
-        vec_bool_type & bv = gc.get_vec_bool();
-        bv[idx] = lua_toboolean(L, -1) ? true : false;
+        bool const val{ lua_toboolean(L, -1) != 0 };
+        if ( gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::VEC_BOOL ) {
+          gc.get_bool_at(idx);
+          vec_bool_type & bv = gc.get_vec_bool();
+          bv[idx] = val;
+        } else {
+          gc.promote_to_vector();
+          gc[idx].set_bool( val );
+        }
       }
       break;
     case LUA_TNUMBER:
       {
-        real_type val = lua_tonumber(L, -1);
-        if ( gc.get_type() == GC_type::VEC_REAL ||
-             gc.get_type() == GC_type::MAT_REAL ) {
-          gc.get_real_at(idx) = val;
-        } else if ( isInteger64(val) ) {
-          gc.get_long_at(idx) = long_type(val);
-        } else {
-          gc.get_real_at(idx) = val;
+        GenericContainer num;
+        lua_number_to_GC( L, num );
+        bool const is_long{ num.get_type() == GC_type::LONG };
+        switch ( gc.get_type() ) {
+        case GC_type::NOTYPE:
+          if ( is_long ) gc.get_long_at(idx) = num.get_long();
+          else           gc.get_real_at(idx) = num.get_real();
+          break;
+        case GC_type::VEC_LONG: {
+          bool ok{ is_long };
+          if ( !is_long ) {
+            ok = true; // all the elements must be representable as real_type
+            for ( long_type const v : gc.get_vec_long() ) ok = ok && is_exact_real( v );
+          }
+          if ( ok && is_long ) { gc.get_long_at(idx) = num.get_long(); break; }
+          if ( ok )            { gc.get_real_at(idx) = num.get_real(); break; }
+          gc.promote_to_vector();
+          gc[idx] = num;
+          break;
+        }
+        case GC_type::VEC_REAL:
+          if ( !is_long )                            { gc.get_real_at(idx) = num.get_real(); break; }
+          if ( is_exact_real( num.get_long() ) )     { gc.get_real_at(idx) = real_type(num.get_long()); break; }
+          gc.promote_to_vector();
+          gc[idx] = num;
+          break;
+        default:
+          gc.promote_to_vector();
+          gc[idx] = num;
+          break;
         }
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_to_string_view(L, -1);
+      if ( gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::VEC_STRING ) {
+        gc.get_string_at(idx) = lua_to_string_view(L, -1);
+      } else {
+        gc.promote_to_vector();
+        gc[idx].set_string( lua_to_string_view(L, -1) );
+      }
       break;
     case LUA_TTABLE:
+      if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector();
       lua_table_to_GC( L, gc[idx] );
       break;
     }
@@ -162,11 +225,7 @@ namespace GC_namespace {
         gc[key].set_bool( lua_toboolean(L, -1) ? true : false );
         break;
       case LUA_TNUMBER:
-        {
-          real_type val = lua_tonumber(L, -1);
-          if ( isInteger64(val) ) gc[key].set_long(long_type(val));
-          else                    gc[key].set_real(val);
-        }
+        lua_number_to_GC( L, gc[key] );
         break;
       case LUA_TSTRING:
         gc[key].set_string(lua_to_string_view(L, -1));
@@ -207,11 +266,7 @@ namespace GC_namespace {
         gc.set_bool(lua_toboolean(L, -1) ? true : false );
         break;
       case LUA_TNUMBER:
-        {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
-        }
+        lua_number_to_GC( L, gc );
         break;
       case LUA_TSTRING:
         gc.set_string(lua_to_string_view(L, -1));
@@ -248,10 +303,10 @@ namespace GC_namespace {
       lua_pushboolean( L, gc.get_bool() ? 1 : 0 );
       break;
     case GC_type::INTEGER:
-      lua_pushnumber( L, gc.get_int() );
+      lua_pushinteger( L, gc.get_int() );
       break;
     case GC_type::LONG:
-      lua_pushnumber( L, lua_Number(gc.get_long()) );
+      lua_pushinteger( L, gc.get_long() );
       break;
     case GC_type::REAL:
       lua_pushnumber( L, gc.get_real() );
@@ -275,7 +330,7 @@ namespace GC_namespace {
       { vec_int_type const & vi = gc.get_vec_int();
         lua_createtable( L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, vi[i] );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -284,7 +339,7 @@ namespace GC_namespace {
       { vec_long_type const & vi = gc.get_vec_long();
         lua_createtable(L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, vi[i] );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -450,11 +505,7 @@ namespace GC_namespace {
       gc.set_bool(lua_toboolean(L, -1) ? true : false );
       break;
     case LUA_TNUMBER:
-      {
-        real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
-      }
+      lua_number_to_GC( L, gc );
       break;
     case LUA_TSTRING:
       gc.set_string(lua_to_string_view(L, -1));
-- 
2.43.0


From aacd0131d3c8be85edfd0bac44194d4af20d3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:13 +0000
Subject: [PATCH 39/76] fix: calls to Lua must leave the Lua stack as they
 found it, also when they fail

---
 .../GenericContainerInterface_lua.cc          | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 229b663..8bdeb3b 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -114,6 +114,17 @@ namespace GC_namespace {
     return x >= -B && x <= B;
   }
 
+  // restore the height of the stack when leaving a scope
+  class LuaStackGuard {
+    lua_State * m_L;
+    int         m_top;
+  public:
+    LuaStackGuard( lua_State * L ) : m_L(L), m_top(lua_gettop(L)) {}
+    ~LuaStackGuard() { lua_settop( m_L, m_top ); }
+    LuaStackGuard( LuaStackGuard const & ) = delete;
+    LuaStackGuard & operator = ( LuaStackGuard const & ) = delete;
+  };
+
   // store the number at the top of the stack
   static
   void
@@ -241,6 +252,7 @@ namespace GC_namespace {
   static
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+    GC_ASSERT( lua_checkstack(L,4), "Lua stack overflow" )
     // ---
     lua_pushnil(L); // first key
     // ---
@@ -273,8 +285,6 @@ namespace GC_namespace {
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
-        //global_to_GC( gc );
-        lua_settop(L, 0);
         break;
     }
   }
@@ -291,6 +301,7 @@ namespace GC_namespace {
   static
   void
   GC_to_lua( lua_State * L, GenericContainer const & gc ) {
+    GC_ASSERT( lua_checkstack(L,4), "Lua stack overflow" )
     // inizializzazione
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
@@ -431,11 +442,11 @@ namespace GC_namespace {
       "LuaInterpreter::do_file('" << filename <<
       "')\nlua_State invalid!"
     )
+    LuaStackGuard guard(L);
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
-      GC_ASSERT(
-        lua_isnil(L,-1),
+      GC_DO_ERROR(
         "In LuaInterpreter::do_file('" << filename <<
-        "')\n" << lua_tostring(L, -1)
+        "')\n" << lua_to_string_view(L, -1)
       )
     }
   }
@@ -445,6 +456,7 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard guard(L);
     GC_ASSERT(
       L != nullptr &&
       !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
@@ -464,6 +476,8 @@ namespace GC_namespace {
     string_view            fname = fun_io("function").get_string();
     GenericContainer const & args = fun_io("args");
 
+    LuaStackGuard guard(L);
+
     // push functions and arguments
     lua_getglobal( L, fname.data() );  // function to be called
     GC_to_lua( L, args );
@@ -492,6 +506,7 @@ namespace GC_namespace {
       L != nullptr, "LuaInterpreter::global_to_GC(...) lua_State invalid!"
     )
 
+    LuaStackGuard guard(L);
     lua_getglobal( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
@@ -512,8 +527,6 @@ namespace GC_namespace {
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-      //global_to_GC( gc );
-      lua_settop(L, 0);
       break;
     default:
       GC_DO_ERROR(
@@ -534,6 +547,7 @@ namespace GC_namespace {
     char             const * global_var
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard guard(L);
     GC_to_lua( L, gc );
     lua_setglobal( L, global_var );
   }
-- 
2.43.0


From a47457eb5561c4d97d5d4b442b7cb83ad91eec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:20 +0000
Subject: [PATCH 40/76] fix: GC_delete must release the container and not leave
 it selected

---
 src/GenericContainerInterface_C.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..14f817b 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -242,7 +242,12 @@ GC_mem_ptr( char const id[] ) {
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  auto const pos{ gc_explorer.find(id) };
+  if ( pos != gc_explorer.end() ) {
+    if ( gc_active == pos->second ) gc_active = nullptr;
+    delete pos->second;
+    gc_explorer.erase(pos);
+  }
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From fdbd612de725ca3006d9c0a002d4801393f8b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:20 +0000
Subject: [PATCH 41/76] fix: GC_pop_head must not move above the root of the
 container

---
 src/GenericContainerInterface_C.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 14f817b..e9a5848 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -134,7 +134,7 @@ namespace GC_namespace {
 
   int
   GenericContainerExplorer::pop() {
-    if ( head.empty() ) return GENERIC_CONTAINER_NO_DATA;
+    if ( head.size() <= 1 ) return GENERIC_CONTAINER_NO_DATA; // never leave the root
     head.pop_back();
     return GENERIC_CONTAINER_OK;
   }
-- 
2.43.0


From 168e8374c465a0fff55b313368b60c63bc61fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:20 +0000
Subject: [PATCH 42/76] fix: GC_get_next_key must be safe without a live map
 and tell the end of the keys from an empty key

---
 src/GenericContainerInterface_C.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index e9a5848..4255a63 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,8 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    vec_string_type map_keys;       // keys of the map selected by init_map_key
+    unsigned        map_next_key{0};
 
   public:
 
@@ -82,7 +82,7 @@ namespace GC_namespace {
     int push_map_position( char const pos[] );
     int init_map_key();
 
-    string_view next_map_key();
+    char const * next_map_key();
 
     int reset();
 
@@ -169,16 +169,17 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      map_keys.clear();
+      for ( auto const & item : head.back()->get_map() ) map_keys.push_back( item.first );
+      map_next_key = 0;
     }
     return ok;
   }
 
-  string_view
+  char const *
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
-    return "";
+    if ( map_next_key < map_keys.size() ) return map_keys[map_next_key++].c_str();
+    return nullptr; // no more keys
   }
 
   int
@@ -737,7 +738,7 @@ GC_init_map_key() {
 char const *
 GC_get_next_key( void ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->next_map_key().data();
+  return gc_active->next_map_key();
 }
 
 } // close extern "C"
-- 
2.43.0


From ff5ce42ddf78e335ba17905471c1fba9caba9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:20 +0000
Subject: [PATCH 43/76] fix: GC_fill_for_test must not leave the head inside
 deleted data

---
 src/GenericContainerInterface_C.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 4255a63..96736d1 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -256,6 +256,7 @@ int
 GC_fill_for_test( char const id[] ) {
   // ckeck if exists
   GC_select( id );
+  gc_active->reset(); // the data the head points to is going to be replaced
   GenericContainer & gc =
      *static_cast<GenericContainer*>(gc_active->mem_ptr());
 
-- 
2.43.0


From dcbd50b6cf78701cc1662af770b929fd88083003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:20 +0000
Subject: [PATCH 44/76] fix: the C interface must refuse negative sizes and
 positions

---
 src/GenericContainerInterface_C.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 96736d1..6f6b218 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -630,6 +630,7 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
   for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
   return GENERIC_CONTAINER_OK;
@@ -640,6 +641,7 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
   std::copy_n( a, nelem, v.begin() );
   return GENERIC_CONTAINER_OK;
@@ -648,6 +650,7 @@ GC_set_vector_of_int( int const * a, int const nelem ) {
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
   std::copy_n( a, nelem, v.begin() );
   return GENERIC_CONTAINER_OK;
@@ -656,6 +659,7 @@ GC_set_vector_of_real( double const * a, int const nelem ) {
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
   for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
   return GENERIC_CONTAINER_OK;
@@ -664,6 +668,7 @@ GC_set_vector_of_complex( double const * re, double const * im, int const nelem
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
   for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
   return GENERIC_CONTAINER_OK;
@@ -674,6 +679,7 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
   GC_TRY( gc_active->top()->set_vector(nelem) );
   return GENERIC_CONTAINER_OK;
 }
@@ -706,7 +712,8 @@ GC_get_matrix_num_cols() {
 int
 GC_push_vector_position( int const pos ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  return gc_active->push_vector_position(pos);
+  if ( pos < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( return gc_active->push_vector_position(pos) );
 }
 
 //..............................................................................
-- 
2.43.0


From 1e2c102e47db3d86fd56d50bcd39af1e97464992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:40 +0000
Subject: [PATCH 45/76] fix: getters of the C interface must not throw through
 C code nor modify the container

---
 src/GenericContainerInterface_C.cc | 141 +++++++++++++++--------------
 1 file changed, 71 insertions(+), 70 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 6f6b218..82af03f 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -208,6 +208,28 @@ typedef std::pair<string_type,GenericContainerExplorer*> MAP_DATA;
 static MAP                        gc_explorer;
 static GenericContainerExplorer * gc_active = nullptr;
 
+// Evaluate f on the (constant) container pointed by the head, nothing may be
+// thrown through the C interface: `fallback` is returned if f cannot be done.
+template <typename T, typename F>
+static
+T
+GC_get( T const fallback, F f ) {
+  if ( gc_active == nullptr ) return fallback;
+  try {
+    GenericContainerExplorer const & active{ *gc_active };
+    return f( *active.top() );
+  } catch (...) {
+    return fallback;
+  }
+}
+
+// element `pos` of a generic vector
+static
+GenericContainer const &
+GC_elem( GenericContainer const & gc, int const pos ) {
+  return gc.get_vector().at( static_cast<unsigned>(pos) );
+}
+
 extern "C" {
 
 int
@@ -347,15 +369,13 @@ GC_dump() {
 
 int
 GC_get_type() {
-  if ( gc_active == nullptr ) return -1;
-  return static_cast<int>(gc_active->top()->get_type());
+  return GC_get( -1, []( GenericContainer const & gc ) { return static_cast<int>(gc.get_type()); } );
 }
 
 char const *
 GC_get_type_name() {
   static char const * empty{""};
-  if ( gc_active == nullptr ) return empty;
-  return gc_active->top()->get_type_name().data();
+  return GC_get( empty, []( GenericContainer const & gc ) { return gc.get_type_name().data(); } );
 }
 
 //..............................................................................
@@ -406,55 +426,45 @@ GC_set_string( char const a[] ) {
 
 int
 GC_get_bool() {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_bool() ? 1 : 0;
+  return GC_get( 0, []( GenericContainer const & gc ) { return gc.get_bool() ? 1 : 0; } );
 }
 
 int
 GC_get_int() {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int();
+  return GC_get( 0, []( GenericContainer const & gc ) { return static_cast<int>(gc.get_int()); } );
 }
 
 long
 GC_get_long() {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_long();
+  return GC_get( 0L, []( GenericContainer const & gc ) { return static_cast<long>(gc.get_long()); } );
 }
 
 double
 GC_get_real( ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real();
+  return GC_get( 0.0, []( GenericContainer const & gc ) { return static_cast<double>(gc.get_real()); } );
 }
 
 c_complex_type
 GC_get_complex( ) {
-  c_complex_type tmp{ 0, 0 };
-  if ( gc_active != nullptr ) {
-    complex_type const t = gc_active->top()->get_complex();
-    tmp.real = t.real();
-    tmp.imag = t.imag();
-  }
-  return tmp;
+  return GC_get( c_complex_type{ 0, 0 }, []( GenericContainer const & gc ) {
+    complex_type const t{ gc.get_complex() };
+    return c_complex_type{ t.real(), t.imag() };
+  } );
 }
 
 double
 GC_get_complex_re( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
-  return 0;
+  return GC_get_complex().real;
 }
 
 double
 GC_get_complex_im( ) {
-  if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
-  return 0;
+  return GC_get_complex().imag;
 }
 
 char const *
 GC_get_string( ) {
-  if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string().data();
+  return GC_get( static_cast<char const *>(nullptr), []( GenericContainer const & gc ) { return gc.get_string().data(); } );
 }
 
 //..............................................................................
@@ -505,87 +515,81 @@ GC_push_string( char const a[] ) {
 
 int
 GC_get_bool_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  bool const val{ gc_active->top()->get_bool_at(pos) };
-  return val ? 1 : 0;
+  return GC_get( 0, [pos]( GenericContainer const & gc ) {
+    if ( gc.get_type() == GC_type::VECTOR ) return GC_elem( gc, pos ).get_bool() ? 1 : 0;
+    return gc.get_bool_at( static_cast<unsigned>(pos), "" ) ? 1 : 0;
+  } );
 }
 
 int
 GC_get_int_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+  return GC_get( 0, [pos]( GenericContainer const & gc ) {
+    if ( gc.get_type() == GC_type::VECTOR   ) return static_cast<int>(GC_elem( gc, pos ).get_int());
+    if ( gc.get_type() == GC_type::VEC_BOOL ) return gc.get_bool_at( static_cast<unsigned>(pos), "" ) ? 1 : 0;
+    return static_cast<int>(gc.get_int_at( static_cast<unsigned>(pos), "" ));
+  } );
 }
 
 double
 GC_get_real_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+  return GC_get( 0.0, [pos]( GenericContainer const & gc ) {
+    return static_cast<double>(gc.get_number_at( static_cast<unsigned>(pos) ));
+  } );
 }
 
 c_complex_type
 GC_get_complex_at_pos( int const pos ) {
-  c_complex_type tmp;
-  tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
-  return tmp;
+  return GC_get( c_complex_type{ 0, 0 }, [pos]( GenericContainer const & gc ) {
+    complex_type const t{ gc.get_complex_number_at( static_cast<unsigned>(pos) ) };
+    return c_complex_type{ t.real(), t.imag() };
+  } );
 }
 
 double
 GC_get_complex_real_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return re;
+  return GC_get_complex_at_pos( pos ).real;
 }
 
 double
 GC_get_complex_imag_at_pos( int const pos ) {
-  real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
-  return im;
+  return GC_get_complex_at_pos( pos ).imag;
 }
 
 char const *
 GC_get_string_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return nullptr;
-  return gc_active->top()->get_string_at(pos).data();
+  return GC_get( static_cast<char const *>(nullptr), [pos]( GenericContainer const & gc ) {
+    if ( gc.get_type() == GC_type::VECTOR ) return GC_elem( gc, pos ).get_string().data();
+    return gc.get_string_at( static_cast<unsigned>(pos), "" ).data();
+  } );
 }
 
 //..............................................................................
 
 double
 GC_get_real_at_coor( int const i, int const j ) {
-  if ( gc_active == nullptr ) return 0;
-  return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+  return GC_get( 0.0, [i,j]( GenericContainer const & gc ) {
+    return static_cast<double>(gc.get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "" ));
+  } );
 }
 
 c_complex_type
 GC_get_complex_at_coor( int const i, int const j ) {
-  c_complex_type tmp;
-  tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    tmp.real = res.real();
-    tmp.imag = res.imag();
-  }
-  return tmp;
+  return GC_get( c_complex_type{ 0, 0 }, [i,j]( GenericContainer const & gc ) {
+    if ( gc.get_type() == GC_type::MAT_REAL )
+      return c_complex_type{ gc.get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "" ), 0 };
+    complex_type const t{ gc.get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j), "" ) };
+    return c_complex_type{ t.real(), t.imag() };
+  } );
 }
 
 double
 GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.real();
-  }
-  return 0;
+  return GC_get_complex_at_coor( i, j ).real;
 }
 
 double
 GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
-    complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
-    return res.imag();
-  }
-  return 0;
+  return GC_get_complex_at_coor( i, j ).imag;
 }
 
 //..............................................................................
@@ -693,20 +697,17 @@ GC_set_empty_vector() {
 
 int
 GC_get_vector_size() {
-  if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->get_num_elements());
+  return GC_get( 0, []( GenericContainer const & gc ) { return static_cast<int>(gc.get_num_elements()); } );
 }
 
 int
 GC_get_matrix_num_rows() {
-  if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_rows());
+  return GC_get( 0, []( GenericContainer const & gc ) { return static_cast<int>(gc.num_rows()); } );
 }
 
 int
 GC_get_matrix_num_cols() {
-  if ( gc_active == nullptr ) return 0;
-  return static_cast<int>(gc_active->top()->num_cols());
+  return GC_get( 0, []( GenericContainer const & gc ) { return static_cast<int>(gc.num_cols()); } );
 }
 
 int
-- 
2.43.0


From 7bae36d3279c80371396508ae38eb232c98544a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:33 +0000
Subject: [PATCH 46/76] fix: read_formatted_data must not read the last row
 twice when the file does not end with a newline

---
 src/GenericContainerSupport.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 9b51fdc..44c8fa1 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -92,8 +92,7 @@ namespace GC_namespace {
   ) {
     unsigned nl = 0;
     do {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,8 +109,7 @@ namespace GC_namespace {
     unsigned nl      = 0;
     bool     comment = true;
     while ( comment ) {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From 368410d88bcab6b834a0a99d6cbe3e1daa67b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:33 +0000
Subject: [PATCH 47/76] fix: read_formatted_data must skip only the lines that
 begin with a comment character

---
 src/GenericContainerSupport.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 44c8fa1..f61db02 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -83,6 +83,14 @@ namespace GC_namespace {
   //  |___/_/  \___/   \__,_|\__|_|_|___/
   */
 
+  // a comment is a line whose first non blank character is in `commentchars`
+  static
+  bool
+  is_comment( string_view const line, string_view const commentchars ) {
+    string_type::size_type const pos{ line.find_first_not_of( " \t" ) };
+    return pos != string_type::npos && commentchars.find( line[pos] ) != string_type::npos;
+  }
+
   static
   unsigned
   get_line_and_skip_comments(
@@ -94,7 +102,7 @@ namespace GC_namespace {
     do {
       if ( !getline( stream, line ) ) { line.clear(); return 0; }
       ++nl;
-    } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
+    } while ( is_comment( line, commentchars ) );
     return nl;
   }
 
@@ -110,8 +118,7 @@ namespace GC_namespace {
     bool     comment = true;
     while ( comment ) {
       if ( !getline( stream, line ) ) { line.clear(); return 0; }
-      comment = line.empty() ||
-                line.find_first_of(commentchars) != string_type::npos;
+      comment = line.empty() || is_comment( line, commentchars );
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
         vec_string_type a_eq_b;
         tokenizeString( line.substr(2), a_eq_b, "=" );
-- 
2.43.0


From 9d03442b2a18d91bcecdaec86c8b19d07ea15af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:33 +0000
Subject: [PATCH 48/76] fix: write_table must refuse tables without one header
 per column or with columns of different length

---
 src/GenericContainerTables.cc | 42 +++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..4372458 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -30,6 +30,39 @@ namespace GC_namespace {
   #ifndef DOXYGEN_SHOULD_SKIP_THIS
   using namespace std;
 
+  // there must be one header for each column and all the columns must be equally long
+  static
+  void
+  check_table(
+    vec_string_type const & headers,
+    vector_type     const & data,
+    string_view     const   where
+  ) {
+    GC_ASSERT(
+      headers.size() == data.size(),
+      where << ", found " << headers.size() << " headers for " << data.size() << " columns"
+    )
+    for ( auto const & column : data ) {
+      GC_ASSERT(
+        column.get_num_elements() == data[0].get_num_elements(),
+        where << ", columns of different length"
+      )
+    }
+  }
+
+  static
+  void
+  check_table(
+    vec_string_type const & headers,
+    mat_real_type   const & data,
+    string_view     const   where
+  ) {
+    GC_ASSERT(
+      headers.size() == data.num_cols(),
+      where << ", found " << headers.size() << " headers for " << data.num_cols() << " columns"
+    )
+  }
+
   void
   write_table(
     vec_string_type const & headers,
@@ -38,7 +71,9 @@ namespace GC_namespace {
     char const              delimiter
   ) {
 
+    check_table( headers, data, "write_table" );
     auto const ncol{ static_cast<unsigned>(headers.size()) };
+    if ( ncol == 0 ) return;
     auto const nrow{ (data[0].get_num_elements()) };
 
     stream << headers[0];
@@ -62,7 +97,9 @@ namespace GC_namespace {
     char const              delimiter
   ) {
 
+    check_table( headers, data, "write_table" );
     auto const ncol{ (data.num_cols()) };
+    if ( ncol == 0 ) return;
     auto const nrow{ (data.num_rows()) };
 
     stream << headers[0];
@@ -85,10 +122,10 @@ namespace GC_namespace {
     ostream_type          & stream
   ) {
 
+    check_table( headers, data, "write_table_formatted" );
     auto const ncol{ static_cast<unsigned>(headers.size()) };
-    auto const nrow{ (data[0].get_num_elements()) };
-
     if ( ncol == 0 ) return;
+    auto const nrow{ (data[0].get_num_elements()) };
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
@@ -123,6 +160,7 @@ namespace GC_namespace {
     ostream_type          & stream
   ) {
 
+    check_table( headers, data, "write_table_formatted" );
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
-- 
2.43.0


From 3686b9d668866d05d38e81e1800eb49c2fd00981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:06 +0000
Subject: [PATCH 49/76] fix: from_json2 must keep all the members of an object,
 the nesting of arrays and forget the old content

---
 src_json_interface/from_json2.cc     | 1 +
 src_json_interface/jsonParser.tab.hh | 8 ++++----
 src_json_interface/jsonParser.yy     | 8 ++++----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 59eaa5d..81093c6 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -20,6 +20,7 @@ namespace GC_namespace {
     lexer.set_stream(&stream);
 
     // Crea il parser e passa il lexer
+    this->clear();
     GenericContainerWrapper gcw(this);
     yy::parser parser(lexer,&gcw);
 
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..b518f65 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -121,13 +121,13 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-      map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & gc{ m_stack.back()->get_map("GenericContainerWrapper")[s] };
+      gc.clear(); m_stack.push_back( &gc );
     }
 
     void pop() { m_stack.pop_back(); }
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..0e407d0 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -76,13 +76,13 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-      map_type & m{ get_gc()->set_map() };
-      m_stack.push_back( &m[s] );
+      GenericContainer & gc{ m_stack.back()->get_map("GenericContainerWrapper")[s] };
+      gc.clear(); m_stack.push_back( &gc );
     }
 
     void pop() { m_stack.pop_back(); }
-- 
2.43.0


From da39182247d28de7b590d1bce280065f92c1c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:06 +0000
Subject: [PATCH 50/76] fix: from_json2 must report what is not a JSON token as
 an error, not as the end of the text

---
 src_json_interface/jsonLexer.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..c81d1f8 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -29,10 +29,12 @@ namespace yy {
     do {
       char const & ch{*m_cursor};
       if      ( ch == '\n'  ) { ++m_lineno; m_colno = 1; }
-      else if ( isspace(ch) ) ++m_colno;
+      else if ( isspace(static_cast<unsigned char>(ch)) ) ++m_colno;
       else                    break;
     } while ( ++m_cursor != m_input.end() );
 
+    if ( m_cursor == m_input.end() ) return 0; // EOF
+
     auto res{yy::parser::token::ERROR};
 
     if ( !unicode_1(*m_cursor) ) return res;
@@ -72,7 +74,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // unterminated string
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -91,17 +93,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return res; // unterminated string
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // unterminated string
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return res; // unterminated string
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -153,7 +155,7 @@ namespace yy {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return res;            // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 88a6e8c2a511a9d25d1bbdbcab8b3ba1e7d580eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:57 +0000
Subject: [PATCH 51/76] fix: from_json2 must scan numbers by the JSON grammar,
 also at the end of the text, and not saturate big integers

---
 src_json_interface/jsonLexer.cc      | 46 ++++++++++++----------------
 src_json_interface/jsonParser.tab.hh |  6 +++-
 src_json_interface/jsonParser.yy     |  6 +++-
 3 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index c81d1f8..e1f8d3e 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -112,7 +112,6 @@ namespace yy {
         }
       }
       break;
-    case '+':
     case '-':
     case '0':
     case '1':
@@ -123,32 +122,25 @@ namespace yy {
     case '6':
     case '7':
     case '8':
-    case '9': // Numeri o altri caratteri
-      char const & ch0{*m_cursor};
-      int state{ (ch0 == '+' || ch0 == '-') ? 0 : 1 };
-      while ( ++m_cursor != m_input.end() ) {
-        char const & ch{*m_cursor};
-        m_lexeme += ch;
-        if ( isdigit(ch) ) {
-          if      ( state == 0 ) state = 1;
-          else if ( state == 3 ) state = 4;
-        } else if ( ch == '.' ) {
-          if ( state > 1 ) break;
-          state = 2;
-        } else if ( ch == 'e' || ch == 'E' ) {
-          if ( state > 2 || state == 0 ) break;
-          state = 3;
-        } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
-          state = 4;
-        } else {
-          //std::cout << "STATE = " << state << '\n';
-          m_lexeme.pop_back();
-          if      ( state == 1               ) res = yy::parser::token::INTEGER;
-          else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
-          break;
-        }
-      }
+    case '9': // Numeri: -? int frac? exp?
+      m_lexeme = "";
+      auto digits = [this]() -> bool {
+        bool found{false};
+        while ( m_cursor != m_input.end() && *m_cursor >= '0' && *m_cursor <= '9' )
+          { m_lexeme += *m_cursor++; found = true; }
+        return found;
+      };
+      auto accept = [this]( char a, char b ) -> bool {
+        if ( m_cursor == m_input.end() || ( *m_cursor != a && *m_cursor != b ) ) return false;
+        m_lexeme += *m_cursor++;
+        return true;
+      };
+      accept('-','-');
+      bool ok{ accept('0','0') || digits() };
+      bool is_float{false};
+      if ( ok && accept('.','.') ) { is_float = true; ok = digits(); }
+      if ( ok && accept('e','E') ) { is_float = true; accept('+','-'); ok = digits(); }
+      if ( ok ) res = is_float ? yy::parser::token::FLOAT : yy::parser::token::INTEGER;
       break;
     }
     if ( res == yy::parser::token::ERROR ) {
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index b518f65..25bc493 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -47,6 +47,7 @@
 // "%code requires" blocks.
 #line 4 "jsonParser.yy"
 
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -104,8 +105,11 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) {
+        gc->set_real( std::strtod( s.c_str(), nullptr ) );
+      } else if ( *end == '\0' ) {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index 0e407d0..11bb9f9 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -2,6 +2,7 @@
 %language "c++"
 
 %code requires {
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -59,8 +60,11 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
-      if ( *end == '\0' ) {
+      if ( errno == ERANGE ) {
+        gc->set_real( std::strtod( s.c_str(), nullptr ) );
+      } else if ( *end == '\0' ) {
         if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
-- 
2.43.0


From 4198e34a00c1c3beb61fa1db7e34fc27b9c223d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:32 +0000
Subject: [PATCH 52/76] fix: from_json2 must decode the \/ and \uXXXX escapes

---
 src_json_interface/jsonLexer.cc | 50 +++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index e1f8d3e..0383556 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -19,6 +19,40 @@ namespace yy {
 
   inline bool ok_unicode ( char c ) { return ( reinterpret_cast<unsigned char&>(c) & 0xC0 ) == 0x80; }
 
+  // legge le 4 cifre esadecimali dopo pos, che avanza sull'ultima; -1 se non ci sono
+  inline
+  long
+  hex4( std::string::const_iterator & pos, std::string::const_iterator end ) {
+    if ( end - pos < 5 ) return -1;
+    long code{0};
+    for ( int i{0}; i < 4; ++i ) {
+      unsigned char c = static_cast<unsigned char>(*++pos);
+      if ( !isxdigit(c) ) return -1;
+      code = 16*code + ( isdigit(c) ? c-'0' : (c|0x20)-'a'+10 );
+    }
+    return code;
+  }
+
+  inline
+  void
+  add_utf8( std::string & s, long code ) {
+    if ( code < 0x80 ) {
+      s += static_cast<char>( code );
+    } else if ( code < 0x800 ) {
+      s += static_cast<char>( 0xC0 | ( code >> 6 ) );
+      s += static_cast<char>( 0x80 | ( code & 0x3F ) );
+    } else if ( code < 0x10000 ) {
+      s += static_cast<char>( 0xE0 | ( code >> 12 ) );
+      s += static_cast<char>( 0x80 | ( ( code >> 6 ) & 0x3F ) );
+      s += static_cast<char>( 0x80 | ( code & 0x3F ) );
+    } else {
+      s += static_cast<char>( 0xF0 | ( code >> 18 ) );
+      s += static_cast<char>( 0x80 | ( ( code >> 12 ) & 0x3F ) );
+      s += static_cast<char>( 0x80 | ( ( code >> 6 ) & 0x3F ) );
+      s += static_cast<char>( 0x80 | ( code & 0x3F ) );
+    }
+  }
+
   // Restituisce il prossimo token
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
@@ -80,6 +114,22 @@ namespace yy {
             case 'n':  m_lexeme += '\n'; break;
             case 't':  m_lexeme += '\t'; break;
             case '\\': m_lexeme += '\\'; break;
+            case '/':  m_lexeme += '/';  break;
+            case 'u':
+              {
+                long code{ hex4( m_cursor, m_input.cend() ) };
+                if ( code >= 0xD800 && code <= 0xDBFF ) { // coppia di surrogati
+                  if ( m_input.cend() - m_cursor < 3 || m_cursor[1] != '\\' || m_cursor[2] != 'u' ) return res;
+                  m_cursor += 2;
+                  long low{ hex4( m_cursor, m_input.cend() ) };
+                  if ( low < 0xDC00 || low > 0xDFFF ) return res;
+                  code = 0x10000 + ( ( code - 0xD800 ) << 10 ) + ( low - 0xDC00 );
+                } else if ( code < 0 || ( code >= 0xDC00 && code <= 0xDFFF ) ) {
+                  return res;
+                }
+                add_utf8( m_lexeme, code );
+              }
+              break;
             case '"':  m_lexeme += '"';  break;
             case 'r':  m_lexeme += '\r'; break;
             case 'b':  m_lexeme += '\b'; break;
-- 
2.43.0


From 608e193577ca235fb5c8c2505ffbc0ccb7e74202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 53/76] fix: the Ruby interface must recognise integers (Fixnum
 does not exist any more)

---
 src_ruby_interface/GenericContainer_ffi.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 649c829..fa36312 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -292,7 +292,7 @@ module GenericContainer
     if vec[0].kind_of?(TrueClass) or vec[0].kind_of?(FalseClass) then
       ok = self.GC_set_empty_vector_of_bool
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(Fixnum) then
+    elsif vec[0].kind_of?(Integer) then
       ok = self.GC_set_empty_vector_of_int
       raise RuntimeError, @error_messages[ok] unless ok == 0
     elsif vec[0].kind_of?(Float) then
@@ -316,7 +316,7 @@ module GenericContainer
       elsif var.kind_of?(FalseClass) then
         ok = self.GC_push_bool 0
         raise RuntimeError, @error_messages[ok] unless ok == 0
-      elsif var.kind_of?(Fixnum) then
+      elsif var.kind_of?(Integer) then
         ok = self.GC_push_int var
         raise RuntimeError, @error_messages[ok] unless ok == 0
       elsif var.kind_of?(Float) then
@@ -365,7 +365,7 @@ module GenericContainer
     elsif var.kind_of?(FalseClass) then
       ok = self.GC_set_bool 0
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif var.kind_of?(Fixnum) then
+    elsif var.kind_of?(Integer) then
       ok = self.GC_set_int var
       raise RuntimeError, @error_messages[ok] unless ok == 0
     elsif var.kind_of?(Float) then
-- 
2.43.0


From 3b6b4948fe37f9b12e6628a0945e171330267a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 54/76] fix: booleans must come back to Ruby as booleans

---
 src_ruby_interface/GenericContainer_ffi.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index fa36312..5262868 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -150,7 +150,7 @@ module GenericContainer
   def self.toBoolVector
     nelem = self.GC_get_vector_size
     res = []
-    (0..nelem-1).each { |i| res << self.GC_get_bool_at_pos(i) }
+    (0..nelem-1).each { |i| res << (self.GC_get_bool_at_pos(i) != 0) }
     return res
   end
 
@@ -246,7 +246,7 @@ module GenericContainer
     #when /NOTYPE/
     #when /pointer/
     when /^bool_type$/
-      res = self.GC_get_bool
+      res = (self.GC_get_bool != 0)
     when /^int_type$/
       res = self.GC_get_int
     when /^long_type$/
-- 
2.43.0


From 113dfba02e3670ed829506fc107960a158f8089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 55/76] fix: Ruby arrays of elements of different kind must
 keep each element

---
 src_ruby_interface/GenericContainer_ffi.rb | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 5262868..82f3dbc 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -288,6 +288,19 @@ module GenericContainer
   #             |_____|                     |_____|
   #
   def self.addToVector(vec)
+    # only vectors of elements of the same kind can be stored as typed vectors
+    kinds = vec.map do |var|
+      case var
+      when true, false    then :bool
+      when Integer, Float then :number
+      when String, Symbol then :string
+      else                     :other
+      end
+    end
+    if kinds.uniq.length > 1 then
+      self.fromVector vec
+      return;
+    end
     # empty vectors
     if vec[0].kind_of?(TrueClass) or vec[0].kind_of?(FalseClass) then
       ok = self.GC_set_empty_vector_of_bool
-- 
2.43.0


From 2408d1ea4db25c0c937e02191c9c8f8f5cb487fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 56/76] fix: a failed load of a Ruby container must report its
 reason and not divert the next access

---
 src_ruby_interface/GenericContainer_ffi.rb | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 82f3dbc..ce0d4f7 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -35,6 +35,10 @@ module GenericContainer
                       "Generic Container, not empty",
                       "Generic Container, bad head" ];
 
+  def self.error_message(ok)
+    return @error_messages[ok] || "Generic Container, error #{ok}"
+  end
+
   if @libGenericContainer then
     ffi_lib @libGenericContainer
   else
@@ -424,7 +428,10 @@ module GenericContainer
 
     def load(data)
       ok = ::GenericContainer.GC_select @id
-      raise RuntimeError, @error_messages[ok] unless ok == 0
+      raise RuntimeError, ::GenericContainer.error_message(ok) unless ok == 0
+      # start from the root also if a previous load was interrupted
+      ok = ::GenericContainer.GC_reset_head
+      raise RuntimeError, ::GenericContainer.error_message(ok) unless ok == 0
       ::GenericContainer.GC_from_hash data
     end
 
@@ -434,13 +441,16 @@ module GenericContainer
 
     def get_data
       ok = ::GenericContainer.GC_select @id
-      raise RuntimeError, @error_messages[ok] unless ok == 0
+      raise RuntimeError, ::GenericContainer.error_message(ok) unless ok == 0
+      ok = ::GenericContainer.GC_reset_head
+      raise RuntimeError, ::GenericContainer.error_message(ok) unless ok == 0
       return ::GenericContainer.GC_to_hash
     end
 
     def dump
       ok = ::GenericContainer.GC_select @id
-      raise RuntimeError, @error_messages[ok] unless ok == 0
+      raise RuntimeError, ::GenericContainer.error_message(ok) unless ok == 0
+      ::GenericContainer.GC_reset_head
       ::GenericContainer.GC_dump
     end
 
-- 
2.43.0


From 56b637b21da1b04282819a247f51cd19ac0fa2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 57/76] fix: the finalizer must not keep alive the Ruby
 container it has to release

---
 src_ruby_interface/GenericContainer_ffi.rb | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index ce0d4f7..368bdb5 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -415,10 +415,15 @@ module GenericContainer
   class GenericContainer
     attr_reader :id
 
+    # a finalizer that does not keep alive the object
+    def self.finalizer(id)
+      return proc { ::GenericContainer.GC_delete id }
+    end
+
     def initialize
       @id = self.__id__.to_s
       ::GenericContainer.GC_new @id
-      ObjectSpace.define_finalizer(self, proc { ::GenericContainer.GC_delete @id })
+      ObjectSpace.define_finalizer(self, self.class.finalizer(@id))
       return @id
     end
 
-- 
2.43.0


From 7ca0ae9d89328ea45d66ac4bb959cba8acf83ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:14 +0000
Subject: [PATCH 58/76] fix: uint32 MATLAB values above the int range must not
 become negative

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 4e6137c..ac6fbb5 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -318,7 +318,7 @@ namespace GC_namespace {
           case mxINT16_CLASS:   mx_to_vec_int<int16_t>(mx,gc);   break;
           case mxUINT16_CLASS:  mx_to_vec_int<uint16_t>(mx,gc);  break;
           case mxINT32_CLASS:   mx_to_vec_int<int32_t>(mx,gc);   break;
-          case mxUINT32_CLASS:  mx_to_vec_int<uint32_t>(mx,gc);  break;
+          case mxUINT32_CLASS:  mx_to_vec_long<uint32_t>(mx,gc); break;
           case mxINT64_CLASS:   mx_to_vec_long<int64_t>(mx,gc);  break;
           case mxUINT64_CLASS:  mx_to_vec_long<uint64_t>(mx,gc); break;
           case mxSINGLE_CLASS:  mx_to_vec_real<float>(mx,gc);    break;
-- 
2.43.0


From ec0869fbeae132d847141178796511aee2a08df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:14 +0000
Subject: [PATCH 59/76] fix: the conversion of an empty map to MATLAB must not
 access the front of an empty vector

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index ac6fbb5..97a402c 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -639,7 +639,7 @@ namespace GC_namespace {
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im )
           fieldnames.push_back(im->first.data());
 
-        mx = mxCreateStructMatrix(1,1,nfield,&fieldnames.front());
+        mx = mxCreateStructMatrix(1,1,nfield,fieldnames.data());
 
         int ifield = 0;
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im, ++ifield ) {
-- 
2.43.0


From 742010237661b1a866e1e3029a2e6b6ab9a8a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:14 +0000
Subject: [PATCH 60/76] fix: to_mxArray must honour the length of a string_view
 and print nothing

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 97a402c..d2f1fe4 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -368,7 +368,7 @@ namespace GC_namespace {
 
   void
   to_mxArray( string_view val, mxArray * & mx ) {
-    mx = mxCreateString( val.data() );
+    mx = mxCreateString( string(val).data() ); // val may be not terminated
   }
 
   void
@@ -381,7 +381,6 @@ namespace GC_namespace {
 
   void
   to_mxArray( vec_int_type const & val, mxArray * & mx ) {
-  cout << "in  to_mxArray( vec_int_type\n";
     mwSize dims[2] = { mwSize(val.size()), 1 };
     mx = mxCreateNumericArray(2,dims,mxINT32_CLASS,mxREAL);
     int32_t * ptr = static_cast<int32_t*>(mxGetData(mx));
-- 
2.43.0


From 6eafa99131537f3a54bd5e35bcf87cf953351639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:14 +0000
Subject: [PATCH 61/76] fix: a logical sparse matrix must not be read as a real
 one

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index d2f1fe4..e84e40b 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -251,6 +251,13 @@ namespace GC_namespace {
     for ( unsigned i = 0; i <= nc; ++i ) jc[i] = jcs[i];
     for ( unsigned i = 0; i < nnz; ++i ) ir[i] = irs[i];
 
+    if ( mxIsLogical( mx ) ) {
+      mxLogical const * sl = mxGetLogicals(mx);
+      vec_real_type & val = gc["values"].set_vec_real( nnz );
+      for ( unsigned i = 0; i < nnz; ++i ) val[i] = sl[i] ? 1 : 0;
+      return;
+    }
+
     real_type * sr = mxGetPr(mx);
     if ( mxIsComplex( mx ) ) {
       real_type * si = mxGetPi(mx);
-- 
2.43.0


From 83228f6aa9eee69846bde9641a1b587b583e9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:31 +0000
Subject: [PATCH 62/76] fix: dump must use the requested indentation at every
 level

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index dea0bae..793cc95 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3558,7 +3558,7 @@ namespace GC_namespace {
             vi.dump(stream,"");
           } else {
             stream << prefix << i << ":\n";
-            vi.dump(stream,prefix2);
+            vi.dump(stream,prefix2,indent);
           }
         }
       }
@@ -3589,7 +3589,7 @@ namespace GC_namespace {
                 stream << ':';
               }
               stream << '\n';
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           } else {
             string_type header = pcreExecRet == 3 ? matches[3] : fst;
@@ -3598,7 +3598,7 @@ namespace GC_namespace {
               snd.dump(stream,"");
             } else {
               stream << prefix << header << ":\n";
-              snd.dump(stream,prefix2);
+              snd.dump(stream,prefix2,indent);
             }
           }
         }
-- 
2.43.0


From abd8df03e861ee8e6cc500311056430d2cc7cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:39 +0000
Subject: [PATCH 63/76] fix: printing must not overflow the stack on long keys

---
 src/GenericContainer.cc | 45 ++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 793cc95..23df66e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -37,7 +37,8 @@
   #error This library needs at least a C++11 compliant compiler
 #endif
 
-#include <regex>
+#include <algorithm>
+#include <cctype>
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -265,26 +266,42 @@ namespace GC_namespace {
   template ostream_type & operator << ( ostream_type & s, mat_type<real_type>    const & m );
   //template ostream_type & operator << ( ostream_type & s, mat_type<complex_type> const & m );
 
+  // match ^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$ (std::regex overflows the stack on long strings)
   class Pcre_for_GC {
 
-    std::regex  reCompiled;
-    std::smatch reMatches;
-
   public:
 
-    Pcre_for_GC()
-    : reCompiled(R"(^\s*\d+\s*(##?)(-|=|~|_|)\s*(.*)$)")
-    { }
-
+    Pcre_for_GC() = default;
     ~Pcre_for_GC() = default;
 
     int
-    exec( string_view const str_in, string_type matches[4] ) {
-      if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
-        for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
-        return static_cast<int>(reMatches.size());
-      }
-      return 0;
+    exec( string_view const str, string_type matches[4] ) const {
+      size_t pos{0};
+      auto skip = [&str,&pos]( int (*is_class)( int ) ) -> bool {
+        size_t const from{pos};
+        while ( pos < str.length() && is_class( static_cast<unsigned char>(str[pos]) ) ) ++pos;
+        return pos > from;
+      };
+      auto is = [&str,&pos]( string_view const chars ) -> bool
+      { return pos < str.length() && chars.find(str[pos]) != string_view::npos; };
+
+      skip( std::isspace );
+      if ( !skip( std::isdigit ) ) return 0;
+      skip( std::isspace );
+      size_t const mark{pos};
+      if ( !is( "#" ) ) return 0;
+      ++pos;
+      if ( is( "#" ) ) ++pos;
+      size_t const line{pos};
+      if ( is( "-=~_" ) ) ++pos;
+      size_t const line_end{pos};
+      skip( std::isspace );
+      if ( str.find_first_of( "\n\r", pos ) != string_view::npos ) return 0;
+      matches[0] = str;
+      matches[1] = str.substr( mark, line-mark );
+      matches[2] = str.substr( line, line_end-line );
+      matches[3] = str.substr( pos );
+      return 4;
     }
   };
 
-- 
2.43.0


From 4b57ec6d50f72e0e0026651ed9dba06360faa6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:54 +0000
Subject: [PATCH 64/76] fix: a failed allocation must not leave a container
 with a type but no data, nor leak a half built copy

---
 include/GenericContainer/GenericContainer.hh |  8 ++---
 src/GenericContainer.cc                      | 36 ++++++++++----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 668fb6e..2445b93 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -3861,21 +3861,21 @@ namespace GC_namespace {
     //! \param[in] a initializer data
     //!
     GenericContainer( char const * a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string_view a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a pointer
@@ -3889,7 +3889,7 @@ namespace GC_namespace {
     //! \param[in] gc initializer data
     //!
     GenericContainer( GenericContainer const & gc )
-    : m_data_type(GC_type::NOTYPE) { this->from_gc(gc); }
+    : GenericContainer() { this->from_gc(gc); }
 
     ///@}
 
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 23df66e..8824b38 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -790,8 +790,8 @@ namespace GC_namespace {
   GenericContainer::allocate_string() {
     if ( m_data_type != GC_type::STRING ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type;
+      m_data_type = GC_type::STRING;
     }
   }
 
@@ -799,8 +799,8 @@ namespace GC_namespace {
   GenericContainer::allocate_complex() {
     if ( m_data_type != GC_type::COMPLEX ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     }
   }
 
@@ -808,8 +808,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_pointer( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_POINTER ) {
       clear();
-      m_data_type = GC_type::VEC_POINTER;
       m_data.v_p  = new vec_pointer_type();
+      m_data_type = GC_type::VEC_POINTER;
     }
     m_data.v_p->resize( sz );
   }
@@ -832,8 +832,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_bool( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_BOOL ) {
       clear();
-      m_data_type = GC_type::VEC_BOOL;
       m_data.v_b  = new vec_bool_type();
+      m_data_type = GC_type::VEC_BOOL;
     }
     m_data.v_b->resize( sz );
   }
@@ -842,8 +842,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_int( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_INTEGER ) {
       clear();
-      m_data_type = GC_type::VEC_INTEGER;
       m_data.v_i  = new vec_int_type();
+      m_data_type = GC_type::VEC_INTEGER;
     }
     m_data.v_i->resize( sz );
   }
@@ -852,8 +852,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_long( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_LONG ) {
       clear();
-      m_data_type = GC_type::VEC_LONG;
       m_data.v_l  = new vec_long_type();
+      m_data_type = GC_type::VEC_LONG;
     }
     m_data.v_l->resize( sz );
   }
@@ -862,8 +862,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_real( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_REAL ) {
       clear();
-      m_data_type = GC_type::VEC_REAL;
       m_data.v_r  = new vec_real_type();
+      m_data_type = GC_type::VEC_REAL;
     }
     m_data.v_r->resize( sz );
   }
@@ -872,8 +872,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_complex( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_COMPLEX ) {
       clear();
-      m_data_type = GC_type::VEC_COMPLEX;
       m_data.v_c  = new vec_complex_type();
+      m_data_type = GC_type::VEC_COMPLEX;
     }
     m_data.v_c->resize( sz );
   }
@@ -882,8 +882,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_int( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_INTEGER ) {
       clear();
-      m_data_type = GC_type::MAT_INTEGER;
       m_data.m_i  = new mat_int_type( nr, nc );
+      m_data_type = GC_type::MAT_INTEGER;
     } else {
       m_data.m_i->resize( nr, nc );
     }
@@ -893,8 +893,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_long( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_LONG ) {
       clear();
-      m_data_type = GC_type::MAT_LONG;
       m_data.m_l  = new mat_long_type( nr, nc );
+      m_data_type = GC_type::MAT_LONG;
     } else {
       m_data.m_l->resize( nr, nc );
     }
@@ -904,8 +904,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_real( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_REAL ) {
       clear();
-      m_data_type = GC_type::MAT_REAL;
       m_data.m_r  = new mat_real_type( nr, nc );
+      m_data_type = GC_type::MAT_REAL;
     } else {
       m_data.m_r->resize( nr, nc );
     }
@@ -915,8 +915,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_complex( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_COMPLEX ) {
       clear();
-      m_data_type = GC_type::MAT_COMPLEX;
       m_data.m_c  = new mat_complex_type( nr, nc );
+      m_data_type = GC_type::MAT_COMPLEX;
     } else {
       m_data.m_c->resize( nr, nc );
     }
@@ -926,8 +926,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_string( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_STRING ) {
       clear();
-      m_data_type = GC_type::VEC_STRING;
       m_data.v_s  = new vec_string_type();
+      m_data_type = GC_type::VEC_STRING;
     }
     m_data.v_s->resize( sz );
   }
@@ -936,8 +936,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vector( unsigned const sz ) {
     if ( m_data_type != GC_type::VECTOR ) {
       clear();
-      m_data_type = GC_type::VECTOR;
       m_data.v    = new vector_type();
+      m_data_type = GC_type::VECTOR;
     }
     m_data.v->resize( sz );
   }
@@ -946,8 +946,8 @@ namespace GC_namespace {
   GenericContainer::allocate_map() {
     if ( m_data_type != GC_type::MAP ) {
       clear();
-      m_data_type = GC_type::MAP;
       m_data.m    = new map_type();
+      m_data_type = GC_type::MAP;
     } else {
       m_data.m->clear();
     }
@@ -1004,8 +1004,8 @@ namespace GC_namespace {
   complex_type &
   GenericContainer::set_complex( real_type const re, real_type const im ) {
     clear();
-    m_data_type = GC_type::COMPLEX;
     m_data.c    = new complex_type(re,im);
+    m_data_type = GC_type::COMPLEX;
     return *m_data.c;
   }
 
@@ -2132,8 +2132,8 @@ namespace GC_namespace {
   GenericContainer::get_complex( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     } else {
       ck(where,GC_type::COMPLEX);
     }
@@ -2150,8 +2150,8 @@ namespace GC_namespace {
   GenericContainer::get_string( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type("");
+      m_data_type = GC_type::STRING;
     } else {
       ck(where,GC_type::STRING);
     }
-- 
2.43.0


From 112150f2ebcecacf37ccc890c587d6466f049eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:41 +0000
Subject: [PATCH 65/76] fix: promotions must not leak the old vector when an
 allocation fails

---
 src/GenericContainerPromote.cc | 109 +++++++++++----------------------
 1 file changed, 37 insertions(+), 72 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 2f82689..fc45f7e 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -26,6 +26,7 @@
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <memory>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -1294,12 +1295,11 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_int(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_i)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1351,21 +1351,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_l)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_l)[i] = static_cast<int_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG: // nothing to do
@@ -1420,30 +1418,27 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b}; // salva puntatore
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_r)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i}; // salva puntatore
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l}; // salva puntatore
+      { std::unique_ptr<vec_long_type const> v_l{m_data.v_l}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
@@ -1502,39 +1497,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_b)[i] ? 1: 0, 0 );
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_i)[i]) , 0 );
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_l)[i]), 0 );
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_r)[i], 0 );
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
@@ -1573,21 +1564,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_i)(i,0) = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -1631,39 +1620,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_l)(i,0) = static_cast<long_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_l)(i,0) = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_l)[i] = static_cast<long_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
@@ -1711,57 +1696,51 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_r)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_l)[i]);
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
@@ -1812,66 +1791,59 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> v_l{m_data.v_l};
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_c)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_i)[i]), 0 );
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_l)[i]), 0 );
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
-      { mat_real_type const * m_r{m_data.m_r};
+      { std::unique_ptr<mat_real_type const> m_r{m_data.m_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_r->num_rows(),m_r->num_cols());
         for ( unsigned i{0}; i < m_r->size(); ++i )
           (*m_data.m_c)[i] = complex_type((*m_r)[i],0);
-        delete m_r;
       }
       break;
     case GC_type::MAT_COMPLEX:
@@ -1917,66 +1889,59 @@ namespace GC_namespace {
       { string_type const tmp(*m_data.s); set_vector(1); (*this)[0] = tmp; }
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const * v_p{m_data.v_p};
+      { std::unique_ptr<vec_pointer_type const> v_p{m_data.v_p};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_p->size());
         for ( unsigned i{0}; i < v_p->size(); ++i )
           (*m_data.v)[i] = (*v_p)[i];
-        delete v_p;
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v)[i] = (*v_b)[i];
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vector(static_cast<unsigned>(v_i->size()));
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v)[i] = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v)[i] = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v)[i] = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      { vec_complex_type const * v_c{m_data.v_c};
+      { std::unique_ptr<vec_complex_type const> v_c{m_data.v_c};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_c->size());
         for ( unsigned i{0}; i < v_c->size(); ++i )
           (*m_data.v)[i] = (*v_c)[i];
-        delete v_c;
       }
       break;
     case GC_type::VEC_STRING:
-      { vec_string_type const * v_s{m_data.v_s};
+      { std::unique_ptr<vec_string_type const> v_s{m_data.v_s};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_s->size());
         for ( unsigned i{0}; i < v_s->size(); ++i )
           (*m_data.v)[i] = (*v_s)[i];
-        delete v_s;
       }
       break;
     case GC_type::VECTOR:
-- 
2.43.0


From fd8a7d7015df5ce3cfde2e11964c64d2d3d1eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:17 +0000
Subject: [PATCH 66/76] fix: the YAML reader must understand one character
 block scalars, blanks in plain scalars and keys, and the NUL escape

---
 .../fkYAML/detail/encodings/yaml_escaper.hpp  |  3 +++
 .../fkYAML/detail/input/lexical_analyzer.hpp  | 24 ++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp b/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp
index 464d272..3a57d9d 100644
--- a/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp
+++ b/src_yaml_interface/fkYAML/detail/encodings/yaml_escaper.hpp
@@ -27,6 +27,9 @@ public:
         bool ret = true;
 
         switch (*++begin) {
+        case '0':
+            buff.push_back('\0');
+            break;
         case 'a':
             buff.push_back('\a');
             break;
diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 3e8a232..e6fbc0c 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -873,8 +873,10 @@ private:
                 pos = non_space_pos;
                 break;
             }
-            case ' ':
-                if FK_YAML_UNLIKELY (pos == sv.size() - 1) {
+            case ' ': {
+                // the first character after the (possibly several) white spaces
+                const std::size_t next_pos = sv.find_first_not_of(" \t", pos);
+                if FK_YAML_UNLIKELY (next_pos == str_view::npos) {
                     // trim trailing space.
                     ends_loop = true;
                     break;
@@ -884,16 +886,16 @@ private:
                 // followed by the comment prefix " #".
                 // Also, flow indicators are not allowed to be followed after a space in a flow context.
                 // See https://yaml.org/spec/1.2.2/#733-plain-style for more details.
-                switch (sv[pos + 1]) {
-                case ' ':
-                case '\t':
+                switch (sv[next_pos]) {
                 case '\n':
                 case '#':
                     ends_loop = true;
                     break;
                 case ':':
-                    // " :" is permitted in a plain style string token, but not when followed by a space.
-                    ends_loop = (pos < sv.size() - 2) && (sv[pos + 2] == ' ');
+                    // " :" is permitted in a plain style string token, but not when followed by a white space.
+                    ends_loop =
+                        (next_pos + 1 >= sv.size()) || sv[next_pos + 1] == ' ' || sv[next_pos + 1] == '\t' ||
+                        sv[next_pos + 1] == '\n';
                     break;
                 case '{':
                 case '}':
@@ -906,6 +908,7 @@ private:
                     break;
                 }
                 break;
+            }
             case ':':
                 if FK_YAML_LIKELY (pos + 1 < sv.size()) {
                     switch (sv[pos + 1]) {
@@ -918,6 +921,10 @@ private:
                         break;
                     }
                 }
+                else {
+                    // a key at the very end of the input
+                    ends_loop = true;
+                }
                 break;
             case '{':
             case '}':
@@ -1009,7 +1016,8 @@ private:
             emit_error("The first non-empty line in the block scalar is less indented.");
         }
 
-        std::size_t last_newline_pos = sv.find('\n', cur_itr - m_token_begin_itr + 1);
+        // cur_itr is already past the first content character, which may be the only one on its line.
+        std::size_t last_newline_pos = sv.find('\n', cur_itr - m_token_begin_itr);
         if (last_newline_pos == str_view::npos) {
             last_newline_pos = remain_input_len;
         }
-- 
2.43.0


From 1f5464c43b7338929d46d0ab66de6875ba7863d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:17 +0000
Subject: [PATCH 67/76] fix: the YAML reader must not read past the end of text
 with a truncated UTF-8 character

---
 src_yaml_interface/fkYAML/detail/input/input_adapter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
index af74b16..d92a94e 100644
--- a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
@@ -820,6 +820,9 @@ private:
         while (current != end) {
             const auto first = static_cast<uint8_t>(*current++);
             const uint32_t num_bytes = utf8::get_num_bytes(first);
+            if FK_YAML_UNLIKELY (static_cast<std::ptrdiff_t>(num_bytes) - 1 > std::distance(current, end)) {
+                throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first});
+            }
 
             switch (num_bytes) {
             case 1:
-- 
2.43.0


From 4d264e1622d2eeee6418d827f1b9ebe5b6abfb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:17 +0000
Subject: [PATCH 68/76] fix: malformed or recursive YAML must be refused
 instead of aborting the program

---
 .../fkYAML/detail/input/deserializer.hpp      | 25 +++++++++++++++++-
 src_yaml_interface/from_yaml.cc               | 26 +++++++++++++++----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 2e9c586..14efe3c 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -108,6 +108,29 @@ class basic_deserializer {
         basic_node_type* p_node {nullptr};
     };
 
+    /// @brief Stack of parse contexts which reports a missing context (due to a malformed document) with an exception.
+    class context_stack : public std::deque<parse_context> {
+        using base = std::deque<parse_context>;
+
+    public:
+        parse_context& back() {
+            check();
+            return base::back();
+        }
+
+        void pop_back() {
+            check();
+            base::pop_back();
+        }
+
+    private:
+        void check() const {
+            if FK_YAML_UNLIKELY (this->empty()) {
+                throw fkyaml::exception("Detected invalid structure of a YAML document.");
+            }
+        }
+    };
+
     /// @brief Definitions of state types for expected flow token hints.
     enum class flow_token_state_t : std::uint8_t {
         NEEDS_VALUE_OR_SUFFIX,     //!< Either value or flow suffix (`]` or `}`)
@@ -1316,7 +1339,7 @@ private:
     /// The currently focused YAML node.
     basic_node_type* mp_current_node {nullptr};
     /// The stack of parse contexts.
-    std::deque<parse_context> m_context_stack {};
+    context_stack m_context_stack {};
     /// The current depth of flow contexts.
     uint32_t m_flow_context_depth {0};
     /// The set of YAML directives.
diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 6f15fc3..0659cc0 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -39,9 +39,17 @@
 #include <complex>
 #include <cstdint>
 #include <regex>
+#include <set>
 #include <limits>
 #include <cstdlib>
 
+#include <stdexcept>
+
+// malformed documents can violate the assumptions of the parser: report them
+// with an exception (from_yaml returns false) instead of aborting the program
+// or, with NDEBUG, going on.
+#define FK_YAML_ASSERT(x) ( ( x ) ? static_cast<void>( 0 ) : throw std::runtime_error( "malformed YAML document" ) )
+
 //#include "yaml-cpp/yaml.h"
 #include "fkYAML/node.hpp"
 
@@ -59,9 +67,11 @@ namespace GC_namespace {
   using std::numeric_limits;
   using std::size_t;
 
+  // `open` collects the sequences and mappings that are being converted: an
+  // alias inside the node it refers to has no finite value
   static
   bool
-  YAML_to_GC( fkyaml::node const & node, GenericContainer & gc ) {
+  YAML_to_GC( fkyaml::node const & node, GenericContainer & gc, std::set<void const*> & open ) {
     // Controlla il tipo di nodo
     bool ok{true};
     switch (node.get_type()) {
@@ -91,20 +101,25 @@ namespace GC_namespace {
         break;
       }
       case fkyaml::node_type::SEQUENCE: {
-        size_t N{node.size()};
+        auto & sequence = node.get_value_ref<const fkyaml::node::sequence_type&>();
+        if ( !open.insert( &sequence ).second ) throw std::runtime_error( "recursive alias" );
+        size_t N{sequence.size()};
         vector_type & V{ gc.set_vector( N ) };
         for ( size_t i{0}; ok && i < N; ++i )
-          ok = YAML_to_GC( node[i], V[i] );
+          ok = YAML_to_GC( sequence[i], V[i], open );
+        open.erase( &sequence );
         break;
       }
       case fkyaml::node_type::MAPPING: {
         map_type & M{ gc.set_map() };
         auto & mapping = node.get_value_ref<const fkyaml::node::mapping_type&>();
+        if ( !open.insert( &mapping ).second ) throw std::runtime_error( "recursive alias" );
         for ( auto & it : mapping ) {
           GenericContainer & gcm = M[it.first.get_value<string>()];
-          ok = YAML_to_GC( it.second, gcm );
+          ok = YAML_to_GC( it.second, gcm, open );
           if ( !ok ) break;
         }
+        open.erase( &mapping );
         break;
       }
     }
@@ -117,7 +132,8 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       fkyaml::node root = fkyaml::node::deserialize(stream);
-      ok = YAML_to_GC( root, *this );
+      std::set<void const*> open;
+      ok = YAML_to_GC( root, *this, open );
       if ( ok ) this->collapse();
     }
     catch ( std::exception const & e ) {
-- 
2.43.0


From 7bca9405ef6027dd261ade727aa7b23c52b0d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 69/76] fix: file_YAML_to_GC must honour the length of the file
 name

---
 include/GenericContainer/GenericContainerInterface_yaml.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GenericContainer/GenericContainerInterface_yaml.hh b/include/GenericContainer/GenericContainerInterface_yaml.hh
index 595d29e..f8a98b9 100644
--- a/include/GenericContainer/GenericContainerInterface_yaml.hh
+++ b/include/GenericContainer/GenericContainerInterface_yaml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{string(file_name)};
     gc.clear();
     return gc.from_yaml( stream );
   }
-- 
2.43.0


From 1004e2756fe0ca350c72371953d26f39e0780d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 70/76] fix: file_TOML_to_GC must honour the length of the file
 name

---
 include/GenericContainer/GenericContainerInterface_toml.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GenericContainer/GenericContainerInterface_toml.hh b/include/GenericContainer/GenericContainerInterface_toml.hh
index 2302031..1ee0f72 100644
--- a/include/GenericContainer/GenericContainerInterface_toml.hh
+++ b/include/GenericContainer/GenericContainerInterface_toml.hh
@@ -55,7 +55,7 @@ namespace GC_namespace {
     string_view        file_name,
     GenericContainer & gc
   ) {
-    ifstream stream(file_name.data());
+    ifstream stream{string(file_name)};
     gc.clear();
     return gc.from_toml( stream );
   }
-- 
2.43.0


From cc92524ecfb05e86fbe05c24b30ea9bb170d406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 71/76] fix: exception must not read past the end of the
 message

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 8824b38..bcac3d4 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3898,7 +3898,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::exception( string_view const where ) {
-    throw std::runtime_error(where.data());
+    throw std::runtime_error(string(where));
   }
 
   // instantate classes
-- 
2.43.0


From f220e1f6aad100dec4bad52e714ffa773f9b2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:56 +0000
Subject: [PATCH 72/76] fix: promote_to_mat_complex must accept vectors of
 complex numbers, as documented

---
 src/GenericContainerPromote.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index fc45f7e..ce0400c 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1822,6 +1822,14 @@ namespace GC_namespace {
           (*m_data.m_c)(i,0) = (*v_r)[i];
       }
       break;
+    case GC_type::VEC_COMPLEX:
+      { std::unique_ptr<vec_complex_type const> v_c{m_data.v_c};
+        m_data_type = GC_type::NOTYPE;
+        set_mat_complex(static_cast<unsigned>(v_c->size()),1);
+        for ( unsigned i{0}; i < v_c->size(); ++i )
+          (*m_data.m_c)(i,0) = (*v_c)[i];
+      }
+      break;
     case GC_type::MAT_INTEGER:
       { std::unique_ptr<mat_int_type const> m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
@@ -1852,7 +1860,6 @@ namespace GC_namespace {
     case GC_type::COMPLEX:
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
-    case GC_type::VEC_COMPLEX:
     case GC_type::VEC_STRING:
     case GC_type::VECTOR:
     case GC_type::MAP:
-- 
2.43.0


From 911f8203e3a78a96e04059731d2a18339acb9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 73/76] fix: every refused call that takes a position must
 report it

---
 src/GenericContainer.cc        | 15 ++++++++-------
 src/GenericContainerPromote.cc |  8 ++++----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index bcac3d4..b6ab970 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1986,7 +1986,7 @@ namespace GC_namespace {
     case GC_type::MAT_INTEGER: return (*m_data.m_i)[i];
     case GC_type::MAT_LONG:    return (*m_data.m_l)[i];
     case GC_type::MAT_REAL:    return (*m_data.m_r)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_number();
+    case GC_type::VECTOR:      return (*m_data.v)[i].get_number( where );
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
@@ -2021,7 +2021,7 @@ namespace GC_namespace {
     case GC_type::MAT_LONG:    return {static_cast<real_type>( (*m_data.m_l)[i] ),0};
     case GC_type::MAT_REAL:    return {(*m_data.m_r)[i],0};
     case GC_type::MAT_COMPLEX: return (*m_data.m_c)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_complex_number();
+    case GC_type::VECTOR:      return (*m_data.v)[i].get_complex_number( where );
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
@@ -2265,10 +2265,8 @@ namespace GC_namespace {
   mat_int_type &
   GenericContainer::get_mat_int( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) set_mat_int();
-    if ( m_data_type == GC_type::VEC_BOOL    ||
-         m_data_type == GC_type::VEC_INTEGER ||
-         m_data_type == GC_type::VEC_LONG    ||
-         m_data_type == GC_type::VEC_REAL ) promote_to_mat_int();
+    if ( m_data_type == GC_type::VEC_BOOL ||
+         m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     ck(where,GC_type::MAT_INTEGER);
     return *m_data.m_i;
   }
@@ -2285,7 +2283,6 @@ namespace GC_namespace {
     if ( m_data_type == GC_type::VEC_BOOL    ||
          m_data_type == GC_type::VEC_INTEGER ||
          m_data_type == GC_type::VEC_LONG    ||
-         m_data_type == GC_type::VEC_REAL    ||
          m_data_type == GC_type::MAT_INTEGER ) promote_to_mat_long();
     ck(where,GC_type::MAT_LONG);
     return *m_data.m_l;
@@ -3187,6 +3184,10 @@ namespace GC_namespace {
   complex_type const &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_COMPLEX);
+    GC_ASSERT(
+      i < m_data.m_c->num_rows() && j < m_data.m_c->num_cols(),
+      where << " get_complex_at( " << i << ", " << j << " ) const, out of range"
+    )
     return (*m_data.m_c)(i,j);
   }
 
diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index ce0400c..5d9e7fc 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -170,7 +170,7 @@ namespace GC_namespace {
         val = static_cast<int_type>(cval.real());
         break;
       case GC_type::VECTOR:
-        val = (*this)(i).get_as_int("GenericContainer::copyto_vec_int ");
+        val = (*this)(i).get_as_int( where );
         break;
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -317,7 +317,7 @@ namespace GC_namespace {
         val = static_cast<uint_type>(cval.real());
         break;
       case GC_type::VECTOR:
-        val = (*this)(i).get_as_uint("GenericContainer::copyto_vec_uint ");
+        val = (*this)(i).get_as_uint( where );
         break;
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -426,7 +426,7 @@ namespace GC_namespace {
         val = static_cast<long_type>(cval.real());
         break;
       case GC_type::VECTOR:
-        val = (*this)(i).get_as_long("copyto_vec_long");
+        val = (*this)(i).get_as_long( where );
         break;
       case GC_type::NOTYPE:
       case GC_type::POINTER:
@@ -573,7 +573,7 @@ namespace GC_namespace {
         val = static_cast<ulong_type>(cval.real());
         break;
       case GC_type::VECTOR:
-        val = (*this)(i).get_as_ulong("copyto_vec_ulong");
+        val = (*this)(i).get_as_ulong( where );
         break;
       case GC_type::NOTYPE:
       case GC_type::POINTER:
-- 
2.43.0


From 82c06e68b491e4a3530b351a2a03f94c25b072a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:28 +0000
Subject: [PATCH 74/76] fix: values that live inside the container must survive
 being stored into or pushed onto it

---
 include/GenericContainer/GenericContainer.hh |  3 +
 src/GenericContainer.cc                      | 58 ++++++++++++++------
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 2445b93..656f99d 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -641,6 +641,9 @@ namespace GC_namespace {
     DataStorage m_data;                       //!< The actual data stored in the container.
     TypeAllowed m_data_type{GC_type::NOTYPE}; //!< The type of data currently stored.
 
+    //! \brief Moves the content to `old` (which must be empty), to release it later.
+    void move_content_to( GenericContainer & old );
+
     //! \brief Allocates memory for a string.
     void allocate_string();
 
diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index b6ab970..f48b4a8 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -369,43 +369,37 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
-    set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    set_vec_bool( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
-    set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    set_vec_int( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
-    set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    set_vec_long( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
-    set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    set_vec_real( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
-    set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    set_vec_complex( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
-    set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    set_vec_string( a );
     return *this;
   }
 
@@ -953,6 +947,12 @@ namespace GC_namespace {
     }
   }
 
+  void
+  GenericContainer::move_content_to( GenericContainer & old ) {
+    std::swap( m_data,      old.m_data );
+    std::swap( m_data_type, old.m_data_type );
+  }
+
   /*
   //   ____       _
   //  / ___|  ___| |_
@@ -1011,6 +1011,8 @@ namespace GC_namespace {
 
   string_type &
   GenericContainer::set_string( string_view const value ) {
+    GenericContainer old; // value may be part of the old content
+    if ( m_data_type != GC_type::STRING ) move_content_to( old );
     allocate_string();
     return (*m_data.s = value);
   }
@@ -1023,6 +1025,8 @@ namespace GC_namespace {
 
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_POINTER ) move_content_to( old );
     allocate_vec_pointer( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_p->begin() );
     return *m_data.v_p;
@@ -1035,6 +1039,8 @@ namespace GC_namespace {
 
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_BOOL ) move_content_to( old );
     allocate_vec_bool( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_b->begin() );
     return *m_data.v_b;
@@ -1048,6 +1054,8 @@ namespace GC_namespace {
 
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_INTEGER ) move_content_to( old );
     allocate_vec_int( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_i->begin() );
     return *m_data.v_i;
@@ -1061,6 +1069,8 @@ namespace GC_namespace {
 
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_LONG ) move_content_to( old );
     allocate_vec_long( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_l->begin() );
     return *m_data.v_l;
@@ -1074,6 +1084,8 @@ namespace GC_namespace {
 
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_REAL ) move_content_to( old );
     allocate_vec_real( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_r->begin() );
     return *m_data.v_r;
@@ -1087,6 +1099,8 @@ namespace GC_namespace {
 
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_COMPLEX ) move_content_to( old );
     allocate_vec_complex( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_c->begin() );
     return *m_data.v_c;
@@ -1100,6 +1114,8 @@ namespace GC_namespace {
 
   mat_int_type &
   GenericContainer::set_mat_int( mat_int_type const & m ) {
+    GenericContainer old; // m may be part of the old content
+    if ( m_data_type != GC_type::MAT_INTEGER ) move_content_to( old );
     allocate_mat_int( m.num_rows(), m.num_cols() );
     std::copy( m.begin(), m.end(), m_data.m_i->begin() );
     return *m_data.m_i;
@@ -1113,6 +1129,8 @@ namespace GC_namespace {
 
   mat_long_type &
   GenericContainer::set_mat_long( mat_long_type const & m ) {
+    GenericContainer old; // m may be part of the old content
+    if ( m_data_type != GC_type::MAT_LONG ) move_content_to( old );
     allocate_mat_long( m.num_rows(), m.num_cols() );
     std::copy( m.begin(), m.end(), m_data.m_l->begin() );
     return *m_data.m_l;
@@ -1126,6 +1144,8 @@ namespace GC_namespace {
 
   mat_real_type &
   GenericContainer::set_mat_real( mat_real_type const & m ) {
+    GenericContainer old; // m may be part of the old content
+    if ( m_data_type != GC_type::MAT_REAL ) move_content_to( old );
     allocate_mat_real( m.num_rows(), m.num_cols() );
     std::copy( m.begin(), m.end(), m_data.m_r->begin() );
     return *m_data.m_r;
@@ -1139,6 +1159,8 @@ namespace GC_namespace {
 
   mat_complex_type &
   GenericContainer::set_mat_complex( mat_complex_type const & m ) {
+    GenericContainer old; // m may be part of the old content
+    if ( m_data_type != GC_type::MAT_COMPLEX ) move_content_to( old );
     allocate_mat_complex( m.num_rows(), m.num_cols() );
     std::copy( m.begin(), m.end(), m_data.m_c->begin() );
     return *m_data.m_c;
@@ -1152,6 +1174,8 @@ namespace GC_namespace {
 
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
+    GenericContainer old; // v may be part of the old content
+    if ( m_data_type != GC_type::VEC_STRING ) move_content_to( old );
     allocate_vec_string( v.size() );
     std::copy( v.begin(), v.end(), m_data.v_s->begin() );
     return *m_data.v_s;
@@ -1249,12 +1273,13 @@ namespace GC_namespace {
 
   void
   GenericContainer::push_complex( complex_type & c ) {
+    complex_type const tmp{c}; // c may be stored in *this
     if ( m_data_type == GC_type::VECTOR ) {
       m_data.v->resize(m_data.v->size()+1);
-      m_data.v->back().set_complex( c );
+      m_data.v->back().set_complex( tmp );
     } else {
       if ( m_data_type != GC_type::VEC_COMPLEX ) promote_to_vec_complex();
-      m_data.v_c->emplace_back( c );
+      m_data.v_c->emplace_back( tmp );
     }
   }
 
@@ -1266,12 +1291,13 @@ namespace GC_namespace {
 
   void
   GenericContainer::push_string( string_view const s ) {
+    string_type const tmp{s}; // s may be stored in *this
     if ( m_data_type != GC_type::VEC_STRING ) promote_to_vector();
     if ( m_data_type == GC_type::VEC_STRING ) {
-      m_data.v_s->emplace_back( s );
+      m_data.v_s->emplace_back( tmp );
     } else {
       m_data.v->resize(m_data.v->size()+1);
-      m_data.v->back().set_string( s );
+      m_data.v->back().set_string( tmp );
     }
   }
 
-- 
2.43.0


From 75fef347f530943bc4727ac8fa11aec3677b86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 75/76] fix: a Lua table that contains itself must be refused
 instead of exhausting the stack

---
 .../GenericContainerInterface_lua.cc          | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 8bdeb3b..67b7858 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -63,6 +63,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <set>
+
 #ifdef USE_SYSTEM_LUA
   #include <lua.hpp>
 #else
@@ -102,9 +104,11 @@ namespace GC_namespace {
   //               |_____|    |_____|
   */
 
+  using open_tables = std::set<void const *>; // tables being converted
+
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc );
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, open_tables & open );
 
   static
   inline
@@ -149,7 +153,7 @@ namespace GC_namespace {
 
   static
   void
-  push_vec_element( lua_State * L, GenericContainer & gc ) {
+  push_vec_element( lua_State * L, GenericContainer & gc, open_tables & open ) {
     // assegna il valore
     // index start from 1 in LUA
     lua_Integer const key{ lua_tointeger(L, -2) };
@@ -218,7 +222,7 @@ namespace GC_namespace {
       break;
     case LUA_TTABLE:
       if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector();
-      lua_table_to_GC( L, gc[idx] );
+      lua_table_to_GC( L, gc[idx], open );
       break;
     }
   }
@@ -227,7 +231,7 @@ namespace GC_namespace {
 
   static
   void
-  push_hash_element( lua_State * L, GenericContainer & gc ) {
+  push_hash_element( lua_State * L, GenericContainer & gc, open_tables & open ) {
     // assegna il valore
     string key{ lua_to_string_view(L, -2) };
     int    type = lua_type(L, -1);
@@ -242,7 +246,7 @@ namespace GC_namespace {
         gc[key].set_string(lua_to_string_view(L, -1));
         break;
       case LUA_TTABLE:
-        lua_table_to_GC( L, gc[key] );
+        lua_table_to_GC( L, gc[key], open );
         break;
     }
   }
@@ -251,22 +255,32 @@ namespace GC_namespace {
 
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, open_tables & open ) {
     GC_ASSERT( lua_checkstack(L,4), "Lua stack overflow" )
+    void const * const table{ lua_topointer(L, -1) };
+    GC_ASSERT( open.insert( table ).second, "Lua table that contains itself" )
     // ---
     lua_pushnil(L); // first key
     // ---
     while ( lua_next(L,-2) != 0 ) {
       switch( lua_type(L, -2) ) {
         case LUA_TNUMBER:
-          push_vec_element( L, gc );
+          push_vec_element( L, gc, open );
           break;
         case LUA_TSTRING:
-          push_hash_element( L, gc );
+          push_hash_element( L, gc, open );
           break;
       }
       lua_pop(L, 1);  // removes `value'; keeps `key' for next iteration
     }
+    open.erase( table );
+  }
+
+  static
+  void
+  lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+    open_tables open;
+    lua_table_to_GC( L, gc, open );
   }
 
   static
-- 
2.43.0


From 27a7ff124e59ffb0469a9b58811cb36fa412c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:49 +0000
Subject: [PATCH 76/76] fix: errors raised by the metamethods of the Lua
 globals must not abort the program

---
 .../GenericContainerInterface_lua.cc          | 50 +++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 67b7858..73048bf 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -142,6 +142,22 @@ namespace GC_namespace {
     }
   }
 
+  // Access to the global variables from a protected call: the metamethods of
+  // the table of the globals may raise errors, e.g. for undeclared variables.
+  static
+  int
+  protected_getglobal( lua_State * L ) {
+    lua_getglobal( L, lua_tostring(L, 1) );
+    return 1;
+  }
+
+  static
+  int
+  protected_setglobal( lua_State * L ) {
+    lua_setglobal( L, lua_tostring(L, 1) ); // the value is at the top of the stack
+    return 0;
+  }
+
   // string at position `idx` of the stack (it may contain NULs)
   static
   string_view
@@ -151,6 +167,34 @@ namespace GC_namespace {
     return str == nullptr ? string_view{} : string_view( str, len );
   }
 
+  // push the value of a global variable
+  static
+  void
+  lua_push_global( lua_State * L, char const name[] ) {
+    GC_ASSERT( lua_checkstack(L,2), "Lua stack overflow" )
+    lua_pushcfunction( L, protected_getglobal );
+    lua_pushstring( L, name );
+    GC_ASSERT(
+      lua_pcall( L, 1, 1, 0 ) == LUA_OK,
+      "cannot read the global variable: '" << name << "'\n" << lua_to_string_view(L, -1)
+    )
+  }
+
+  // pop a value and store it into a global variable
+  static
+  void
+  lua_pop_global( lua_State * L, char const name[] ) {
+    GC_ASSERT( lua_checkstack(L,2), "Lua stack overflow" )
+    lua_pushcfunction( L, protected_setglobal );
+    lua_insert( L, -2 );
+    lua_pushstring( L, name );
+    lua_insert( L, -2 );
+    GC_ASSERT(
+      lua_pcall( L, 2, 0, 0 ) == LUA_OK,
+      "cannot write the global variable: '" << name << "'\n" << lua_to_string_view(L, -1)
+    )
+  }
+
   static
   void
   push_vec_element( lua_State * L, GenericContainer & gc, open_tables & open ) {
@@ -493,7 +537,7 @@ namespace GC_namespace {
     LuaStackGuard guard(L);
 
     // push functions and arguments
-    lua_getglobal( L, fname.data() );  // function to be called
+    lua_push_global( L, fname.data() );  // function to be called
     GC_to_lua( L, args );
 
     /* do the call (1 arguments, 1 result) */
@@ -521,7 +565,7 @@ namespace GC_namespace {
     )
 
     LuaStackGuard guard(L);
-    lua_getglobal( L, global_var );
+    lua_push_global( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
       "LuaInterpreter::global_to_GC(...) cannot find global variable: '" <<
@@ -563,7 +607,7 @@ namespace GC_namespace {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
     LuaStackGuard guard(L);
     GC_to_lua( L, gc );
-    lua_setglobal( L, global_var );
+    lua_pop_global( L, global_var );
   }
 
   // -----------------------------------------------------------------------------
-- 
2.43.0

