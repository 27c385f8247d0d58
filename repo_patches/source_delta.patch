From 77b3aa0b4d5337634ae8e9dea43f01476909938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 01/36] fix: C++: elements of nested tuple should not replace
 elements of outer tuple

---
 macroslib/src/cpp/map_type.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index 8a25329..d43c749 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -191,7 +191,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             self.arg_ty_span,
         )?;
         self.ctx.rust_code.append(&mut conv_deps);
-        Ok(conv_code)
+        Ok(hide_inner_vars(ty, out_var_name, conv_code))
     }
     fn swig_from_i_type_to_rust(
         &mut self,
@@ -214,7 +214,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             self.arg_ty_span,
         )?;
         self.ctx.rust_code.append(&mut conv_deps);
-        Ok(conv_code)
+        Ok(hide_inner_vars(ty, out_var_name, conv_code))
     }
     fn swig_f_type(&mut self, ty: &syn::Type, param1: Option<&str>) -> Result<ExpandedFType> {
         let rust_ty = self
@@ -328,3 +328,14 @@ pub(in crate::cpp) fn map_repr_c_type(
 
     Ok(fti)
 }
+
+/// Conversion of tuple converts its elements to variables in the current scope,
+/// so if tuple is element of another tuple, they should not replace variables of outer tuple
+fn hide_inner_vars(ty: &syn::Type, out_var_name: &str, conv_code: String) -> String {
+    match ty {
+        syn::Type::Tuple(tuple) if !tuple.elems.is_empty() => {
+            format!("let mut {out_var_name} = {{ {conv_code} {out_var_name} }};\n")
+        }
+        _ => conv_code,
+    }
+}
-- 
2.43.0


From dbebf5e29761dafeb3762d2e0a13698f5c59c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 02/36] fix: C++: moved-from/empty RustForeignSlice should not
 pass null pointer to Rust slice

---
 macroslib/src/cpp/rust_foreign_slice_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_impl.hpp b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
index 4c07b84..d69b5d1 100644
--- a/macroslib/src/cpp/rust_foreign_slice_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
@@ -70,7 +70,9 @@ private:
     {
         this->step = 0;
         this->len = 0;
-        this->data = nullptr;
+        // Rust slice should not be null, even if it is empty,
+        // so use address suitable for any possible alignment of element
+        this->data = reinterpret_cast<void *>(static_cast<uintptr_t>(1) << 29);
     }
 };
 
-- 
2.43.0


From d3cfe610ffc006308e8af53da3c9dc29315ffd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 03/36] fix: C++: RustForeignSliceIterator: operator[] and
 negative offsets

---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index a1e33cf..337c15f 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -58,32 +58,30 @@ public:
     /*@{*/
     T operator[](ptrdiff_t n) const noexcept
     {
-        auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
-        auto elem_ptr = static_cast<const CForeignType *>(p);
-        return T{ elem_ptr };
+        return *(*this + n);
     }
 
     RustForeignSliceIterator &operator+=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * static_cast<ptrdiff_t>(this->step);
         return *this;
     }
 
     RustForeignSliceIterator operator+(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + n * static_cast<ptrdiff_t>(this->step);
         return RustForeignSliceIterator(p, this->step);
     }
 
     RustForeignSliceIterator &operator-=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * static_cast<ptrdiff_t>(this->step);
         return *this;
     }
 
     RustForeignSliceIterator operator-(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) - n * static_cast<ptrdiff_t>(this->step);
         return RustForeignSliceIterator(p, this->step);
     }
 
@@ -94,7 +92,7 @@ public:
             = static_cast<const uint8_t *>(this->ptr) - static_cast<const uint8_t *>(o.ptr);
         // if container empty step may be 0, to prevent div by 0
         if (diff != 0) {
-            return diff / this->step;
+            return diff / static_cast<ptrdiff_t>(this->step);
         }
         else {
             return 0;
-- 
2.43.0


From fcc5f270b363f378fd27645490243e02a5a8846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 04/36] fix: C++: pointer of empty RustForeignVec should be
 aligned as Rust type

---
 macroslib/src/cpp/rust_foreign_vec_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_vec_impl.hpp b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
index c96e5ad..2835199 100644
--- a/macroslib/src/cpp/rust_foreign_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_vec_impl.hpp
@@ -114,8 +114,9 @@ private:
     }
     static void reset(RustForeignVec &o) noexcept
     {
-        // Rust Vec::new uses NonNull::danling with similar value
-        o.data = reinterpret_cast<value_type *>(std::alignment_of<value_type>::value);
+        // Rust Vec::new uses NonNull::danling with similar value,
+        // size of Rust type is always a multiple of its alignment
+        o.data = reinterpret_cast<void *>(ELEM_SIZE != 0 ? ELEM_SIZE : static_cast<uintptr_t>(1) << 29);
         o.len = 0;
         o.capacity = 0;
     }
-- 
2.43.0


From a77f41c83c02ea929704ffa45e3405449791657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 05/36] fix: C++: empty RustSlice should not pass null pointer
 to Rust slice

---
 macroslib/src/cpp/rust_slice_tmpl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_slice_tmpl.hpp b/macroslib/src/cpp/rust_slice_tmpl.hpp
index 6ff3066..a7e2549 100644
--- a/macroslib/src/cpp/rust_slice_tmpl.hpp
+++ b/macroslib/src/cpp/rust_slice_tmpl.hpp
@@ -42,7 +42,13 @@ public:
     const_iterator end() const noexcept { return this->data + this->len; }
     template <typename CContainerType> CContainerType as_c() const noexcept
     {
-        return CContainerType{ this->data, this->len };
+        // Rust slice should not be null, even if it is empty
+        return CContainerType{
+            this->data != nullptr ?
+                this->data :
+                reinterpret_cast<value_type *>(std::alignment_of<value_type>::value),
+            this->len
+        };
     }
 
 private:
-- 
2.43.0


From e24919d091fe4a804294d2cbfc7f7ac4b31c12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 06/36] fix: C++: conversion of std::tuple and of pair with
 bool from C++ to Rust

---
 macroslib/src/cpp/cpp-include.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b7306a4..b4b2712 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -319,7 +319,12 @@ foreign_typemap!(
    ($p:f_type, req_modules = ["\"CRustPairModule!().h\"", "<utility>"]) => "std::pair<swig_f_type!(T1), swig_f_type!(T2)>"
            "std::make_pair(swig_foreign_from_i_type!(T1, $p.first), swig_foreign_from_i_type!(T2, $p.second))";
    ($p:f_type, req_modules = ["\"CRustPairModule!().h\"", "<utility>"]) <= "std::pair<swig_f_type!(T1), swig_f_type!(T2)>"
-       "swig_f_type!(CRustPair!()) { swig_foreign_to_i_type!(T1, $p.first), swig_foreign_to_i_type!(T2, $p.second) }";
+       r#"[](std::pair<swig_f_type!(T1), swig_f_type!(T2)> p) -> CRustPair!() {
+            CRustPair!() out;
+            out.first = swig_foreign_to_i_type!(T1, p.first);
+            out.second = swig_foreign_to_i_type!(T2, p.second);
+            return out;
+            }(std::move($p))"#;
 );
 
 foreign_typemap!(
-- 
2.43.0


From 80d8326b691b3fbb50d95bd393676ea7ddfd5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 07/36] fix: C++: copy of default constructed or moved-from
 RustString

---
 macroslib/src/cpp/cpp-include.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b4b2712..803ec1d 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -361,11 +361,13 @@ foreign_typemap!(
                            swig_foreign_from_i_type!(T2, $p.second),
                            swig_foreign_from_i_type!(T3, $p.third))"#;
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) <= "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
-       r#"swig_f_type!(CRustTuple3!()) {
-               swig_foreign_to_i_type!(T1, $p.first),
-               swig_foreign_to_i_type!(T2, $p.second),
-               swig_foreign_to_i_type!(T3, $p.third),
-        }"#;
+       r#"[](std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)> p) -> CRustTuple3!() {
+            CRustTuple3!() out;
+            out.first = swig_foreign_to_i_type!(T1, std::get<0>(p));
+            out.second = swig_foreign_to_i_type!(T2, std::get<1>(p));
+            out.third = swig_foreign_to_i_type!(T3, std::get<2>(p));
+            return out;
+            }(std::move($p))"#;
 );
 
 foreign_typemap!(
-- 
2.43.0


From 96090c0913d578018fbe46ac7ba4ae0b3e39bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 08/36] fix: C++: return of mutable slice of foreign class

---
 macroslib/src/cpp/cpp-include.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 803ec1d..5f16a4e 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -429,6 +429,9 @@ foreign_typemap!(
 
         #[no_mangle]
         pub extern "C" fn crust_string_clone(x: CRustString) -> CRustString {
+            if x.data.is_null() {
+                return x;
+            }
             let s = unsafe { String::from_raw_parts(x.data as *mut u8, x.len, x.capacity) };
             let ret = CRustString::from_string(s.clone());
             ::std::mem::forget(s);
-- 
2.43.0


From c7745e42bb9efe89c1b469908a32dcac7bcf75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 09/36] fix: C++: assert with template types as Err type in
 conversion of Result

---
 macroslib/src/cpp/cpp-include.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 5f16a4e..f6c878a 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -823,7 +823,7 @@ foreign_typemap!(
 foreign_typemap!(
     ($p:r_type) <T: SwigForeignClass> &mut [T] => CRustObjectMutSlice {
         $out = CRustObjectMutSlice {
-            data: $p.as_ptr() as *const ::std::os::raw::c_void,
+            data: $p.as_mut_ptr() as *mut ::std::os::raw::c_void,
             len: $p.len(),
             step: ::std::mem::size_of::<swig_subst_type!(T)>(),
         };
@@ -1259,7 +1259,7 @@ foreign_typemap!(
                 out.data.ok = swig_foreign_to_i_type!(T1, tmp);
                 out.is_ok = 1;
             } else {
-                assert(boost::get<swig_f_type!(T2)>(&p) != nullptr);
+                assert((boost::get<swig_f_type!(T2)>(&p) != nullptr));
                 swig_f_type!(T2) tmp = boost::get<swig_f_type!(T2)>(std::move(p));
                 out.data.err = swig_foreign_to_i_type!(T2, tmp);
                 out.is_ok = 0;
@@ -1277,7 +1277,7 @@ foreign_typemap!(
                 out.data.ok = swig_foreign_to_i_type!(T1, tmp);
                 out.is_ok = 1;
             } else {
-                assert(std::get_if<swig_f_type!(T2)>(&p) != nullptr);
+                assert((std::get_if<swig_f_type!(T2)>(&p) != nullptr));
                 swig_f_type!(T2) tmp = std::get<swig_f_type!(T2)>(std::move(p));
                 out.data.err = swig_foreign_to_i_type!(T2, tmp);
                 out.is_ok = 0;
-- 
2.43.0


From e7c60d7e38c36e7c99cb9a1047254ed19dd103d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 10/36] fix: C++: conversion of tuple argument should not
 replace other arguments named p0, p1, p2

---
 macroslib/src/cpp/cpp-include.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index f6c878a..c3e8bc2 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -312,9 +312,12 @@ foreign_typemap!(
        };
    };
    ($p:r_type) <T1, T2> (T1, T2) <= CRustPair!() {
-       swig_from_i_type_to_rust!(T1, $p.first, p0)
-       swig_from_i_type_to_rust!(T2, $p.second, p1)
-       $out = (p0, p1);
+       $out = {
+           let tuple = $p;
+           swig_from_i_type_to_rust!(T1, tuple.first, p0)
+           swig_from_i_type_to_rust!(T2, tuple.second, p1)
+           (p0, p1)
+       };
    };
    ($p:f_type, req_modules = ["\"CRustPairModule!().h\"", "<utility>"]) => "std::pair<swig_f_type!(T1), swig_f_type!(T2)>"
            "std::make_pair(swig_foreign_from_i_type!(T1, $p.first), swig_foreign_from_i_type!(T2, $p.second))";
@@ -351,10 +354,13 @@ foreign_typemap!(
        };
    };
    ($p:r_type) <T1, T2, T3> (T1, T2, T3) <= CRustTuple3!() {
-       swig_from_i_type_to_rust!(T1, $p.first, p0)
-       swig_from_i_type_to_rust!(T2, $p.second, p1)
-       swig_from_i_type_to_rust!(T3, $p.third, p2)
-       $out = (p0, p1, p2);
+       $out = {
+           let tuple = $p;
+           swig_from_i_type_to_rust!(T1, tuple.first, p0)
+           swig_from_i_type_to_rust!(T2, tuple.second, p1)
+           swig_from_i_type_to_rust!(T3, tuple.third, p2)
+           (p0, p1, p2)
+       };
    };
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) => "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"std::make_tuple(swig_foreign_from_i_type!(T1, $p.first),
-- 
2.43.0


From 828ebba0733a567cad04987952f0b53a6ca8af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 11/36] fix: C++: begin() and end() of non-const RustVec did
 not compile

---
 macroslib/src/cpp/rust_vec_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_vec_impl.hpp b/macroslib/src/cpp/rust_vec_impl.hpp
index 2a4f667..cacf4f2 100644
--- a/macroslib/src/cpp/rust_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_vec_impl.hpp
@@ -48,9 +48,9 @@ public:
     size_t size() const noexcept { return this->len; }
     bool empty() const noexcept { return this->len == 0; }
     const value_type &operator[](size_t i) const noexcept { return this->data[i]; }
-    iterator begin() noexcept { return this->data; }
+    iterator begin() noexcept { return const_cast<iterator>(this->data); }
     const_iterator begin() const noexcept { return this->data; }
-    iterator end() noexcept { return this->data + this->len; }
+    iterator end() noexcept { return const_cast<iterator>(this->data) + this->len; }
     const_iterator end() const noexcept { return this->data + this->len; }
     void clear() noexcept { free_mem(); }
     CContainerType release() noexcept
-- 
2.43.0


From e22e617c73054ca4c7752e896c2f5c9288002fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 12/36] fix: C++: Vec of a class in methods of that class did
 not compile

RustForeignVecFoo.h uses FooRef, but may be included from Foo.hpp
before FooRef is declared there.
---
 macroslib/src/cpp/cpp-include.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index c3e8bc2..4da5480 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -1076,6 +1076,7 @@ foreign_typemap!(
 #ifdef __cplusplus
 
 #include "rust_foreign_vec_impl.hpp"
+#include "swig_f_type!(T)_fwd.hpp"
 
 namespace $RUST_SWIG_USER_NAMESPACE {
 using CForeignVecModule!() = RustForeignVec<swig_f_type!(&T, output), CRustForeignVec, CForeignVecFree!(), CForeignVecPush!(), CForeignVecRemove!(), CForeignVecElemSize!()>;
-- 
2.43.0


From 8e0a5885c84d34bd8aa8dcf524bd2ac3cc497b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 13/36] fix: C++: class names with "struct" inside were mangled
 in return types

---
 macroslib/src/cpp/fclass.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index e7bcea8..a794281 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -346,7 +346,7 @@ May be you need to use `private constructor = empty;` syntax?",
             ),
         };
         //rename types like "struct Foo" to "Foo" to make VC++ compiler happy
-        let cpp_ret_type = cpp_ret_type.display().replace("struct", "");
+        let cpp_ret_type = remove_struct_keyword(cpp_ret_type.display());
 
         let input_to_output_ret_code = if let Some((_, ref arg_name)) = input_to_output_arg {
             format!(
@@ -1421,3 +1421,20 @@ fn generate_copy_stuff(
 pub(in crate::cpp) fn need_plain_class(class: &ForeignClassInfo) -> bool {
     class.derive_list.iter().any(|x| *x == PLAIN_CLASS)
 }
+
+/// `struct Foo` -> `Foo`, but `Constructor` and `MyStruct` have to be left as is
+fn remove_struct_keyword(typename: &str) -> String {
+    let is_ident_char = |ch: char| ch.is_ascii_alphanumeric() || ch == '_';
+    let mut ret = String::with_capacity(typename.len());
+    let mut tail = typename;
+    while let Some(pos) = tail.find("struct") {
+        let end = pos + "struct".len();
+        ret.push_str(&tail[..pos]);
+        if ret.ends_with(is_ident_char) || tail[end..].starts_with(is_ident_char) {
+            ret.push_str("struct");
+        }
+        tail = &tail[end..];
+    }
+    ret.push_str(tail);
+    ret
+}
-- 
2.43.0


From 1f6d3488749cdba081cea2ed512edee98f5f92a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 14/36] fix: Java: attribute callbacks of enums were ignored

---
 macroslib/src/java_jni/fenum.rs | 12 ++++++++----
 macroslib/src/java_jni/mod.rs   |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 9a2d00b..f830d41 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -10,6 +10,7 @@ use super::{
 };
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
+    extension::extend_foreign_enum,
     file_cache::FileWriteCache,
     typemap::{
         ast::{parse_ty_with_given_span, ForeignTypeName},
@@ -43,8 +44,7 @@ pub(in crate::java_jni) fn generate_enum(
         fenum.src_id,
     );
 
-    generate_java_code_for_enum(ctx, fenum)
-        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), err))?;
+    generate_java_code_for_enum(ctx, fenum)?;
     generate_rust_code_for_enum(ctx, fenum)?;
 
     let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });
@@ -99,7 +99,7 @@ pub(in crate::java_jni) fn generate_enum(
 fn generate_java_code_for_enum(
     ctx: &mut JavaContext,
     fenum: &ForeignEnumInfo,
-) -> std::result::Result<(), String> {
+) -> Result<()> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", fenum.name));
     let mut file = FileWriteCache::new(&path, ctx.generated_foreign_files);
     let enum_doc_comments = doc_comments_to_java_comments(&fenum.doc_comments, true);
@@ -171,7 +171,11 @@ public enum {enum_name} {{"#,
     )
     .expect(WRITE_TO_MEM_FAILED_MSG);
 
-    file.update_file_if_necessary().map_err(map_write_err)?;
+    let mut cnt = file.take_content();
+    extend_foreign_enum(fenum, &mut cnt, ctx.enum_ext_handlers)?;
+    file.replace_content(cnt);
+    file.update_file_if_necessary()
+        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), map_write_err(err)))?;
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index b557fc0..5ce8a3b 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -17,7 +17,7 @@ use syn::{spanned::Spanned, Type};
 
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
-    extension::{ClassExtHandlers, ExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
     typemap::{
         ast::{
@@ -50,6 +50,7 @@ struct JavaContext<'a> {
     java_type_to_jni_sig_map: FxHashMap<SmolStr, SmolStr>,
     class_ext_handlers: &'a ClassExtHandlers,
     method_ext_handlers: &'a MethodExtHandlers,
+    enum_ext_handlers: &'a EnumExtHandlers,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -190,6 +191,7 @@ impl LanguageGenerator for JavaConfig {
             java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
+            enum_ext_handlers: ext_handlers.enum_ext_handlers,
         };
         init(&mut ctx, code)?;
         for item in &items {
-- 
2.43.0


From 923b03b2e27d5461267017cc9b5a40090fb199b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 15/36] fix: Python: unknown attributes of classes, methods and
 enums were not reported

---
 macroslib/src/python/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 56eced2..c1ba466 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1,7 +1,10 @@
 use crate::typemap::ty::RustType;
 use crate::{
     error::Result,
-    extension::{ClassExtHandlers, MethodExtHandlers},
+    extension::{
+        extend_foreign_class, extend_foreign_enum, ClassExtHandlers, EnumExtHandlers,
+        MethodExtHandlers,
+    },
     source_registry::SourceId,
     typemap::{
         ast::{ForeignTypeName, GenericTypeConv},
@@ -12,7 +15,7 @@ use crate::{
         ForeignClassInfo, ForeignEnumInfo, ForeignInterface, ForeignMethod, ItemToExpand,
         MethodVariant, SelfTypeVariant,
     },
-    DiagnosticError, LanguageGenerator, PythonConfig, SourceCode, TypeMap,
+    DiagnosticError, LanguageGenerator, PythonConfig, SourceCode, TypeMap, KNOWN_CLASS_DERIVES,
 };
 use crate::{extension::ExtHandlers, typemap::ast};
 use heck::ToSnakeCase;
@@ -89,6 +92,14 @@ impl PythonConfig {
                 ),
             ));
         }
+        // no callbacks here, so this reports all unknown attributes
+        extend_foreign_class(
+            class,
+            &mut Vec::new(),
+            &KNOWN_CLASS_DERIVES,
+            class_ext_handlers,
+            method_ext_handlers,
+        )?;
 
         let class_name = &class.name;
         let wrapper_mod_name =
@@ -142,6 +153,9 @@ impl PythonConfig {
         conv_map: &mut TypeMap,
         enum_info: &ForeignEnumInfo,
     ) -> Result<(TokenStream, TokenStream)> {
+        // no callbacks here, so this reports all attributes
+        extend_foreign_enum(enum_info, &mut Vec::new(), &EnumExtHandlers::default())?;
+
         let enum_name = &enum_info.name;
         let wrapper_mod_name = parse::<Ident>(
             &py_wrapper_mod_name(&enum_name.to_string()),
-- 
2.43.0


From cd9a9aa3f806f11f804061e63d960629413ffb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 16/36] fix: Python: foreign_callback should be reported as
 unsupported at its place

---
 macroslib/src/python/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index c1ba466..c33b49a 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -216,9 +216,13 @@ impl PythonConfig {
     fn generate_interface(
         &self,
         _conv_map: &mut TypeMap,
-        _interface: &ForeignInterface,
+        interface: &ForeignInterface,
     ) -> Result<(TokenStream, TokenStream)> {
-        unimplemented!("Interfaces are currently unsupported for Python.")
+        Err(DiagnosticError::new(
+            interface.src_id,
+            interface.span(),
+            "Interfaces are currently unsupported for Python.",
+        ))
     }
 
     fn generate_module_initialization(
-- 
2.43.0


From ecbe09f5f9a71bc1596a313d9c83909ef3712612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 17/36] fix: "self" by value was rejected without the position
 in source

---
 macroslib/src/cpp/fclass.rs      |  3 ++-
 macroslib/src/java_jni/fclass.rs |  3 ++-
 macroslib/src/typemap/utils.rs   | 19 ++++++++++++++-----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index a794281..77c7de9 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -875,8 +875,9 @@ fn generate_method(
     let (from_ty, to_ty): (Type, Type) = create_suitable_types_for_constructor_and_self(
         self_variant,
         class,
+        mc.method,
         &this_type_for_method.ty,
-    );
+    )?;
 
     let from_ty = conv_map.find_or_alloc_rust_type(&from_ty, class.src_id);
     let to_ty = conv_map.find_or_alloc_rust_type(&to_ty, class.src_id);
diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index 533524f..38ba75c 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -982,8 +982,9 @@ fn generate_method(
     let (from_ty, to_ty): (Type, Type) = create_suitable_types_for_constructor_and_self(
         self_variant,
         mc.class,
+        mc.method,
         &this_type_for_method.ty,
-    );
+    )?;
     let from_ty = ctx
         .conv_map
         .find_or_alloc_rust_type(&from_ty, mc.class.src_id);
diff --git a/macroslib/src/typemap/utils.rs b/macroslib/src/typemap/utils.rs
index a724a5e..64a61f9 100644
--- a/macroslib/src/typemap/utils.rs
+++ b/macroslib/src/typemap/utils.rs
@@ -112,14 +112,23 @@ pub(crate) fn foreign_to_rust_convert_method_inputs<
 pub(crate) fn create_suitable_types_for_constructor_and_self(
     self_variant: SelfTypeVariant,
     class: &ForeignClassInfo,
+    method: &ForeignMethod,
     constructor_real_type: &Type,
-) -> (Type, Type) {
-    match self_variant {
+) -> Result<(Type, Type)> {
+    Ok(match self_variant {
         SelfTypeVariant::Default => {
-            unimplemented!("self not supported, use &self or &mut self");
+            return Err(DiagnosticError::new(
+                class.src_id,
+                method.rust_id.span(),
+                "self not supported, use &self or &mut self",
+            ));
         }
         SelfTypeVariant::Mut => {
-            unimplemented!("'mut self' not supported, use &self or &mut self");
+            return Err(DiagnosticError::new(
+                class.src_id,
+                method.rust_id.span(),
+                "'mut self' not supported, use &self or &mut self",
+            ));
         }
         SelfTypeVariant::Rptr | SelfTypeVariant::RptrMut => {
             let c_sp = constructor_real_type.span();
@@ -138,7 +147,7 @@ pub(crate) fn create_suitable_types_for_constructor_and_self(
                 )
             }
         }
-    }
+    })
 }
 
 pub(crate) fn rust_to_foreign_convert_method_inputs<
-- 
2.43.0


From fce8538542718810ad1abecb398b01fbb8a3474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 18/36] fix: the second self_type silently replaced the first
 one

---
 macroslib/src/code_parse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 2ed59c2..23dd280 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -246,6 +246,12 @@ fn do_parse_foreigner_class(_lang: Language, input: ParseStream) -> syn::Result<
         };
         debug!("may be func_type_name {:?}", func_type_name);
         if func_type_name == "self_type" {
+            if rust_self_type.is_some() {
+                return Err(syn::Error::new(
+                    func_type_name_span,
+                    "self_type was already defined",
+                ));
+            }
             rust_self_type = Some(content.parse::<Type>()?);
             debug!("self_type: {:?}", rust_self_type);
             content.parse::<Token![;]>()?;
@@ -742,6 +748,12 @@ impl Parse for ForeignInterfaceParser {
             let doc_comments = parse_doc_comments(&item_parser)?;
             let func_name = item_parser.parse::<Ident>()?;
             if func_name == "self_type" {
+                if self_type.is_some() {
+                    return Err(syn::Error::new(
+                        func_name.span(),
+                        "self_type was already defined",
+                    ));
+                }
                 let traits: syn::TypeTraitObject = item_parser.parse()?;
                 if traits.bounds.is_empty() {
                     return Err(syn::Error::new(
-- 
2.43.0


From 22ef13883ee2afc39e3b341b186766dc6a210633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:50 +0000
Subject: [PATCH 19/36] fix: errors at the end of macro input were reported at
 the first line of file

---
 macroslib/src/error.rs | 11 +++++++++++
 macroslib/src/lib.rs   | 14 ++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/error.rs b/macroslib/src/error.rs
index 3c30019..fa41301 100644
--- a/macroslib/src/error.rs
+++ b/macroslib/src/error.rs
@@ -40,6 +40,17 @@ impl DiagnosticError {
         self.span_note(sp, err);
         self
     }
+    /// Errors about unexpected end of macro input have empty span,
+    /// replace it with `sp`
+    pub fn replace_empty_span(mut self, sp: Span) -> Self {
+        for (src_id, err) in &mut self.data {
+            let err_sp = err.span();
+            if !src_id.is_none() && err_sp.start() == err_sp.end() {
+                *err = syn::Error::new(sp, &*err);
+            }
+        }
+        self
+    }
     pub fn new_without_src_info<T: Display>(err: T) -> Self {
         DiagnosticError {
             data: vec![(SourceId::none(), syn::Error::new(Span::call_site(), err))],
diff --git a/macroslib/src/lib.rs b/macroslib/src/lib.rs
index 998e62a..5acb4c9 100644
--- a/macroslib/src/lib.rs
+++ b/macroslib/src/lib.rs
@@ -639,6 +639,7 @@ impl Generator {
                             ),
                         ));
                     }
+                    let macro_span = item_macro.mac.path.span();
                     let mut tts = TokenStream::new();
                     mem::swap(&mut tts, &mut item_macro.mac.tokens);
                     if item_macro.mac.path.is_ident(FOREIGNER_CLASS_DEPRECATED)
@@ -650,12 +651,14 @@ impl Generator {
                                 FOREIGNER_CLASS_DEPRECATED, FOREIGN_CLASS
                             );
                         }
-                        let fclass = code_parse::parse_foreigner_class(*src_id, &self.config, tts)?;
+                        let fclass = code_parse::parse_foreigner_class(*src_id, &self.config, tts)
+                            .map_err(|err| err.replace_empty_span(macro_span))?;
                         debug!("expand_foreigner_class: self_desc {:?}", fclass.self_desc);
                         self.conv_map.register_foreigner_class(&fclass);
                         items_to_expand.push(ItemToExpand::Class(Box::new(fclass)));
                     } else if item_macro.mac.path.is_ident(FOREIGN_ENUM) {
-                        let fenum = code_parse::parse_foreign_enum(*src_id, tts)?;
+                        let fenum = code_parse::parse_foreign_enum(*src_id, tts)
+                            .map_err(|err| err.replace_empty_span(macro_span))?;
                         items_to_expand.push(ItemToExpand::Enum(fenum));
                     } else if item_macro.mac.path.is_ident(FOREIGN_INTERFACE_DEPRECATED)
                         || item_macro.mac.path.is_ident(FOREIGN_CALLBACK)
@@ -666,10 +669,13 @@ impl Generator {
                                 FOREIGN_INTERFACE_DEPRECATED, FOREIGN_CALLBACK
                             );
                         }
-                        let finterface = code_parse::parse_foreign_interface(*src_id, tts)?;
+                        let finterface = code_parse::parse_foreign_interface(*src_id, tts)
+                            .map_err(|err| err.replace_empty_span(macro_span))?;
                         items_to_expand.push(ItemToExpand::Interface(finterface));
                     } else if item_macro.mac.path.is_ident(FOREIGN_TYPEMAP) {
-                        self.conv_map.parse_foreign_typemap_macro(*src_id, tts)?;
+                        self.conv_map
+                            .parse_foreign_typemap_macro(*src_id, tts)
+                            .map_err(|err| err.replace_empty_span(macro_span))?;
                     } else {
                         unreachable!();
                     }
-- 
2.43.0


From 8fb696460debcb2afb3eaaa6629b36b1dac36642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 20/36] fix: Java: exception messages with NUL or non-BMP
 characters crashed VM or were altered

---
 macroslib/src/java_jni/jni-include.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9a7730c..9e9839e 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -305,7 +305,23 @@ impl Drop for JavaCallback {
 
 #[allow(dead_code)]
 fn jni_throw(env: *mut JNIEnv, ex_class: jclass, message: &str) {
-    let c_message = ::std::ffi::CString::new(message).unwrap();
+    // ThrowNew expects string in "modified UTF-8" encoding
+    let mut mutf8_message = Vec::with_capacity(message.len());
+    for ch in message.encode_utf16() {
+        match ch {
+            0x0001..=0x007f => mutf8_message.push(ch as u8),
+            0x0000 | 0x0080..=0x07ff => {
+                mutf8_message.push(0xc0 | (ch >> 6) as u8);
+                mutf8_message.push(0x80 | (ch & 0x3f) as u8);
+            }
+            0x0800..=0xffff => {
+                mutf8_message.push(0xe0 | (ch >> 12) as u8);
+                mutf8_message.push(0x80 | ((ch >> 6) & 0x3f) as u8);
+                mutf8_message.push(0x80 | (ch & 0x3f) as u8);
+            }
+        }
+    }
+    let c_message = ::std::ffi::CString::new(mutf8_message).unwrap();
     let res = unsafe { (**env).ThrowNew.unwrap()(env, ex_class, c_message.as_ptr()) };
     if res != 0 {
         log::error!(
-- 
2.43.0


From 70bdcc347ee9a423c8c24a06d505ee4e2211eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 21/36] fix: Java: &Path argument shadowed another argument
 named jstr

---
 macroslib/src/java_jni/jni-include.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9e9839e..f0854e9 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -736,8 +736,8 @@ foreign_typemap!(
 
 foreign_typemap!(
     ($p:r_type) &Path <= internal_aliases::JStringPath {
-        let jstr = from_jstring_std_string($p, env);
-        $out = Path::new(jstr.as_str());
+        let $p = from_jstring_std_string($p, env);
+        $out = Path::new($p.as_str());
     };
     ($p:f_type, option = "NoNullAnnotations", unique_prefix="/*Path*/") <= "/*Path*/String";
     ($p:f_type, option = "NullAnnotations", unique_prefix="/*Path*/") <= "/*Path*/@NonNull String";
-- 
2.43.0


From 3baf63a40a479c65b593fb69527de3098c00baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 22/36] fix: Java: methods with non-ASCII names had wrong JNI
 function name

---
 macroslib/src/java_jni/rust_code.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 838864a..69f5864 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -76,7 +76,13 @@ pub(in crate::java_jni) fn generate_jni_func_name(
                 '[' => output.push_str("_3"),
                 '_' => output.push_str("_1"),
                 ';' => output.push_str("_2"),
-                _ => output.push(c),
+                _ if c.is_ascii() => output.push(c),
+                _ => {
+                    let mut utf16 = [0; 2];
+                    for code_unit in c.encode_utf16(&mut utf16) {
+                        output.push_str(&format!("_0{code_unit:04x}"));
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 5c534a8460e2be56d9a65dccfb0e2c3fb916dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 23/36] fix: Java: overloads with boxed arguments had wrong JNI
 function name

---
 macroslib/src/java_jni/rust_code.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 69f5864..524def9 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -19,12 +19,12 @@ use crate::{
 pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
-    m.insert("Byte".into(), "Ljava.lang.Byte".into());
-    m.insert("Short".into(), "Ljava.lang.Short".into());
-    m.insert("Integer".into(), "Ljava.lang.Integer".into());
-    m.insert("Long".into(), "Ljava.lang.Long".into());
-    m.insert("Float".into(), "Ljava.lang.Float".into());
-    m.insert("Double".into(), "Ljava.lang.Double".into());
+    m.insert("Byte".into(), "Ljava.lang.Byte;".into());
+    m.insert("Short".into(), "Ljava.lang.Short;".into());
+    m.insert("Integer".into(), "Ljava.lang.Integer;".into());
+    m.insert("Long".into(), "Ljava.lang.Long;".into());
+    m.insert("Float".into(), "Ljava.lang.Float;".into());
+    m.insert("Double".into(), "Ljava.lang.Double;".into());
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From 8b6f44ec5adae2cf56ca42012a315b717d5185fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 24/36] fix: Java: objects made by Rust code (arrays, callback
 arguments) were never finalized

---
 macroslib/src/java_jni/jni-include.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index f0854e9..9dd0cde 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -338,6 +338,26 @@ fn jni_throw_exception(env: *mut JNIEnv, message: &str) {
     jni_throw(env, exception_class, message)
 }
 
+/// `AllocObject` doesn't run any constructor, but JVM registers object
+/// for finalization in the constructor of `java.lang.Object`
+#[allow(dead_code)]
+fn alloc_jobject(env: *mut JNIEnv, jcls: jclass) -> jobject {
+    let object_class: jclass = swig_jni_find_class!(JAVA_LANG_OBJECT, "java/lang/Object");
+    assert!(!object_class.is_null());
+    let init_m: jmethodID =
+        swig_jni_get_method_id!(JAVA_LANG_OBJECT_INIT, JAVA_LANG_OBJECT, "<init>", "()V",);
+    assert!(!init_m.is_null());
+    unsafe {
+        let jobj: jobject = (**env).AllocObject.unwrap()(env, jcls);
+        assert!(!jobj.is_null(), "alloc_jobject: AllocObject failed");
+        (**env).CallNonvirtualVoidMethod.unwrap()(env, jobj, object_class, init_m);
+        if (**env).ExceptionCheck.unwrap()(env) != 0 {
+            panic!("alloc_jobject: java.lang.Object constructor failed: catch exception");
+        }
+        jobj
+    }
+}
+
 #[allow(dead_code)]
 fn object_to_jobject<T: SwigForeignClass>(env: *mut JNIEnv, obj: T) -> jobject {
     let jcls = <T>::jni_class();
@@ -345,8 +365,7 @@ fn object_to_jobject<T: SwigForeignClass>(env: *mut JNIEnv, obj: T) -> jobject {
     let field_id = <T>::jni_class_pointer_field();
     assert!(!field_id.is_null());
 
-    let jobj: jobject = unsafe { (**env).AllocObject.unwrap()(env, jcls) };
-    assert!(!jobj.is_null(), "object_to_jobject: AllocObject failed");
+    let jobj: jobject = alloc_jobject(env, jcls);
 
     let ret: jlong = <T>::box_object(obj);
     unsafe {
@@ -421,8 +440,7 @@ fn vec_of_objects_to_jobject_array<T: SwigForeignClass>(
     assert!(!field_id.is_null());
 
     for (i, r_obj) in arr.drain(..).enumerate() {
-        let jobj: jobject = unsafe { (**env).AllocObject.unwrap()(env, jcls) };
-        assert!(!jobj.is_null());
+        let jobj: jobject = alloc_jobject(env, jcls);
 
         let r_obj: jlong = <T>::box_object(r_obj);
         unsafe {
-- 
2.43.0


From aed571e1a16165d2551c58a15d257609e15cc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 25/36] fix: Java: callbacks called in a loop exhausted local
 references

Strings, arrays and objects passed to a callback stayed referenced until
the outermost native call returned to Java.
---
 macroslib/src/java_jni/jni-include.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9dd0cde..642a864 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -195,6 +195,9 @@ struct JniEnvHolder<'a> {
 #[allow(dead_code)]
 impl<'a> Drop for JniEnvHolder<'a> {
     fn drop(&mut self) {
+        if let Some(env) = self.env {
+            unsafe { (**env).PopLocalFrame.unwrap()(env, ::std::ptr::null_mut()) };
+        }
         if self.need_detach {
             let res = unsafe {
                 (**self.callback.java_vm).DetachCurrentThread.unwrap()(self.callback.java_vm)
@@ -233,6 +236,7 @@ impl JavaCallback {
             )
         };
         if res == (JNI_OK as jint) {
+            Self::push_local_frame(env);
             return JniEnvHolder {
                 env: Some(env),
                 callback: self,
@@ -281,6 +285,7 @@ impl JavaCallback {
             }
         } else {
             assert!(!env.is_null());
+            Self::push_local_frame(env);
             JniEnvHolder {
                 env: Some(env),
                 callback: self,
@@ -288,6 +293,14 @@ impl JavaCallback {
             }
         }
     }
+
+    /// Callbacks may be called many times inside of one native call,
+    /// so local references should not live until return to Java
+    fn push_local_frame(env: *mut JNIEnv) {
+        const LOCAL_FRAME_CAPACITY: jint = 16;
+        let res = unsafe { (**env).PushLocalFrame.unwrap()(env, LOCAL_FRAME_CAPACITY) };
+        assert_eq!(0, res, "PushLocalFrame failed");
+    }
 }
 
 #[allow(dead_code)]
-- 
2.43.0


From 675796b01931569c9a66213e55a2e52c6cc86cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 26/36] fix: C++: doc comments of several lines or with
 backslash at the end broke the generated code

---
 macroslib/src/cpp/cpp_code.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index fdbdbf2..f8ec624 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -26,14 +26,20 @@ pub(in crate::cpp) fn doc_comments_to_c_comments(
     class_comments: bool,
 ) -> String {
     let mut comments = String::new();
-    for (i, comment) in doc_comments.iter().enumerate() {
+    // one comment can span several lines (`/** */` or `#[doc = ""]`)
+    let lines = doc_comments.iter().flat_map(|x| x.trim().split('\n'));
+    for (i, line) in lines.map(str::trim).enumerate() {
         if i != 0 {
             comments.push('\n');
         }
         if !class_comments {
             comments.push_str("    ");
         }
-        write!(&mut comments, "//{}", comment.trim()).unwrap();
+        match line.strip_suffix('\\') {
+            // backslash at the end of line would make the next line part of this comment
+            Some(start) => write!(&mut comments, "//{}&#92;", start).unwrap(),
+            None => write!(&mut comments, "//{}", line).unwrap(),
+        }
     }
     comments
 }
-- 
2.43.0


From 64514e8aa06cac9dd90d503016aa0dfabaaf4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 27/36] fix: Java: doc comments with "*/" or "\u" broke the
 generated code

---
 macroslib/src/java_jni/java_code.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/java_jni/java_code.rs b/macroslib/src/java_jni/java_code.rs
index aa028c3..24bd1af 100644
--- a/macroslib/src/java_jni/java_code.rs
+++ b/macroslib/src/java_jni/java_code.rs
@@ -67,7 +67,12 @@ pub(in crate::java_jni) fn doc_comments_to_java_comments(
 ) -> String {
     use std::fmt::Write;
     let mut comments = String::new();
-    for (i, comment) in doc_comments.iter().enumerate() {
+    // one comment can span several lines (`/** */` or `#[doc = ""]`)
+    let lines: Vec<&str> = doc_comments
+        .iter()
+        .flat_map(|x| x.trim().split('\n'))
+        .collect();
+    for (i, line) in lines.iter().enumerate() {
         if i != 0 {
             comments.push('\n');
         }
@@ -81,9 +86,14 @@ pub(in crate::java_jni) fn doc_comments_to_java_comments(
             }
         }
 
-        write!(&mut comments, " * {}", comment.trim()).unwrap();
+        // `*/` would end the comment, and `\u` starts an unicode escape even inside of comment
+        let line = line
+            .trim()
+            .replace("*/", "*&#47;")
+            .replace("\\u", "&#92;u");
+        write!(&mut comments, " * {}", line).unwrap();
 
-        if i == doc_comments.len() - 1 {
+        if i == lines.len() - 1 {
             comments.push('\n');
             if !class_comments {
                 comments.push_str("    ");
-- 
2.43.0


From 3e4db35be204e82013d4674ebfd990a6cfca8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 28/36] fix: Python: doc comments of several lines on methods
 were rejected

---
 macroslib/src/python/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index c33b49a..038931e 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -372,7 +372,11 @@ fn generate_method_code(
     )?;
     let docstring = if !method_name.to_string().starts_with("__") {
         parse::<TokenStream>(
-            &("/// ".to_owned() + &method.doc_comments.as_slice().join("\n/// ")),
+            // one comment can span several lines (`/** */` or `#[doc = ""]`)
+            &format!(
+                "/// {}",
+                method.doc_comments.join("\n").replace('\n', "\n/// ")
+            ),
             class.src_id,
         )?
     } else {
-- 
2.43.0


From fe64aaa7935a32a05b9d77bb0ed3bd9d79b940ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 29/36] fix: typemap: text of macro calls in generic rules was
 changed, non ASCII text caused panic

---
 macroslib/src/typemap/ast.rs           | 14 ++---------
 macroslib/src/typemap/typemap_macro.rs | 35 +++++++++++++-------------
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/macroslib/src/typemap/ast.rs b/macroslib/src/typemap/ast.rs
index a976d8e..ab4fff6 100644
--- a/macroslib/src/typemap/ast.rs
+++ b/macroslib/src/typemap/ast.rs
@@ -489,7 +489,7 @@ impl GenericTypeConv {
         let ctx_span = self.code.span;
         let new_code = expand_macroses(
             &self.code.code,
-            |id: &str, params: Vec<&str>, out: &mut String| {
+            |id: &str, params: Vec<&str>, macro_call: &str, out: &mut String| {
                 if id == SWIG_SUBST_TYPE {
                     let type_name = if params.len() == 1 {
                         &params[0]
@@ -505,17 +505,7 @@ impl GenericTypeConv {
                         out.push_str(type_name);
                     }
                 } else {
-                    out.push_str(id);
-                    out.push_str("!(");
-                    let mut it = params.iter();
-                    if let Some(first) = it.next() {
-                        out.push_str(first);
-                    }
-                    for p in it {
-                        out.push_str(", ");
-                        out.push_str(p);
-                    }
-                    out.push(')');
+                    out.push_str(macro_call);
                 }
                 Ok(())
             },
diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index ac3c5db..24d2916 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -647,7 +647,12 @@ fn concat_idents(
 
 pub(in crate::typemap) fn expand_macroses<E>(code: &str, mut expander: E) -> Result<String>
 where
-    E: FnMut(/*id*/ &str, /*params*/ Vec<&str>, /*out*/ &mut String) -> Result<()>,
+    E: FnMut(
+        /*id*/ &str,
+        /*params*/ Vec<&str>,
+        /*whole macro call*/ &str,
+        /*out*/ &mut String,
+    ) -> Result<()>,
 {
     let mut prev_pos = 0;
     let mut ret = String::with_capacity(code.len());
@@ -658,7 +663,8 @@ where
                 ret.push_str(skip_chunk);
                 prev_pos += pos;
                 if let Some((macro_id, params, macro_call_end)) = find_macro(&code[prev_pos..]) {
-                    expander(macro_id, params, &mut ret)?;
+                    let macro_call = &code[prev_pos..(prev_pos + macro_call_end)];
+                    expander(macro_id, params, macro_call, &mut ret)?;
                     prev_pos += macro_call_end;
                 } else {
                     match (code[prev_pos..]).find(|ch: char| !ch.is_alphabetic()) {
@@ -687,19 +693,19 @@ where
 fn find_macro(code: &str) -> Option<(&str, Vec<&str>, usize)> {
     let id_end = code.find(|ch: char| !(ch.is_alphanumeric() || ch == '_'))?;
     let mut next_pos = id_end + (code[id_end..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "!" {
+    if !code[next_pos..].starts_with('!') {
         return None;
     }
     next_pos += 1;
     next_pos = next_pos + (code[next_pos..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "(" {
+    if !code[next_pos..].starts_with('(') {
         return None;
     }
     next_pos += 1;
     let cnt_start = next_pos;
     let mut bracket_counter: usize = 1;
     let mut close_bracket_pos = None;
-    for (idx, ch) in code[next_pos..].chars().enumerate() {
+    for (idx, ch) in code[next_pos..].char_indices() {
         if ch == ')' {
             bracket_counter -= 1;
             if bracket_counter == 0 {
@@ -1032,7 +1038,7 @@ fn expand_str_in_ftype_name_context(
     generic_aliases: &[CalcGenericAlias],
     provided_by_module: &mut Vec<ModuleName>,
 ) -> Result<String> {
-    expand_macroses(input, |id: &str, params: Vec<&str>, out: &mut String| {
+    expand_macroses(input, |id: &str, params: Vec<&str>, _, out: &mut String| {
         if id == SWIG_F_TYPE {
             let modules: Vec<SmolStr> =
                 call_swig_f_type(ctx_span, params, out, param_map, expander, generic_aliases)?;
@@ -1123,7 +1129,7 @@ fn expand_module_name(
 ) -> Result<SmolStr> {
     expand_macroses(
         generic_mod_name,
-        |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
+        |id: &str, params: Vec<&str>, _, out: &mut String| -> Result<()> {
             if !params.is_empty() {
                 Err(DiagnosticError::new2(
                     ctx_sp,
@@ -1156,7 +1162,7 @@ fn expand_rust_code(
 ) -> Result<String> {
     expand_macroses(
         code,
-        |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
+        |id: &str, params: Vec<&str>, macro_call: &str, out: &mut String| -> Result<()> {
             match id {
                 _ if id == SWIG_FROM_RUST_TO_I_TYPE || id == SWIG_FROM_I_TYPE_TO_RUST => {
                     let (type_name, in_var_name, out_var_name) = if params.len() == 3 {
@@ -1213,15 +1219,8 @@ fn expand_rust_code(
                         write!(out, "{}", normalize_type(&generic_aliases[alias_idx].value))
                             .expect(WRITE_TO_MEM_FAILED_MSG);
                     } else {
-                        write!(out, "{}!(", id).expect(WRITE_TO_MEM_FAILED_MSG);
-                        for (i, p) in params.iter().enumerate() {
-                            if i == 0 {
-                                out.push_str(p);
-                            } else {
-                                write!(out, ", {}", p).expect(WRITE_TO_MEM_FAILED_MSG);
-                            }
-                        }
-                        out.push(')');
+                        // may be part of string literal, so copy "as is"
+                        out.push_str(macro_call);
                     }
                 }
             }
@@ -1239,7 +1238,7 @@ fn expand_foreign_code(
 ) -> Result<String> {
     expand_macroses(
         code,
-        |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
+        |id: &str, params: Vec<&str>, _, out: &mut String| -> Result<()> {
             match id {
                 _ if id == SWIG_F_TYPE => {
                     call_swig_f_type(ctx_span, params, out, param_map, expander, generic_aliases)?;
-- 
2.43.0


From 8c187cc9ae2703fc34b4cc78f8e1a46b6337e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 30/36] fix: typemap: required modules of a foreign type were
 lost when typemap files or one direction rules were merged

---
 macroslib/src/typemap/merge.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/typemap/merge.rs b/macroslib/src/typemap/merge.rs
index b039c7b..31b5771 100644
--- a/macroslib/src/typemap/merge.rs
+++ b/macroslib/src/typemap/merge.rs
@@ -330,8 +330,11 @@ impl TypeMap {
                     &self.conv_graph,
                 )?;
                 res_ftype.into_from_rust = Some(into_from_rust);
-                res_ftype.provided_by_module =
-                    convert_req_module_to_provided_by_module(req_modules);
+                // the other direction may be handled by other rule, with its own modules
+                add_provided_by_module(
+                    res_ftype,
+                    convert_req_module_to_provided_by_module(req_modules),
+                );
                 set_unique_prefix(res_ftype, ft_unique_prefix, src_id)?;
             }
             (None, Some((ft, from_into_rust))) => {
@@ -344,8 +347,11 @@ impl TypeMap {
                     &self.conv_graph,
                 )?;
                 res_ftype.from_into_rust = Some(from_into_rust);
-                res_ftype.provided_by_module =
-                    convert_req_module_to_provided_by_module(req_modules);
+                // the other direction may be handled by other rule, with its own modules
+                add_provided_by_module(
+                    res_ftype,
+                    convert_req_module_to_provided_by_module(req_modules),
+                );
                 set_unique_prefix(res_ftype, ft_unique_prefix, src_id)?;
             }
             (None, None) => {}
@@ -463,6 +469,15 @@ fn ftype_merge(our: &mut ForeignTypeS, extrn_ft: ForeignTypeS) {
     if let Some(rule) = extrn_ft.from_into_rust {
         our.from_into_rust = Some(rule);
     }
+    add_provided_by_module(our, extrn_ft.provided_by_module);
+}
+
+fn add_provided_by_module(ftype: &mut ForeignTypeS, modules: Vec<SmolStr>) {
+    for module in modules {
+        if !ftype.provided_by_module.contains(&module) {
+            ftype.provided_by_module.push(module);
+        }
+    }
 }
 
 fn convert_req_module_to_provided_by_module(v: Vec<ModuleName>) -> Vec<SmolStr> {
-- 
2.43.0


From 0cc3a98d87b5da1713cc1ab0e8fab63a68ca0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 31/36] fix: typemap: stack overflow if the foreign type of a
 rule is the type of its own intermediate type

---
 macroslib/src/cpp/map_type.rs      |  2 +-
 macroslib/src/cpp/mod.rs           | 46 +++++++++++++++++++++---------
 macroslib/src/java_jni/map_type.rs | 46 +++++++++++++++++++++---------
 3 files changed, 65 insertions(+), 29 deletions(-)

diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index d43c749..d017c44 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -27,7 +27,7 @@ pub(in crate::cpp) fn map_type(
     CppForeignTypeInfo::try_new(ctx, direction, ftype)
 }
 
-fn do_map_type(
+pub(in crate::cpp) fn do_map_type(
     ctx: &mut CppContext,
     arg_ty: &RustType,
     direction: Direction,
diff --git a/macroslib/src/cpp/mod.rs b/macroslib/src/cpp/mod.rs
index 636dc24..7a96ba4 100644
--- a/macroslib/src/cpp/mod.rs
+++ b/macroslib/src/cpp/mod.rs
@@ -125,10 +125,35 @@ impl CppForeignTypeInfo {
 
             let rty = ctx.conv_map[intermediate_ty].clone();
             let arg_span = intermediate.conv_code.full_span();
+            let inter_fti = map_type::do_map_type(ctx, &rty, direction, arg_span)?;
+            let inter_ftype = &ctx.conv_map[inter_fti];
+            let inter_rule = match direction {
+                petgraph::Direction::Outgoing => inter_ftype.into_from_rust.as_ref(),
+                petgraph::Direction::Incoming => inter_ftype.from_into_rust.as_ref(),
+            };
+            // without this check recursion may be infinite,
+            // for example if it is the rule for the foreign type of its own intermediate type
+            if inter_rule.map_or(false, |r| r.intermediate.is_some()) {
+                return Err(DiagnosticError::new2(
+                    origin_ftype_span,
+                    format!(
+                        "Error during conversion {} for {},\n
+                    intermediate type '{}' can not be directly converted to C",
+                        typename,
+                        match direction {
+                            petgraph::Direction::Outgoing => "output",
+                            petgraph::Direction::Incoming => "input",
+                        },
+                        rty
+                    ),
+                )
+                .add_span_note(
+                    inter_ftype.src_id_span(),
+                    format!("it requires C++ code to convert '{}'", inter_ftype.name),
+                ));
+            }
             let inter_ft = map_type(ctx, &rty, direction, arg_span)?;
-            if inter_ft.cpp_converter.is_some()
-                || base_rt != inter_ft.base.corresponding_rust_type.to_idx()
-            {
+            if base_rt != inter_ft.base.corresponding_rust_type.to_idx() {
                 return Err(DiagnosticError::new2(
                     origin_ftype_span,
                     format!(
@@ -144,17 +169,10 @@ impl CppForeignTypeInfo {
                 )
                 .add_span_note(
                     invalid_src_id_span(),
-                    if let Some(cpp_conv) = inter_ft.cpp_converter {
-                        format!(
-                            "it requires C++ code to convert from '{}' to '{}'",
-                            inter_ft.base.name, cpp_conv.typename
-                        )
-                    } else {
-                        format!(
-                            "Type '{}' require conversion to type '{}' before usage as C type",
-                            ctx.conv_map[base_rt], inter_ft.base.corresponding_rust_type
-                        )
-                    },
+                    format!(
+                        "Type '{}' require conversion to type '{}' before usage as C type",
+                        ctx.conv_map[base_rt], inter_ft.base.corresponding_rust_type
+                    ),
                 ));
             }
             provided_by_module.extend_from_slice(&inter_ft.provided_by_module);
diff --git a/macroslib/src/java_jni/map_type.rs b/macroslib/src/java_jni/map_type.rs
index 3ec0c96..d0ad277 100644
--- a/macroslib/src/java_jni/map_type.rs
+++ b/macroslib/src/java_jni/map_type.rs
@@ -63,10 +63,35 @@ pub(in crate::java_jni) fn map_type(
 
         let rty = ctx.conv_map[intermediate_ty].clone();
         let arg_span = intermediate.conv_code.full_span();
+        let inter_fti = do_map_type(ctx, &rty, direction, arg_span)?;
+        let inter_ftype = &ctx.conv_map[inter_fti];
+        let inter_rule = match direction {
+            petgraph::Direction::Outgoing => inter_ftype.into_from_rust.as_ref(),
+            petgraph::Direction::Incoming => inter_ftype.from_into_rust.as_ref(),
+        };
+        // without this check recursion may be infinite,
+        // for example if it is the rule for the foreign type of its own intermediate type
+        if inter_rule.map_or(false, |r| r.intermediate.is_some()) {
+            return Err(DiagnosticError::new2(
+                origin_ftype_span,
+                format!(
+                    "Error during conversion {} for {},\n
+                    intermediate type '{}' can not be directly converted to Java",
+                    base_ft_name,
+                    match direction {
+                        petgraph::Direction::Outgoing => "output",
+                        petgraph::Direction::Incoming => "input",
+                    },
+                    rty
+                ),
+            )
+            .add_span_note(
+                inter_ftype.src_id_span(),
+                format!("it requires Java code to convert '{}'", inter_ftype.name),
+            ));
+        }
         let inter_ft = map_type(ctx, &rty, direction, arg_span)?;
-        if inter_ft.java_converter.is_some()
-            || base_rt != inter_ft.base.corresponding_rust_type.to_idx()
-        {
+        if base_rt != inter_ft.base.corresponding_rust_type.to_idx() {
             return Err(DiagnosticError::new2(
                 origin_ftype_span,
                 format!(
@@ -82,17 +107,10 @@ pub(in crate::java_jni) fn map_type(
             )
             .add_span_note(
                 invalid_src_id_span(),
-                if let Some(java_conv) = inter_ft.java_converter {
-                    format!(
-                        "it requires Java code to convert from '{}' to '{}'",
-                        java_conv.java_transition_type, inter_ft.base.name
-                    )
-                } else {
-                    format!(
-                        "Type '{}' require conversion to type '{}' before usage as Java type",
-                        ctx.conv_map[base_rt], inter_ft.base.corresponding_rust_type
-                    )
-                },
+                format!(
+                    "Type '{}' require conversion to type '{}' before usage as Java type",
+                    ctx.conv_map[base_rt], inter_ft.base.corresponding_rust_type
+                ),
             ));
         }
         let annotation = type_annotation(inter_ft.base.name.display());
-- 
2.43.0


From 2def83582d29dcf6f59663930b499f5747af1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:20 +0000
Subject: [PATCH 32/36] fix: C++: conversion code with $out was broken in
 callbacks and as part of other conversions

---
 macroslib/src/cpp/cpp_code.rs   |  8 +++-
 macroslib/src/cpp/fclass.rs     |  7 +++-
 macroslib/src/cpp/finterface.rs | 69 ++++++++++++++++++++++++---------
 macroslib/src/cpp/map_type.rs   | 23 ++++++++++-
 4 files changed, 85 insertions(+), 22 deletions(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index f8ec624..767042b 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -1,5 +1,6 @@
 use std::{borrow::Cow, fmt::Write, mem};
 
+use petgraph::Direction;
 use proc_macro2::TokenStream;
 use quote::ToTokens;
 use rustc_hash::FxHashSet;
@@ -102,6 +103,7 @@ pub(in crate::cpp) fn convert_args<'a, NI: Iterator<Item = &'a str>>(
     f_method: &CppForeignMethodSignature,
     known_names: &mut FxHashSet<SmolStr>,
     arg_name_iter: NI,
+    direction: Direction,
 ) -> Result<(String, String), DiagnosticError> {
     let mut conv_deps = String::new();
     let mut converted_args = String::new();
@@ -110,6 +112,10 @@ pub(in crate::cpp) fn convert_args<'a, NI: Iterator<Item = &'a str>>(
             converted_args.push_str(", ");
         }
         if let Some(conv) = f_type_info.cpp_converter.as_ref() {
+            let to_type_name = match direction {
+                Direction::Incoming => &f_type_info.as_ref().name,
+                Direction::Outgoing => &conv.typename,
+            };
             let var_name = if conv.converter.has_param(TO_VAR_TYPE_TEMPLATE)
                 || conv.converter.has_param(TO_VAR_TEMPLATE)
             {
@@ -130,7 +136,7 @@ pub(in crate::cpp) fn convert_args<'a, NI: Iterator<Item = &'a str>>(
                                 Some(
                                     format!(
                                         "{} {}",
-                                        f_type_info.as_ref().name,
+                                        to_type_name,
                                         var_name.as_ref().unwrap()
                                     )
                                     .into(),
diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index 77c7de9..6e4b721 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -239,7 +239,12 @@ May be you need to use `private constructor = empty;` syntax?",
             cpp_code::cpp_generate_args_with_types(f_method, method.arg_names_without_self());
 
         let (conv_args_code, cpp_args_for_c) =
-            cpp_code::convert_args(f_method, &mut known_names, method.arg_names_without_self())?;
+            cpp_code::convert_args(
+                f_method,
+                &mut known_names,
+                method.arg_names_without_self(),
+                Direction::Incoming,
+            )?;
 
         let real_output_typename: Cow<str> = match method.fn_decl.output {
             syn::ReturnType::Default => Cow::Borrowed("()"),
diff --git a/macroslib/src/cpp/finterface.rs b/macroslib/src/cpp/finterface.rs
index fefd8bc..b3c1281 100644
--- a/macroslib/src/cpp/finterface.rs
+++ b/macroslib/src/cpp/finterface.rs
@@ -1,4 +1,4 @@
-use std::{io::Write, rc::Rc};
+use std::{borrow::Cow, io::Write, rc::Rc};
 
 use petgraph::Direction;
 use rustc_hash::FxHashSet;
@@ -17,7 +17,8 @@ use crate::{
         ast::{parse_ty_with_given_span, DisplayToTokens, ForeignTypeName},
         ty::{ForeignConversionIntermediate, ForeignConversionRule, ForeignTypeS, RustType},
         utils::rust_to_foreign_convert_method_inputs,
-        ForeignTypeInfo, TypeConvCode, FROM_VAR_TEMPLATE, TO_VAR_TEMPLATE, TO_VAR_TYPE_TEMPLATE,
+        ForeignTypeInfo, TypeConvCode, TypeConvCodeSubstParam, FROM_VAR_TEMPLATE, TO_VAR_TEMPLATE,
+        TO_VAR_TYPE_TEMPLATE,
     },
     types::ForeignInterface,
     WRITE_TO_MEM_FAILED_MSG,
@@ -420,16 +421,10 @@ struct C_{interface_name} {{
         let ret_name = new_unique_name(&known_names, "ret");
         known_names.insert(ret_name.clone());
 
-        let (cpp_ret_type, cpp_out_conv) =
-            if let Some(out_conv) = f_method.output.cpp_converter.as_ref() {
-                let conv_code = out_conv
-                    .converter
-                    .as_str()
-                    .replace(FROM_VAR_TEMPLATE, &ret_name);
-                (out_conv.typename.clone(), conv_code)
-            } else {
-                (c_ret_type.clone(), String::new())
-            };
+        let cpp_ret_type = match f_method.output.cpp_converter.as_ref() {
+            Some(out_conv) => out_conv.typename.clone(),
+            None => c_ret_type.clone(),
+        };
         writeln!(
             file_c,
             r#"{doc_comments}
@@ -470,7 +465,47 @@ struct C_{interface_name} {{
         .expect(WRITE_TO_MEM_FAILED_MSG);
 
         let (conv_args_code, call_input_args) =
-            cpp_code::convert_args(f_method, &mut known_names, method.arg_names_without_self())?;
+            cpp_code::convert_args(
+                f_method,
+                &mut known_names,
+                method.arg_names_without_self(),
+                Direction::Outgoing,
+            )?;
+
+        let cpp_out_conv = match f_method.output.cpp_converter.as_ref() {
+            Some(out_conv) => {
+                let conv_ret = new_unique_name(&known_names, "conv_ret");
+                known_names.insert(conv_ret.clone());
+                let conv_code =
+                    out_conv
+                        .converter
+                        .generate_code_with_subst_func(|param_name| match param_name {
+                            TypeConvCodeSubstParam::Name(name) => {
+                                if name == FROM_VAR_TEMPLATE {
+                                    Some(Cow::Borrowed(ret_name.as_str()))
+                                } else if name == TO_VAR_TYPE_TEMPLATE {
+                                    Some(format!("{} {}", c_ret_type, conv_ret).into())
+                                } else if name == TO_VAR_TEMPLATE {
+                                    Some(Cow::Borrowed(conv_ret.as_str()))
+                                } else {
+                                    None
+                                }
+                            }
+                            TypeConvCodeSubstParam::Tmp(name_template) => {
+                                let tmp_name = new_unique_name(&known_names, name_template);
+                                let tmp_name_ret = tmp_name.to_string().into();
+                                known_names.insert(tmp_name);
+                                Some(tmp_name_ret)
+                            }
+                        })?;
+                if out_conv.converter.has_param(TO_VAR_TYPE_TEMPLATE) {
+                    format!("{}\n        return {};", conv_code, conv_ret)
+                } else {
+                    format!("        return {};", conv_code)
+                }
+            }
+            None => format!("        return {};", ret_name),
+        };
 
         write!(
             &mut cpp_static_reroute_methods,
@@ -511,16 +546,12 @@ struct C_{interface_name} {{
                 &mut cpp_static_reroute_methods,
                 r#"
         auto {ret} = {p}->{method_name}({input_args});
-        return {cpp_out_conv};
+{cpp_out_conv}
     }}"#,
                 ret = ret_name,
                 method_name = method.name,
                 input_args = call_input_args,
-                cpp_out_conv = if cpp_out_conv.is_empty() {
-                    ret_name.as_str()
-                } else {
-                    cpp_out_conv.as_str()
-                },
+                cpp_out_conv = cpp_out_conv,
                 p = interface_ptr,
             )
             .expect(WRITE_TO_MEM_FAILED_MSG);
diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index d017c44..d04f77b 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -5,12 +5,15 @@ use petgraph::Direction;
 use syn::Type;
 
 use crate::{
-    cpp::{merge_c_types, merge_rule, CppContext, CppForeignTypeInfo, MergeCItemsFlags},
+    cpp::{
+        merge_c_types, merge_rule, CppContext, CppConverter, CppForeignTypeInfo, MergeCItemsFlags,
+    },
     error::{DiagnosticError, Result, SourceIdSpan},
     typemap::{
         ast::{DisplayToTokens, TyParamsSubstList, UniqueName},
         ty::{ForeignType, RustType, TraitNamesSet},
         ExpandedFType, MapToForeignFlag, TypeMapConvRuleInfoExpanderHelper, FROM_VAR_TEMPLATE,
+        TO_VAR_TYPE_TEMPLATE,
     },
     types::ForeignClassInfo,
     TypeMap,
@@ -157,6 +160,22 @@ impl CppContextForArg<'_, '_> {
             )),
         }
     }
+
+    /// Code of conversion is expected to be expression if it becomes part of other conversion
+    fn check_converter_is_expr(&self, ty: &RustType, conv: &CppConverter) -> Result<()> {
+        if conv.converter.has_param(TO_VAR_TYPE_TEMPLATE) {
+            return Err(DiagnosticError::new2(
+                conv.converter.full_span(),
+                format!(
+                    "code of conversion for type '{}' is not expression, \
+                     so it can not be used as part of other conversion",
+                    ty
+                ),
+            )
+            .add_span_note(self.arg_ty_span, "used here"));
+        }
+        Ok(())
+    }
 }
 
 impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
@@ -244,6 +263,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             .find_or_alloc_rust_type(ty, self.arg_ty_span.0);
         let f_info = map_type(self.ctx, &rust_ty, Direction::Incoming, self.arg_ty_span)?;
         if let Some(cpp_conv) = f_info.cpp_converter {
+            self.check_converter_is_expr(&rust_ty, &cpp_conv)?;
             Ok(cpp_conv
                 .converter
                 .as_str()
@@ -259,6 +279,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             .find_or_alloc_rust_type(ty, self.arg_ty_span.0);
         let f_info = map_type(self.ctx, &rust_ty, Direction::Outgoing, self.arg_ty_span)?;
         if let Some(cpp_conv) = f_info.cpp_converter {
+            self.check_converter_is_expr(&rust_ty, &cpp_conv)?;
             Ok(cpp_conv
                 .converter
                 .as_str()
-- 
2.43.0


From 536bfc9096bb42a9c3503ca3b60f90843ad449ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 33/36] fix: Java: parts of typemap rules and callback
 arguments that are not supported caused panic without file and line

---
 macroslib/src/java_jni/finterface.rs |  6 +++++-
 macroslib/src/java_jni/map_type.rs   | 26 +++++++++++++++++++----
 macroslib/src/java_jni/mod.rs        |  6 +++++-
 macroslib/src/java_jni/rust_code.rs  | 31 ++++++++++++++--------------
 4 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/macroslib/src/java_jni/finterface.rs b/macroslib/src/java_jni/finterface.rs
index 30d67ef..a587aef 100644
--- a/macroslib/src/java_jni/finterface.rs
+++ b/macroslib/src/java_jni/finterface.rs
@@ -213,7 +213,11 @@ impl SwigFrom<jobject> for Box<dyn {trait_name}> {{
         assert!(!method_id.is_null(), "Can not find {method_name} id");
         cb.methods.push(method_id);"#,
             method_name = method.name,
-            method_sig = rust_code::jni_method_signature(ctx, f_method),
+            method_sig = rust_code::jni_method_signature(
+                ctx,
+                f_method,
+                (interface.src_id, method.rust_name.span())
+            )?,
         )
         .unwrap();
     }
diff --git a/macroslib/src/java_jni/map_type.rs b/macroslib/src/java_jni/map_type.rs
index d0ad277..1c26c20 100644
--- a/macroslib/src/java_jni/map_type.rs
+++ b/macroslib/src/java_jni/map_type.rs
@@ -35,7 +35,13 @@ pub(in crate::java_jni) fn map_type(
     let ftype = &ctx.conv_map[fti];
     let origin_ftype_span = ftype.src_id_span();
     if !ftype.provided_by_module.is_empty() {
-        unimplemented!();
+        return Err(DiagnosticError::new2(
+            origin_ftype_span,
+            format!(
+                "foreign type {}: req_modules not supported for Java/JNI",
+                ftype.name
+            ),
+        ));
     }
     let rule = match direction {
         petgraph::Direction::Outgoing => ftype.into_from_rust.as_ref(),
@@ -55,7 +61,13 @@ pub(in crate::java_jni) fn map_type(
     let mut java_converter = None;
     if let Some(intermediate) = rule.intermediate.as_ref() {
         if intermediate.input_to_output {
-            unimplemented!();
+            return Err(DiagnosticError::new2(
+                origin_ftype_span,
+                format!(
+                    "foreign type {}: input_to_output not supported for Java/JNI",
+                    base_ft_name
+                ),
+            ));
         }
         base_rt = intermediate.intermediate_ty;
         let converter = intermediate.conv_code.to_string();
@@ -294,7 +306,10 @@ impl TypeMapConvRuleInfoExpanderHelper for JavaContextForArg<'_, '_> {
         _in_var_name: &str,
         _out_var_name: &str,
     ) -> Result<String> {
-        unimplemented!();
+        Err(DiagnosticError::new2(
+            self.arg_ty_span,
+            "swig_from_i_type_to_rust not supported for Java/JNI",
+        ))
     }
     fn swig_f_type(&mut self, ty: &syn::Type, param1: Option<&str>) -> Result<ExpandedFType> {
         let rust_ty = self
@@ -322,7 +337,10 @@ impl TypeMapConvRuleInfoExpanderHelper for JavaContextForArg<'_, '_> {
         })
     }
     fn swig_foreign_to_i_type(&mut self, _ty: &syn::Type, _var_name: &str) -> Result<String> {
-        unimplemented!();
+        Err(DiagnosticError::new2(
+            self.arg_ty_span,
+            "swig_foreign_to_i_type not supported for Java/JNI",
+        ))
     }
     fn swig_foreign_from_i_type(&mut self, ty: &syn::Type, var_name: &str) -> Result<String> {
         let rust_ty = self
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index 5ce8a3b..baff290 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -327,7 +327,11 @@ fn merge_rule(ctx: &mut JavaContext, mut rule: TypeMapConvRuleInfo) -> Result<()
         ));
     }
     if !rule.f_code.is_empty() {
-        unimplemented!();
+        return Err(DiagnosticError::new(
+            rule.src_id,
+            rule.span,
+            "foreign code not supported for Java/JNI",
+        ));
     }
     configure_ftype_rule(&mut rule.ftype_left_to_right, "=>", rule.src_id, &options)?;
     configure_ftype_rule(&mut rule.ftype_right_to_left, "<=", rule.src_id, &options)?;
diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 524def9..f22615d 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -126,31 +126,32 @@ pub(in crate::java_jni) fn generate_jni_func_name(
 pub(in crate::java_jni) fn jni_method_signature(
     ctx: &JavaContext,
     method: &JniForeignMethodSignature,
-) -> String {
+    method_span: SourceIdSpan,
+) -> Result<String> {
+    let unknown_type = |java_type: &str| {
+        DiagnosticError::new2(
+            method_span,
+            format!(
+                "Unknown type `{}`, can not generate JNI signature",
+                java_type
+            ),
+        )
+    };
     let mut ret: String = "(".into();
     for arg in &method.input {
         let java_type: String = filter_null_annotation(arg.as_ref().name.display())
             .trim()
             .into();
-        let sig = java_type_to_jni_signature(ctx, &java_type).unwrap_or_else(|| {
-            panic!(
-                "Unknown type `{}`, can not generate JNI signature",
-                java_type
-            )
-        });
+        let sig = java_type_to_jni_signature(ctx, &java_type)
+            .ok_or_else(|| unknown_type(&java_type))?;
         let sig = sig.replace('.', "/");
         ret.push_str(&sig);
     }
     ret.push(')');
-    let sig =
-        java_type_to_jni_signature(ctx, method.output.base.name.display()).unwrap_or_else(|| {
-            panic!(
-                "Unknown type `{}`, can not generate JNI signature",
-                method.output.base.name
-            )
-        });
+    let out_type = method.output.base.name.display();
+    let sig = java_type_to_jni_signature(ctx, out_type).ok_or_else(|| unknown_type(out_type))?;
     ret.push_str(sig);
-    ret
+    Ok(ret)
 }
 
 pub(in crate::java_jni) fn generate_load_unload_jni_funcs(
-- 
2.43.0


From fc7637f6cf00d3f947848e4e17469c244b3c38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:12 +0000
Subject: [PATCH 34/36] fix: C++: header of foreign code was included before
 headers of types that it uses

---
 macroslib/src/typemap/typemap_macro.rs | 38 +++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index 24d2916..b44f132 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -7,7 +7,7 @@ use petgraph::Direction;
 use proc_macro2::{Span, TokenStream};
 use rustc_hash::FxHashSet;
 use smol_str::SmolStr;
-use std::{cell::RefCell, convert::TryInto, fmt::Write, rc::Rc};
+use std::{cell::RefCell, convert::TryInto, fmt::Write, mem, rc::Rc};
 use syn::{
     spanned::Spanned,
     visit_mut::{visit_type_mut, VisitMut},
@@ -304,7 +304,7 @@ impl TypeMapConvRuleInfo {
         assert!(self.is_generic());
         let type_aliases =
             build_generic_aliases(self.src_id, &self.generic_aliases, &param_map, expander)?;
-        let (rtype_left_to_right, ftype_left_to_right) =
+        let (rtype_left_to_right, mut ftype_left_to_right) =
             if direction == Direction::Outgoing || self.if_simple_rtype_ftype_map().is_some() {
                 (
                     expand_rtype_rule(
@@ -325,7 +325,7 @@ impl TypeMapConvRuleInfo {
             } else {
                 (None, vec![])
             };
-        let (rtype_right_to_left, ftype_right_to_left) = if direction == Direction::Incoming {
+        let (rtype_right_to_left, mut ftype_right_to_left) = if direction == Direction::Incoming {
             (
                 expand_rtype_rule(
                     self.src_id,
@@ -345,13 +345,32 @@ impl TypeMapConvRuleInfo {
         } else {
             (None, vec![])
         };
+        let mut f_code_modules = Vec::<SmolStr>::new();
         let f_code = expand_fcode(
             &self.f_code,
             &param_map,
             expander,
             &type_aliases,
             self.src_id,
+            &mut f_code_modules,
         )?;
+        // foreign code uses these types, so they should be declared before it
+        for rule in ftype_left_to_right
+            .iter_mut()
+            .chain(ftype_right_to_left.iter_mut())
+        {
+            let old_modules = mem::take(&mut rule.req_modules);
+            let mut mod_uniques = FxHashSet::default();
+            rule.req_modules = f_code_modules
+                .iter()
+                .map(|name| ModuleName {
+                    name: name.clone(),
+                    sp: Span::call_site(),
+                })
+                .chain(old_modules)
+                .filter(|m| mod_uniques.insert(m.name.clone()))
+                .collect();
+        }
         Ok(TypeMapConvRuleInfo {
             src_id: self.src_id,
             span: self.span,
@@ -1235,13 +1254,21 @@ fn expand_foreign_code(
     expander: &mut dyn TypeMapConvRuleInfoExpanderHelper,
     generic_aliases: &[CalcGenericAlias],
     ctx_span: SourceIdSpan,
+    f_type_modules: &mut Vec<SmolStr>,
 ) -> Result<String> {
     expand_macroses(
         code,
         |id: &str, params: Vec<&str>, _, out: &mut String| -> Result<()> {
             match id {
                 _ if id == SWIG_F_TYPE => {
-                    call_swig_f_type(ctx_span, params, out, param_map, expander, generic_aliases)?;
+                    f_type_modules.append(&mut call_swig_f_type(
+                        ctx_span,
+                        params,
+                        out,
+                        param_map,
+                        expander,
+                        generic_aliases,
+                    )?);
                 }
                 _ if id == SWIG_I_TYPE => {
                     let (param, opt_arg) = match params.len() {
@@ -1313,6 +1340,7 @@ fn expand_foreign_type_conv_code(
         expander,
         generic_aliases,
         ctx_span,
+        &mut vec![],
     )?;
     Ok(TypeConvCode::with_params(
         ret_code,
@@ -1327,6 +1355,7 @@ fn expand_fcode(
     expander: &mut dyn TypeMapConvRuleInfoExpanderHelper,
     generic_aliases: &[CalcGenericAlias],
     src_id: SourceId,
+    f_type_modules: &mut Vec<SmolStr>,
 ) -> Result<Vec<ForeignCode>> {
     let mut ret = Vec::<ForeignCode>::with_capacity(f_code.len());
     for fc in f_code {
@@ -1338,6 +1367,7 @@ fn expand_fcode(
             expander,
             generic_aliases,
             (src_id, fc.sp),
+            f_type_modules,
         )?;
         ret.push(ForeignCode {
             sp: fc.sp,
-- 
2.43.0


From 4fe1eee6de170bff8b4cc2de7489c0367ee19053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:54 +0000
Subject: [PATCH 35/36] fix: C++: result could be reference to object that is
 destroyed before return

---
 macroslib/src/cpp/fclass.rs   | 12 ++++-----
 macroslib/src/cpp/map_type.rs | 50 +++++++++++++++++++++++++++++++++--
 macroslib/src/typemap.rs      | 20 ++++++++++++++
 3 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index 6e4b721..1eff7f3 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -10,7 +10,7 @@ use syn::{spanned::Spanned, Ident, Type};
 
 use crate::{
     cpp::{
-        c_func_name, cpp_code, do_c_func_name, map_type::map_type, CppContext,
+        c_func_name, cpp_code, do_c_func_name, map_type::{check_no_ref_to_temporary_object, map_type}, CppContext,
         CppForeignMethodSignature, CppForeignTypeInfo, MethodContext,
     },
     error::{panic_on_syn_error, DiagnosticError, Result},
@@ -1049,12 +1049,10 @@ fn find_suitable_foreign_types_for_methods(
                 .into(),
                 syn::ReturnType::Type(_, ref rt) => {
                     let ret_rust_ty = ctx.conv_map.find_or_alloc_rust_type(rt, class.src_id);
-                    map_type(
-                        ctx,
-                        &ret_rust_ty,
-                        Direction::Outgoing,
-                        (class.src_id, rt.span()),
-                    )?
+                    let rt_span = (class.src_id, rt.span());
+                    let f_info = map_type(ctx, &ret_rust_ty, Direction::Outgoing, rt_span)?;
+                    check_no_ref_to_temporary_object(ctx, &ret_rust_ty, &f_info, rt_span)?;
+                    f_info
                 }
             },
         };
diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index d04f77b..d01e2ad 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -10,8 +10,8 @@ use crate::{
     },
     error::{DiagnosticError, Result, SourceIdSpan},
     typemap::{
-        ast::{DisplayToTokens, TyParamsSubstList, UniqueName},
-        ty::{ForeignType, RustType, TraitNamesSet},
+        ast::{normalize_type, DisplayToTokens, TyParamsSubstList, UniqueName},
+        ty::{ForeignType, RustType, RustTypeS, TraitNamesSet},
         ExpandedFType, MapToForeignFlag, TypeMapConvRuleInfoExpanderHelper, FROM_VAR_TEMPLATE,
         TO_VAR_TYPE_TEMPLATE,
     },
@@ -142,6 +142,51 @@ pub(in crate::cpp) fn do_map_type(
     }
 }
 
+/// Reference to object of foreign class goes to C++ as pointer. If somewhere on the way from
+/// `rust_ty` to this reference there is not reference, then the pointer would point to
+/// value that lives only until the end of conversion.
+pub(in crate::cpp) fn check_no_ref_to_temporary_object(
+    ctx: &mut CppContext,
+    rust_ty: &RustType,
+    f_info: &CppForeignTypeInfo,
+    span: SourceIdSpan,
+) -> Result<()> {
+    let types = ctx.conv_map.types_on_conversion_path(
+        rust_ty.to_idx(),
+        f_info.base.corresponding_rust_type.to_idx(),
+        span,
+    )?;
+    let (ptr, types) = match types.split_last() {
+        Some((ptr, types)) if !types.is_empty() => (ptr, types),
+        _ => return Ok(()),
+    };
+    let const_void_ptr: syn::Type = syn::parse_quote! { *const ::std::os::raw::c_void };
+    let is_class_ref = ctx.conv_map.foreign_classes().iter().any(|class| {
+        calc_this_type_for_method(ctx.conv_map, class).map_or(false, |this_type| {
+            RustTypeS::make_unique_typename(
+                normalize_type(&const_void_ptr),
+                normalize_type(&this_type),
+            ) == ptr.normalized_name.as_str()
+        })
+    });
+    if !is_class_ref {
+        return Ok(());
+    }
+    match types
+        .iter()
+        .find(|x| !matches!(x.ty, syn::Type::Reference(_)))
+    {
+        Some(temporary) => Err(DiagnosticError::new2(
+            span,
+            format!(
+                "Can not convert '{}' to '{}', because of reference to temporary value of type '{}'",
+                rust_ty, f_info.base.name, temporary
+            ),
+        )),
+        None => Ok(()),
+    }
+}
+
 struct CppContextForArg<'a, 'b> {
     ctx: &'a mut CppContext<'b>,
     arg_ty_span: SourceIdSpan,
@@ -200,6 +245,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             .conv_map
             .find_or_alloc_rust_type(ty, self.arg_ty_span.0);
         let f_info = map_type(self.ctx, &rust_ty, Direction::Outgoing, self.arg_ty_span)?;
+        check_no_ref_to_temporary_object(self.ctx, &rust_ty, &f_info, self.arg_ty_span)?;
 
         let (mut conv_deps, conv_code) = self.ctx.conv_map.convert_rust_types(
             rust_ty.to_idx(),
diff --git a/macroslib/src/typemap.rs b/macroslib/src/typemap.rs
index ec200cc..c8d4426 100644
--- a/macroslib/src/typemap.rs
+++ b/macroslib/src/typemap.rs
@@ -604,6 +604,22 @@ impl TypeMap {
         Ok((code_deps, ret_code))
     }
 
+    /// All types that value has during conversion, `from` and `to` inclusive
+    pub(crate) fn types_on_conversion_path(
+        &mut self,
+        from: RustTypeIdx,
+        to: RustTypeIdx,
+        build_for_sp: SourceIdSpan,
+    ) -> Result<Vec<RustType>> {
+        let path = self.find_or_build_path(from, to, build_for_sp)?;
+        let mut ret = vec![self[from].clone()];
+        for edge in path {
+            let (_, target) = self.conv_graph.edge_endpoints(edge).unwrap();
+            ret.push(self.conv_graph[target].clone());
+        }
+        Ok(ret)
+    }
+
     fn find_path(
         &self,
         from: RustTypeIdx,
@@ -933,6 +949,10 @@ impl TypeMap {
         None
     }
 
+    pub(crate) fn foreign_classes(&self) -> &[ForeignClassInfo] {
+        &self.foreign_classes
+    }
+
     pub(crate) fn register_foreigner_class(&mut self, class: &ForeignClassInfo) {
         self.foreign_classes.push(class.clone());
     }
-- 
2.43.0


From 2fede70a3af721dd9b73db045d9f57b82e3e327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:58 +0000
Subject: [PATCH 36/36] fix: C++: result of type Box<str> or Rc<str> was view
 of string that is destroyed before return

---
 macroslib/src/cpp/map_type.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index d01e2ad..1d2acca 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -169,13 +169,20 @@ pub(in crate::cpp) fn check_no_ref_to_temporary_object(
             ) == ptr.normalized_name.as_str()
         })
     });
-    if !is_class_ref {
-        return Ok(());
-    }
-    match types
-        .iter()
-        .find(|x| !matches!(x.ty, syn::Type::Reference(_)))
-    {
+    let temporary = if is_class_ref {
+        types
+            .iter()
+            .find(|x| !matches!(x.ty, syn::Type::Reference(_)))
+    } else if ptr.normalized_name == "CRustStrView" {
+        // smart pointer to str
+        types
+            .iter()
+            .find(|x| x.normalized_name.as_str().ends_with("< str >"))
+            .filter(|x| !matches!(x.ty, syn::Type::Reference(_)))
+    } else {
+        None
+    };
+    match temporary {
         Some(temporary) => Err(DiagnosticError::new2(
             span,
             format!(
-- 
2.43.0

