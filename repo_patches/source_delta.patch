From 307faeec2f76f8c5b233fcefb3b9428b74d0161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 01/18] fix: compare base dimensions symmetrically, with
 missing exponents as zero

---
 crates/diman_unit_system/src/dimension_math.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..cc23c71 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -21,15 +21,19 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
-        })
+        // A base dimension that does not appear has an exponent of zero.
+        let exponent = |dimensions: &Self, dimension: &BaseDimension| {
+            dimensions
+                .get(dimension)
+                .copied()
+                .unwrap_or_else(Exponent::zero)
+        };
+        self.keys()
+            .chain(other.keys())
+            .all(|dimension| exponent(self, dimension) == exponent(other, dimension))
     }
 }
+
 impl BaseDimensions {
     pub fn none() -> Self {
         Self {
-- 
2.43.0


From 736ee254a2364e6a0bb831696cf8c3ab122ef758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 02/18] fix: keep conversion factors smaller than 2^-971
 instead of flushing them to zero

---
 crates/diman_lib/src/magnitude.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..1f773c6 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,11 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // Scale in two steps, since the power of two itself is out of the range of
+        // f64 for small numbers even though the result is not.
+        let exponent = self.exponent as i32;
+        let first = exponent / 2;
+        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(first) * 2.0f64.powi(exponent - first)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From 625bc65fcbf56eddc878227d6ed3874e8dda1b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 03/18] fix: dividing a number by a unit gives the reciprocal
 dimension

---
 crates/diman_unit_system/src/codegen/unit_type.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..2ca70d1 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -206,8 +206,11 @@ impl Codegen {
             }
 
             // X / Unit
-            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, _: Unit<D, F>) -> Self::Output {
                     Quantity(self / #into)
                 }
@@ -238,8 +241,11 @@ impl Codegen {
             }
 
             // X / RuntimeUnit
-            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, unit: RuntimeUnit<D>) -> Self::Output {
                     Quantity(self / unit.0.#conversion_to_float())
                 }
-- 
2.43.0


From fd0a11580bf35bf039275bd9637df18c7694c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 04/18] fix: dividing a unit by a quantity gives the quotient,
 not its reciprocal

---
 .../src/codegen/unit_type.rs                  | 49 +++++++++----------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 2ca70d1..c12ff7e 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -68,19 +68,6 @@ impl Codegen {
                 }
             }
 
-            // Unit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, S> Div<Quantity<S, DR>>
-                for Unit<DL, FL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / FL)
-                }
-            }
-
             // Quantity<S> / Unit
             impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Div<Unit<DR, FR>>
                 for Quantity<S, DL>
@@ -129,19 +116,6 @@ impl Codegen {
                 }
             }
 
-            // RuntimeUnit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, S> Div<Quantity<S, DR>>
-                for RuntimeUnit<DL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / self.0)
-                }
-            }
-
             // Quantity<S> / RuntimeUnit
             impl<const DL: Dimension, const DR: Dimension, S> Div<RuntimeUnit<DR>>
                 for Quantity<S, DL>
@@ -232,6 +206,18 @@ impl Codegen {
                 }
             }
 
+            // Unit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension, const F: Magnitude> Div<Quantity<#name, DR>>
+                for Unit<DL, F>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(#into / x.value_unchecked())
+                }
+            }
+
             // X * RuntimeUnit
             impl<const D: Dimension> Mul<RuntimeUnit<D>> for #name {
                 type Output = Quantity<#name, D>;
@@ -266,6 +252,17 @@ impl Codegen {
                     Quantity(self.0.#conversion_to_float() / f)
                 }
             }
+
+            // RuntimeUnit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension> Div<Quantity<#name, DR>> for RuntimeUnit<DL>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(self.0.#conversion_to_float() / x.value_unchecked())
+                }
+            }
         };
         res
     }
-- 
2.43.0


From 0a76137c0503bec516c0037b55d27fe48b70f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 05/18] fix: value_in only accepts units of the dimension of
 the quantity

---
 crates/diman_unit_system/src/codegen/quantity_type.rs | 2 +-
 crates/diman_unit_system/src/codegen/unit_type.rs     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index e7a8d8e..a651588 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -61,7 +61,7 @@ impl Codegen {
             where
                 S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
             {
-                pub fn value_in<A: Into<Magnitude>>(self, a: A) -> S {
+                pub fn value_in<A: unit_type::UnitOfDimension<D>>(self, a: A) -> S {
                     self.value_unchecked() / a.into()
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index c12ff7e..6fbef12 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -138,6 +138,13 @@ impl Codegen {
                 }
             }
 
+            /// Something with the dimension `D` that quantities can be converted into.
+            pub trait UnitOfDimension<const D: Dimension>: Into<Magnitude> {}
+
+            impl<const D: Dimension, const F: Magnitude> UnitOfDimension<D> for Unit<D, F> {}
+
+            impl<const D: Dimension> UnitOfDimension<D> for RuntimeUnit<D> {}
+
             impl<const D: Dimension, const F: Magnitude> From<Unit<D, F>> for Magnitude {
                 fn from(_: Unit<D, F>) -> Magnitude {
                     F
-- 
2.43.0


From 64cacf90d53470e5325120351635f43d1a1466f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 06/18] fix: quantity and dimension types can have any name

---
 crates/diman_unit_system/src/codegen/serde.rs          |  4 ++--
 crates/diman_unit_system/src/codegen/unit_type.rs      |  5 ++---
 .../src/codegen/units_and_constants.rs                 | 10 ++++++----
 crates/diman_unit_system/src/codegen/vector_methods.rs |  4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..a5cf2eb 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -179,7 +179,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#float_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#float_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
@@ -260,7 +260,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#vector_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#vector_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 6fbef12..e8945a0 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -6,12 +6,11 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_unit_type(&self) -> TokenStream {
-        let dimension_type = &self.defs.dimension_type;
         let trait_impls = self.gen_unit_trait_impls();
         let storage_type_impls = self.gen_unit_trait_impls_for_storage_types();
         quote! {
-            pub struct Unit<const D: #dimension_type, const F: Magnitude>;
-            pub struct RuntimeUnit<const D: #dimension_type>(Magnitude);
+            pub struct Unit<const D: Dimension, const F: Magnitude>;
+            pub struct RuntimeUnit<const D: Dimension>(Magnitude);
             #trait_impls
             #storage_type_impls
         }
diff --git a/crates/diman_unit_system/src/codegen/units_and_constants.rs b/crates/diman_unit_system/src/codegen/units_and_constants.rs
index f3c098e..8ef7185 100644
--- a/crates/diman_unit_system/src/codegen/units_and_constants.rs
+++ b/crates/diman_unit_system/src/codegen/units_and_constants.rs
@@ -7,6 +7,8 @@ use diman_lib::magnitude::Magnitude;
 
 impl Codegen {
     pub fn gen_units_and_constants(&self) -> TokenStream {
+        let dimension_type = &self.defs.dimension_type;
+        let quantity_type = &self.defs.quantity_type;
         let def_unit_type = self.gen_unit_type();
         let units: TokenStream = self
             .defs
@@ -34,9 +36,9 @@ impl Codegen {
         quote! {
             pub use #path_prefix::magnitude::Magnitude;
             mod unit_type {
-                use super::Dimension;
+                use super::#dimension_type as Dimension;
                 use super::Magnitude;
-                use super::Quantity;
+                use super::#quantity_type as Quantity;
                 #def_unit_type
             }
             #[allow(unused)]
@@ -46,7 +48,7 @@ impl Codegen {
             pub mod units {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #units
             }
@@ -54,7 +56,7 @@ impl Codegen {
             pub mod constants {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #constants
             }
diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index da73e96..b3986e7 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -136,9 +136,9 @@ impl Codegen {
                     #quantity_type::<#vector_type_name, { #dimension_type::none() }>(self.0.normalize())
                 }
 
-                pub fn dot<const DR: Dimension>(
+                pub fn dot<const DR: #dimension_type>(
                     self,
-                    rhs: Quantity<#vector_type_name, DR>,
+                    rhs: #quantity_type<#vector_type_name, DR>,
                 ) -> #quantity_type<#float_type, { D.add(DR) }> {
                     #quantity_type(self.0.dot(rhs.0))
                 }
-- 
2.43.0


From 1f9c01b0b01e9177631e32dd895593f9f50bf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 07/18] fix: keep the denominator of rational exponents
 positive

---
 crates/diman_lib/src/ratio.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..18b7201 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -36,10 +36,16 @@ impl Ratio {
     }
 
     pub const fn new(num: i64, denom: i64) -> Self {
-        let gcd = gcd(num, denom);
+        // The sign is always part of the numerator, to have a
+        // single representation for every value.
+        let divisor = if denom < 0 {
+            -gcd(num, denom)
+        } else {
+            gcd(num, denom)
+        };
         Self {
-            num: num / gcd,
-            denom: denom / gcd,
+            num: num / divisor,
+            denom: denom / divisor,
         }
     }
 
-- 
2.43.0


From 54216d0da5521fe93749357469fe233e91080bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 08/18] fix: reject rational exponents with a denominator of
 zero

---
 crates/diman_unit_system/src/parse/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 4407f10..265a116 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -130,7 +130,14 @@ impl Parse for Exponent {
             let _: token::Paren = parenthesized!(content in input);
             let num: Int = content.parse()?;
             let _: DivisionToken = content.parse()?;
+            let denom_span = content.span();
             let denom: Int = content.parse()?;
+            if denom.int == 0 {
+                return Err(Error::new(
+                    denom_span,
+                    "The denominator of an exponent cannot be zero.".to_string(),
+                ));
+            }
             Ok(Self {
                 num,
                 denom: Some(denom),
-- 
2.43.0


From 0d26498da6cab44e7a37f58391d3955d202eaf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 09/18] fix: integer factors are not limited to the range of
 i64

---
 crates/diman_unit_system/src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 265a116..706958e 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -86,7 +86,7 @@ impl Parse for Number {
     fn parse(input: ParseStream) -> Result<Self> {
         let lit = input.parse()?;
         let float = match lit {
-            Lit::Int(ref int) => int.base10_parse::<i64>().map(|x| x as f64),
+            Lit::Int(ref int) => int.base10_parse::<f64>(),
             Lit::Float(ref float) => float.base10_parse::<f64>(),
             _ => Err(Error::new(
                 lit.span(),
-- 
2.43.0


From 80e2eb92ec64689ee06c7538bbe6aa9353969185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 10/18] fix: reject text in front of a vector when
 deserializing

---
 crates/diman_unit_system/src/codegen/serde.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index a5cf2eb..1451d5a 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -237,6 +237,9 @@ impl Codegen {
                     let bracket_begin = vector_part
                         .find('(')
                         .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
+                    if bracket_begin != 0 {
+                        return Err(E::custom(format!("unexpected text in front of vector: {}", &vector_part[..bracket_begin])));
+                    }
                     let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
-- 
2.43.0


From 803f22556cb5d1b574a23d57bea9a82e0940ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/18] fix: deserialize rational exponents

---
 crates/diman_unit_system/src/codegen/serde.rs | 42 +++++++++++++++++--
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 1451d5a..2cadb72 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -20,6 +20,8 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
+        let read_exponent = self.serde_read_exponent();
+        let dimension_power = self.serde_dimension_power();
 
         quote! {
             use core::marker::PhantomData;
@@ -67,22 +69,54 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        read_unit_exponent(split[1]).ok_or_else(|| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    #dimension_power,
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
+
+            #read_exponent
+        }
+    }
+
+    #[cfg(feature = "rational-dimensions")]
+    fn serde_read_exponent(&self) -> TokenStream {
+        quote! {
+            fn read_unit_exponent(exponent: &str) -> Option<Exponent> {
+                let (num, denom) = exponent.split_once('/').unwrap_or((exponent, "1"));
+                let (num, denom) = (num.parse::<i32>().ok()?, denom.parse::<i32>().ok()?);
+                (denom > 0).then(|| Exponent::new(num as i64, denom as i64))
+            }
+        }
+    }
+
+    #[cfg(not(feature = "rational-dimensions"))]
+    fn serde_read_exponent(&self) -> TokenStream {
+        quote! {
+            fn read_unit_exponent(exponent: &str) -> Option<Exponent> {
+                exponent.parse::<i32>().ok().map(Exponent::from_int)
+            }
+        }
+    }
+
+    fn serde_dimension_power(&self) -> TokenStream {
+        let dimension_type = &self.defs.dimension_type;
+        let fields: Vec<_> = self.defs.base_dimensions().collect();
+        quote! {
+            #dimension_type {
+                #(#fields: unit.dimension.#fields * exponent,)*
+            }
         }
     }
 
-- 
2.43.0


From c8d711b2c38dc28f46e65b49a1af27f7a6656373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 12/18] fix: base dimensions can have any name, also that of a
 keyword

---
 crates/diman_unit_system/src/types/base_dimension.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 925cf17..acf257a 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -20,7 +20,11 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.to_string());
+    if syn::parse_str::<Ident>(&snake_case).is_err() {
+        // A keyword (for example for a dimension named `Type`) is not a valid field name.
+        snake_case.push('_');
+    }
     Ident::new(&snake_case, dim.span())
 }
 
-- 
2.43.0


From 560caca277bb845cb4e07f9192d8d2365f5f620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 13/18] fix: powers of units do not depend on the enabled
 features

---
 crates/diman_lib/src/dimension_exponent.rs | 5 ++++-
 crates/diman_lib/src/ratio.rs              | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index c427bc1..3804ead 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -26,7 +26,10 @@ impl DimensionExponent for i64 {
     }
 
     fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {
-        Magnitude::from_f64(num.into_f64().powi(exponent as i32))
+        // Negative powers are rounded differently by std and num_traits, so only
+        // rely on positive ones to get the same result with any features.
+        let power = num.into_f64().powi(exponent.abs() as i32);
+        Magnitude::from_f64(if exponent < 0 { 1.0 / power } else { power })
     }
 
     fn from_int(i: i32) -> Self {
diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 18b7201..08966d1 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -100,6 +100,10 @@ impl DimensionExponent for Ratio {
     }
 
     fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {
+        if exponent.denom == 1 {
+            // The same result as without rational dimensions
+            return i64::float_pow(num, exponent.num);
+        }
         num.pow_rational(exponent.num, exponent.denom)
     }
 
-- 
2.43.0


From 5ca1245f0df4d861afd976dbfe22e9000d20629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 14/18] fix: enabling features does not add names to the module
 of the unit system

---
 .../src/codegen/float_methods.rs              | 14 +++++++++++---
 crates/diman_unit_system/src/codegen/hdf5.rs  | 11 ++++++++++-
 crates/diman_unit_system/src/codegen/mod.rs   |  1 -
 crates/diman_unit_system/src/codegen/rand.rs  | 19 +++++++++++--------
 crates/diman_unit_system/src/codegen/serde.rs | 17 +++++++++++++++--
 5 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/float_methods.rs b/crates/diman_unit_system/src/codegen/float_methods.rs
index 3bf7c63..6e557b5 100644
--- a/crates/diman_unit_system/src/codegen/float_methods.rs
+++ b/crates/diman_unit_system/src/codegen/float_methods.rs
@@ -78,12 +78,20 @@ impl Codegen {
     }
 
     pub fn gen_float_methods(&self) -> TokenStream {
-        join([
-            self.ensure_float_traits(),
+        let float_traits = self.ensure_float_traits();
+        let impls = join([
             #[cfg(any(feature = "std", feature = "num-traits-libm"))]
             self.all_dimensionless_float_methods(),
             self.specific_float_methods_for_all_float_types(),
-        ])
+            self.gen_generic_methods(),
+        ]);
+        quote! {
+            // The imported trait must not end up in the scope of the caller.
+            const _: () = {
+                #float_traits
+                #impls
+            };
+        }
     }
 
     fn specific_float_methods_for_all_float_types(&self) -> TokenStream {
diff --git a/crates/diman_unit_system/src/codegen/hdf5.rs b/crates/diman_unit_system/src/codegen/hdf5.rs
index 8cac75f..180cbd4 100644
--- a/crates/diman_unit_system/src/codegen/hdf5.rs
+++ b/crates/diman_unit_system/src/codegen/hdf5.rs
@@ -7,7 +7,16 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_hdf5_impl(&self) -> TokenStream {
-        join([self.hdf5_floats_impl(), self.hdf5_vectors_impl()])
+        let impls = join([self.hdf5_floats_impl(), self.hdf5_vectors_impl()]);
+        quote! {
+            // The names below must not depend on the scope of the caller.
+            const _: () = {
+                use ::hdf5;
+                use ::std::boxed::Box;
+
+                #impls
+            };
+        }
     }
 
     fn hdf5_floats_impl(&self) -> TokenStream {
diff --git a/crates/diman_unit_system/src/codegen/mod.rs b/crates/diman_unit_system/src/codegen/mod.rs
index fe47669..227ed4b 100644
--- a/crates/diman_unit_system/src/codegen/mod.rs
+++ b/crates/diman_unit_system/src/codegen/mod.rs
@@ -62,7 +62,6 @@ impl Codegen {
             self.gen_debug_trait_impl(),
             self.gen_float_methods(),
             self.gen_vector_methods(),
-            self.gen_generic_methods(),
             #[cfg(feature = "serde")]
             self.gen_serde_impl(),
             #[cfg(feature = "hdf5")]
diff --git a/crates/diman_unit_system/src/codegen/rand.rs b/crates/diman_unit_system/src/codegen/rand.rs
index 832e5bf..1cb21e4 100644
--- a/crates/diman_unit_system/src/codegen/rand.rs
+++ b/crates/diman_unit_system/src/codegen/rand.rs
@@ -14,16 +14,19 @@ impl Codegen {
             .collect();
         let dimension_type = &self.defs.dimension_type;
         quote! {
-            use ::rand::distributions::uniform::SampleBorrow;
-            use ::rand::distributions::uniform::SampleUniform;
-            use ::rand::distributions::uniform::UniformFloat;
-            use ::rand::distributions::uniform::UniformSampler;
-            use ::rand::prelude::*;
-
             #[derive(Clone, Copy, Debug)]
-            pub struct UniformQuantity<S, const D: #dimension_type>(UniformFloat<S>);
+            pub struct UniformQuantity<S, const D: #dimension_type>(::rand::distributions::uniform::UniformFloat<S>);
+
+            // The imports below must not end up in the scope of the caller.
+            const _: () = {
+                use ::rand::distributions::uniform::SampleBorrow;
+                use ::rand::distributions::uniform::SampleUniform;
+                use ::rand::distributions::uniform::UniformFloat;
+                use ::rand::distributions::uniform::UniformSampler;
+                use ::rand::Rng;
 
-            #float_impls
+                #float_impls
+            };
         }
     }
 
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 2cadb72..af72e07 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -9,11 +9,24 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_serde_impl(&self) -> TokenStream {
-        join([
+        let impls = join([
             self.serde_helpers_impl(),
             self.serde_floats_impl(),
             self.serde_vectors_impl(),
-        ])
+        ]);
+        quote! {
+            // The names below must not end up in (or depend on) the scope of the caller.
+            const _: () = {
+                use ::core;
+                use ::serde;
+                use ::std;
+                use ::std::option::Option;
+                use ::std::result::Result::{self, Err, Ok};
+                use ::std::vec::Vec;
+
+                #impls
+            };
+        }
     }
 
     fn serde_helpers_impl(&self) -> TokenStream {
-- 
2.43.0


From 02106c415c4f7c43dc5ff8aaf0775e228c784004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:36 +0000
Subject: [PATCH 15/18] fix: reject suffixes of numbers that are not those of a
 number type

---
 crates/diman_unit_system/src/parse/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 706958e..a1819be 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -82,9 +82,24 @@ impl Number {
     }
 }
 
+/// The suffix of a literal is not part of its value, so that `2m` would be read as `2`.
+fn check_suffix(lit: &Lit) -> Result<()> {
+    match lit.suffix() {
+        "" | "f32" | "f64" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" | "u8" | "u16"
+        | "u32" | "u64" | "u128" | "usize" => Ok(()),
+        suffix => Err(Error::new(
+            lit.span(),
+            format!(
+                "Unexpected suffix '{suffix}' of a number, a unit has to be separated from it."
+            ),
+        )),
+    }
+}
+
 impl Parse for Number {
     fn parse(input: ParseStream) -> Result<Self> {
         let lit = input.parse()?;
+        check_suffix(&lit)?;
         let float = match lit {
             Lit::Int(ref int) => int.base10_parse::<f64>(),
             Lit::Float(ref float) => float.base10_parse::<f64>(),
@@ -100,6 +115,7 @@ impl Parse for Number {
 impl Parse for Int {
     fn parse(input: ParseStream) -> Result<Self> {
         let lit = input.parse()?;
+        check_suffix(&lit)?;
         let int = match lit {
             Lit::Int(ref int) => int.base10_parse::<i64>(),
             _ => Err(Error::new(
-- 
2.43.0


From edf8fd8f23650d3e1dec62317e446aa0d97161e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 16/18] fix: integer powers of factors are not limited to
 exponents of 32 bits

---
 crates/diman_lib/src/dimension_exponent.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index 3804ead..8fdb004 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -2,13 +2,6 @@ use core::ops::{AddAssign, Mul, Neg};
 
 use crate::magnitude::Magnitude;
 
-// For some reason, this use statement is never recognized as used
-// even when I build the crates with no std, where removing the use
-// statement means that powi below cannot be used.
-#[allow(unused)]
-#[cfg(not(any(feature = "std")))]
-use num_traits::float::FloatCore;
-
 pub trait DimensionExponent: Clone + PartialEq + Copy + Mul + AddAssign + Neg {
     fn float_pow(mag: Magnitude, exponent: Self) -> Magnitude;
     fn one() -> Self;
@@ -26,9 +19,18 @@ impl DimensionExponent for i64 {
     }
 
     fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {
-        // Negative powers are rounded differently by std and num_traits, so only
-        // rely on positive ones to get the same result with any features.
-        let power = num.into_f64().powi(exponent.abs() as i32);
+        // The powers of std and num_traits are rounded differently and limited to
+        // exponents in the range of an i32.
+        let mut power = 1.0;
+        let mut base = num.into_f64();
+        let mut remaining = exponent.unsigned_abs();
+        while remaining > 0 {
+            if remaining % 2 == 1 {
+                power *= base;
+            }
+            base *= base;
+            remaining /= 2;
+        }
         Magnitude::from_f64(if exponent < 0 { 1.0 / power } else { power })
     }
 
-- 
2.43.0


From 3198c80379b2f85080a9d601c1bbdd40f9265e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:26 +0000
Subject: [PATCH 17/18] fix: raw identifiers can be used as names, symbols and
 base dimensions

---
 crates/diman_unit_system/src/codegen/debug_trait.rs  | 3 ++-
 crates/diman_unit_system/src/types/base_dimension.rs | 3 ++-
 crates/diman_unit_system/src/types/mod.rs            | 9 ++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 51214b7..b9e0cba 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::{
     codegen::CallerType,
@@ -25,7 +26,7 @@ impl Codegen {
             .filter_map(|unit| {
                 let dim = self.get_dimension_expr(&unit.dimensions);
                 let magnitude = unit.magnitude.into_f64();
-                let symbol = &unit.symbol.as_ref()?.0.to_string();
+                let symbol = &unit.symbol.as_ref()?.0.unraw().to_string();
                 Some(quote! {
                     #runtime_unit::new(
                          #symbol,
diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index acf257a..4e2e441 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -1,4 +1,5 @@
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 #[derive(PartialEq, Eq, Hash, Clone, PartialOrd, Ord)]
 pub struct BaseDimension(pub Ident);
@@ -20,7 +21,7 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let mut snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.unraw().to_string());
     if syn::parse_str::<Ident>(&snake_case).is_err() {
         // A keyword (for example for a dimension named `Type`) is not a valid field name.
         snake_case.push('_');
diff --git a/crates/diman_unit_system/src/types/mod.rs b/crates/diman_unit_system/src/types/mod.rs
index 7c68a27..83a8b42 100644
--- a/crates/diman_unit_system/src/types/mod.rs
+++ b/crates/diman_unit_system/src/types/mod.rs
@@ -4,7 +4,7 @@ pub mod prefixes;
 
 use diman_lib::magnitude::Magnitude;
 use proc_macro2::Span;
-use syn::*;
+use syn::{ext::IdentExt, *};
 
 use self::{
     base_dimension::BaseDimension,
@@ -104,7 +104,10 @@ impl UnitTemplate {
         };
         match prefix {
             None => name,
-            Some(prefix) => Ident::new(&format!("{}{}", prefix.name(), name), name.span()),
+            Some(prefix) => Ident::new(
+                &format!("{}{}", prefix.name(), name.unraw()),
+                name.span(),
+            ),
         }
     }
 
@@ -117,7 +120,7 @@ impl UnitTemplate {
                 None => self.symbol.clone(),
                 Some(prefix) => self.symbol.as_ref().map(|symbol| {
                     Symbol(Ident::new(
-                        &format!("{}{}", prefix.short(), symbol.0),
+                        &format!("{}{}", prefix.short(), symbol.0.unraw()),
                         self.name.span(),
                     ))
                 }),
-- 
2.43.0


From 665e7d166bf6ccdd24f15b1d0433a3dcc331ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:38 +0000
Subject: [PATCH 18/18] fix: the generated code does not depend on other items
 of the module

The code of the traits named types and traits of the standard library by
their bare names, so that a unit system did not compile in a module with a
module called `core` or with items called `Option`, `From`, `Copy`, `Some`...
---
 .../src/codegen/debug_trait.rs                |  8 +++---
 .../src/codegen/float_methods.rs              |  6 ++---
 .../src/codegen/num_traits/mod.rs             |  8 +++---
 .../src/codegen/num_traits/operator_trait.rs  | 26 +++++++++----------
 .../src/codegen/quantity_type.rs              |  6 ++---
 crates/diman_unit_system/src/codegen/rand.rs  |  3 ++-
 crates/diman_unit_system/src/codegen/serde.rs |  2 +-
 7 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index b9e0cba..50b59f5 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -59,16 +59,16 @@ impl Codegen {
             .map(|base_dim| self.get_base_dimension_symbol(base_dim))
             .collect::<TokenStream>();
         quote! {
-            impl<const D: #dimension_type, S: core::fmt::Display> core::fmt::Debug for #quantity_type<S, D> {
-                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            impl<const D: #dimension_type, S: ::core::fmt::Display> ::core::fmt::Debug for #quantity_type<S, D> {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                     #units_storage
                     self.0.fmt(f)?;
-                    if let Some(unit) = units.get_first_unit_for_dimension(D) {
+                    if let ::core::option::Option::Some(unit) = units.get_first_unit_for_dimension(D) {
                         write!(f, " {}", unit.symbol)
                     }
                     else {
                         #get_base_dimension_symbols
-                        Ok(())
+                        ::core::result::Result::Ok(())
                     }
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/float_methods.rs b/crates/diman_unit_system/src/codegen/float_methods.rs
index 6e557b5..cefe6ee 100644
--- a/crates/diman_unit_system/src/codegen/float_methods.rs
+++ b/crates/diman_unit_system/src/codegen/float_methods.rs
@@ -147,15 +147,15 @@ impl Codegen {
 
                 #roots
 
-                pub fn min<Q: Into<Self>>(self, other: Q) -> Self {
+                pub fn min<Q: ::core::convert::Into<Self>>(self, other: Q) -> Self {
                     Self(self.0.min(other.into().0))
                 }
 
-                pub fn max<Q: Into<Self>>(self, other: Q) -> Self {
+                pub fn max<Q: ::core::convert::Into<Self>>(self, other: Q) -> Self {
                     Self(self.0.max(other.into().0))
                 }
 
-                pub fn clamp<Q: Into<Self>>(self, min: Q, max: Q) -> Self {
+                pub fn clamp<Q: ::core::convert::Into<Self>>(self, min: Q, max: Q) -> Self {
                     Self(self.0.clamp(min.into().0, max.into().0))
                 }
 
diff --git a/crates/diman_unit_system/src/codegen/num_traits/mod.rs b/crates/diman_unit_system/src/codegen/num_traits/mod.rs
index 0212773..041cb4c 100644
--- a/crates/diman_unit_system/src/codegen/num_traits/mod.rs
+++ b/crates/diman_unit_system/src/codegen/num_traits/mod.rs
@@ -23,10 +23,10 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            impl<const D: #dimension_type, S: Default + core::ops::AddAssign<S>> core::iter::Sum
+            impl<const D: #dimension_type, S: ::core::default::Default + ::core::ops::AddAssign<S>> ::core::iter::Sum
                 for #quantity_type<S, D>
             {
-                fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
+                fn sum<I: ::core::iter::Iterator<Item = Self>>(iter: I) -> Self {
                     let mut total = Self::default();
                     for item in iter {
                         total += item;
@@ -42,7 +42,7 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            impl<const D: #dimension_type, S: core::ops::Neg<Output=S>> core::ops::Neg for #quantity_type<S, D> {
+            impl<const D: #dimension_type, S: ::core::ops::Neg<Output=S>> ::core::ops::Neg for #quantity_type<S, D> {
                 type Output = Self;
 
                 fn neg(self) -> Self::Output {
@@ -56,7 +56,7 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            impl<S> From<S>
+            impl<S> ::core::convert::From<S>
                 for #quantity_type<S, { #dimension_type::none() }>
             {
                 fn from(rhs: S) -> Self {
diff --git a/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs b/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs
index cf333c8..9c2cc4a 100644
--- a/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs
+++ b/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs
@@ -22,16 +22,16 @@ use Trait::*;
 impl Trait {
     pub fn name(&self) -> TokenStream {
         match self {
-            Add => quote! { core::ops::Add },
-            Sub => quote! { core::ops::Sub },
-            Mul => quote! { core::ops::Mul },
-            Div => quote! { core::ops::Div },
-            AddAssign => quote! { core::ops::AddAssign },
-            SubAssign => quote! { core::ops::SubAssign },
-            MulAssign => quote! { core::ops::MulAssign },
-            DivAssign => quote! { core::ops::DivAssign },
-            PartialEq => quote! { core::cmp::PartialEq },
-            PartialOrd => quote! { core::cmp::PartialOrd },
+            Add => quote! { ::core::ops::Add },
+            Sub => quote! { ::core::ops::Sub },
+            Mul => quote! { ::core::ops::Mul },
+            Div => quote! { ::core::ops::Div },
+            AddAssign => quote! { ::core::ops::AddAssign },
+            SubAssign => quote! { ::core::ops::SubAssign },
+            MulAssign => quote! { ::core::ops::MulAssign },
+            DivAssign => quote! { ::core::ops::DivAssign },
+            PartialEq => quote! { ::core::cmp::PartialEq },
+            PartialOrd => quote! { ::core::cmp::PartialOrd },
         }
     }
 
@@ -57,7 +57,7 @@ impl Trait {
                 quote! { () }
             }
             PartialEq => quote! { bool },
-            PartialOrd => quote! { Option<core::cmp::Ordering> },
+            PartialOrd => quote! { ::core::option::Option<::core::cmp::Ordering> },
         }
     }
 
@@ -383,12 +383,12 @@ impl OperatorTrait {
             let trait_name = self.name.name();
             let output_bound = quote! {};
             let lhs_copy_bound = if self.lhs.reference.is_ref() {
-                quote! { #lhs_storage: Copy, }
+                quote! { #lhs_storage: ::core::marker::Copy, }
             } else {
                 quote! {}
             };
             let rhs_copy_bound = if self.rhs.reference.is_ref() {
-                quote! { #rhs_storage: Copy, }
+                quote! { #rhs_storage: ::core::marker::Copy, }
             } else {
                 quote! {}
             };
diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index a651588..2a0cee7 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -11,7 +11,7 @@ impl Codegen {
         let span = quantity_type.span();
         let functions = self.quantity_functions();
         quote_spanned! {span =>
-            #[derive(Clone, Copy, Eq, Default)]
+            #[derive(::core::clone::Clone, ::core::marker::Copy, ::core::cmp::Eq, ::core::default::Default)]
             #[repr(transparent)]
             pub struct #quantity_type<S, const D: #dimension_type>(pub(crate) S);
             #functions
@@ -59,14 +59,14 @@ impl Codegen {
 
             impl<const D: #dimension_type, S> #quantity_type<S, D>
             where
-                S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
+                S: ::core::ops::Div<Magnitude, Output = S> + ::core::fmt::Debug,
             {
                 pub fn value_in<A: unit_type::UnitOfDimension<D>>(self, a: A) -> S {
                     self.value_unchecked() / a.into()
                 }
             }
 
-            impl<S> core::ops::Deref for #quantity_type<S, { #dimension_type::none() }> {
+            impl<S> ::core::ops::Deref for #quantity_type<S, { #dimension_type::none() }> {
                 type Target = S;
 
                 fn deref(&self) -> &Self::Target {
diff --git a/crates/diman_unit_system/src/codegen/rand.rs b/crates/diman_unit_system/src/codegen/rand.rs
index 1cb21e4..bf00304 100644
--- a/crates/diman_unit_system/src/codegen/rand.rs
+++ b/crates/diman_unit_system/src/codegen/rand.rs
@@ -14,7 +14,7 @@ impl Codegen {
             .collect();
         let dimension_type = &self.defs.dimension_type;
         quote! {
-            #[derive(Clone, Copy, Debug)]
+            #[derive(::core::clone::Clone, ::core::marker::Copy, ::core::fmt::Debug)]
             pub struct UniformQuantity<S, const D: #dimension_type>(::rand::distributions::uniform::UniformFloat<S>);
 
             // The imports below must not end up in the scope of the caller.
@@ -23,6 +23,7 @@ impl Codegen {
                 use ::rand::distributions::uniform::SampleUniform;
                 use ::rand::distributions::uniform::UniformFloat;
                 use ::rand::distributions::uniform::UniformSampler;
+                use ::core::marker::Sized;
                 use ::rand::Rng;
 
                 #float_impls
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index af72e07..6d26bf7 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -42,7 +42,7 @@ impl Codegen {
 
             use serde::de;
 
-            #[derive(Default)]
+            #[derive(::core::default::Default)]
             struct QuantityVisitor<S, const D: #dimension_type>(PhantomData<S>);
 
             fn get_quantity_if_dimensions_match<S, const D: #dimension_type, E: de::Error>(
-- 
2.43.0

