From 1c77fc32257bf4c9dcc2d682e251636594b5f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 01/39] fix: report output errors when writing tree values

---
 src/format/tree.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/format/tree.rs b/src/format/tree.rs
index 67fae78..4b1e6a0 100644
--- a/src/format/tree.rs
+++ b/src/format/tree.rs
@@ -87,18 +87,20 @@ impl TreeFormat {
 					.try_into()
 					.map_err(WriteError::NonJsonValue)?;
 				if pretty {
-					write!(output, "{}", json.pretty_print()).map_err(WriteError::IO)
+					write!(output, "{}", json.pretty_print()).map_err(WriteError::IO)?
 				} else {
-					write!(output, "{}", json.compact_print()).map_err(WriteError::IO)
+					write!(output, "{}", json.compact_print()).map_err(WriteError::IO)?
 				}
 			}
 			Self::Cbor => {
 				let cbor = value
 					.try_into_tagged_serde_cbor(layouts)
 					.map_err(WriteError::CborTag)?;
-				serde_cbor::to_writer(output, &cbor).map_err(WriteError::Cbor)
+				serde_cbor::to_writer(&mut output, &cbor).map_err(WriteError::Cbor)?
 			}
 		}
+
+		output.flush().map_err(WriteError::IO)
 	}
 
 	pub fn write_untyped(
@@ -112,13 +114,15 @@ impl TreeFormat {
 				let json: json_syntax::Value =
 					value.try_into().map_err(WriteError::NonJsonValue)?;
 				if pretty {
-					write!(output, "{}", json.pretty_print()).map_err(WriteError::IO)
+					write!(output, "{}", json.pretty_print()).map_err(WriteError::IO)?
 				} else {
-					write!(output, "{}", json.compact_print()).map_err(WriteError::IO)
+					write!(output, "{}", json.compact_print()).map_err(WriteError::IO)?
 				}
 			}
-			Self::Cbor => serde_cbor::to_writer(output, &value).map_err(WriteError::Cbor),
+			Self::Cbor => serde_cbor::to_writer(&mut output, &value).map_err(WriteError::Cbor)?,
 		}
+
+		output.flush().map_err(WriteError::IO)
 	}
 }
 
-- 
2.43.0


From 8c608df462764c8c688deb384d7fe85b3fc4c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:54 +0000
Subject: [PATCH 02/39] fix: decimal representation of negative numbers

---
 layouts/src/value/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..84b2f12 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -111,7 +111,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer().abs() / self.0.denom()).to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From adff921e4b26b5baa4b9bd361341f7ea2ea16fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 03/39] fix: reading and writing negative decimal literals

---
 layouts/src/distill/de/data.rs |  4 ++--
 layouts/src/distill/hy/data.rs | 11 ++++-----
 layouts/src/value/mod.rs       | 42 ++++++++++++++++++----------------
 3 files changed, 28 insertions(+), 29 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..5e1a57e 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -44,10 +44,10 @@ where
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
 		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
+			if let Some(decimal) = value.decimal_representation() {
 				// TODO better support for XSD decimal datatype.
 				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
+					decimal,
 					LiteralType::Any(i.clone()),
 				));
 			}
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..a2788e8 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -11,7 +11,7 @@ use rdf_types::{
 	interpretation::{ReverseIriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, LiteralTypeRef, Vocabulary,
 };
-use xsd_types::{lexical::Lexical, ParseXsd};
+use xsd_types::ParseXsd;
 
 use super::{DataFragment, Error, MatchingForFragment};
 
@@ -236,12 +236,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
-		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
-			}
-			Err(_) => {
+		Some(xsd_types::Datatype::Decimal(_t)) => match Number::parse_decimal(value) {
+			Some(value) => Ok(value),
+			None => {
 				todo!()
 			}
 		},
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 84b2f12..a843820 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -3,10 +3,10 @@ use std::{collections::BTreeMap, str::FromStr};
 
 use json_syntax::{array::JsonArray, TryFromJson};
 use lazy_static::lazy_static;
-use num_bigint::{BigInt, Sign};
+use num_bigint::{BigInt, BigUint, Sign};
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
+use xsd_types::lexical::{self, Lexical};
 
 use crate::{
 	layout::{
@@ -35,6 +35,23 @@ impl Number {
 		Self(rational)
 	}
 
+	/// Parses an XSD decimal.
+	pub fn parse_decimal(value: &str) -> Option<Self> {
+		let value = lexical::Decimal::parse(value).ok()?.as_str();
+
+		let (integer, fraction) = value.split_once('.').unwrap_or((value, ""));
+		let (sign, integer) = match integer.strip_prefix('-') {
+			Some(integer) => (Sign::Minus, integer),
+			None => (Sign::Plus, integer.strip_prefix('+').unwrap_or(integer)),
+		};
+
+		let numer = BigUint::from_str(&format!("0{integer}{fraction}")).ok()?;
+		Some(Self(BigRational::new(
+			BigInt::from_biguint(sign, numer),
+			TEN.pow(fraction.len() as u32),
+		)))
+	}
+
 	pub fn is_integer(&self) -> bool {
 		self.0.is_integer()
 	}
@@ -187,34 +204,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From f29452833044935affb8c991b52e30308b9752ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 04/39] fix: JSON numbers with an exponent

---
 layouts/src/value/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index a843820..572329a 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -52,6 +52,18 @@ impl Number {
 		)))
 	}
 
+	/// Parses a JSON number, which unlike an XSD decimal may have an exponent.
+	fn parse_json(value: &str) -> Option<Self> {
+		match value.split_once(['e', 'E']) {
+			Some((significand, exponent)) => {
+				let exponent: i32 = exponent.parse().ok()?;
+				let scale = BigRational::from_integer(TEN.clone()).pow(exponent);
+				Some(Self(Self::parse_decimal(significand)?.0 * scale))
+			}
+			None => Self::parse_decimal(value),
+		}
+	}
+
 	pub fn is_integer(&self) -> bool {
 		self.0.is_integer()
 	}
@@ -204,19 +216,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self::parse_decimal(&value.to_string()).unwrap()
+		Self::parse_json(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self::parse_decimal(value.as_str()).unwrap()
+		Self::parse_json(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self::parse_decimal(value.as_str()).unwrap()
+		Self::parse_json(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From 614e5ba50d04b737dfc220f7cd93f04b6426516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 05/39] fix: writing zero as CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 2 +-
 layouts/src/value/mod.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..2da10a4 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -141,7 +141,7 @@ impl From<Number> for serde_cbor::Value {
 		match value.as_integer() {
 			Some(i) => {
 				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
+					let unsigned = i.iter_u64_digits().next().unwrap_or(0) as i128;
 
 					let signed = if i.is_positive() { unsigned } else { -unsigned };
 
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 572329a..fa5579c 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -98,7 +98,7 @@ impl Number {
 				}
 				Sign::NoSign | Sign::Plus => {
 					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
+						NativeNumber::U64(n.iter_u64_digits().next().unwrap_or(0))
 					} else {
 						NativeNumber::F64(self.0.to_f64().unwrap())
 					}
-- 
2.43.0


From a6486575b4c64c7997766177b5cd7582240119fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 06/39] fix: CBOR encoding of negative big integers

---
 layouts/src/value/cbor/serde_cbor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index 2da10a4..fab8ea2 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::Signed;
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -147,9 +147,15 @@ impl From<Number> for serde_cbor::Value {
 
 					serde_cbor::Value::Integer(signed)
 				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+					// A negative bignum encodes `-1 - n`, as `n` is negative.
+					let (tag, n) = if i.is_positive() {
+						(2, i.clone())
+					} else {
+						(3, -(i + 1u32))
+					};
+
+					let (_, bytes) = n.to_bytes_be();
+					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(bytes)))
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From adbd62fcd74e8926990943d8a01982404844ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 07/39] fix: write the constant of a unit layout as CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index fab8ea2..b52a1e7 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From 7ba31fbdedd7aca83c3e248ab3319edca851b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:55 +0000
Subject: [PATCH 08/39] fix: declare variant variables when hydrating a sum

---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..4b50aa6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From 668662f62eafd7cd80504bdd1edb7ec4a51335cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:11 +0000
Subject: [PATCH 09/39] fix: return an error instead of panicking on data that
 does not match the layout

---
 layouts/src/distill/de/data.rs |  4 ++--
 layouts/src/distill/hy/data.rs | 40 ++++++++++++++++------------------
 layouts/src/distill/hy/mod.rs  | 28 ++++++++++++------------
 3 files changed, 35 insertions(+), 37 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 5e1a57e..1f697e4 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // unknown datatype.
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,7 +54,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // unknown datatype.
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index a2788e8..d301c17 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not of the layout datatype
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not of the layout datatype
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not of the layout datatype
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue, // not of the layout datatype
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.clone().cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -238,9 +238,7 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 	match xsd_types::Datatype::from_iri(type_) {
 		Some(xsd_types::Datatype::Decimal(_t)) => match Number::parse_decimal(value) {
 			Some(value) => Ok(value),
-			None => {
-				todo!()
-			}
+			None => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4b50aa6..5a16953 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,7 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::IncompatibleLayout), // no IRI matching the layout
 					}
 				}
 			}
@@ -294,14 +294,14 @@ where
 						);
 
 						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
+							Ok(value) => match selected.take() {
+								Some((_j, _other_value)) => {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Discriminant(layout_ref.clone()),
+									)))
 								}
-							}
+								None => selected = Some((i, value)),
+							},
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -315,9 +315,9 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+					layout_ref.clone(),
+				)))),
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From c9105201125916e7a44342613e2d2548e3034783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 10/39] fix: report the same term ambiguity on every run

---
 layouts/src/distill/de/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..1e7c53f 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -1,5 +1,5 @@
 use std::{
-	collections::{BTreeMap, HashMap, HashSet},
+	collections::{BTreeMap, BTreeSet, HashMap},
 	hash::Hash,
 };
 
@@ -295,7 +295,7 @@ pub fn dehydrate<G: Generator>(
 	}
 
 	struct InputInterpretation {
-		map: HashMap<InputResource, HashSet<Term>>,
+		map: BTreeMap<InputResource, BTreeSet<Term>>,
 		anonymous_count: usize,
 	}
 
@@ -356,7 +356,7 @@ pub fn dehydrate<G: Generator>(
 	#[derive(Debug, Clone)]
 	pub struct IrisOf<'a> {
 		term: Option<&'a Term>,
-		additional_terms: Option<std::collections::hash_set::Iter<'a, Term>>,
+		additional_terms: Option<std::collections::btree_set::Iter<'a, Term>>,
 	}
 
 	impl<'a> Iterator for IrisOf<'a> {
@@ -384,7 +384,7 @@ pub fn dehydrate<G: Generator>(
 	#[derive(Debug, Clone)]
 	pub struct LiteralsOf<'a> {
 		term: Option<&'a Term>,
-		additional_terms: Option<std::collections::hash_set::Iter<'a, Term>>,
+		additional_terms: Option<std::collections::btree_set::Iter<'a, Term>>,
 	}
 
 	impl<'a> Iterator for LiteralsOf<'a> {
@@ -423,7 +423,7 @@ pub fn dehydrate<G: Generator>(
 	let mut dataset = BTreeDataset::new();
 
 	let mut interpretation = InputInterpretation {
-		map: HashMap::new(),
+		map: BTreeMap::new(),
 		anonymous_count: 0,
 	};
 
-- 
2.43.0


From 9744623da8a9e722ae8423461cd4b9f0791af33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 11/39] fix: stop on cyclic lists when hydrating

---
 layouts/src/distill/hy/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 5a16953..4255d3b 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -451,8 +451,20 @@ where
 					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
 
 					let mut items = Vec::new();
+					let mut visited = BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// The list is cyclic, it never reaches the tail.
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::OrderedListNode {
+									layout: layout_ref.clone().cast(),
+									head,
+									tail,
+								},
+							)));
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From f3606ca056ae48634cc81e4f785d59fb0ecee4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 12/39] fix: dehydrate into the graph selected by the layout

---
 layouts/src/distill/de/mod.rs | 45 +++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 1e7c53f..26bf2ae 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -940,6 +944,7 @@ impl<R: Clone> Environment<'_, R> {
 	pub fn instantiate_quad<Q>(
 		&self,
 		quad: Quad<&Pattern<Q>, &Pattern<Q>, &Pattern<Q>, &Pattern<Q>>,
+		current_graph: Option<&R>,
 	) -> Result<Quad<R, R, R, R>, Error<Q>>
 	where
 		Q: Clone + Into<R>,
@@ -948,13 +953,17 @@ impl<R: Clone> Environment<'_, R> {
 			self.instantiate_pattern(quad.0)?,
 			self.instantiate_pattern(quad.1)?,
 			self.instantiate_pattern(quad.2)?,
-			quad.3.map(|g| self.instantiate_pattern(g)).transpose()?,
+			match quad.3 {
+				Some(g) => Some(self.instantiate_pattern(g)?),
+				None => current_graph.cloned(),
+			},
 		))
 	}
 
 	pub fn instantiate_dataset<Q, D>(
 		&self,
 		input: &BTreeDataset<Pattern<Q>>,
+		current_graph: Option<&R>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
 	where
@@ -962,7 +971,7 @@ impl<R: Clone> Environment<'_, R> {
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			output.insert(self.instantiate_quad(quad, current_graph)?);
 		}
 
 		Ok(())
-- 
2.43.0


From 279ca41f040f51b3281f30a56d310a7c397f5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 13/39] fix: discard the output of sum variants that do not
 match when dehydrating

---
 layouts/src/distill/de/mod.rs | 175 ++++++++++++++++++++++++----------
 1 file changed, 126 insertions(+), 49 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 26bf2ae..cae7918 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut pending = Pending::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -534,18 +536,70 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
-		output,
-	)
+		&mut pending,
+	)?;
+
+	pending.commit(rdf, output);
+	Ok(())
 }
 
-fn dehydrate_with_ref<V, I, Q, D>(
+/// Pending dehydration output.
+///
+/// Collects what must be added to the output dataset and to the interpretation,
+/// so that the variants of a sum that do not match the value leave no trace.
+struct Pending<R, I, L> {
+	dataset: BTreeDataset<R>,
+	iris: Vec<(R, I)>,
+	literals: Vec<(R, L)>,
+}
+
+impl<R: Clone + Ord, Iri, L> Pending<R, Iri, L> {
+	fn new() -> Self {
+		Self {
+			dataset: BTreeDataset::new(),
+			iris: Vec::new(),
+			literals: Vec::new(),
+		}
+	}
+
+	fn append(&mut self, other: Self) {
+		for quad in other.dataset {
+			self.dataset.insert(quad);
+		}
+
+		self.iris.extend(other.iris);
+		self.literals.extend(other.literals);
+	}
+
+	fn commit<V, I, D>(self, rdf: &mut RdfContextMut<V, I>, output: &mut D)
+	where
+		I: Interpretation<Resource = R>
+			+ ReverseIriInterpretationMut<Iri = Iri>
+			+ ReverseLiteralInterpretationMut<Literal = L>,
+		D: TraversableDataset<Resource = R> + DatasetMut,
+	{
+		for (resource, iri) in self.iris {
+			rdf.interpretation.assign_iri(&resource, iri);
+		}
+
+		for (resource, literal) in self.literals {
+			rdf.interpretation.assign_literal(&resource, literal);
+		}
+
+		for quad in self.dataset {
+			output.insert(quad);
+		}
+	}
+}
+
+fn dehydrate_with_ref<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
 	value: &Value,
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
-	output: &mut D,
+	output: &mut Pending<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -555,7 +609,6 @@ where
 		+ ReverseLiteralInterpretationMut<Literal = V::Literal>,
 	I::Resource: Clone + Ord,
 	Q: Clone + Ord + Into<I::Resource>,
-	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
 	let layout = layouts
 		.get(layout_ref)
@@ -576,7 +629,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,35 +637,43 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						output.literals.push((resource, literal));
 
 						Ok(())
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						output.literals.push((resource, literal));
 
 						Ok(())
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -620,16 +681,18 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						output.literals.push((resource, literal));
 
 						Ok(())
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -637,10 +700,8 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						let literal = rdf.vocabulary.insert_owned_literal(literal);
+						output.literals.push((resource, literal));
 
 						Ok(())
 					}
@@ -649,13 +710,17 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								output.iris.push((resource, i));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -668,14 +733,18 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
-				let mut variant_dataset = BTreeDataset::new();
+				let mut variant_output = Pending::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
+				env.instantiate_dataset(
+					&variant.dataset,
+					current_graph,
+					&mut variant_output.dataset,
+				)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -684,20 +753,17 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_output,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection.replace(variant_output).is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
-					for quad in variant_dataset {
-						output.insert(quad);
-					}
-
+				Some(variant_output) => {
+					output.append(variant_output);
 					Ok(())
 				}
 				None => Err(Error::IncompatibleLayout),
@@ -706,13 +772,17 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, current_graph, output)?;
+							env.instantiate_dataset(
+								&field.dataset,
+								current_graph,
+								&mut output.dataset,
+							)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +815,15 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.item.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +839,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +852,11 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
+						env.instantiate_dataset(
+							&layout.node.dataset,
+							current_graph,
+							&mut output.dataset,
+						)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +876,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -810,7 +888,7 @@ where
 								env.instantiate_dataset(
 									&item_layout.dataset,
 									current_graph,
-									output,
+									&mut output.dataset,
 								)?;
 								dehydrate_sub_value(
 									rdf,
@@ -836,14 +914,14 @@ where
 	}
 }
 
-fn dehydrate_sub_value<V, I, Q, D>(
+fn dehydrate_sub_value<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
 	value: &Value,
 	current_graph: Option<&I::Resource>,
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
-	output: &mut D,
+	output: &mut Pending<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -853,7 +931,6 @@ where
 		+ ReverseLiteralInterpretationMut<Literal = V::Literal>,
 	I::Resource: Clone + Ord,
 	Q: Clone + Ord + Into<I::Resource>,
-	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
 	let inputs = env.instantiate_patterns(&format.input)?;
 	let graph = match &format.graph {
-- 
2.43.0


From ad40931ccc789dc9f9ab77f7fdd07d4ac41d0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 14/39] fix: fail on layout parse errors in tldr-rs

---
 generators/rust/generator/src/bin/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/bin/main.rs b/generators/rust/generator/src/bin/main.rs
index ab4ef87..fd3d9ee 100644
--- a/generators/rust/generator/src/bin/main.rs
+++ b/generators/rust/generator/src/bin/main.rs
@@ -61,7 +61,8 @@ fn main() -> ExitCode {
 				}
 			},
 			Err(e) => {
-				log::error!("parse error: {e}")
+				log::error!("parse error: {e}");
+				return ExitCode::FAILURE;
 			}
 		}
 	}
-- 
2.43.0


From 452d4a10b13d33541a6639141d41c0370ec47b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 15/39] fix: anonymous layouts built separately do not collide

---
 layouts/src/abs/syntax/build.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..ef6cc1c 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,12 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		loop {
+			let id = Term::Id(self.generator.next(&mut ()));
+			if !self.builder.layouts.contains_key(&id) {
+				break id;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From fe2fa2876590ecfab1181529d9b38fe92a3578d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 16/39] fix: path of the set type in generated code

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..71f7691 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -442,7 +442,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						::std::collections::BTreeSet<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From 7471460a6018cea867dc0cbe319085e3848a8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:28 +0000
Subject: [PATCH 17/39] fix: default graph statements do not match a graph
 variable

---
 generators/rust/treeldr-rs/src/pattern.rs | 2 +-
 layouts/src/pattern.rs                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..2d3cf1d 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -133,7 +133,7 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..28729f4 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,7 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 179ecef37c2fad973d8a8c941ccd070373e694a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 18/39] fix: a refused redefinition keeps the first layout
 definition

---
 layouts/src/abs/syntax/layout/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..e10ba0c 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -255,10 +255,13 @@ where
 
 		let (layout_ref, old_layout) = context.insert_layout(id, layout);
 
-		if old_layout.is_some() {
-			Err(BuildError::LayoutRedefinition)
-		} else {
-			Ok(layout_ref)
+		match old_layout {
+			Some(old_layout) => {
+				// Keep the first definition.
+				context.insert_layout(layout_ref.into_id(), old_layout);
+				Err(BuildError::LayoutRedefinition)
+			}
+			None => Ok(layout_ref),
 		}
 	}
 }
-- 
2.43.0


From e6f0a5f343a1379f20a9c4e961543ec65d2cdbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 19/39] fix: derived serialization writes into the current
 graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 15 +++++---
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..9afaa9d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0),
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..32f676e 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -69,6 +69,7 @@ where
 	pub fn instantiate_quad(
 		&self,
 		quad: Quad<&Pattern<R>, &Pattern<R>, &Pattern<R>, &Pattern<R>>,
+		current_graph: Option<&R>,
 	) -> Quad<R, R, R, R>
 where
 		// Q: Clone + Into<R>,
@@ -77,17 +78,23 @@ where
 			self.instantiate_pattern(quad.0),
 			self.instantiate_pattern(quad.1),
 			self.instantiate_pattern(quad.2),
-			quad.3.map(|g| self.instantiate_pattern(g)),
+			quad.3
+				.map(|g| self.instantiate_pattern(g))
+				.or_else(|| current_graph.cloned()),
 		)
 	}
 
-	pub fn instantiate_dataset<D>(&self, input: &[PatternQuad<R>], output: &mut D)
-	where
+	pub fn instantiate_dataset<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		current_graph: Option<&R>,
+		output: &mut D,
+	) where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			output.insert(self.instantiate_quad(quad.as_ref(), current_graph));
 		}
 	}
 }
-- 
2.43.0


From aaa35d834e3f38d2435678fad32cc91e583946e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 20/39] fix: derived sum deserialization tries every variant

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..4ed35cb 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -311,10 +311,12 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
+						);
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						if let Ok(value) = value {
+							if result.replace(Self::#variant_ident(value)).is_some() {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From 05d50b350f88e43e61a01af1e385cbb2f7f8627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 21/39] fix: derived deserialization stops on cyclic lists

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 4ed35cb..d082c6f 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -457,8 +457,14 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
 					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
 					let mut items = Vec::new();
+					let mut visited = ::std::collections::BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// The list is cyclic, it never reaches the tail.
+							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
-- 
2.43.0


From c461654278c437e031f37c5668ceb3443c46b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 22/39] fix: derived literals are written at the resource their
 layout names

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 9afaa9d..c35dfdb 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let target = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, current_graph, output);
+					let target = env.instantiate_pattern(&#target);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,7 +91,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -99,7 +101,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,7 +110,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -117,7 +120,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -135,7 +139,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,7 +148,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -153,7 +158,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							::std::convert::AsRef::<str>::as_ref(&self.0),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -453,46 +459,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From 14c2a9218e7bec67a2c13098730d86c0b754e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 23/39] fix: derived serialization into a named graph compiles

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index c35dfdb..d475117 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -188,7 +188,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -251,7 +251,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -298,7 +298,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -344,7 +344,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -399,7 +399,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
-- 
2.43.0


From f1fd236565a1b335dcf4daed77fb390931dfe6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 24/39] fix: refuse several string values instead of reading
 the first one

---
 generators/rust/treeldr-rs/src/datatypes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..8e9543e 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,19 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		result.ok_or(DeserializeError::MissingData)
 	}
 }
 
-- 
2.43.0


From e6eade1d5b377e7811a1c3682e4453ffe373df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 25/39] fix: derived literals refuse invalid values of their
 datatype

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index d082c6f..f04326b 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -750,9 +750,14 @@ fn generate_data(
 			};
 
 			if ty_iri == expected_ty_iri {
-				if let Ok(value) = ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
-					if result.replace(value).is_some() {
-						return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+				match ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
+					Ok(value) => {
+						if result.replace(value).is_some() {
+							return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+						}
+					}
+					Err(_) => {
+						return Err(::treeldr::DeserializeError::InvalidLiteralValue)
 					}
 				}
 			}
-- 
2.43.0


From b51c977eede189a7d0237cc0fcf6acb4e86b65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:14 +0000
Subject: [PATCH 26/39] fix: derived deserialization of one-item tuples
 compiles

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index f04326b..b123c5f 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -581,7 +581,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
-- 
2.43.0


From ce01019a75732391f50bebb97140f4f090ca4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:52 +0000
Subject: [PATCH 27/39] fix: optional parts using unknown terms are absent, not
 errors

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 57 ++++++++++---------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index b123c5f..eab9800 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,20 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					let field_substitution = match #field_dataset {
+						Some(field_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								field_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None // Unknown terms do not match anything.
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
@@ -287,18 +289,20 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					let variant_substitution = match #variant_dataset {
+						Some(variant_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								variant_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None // Unknown terms do not match anything.
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
@@ -382,8 +386,9 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
+					let Some(matching_dataset) = #node_dataset else {
+						return Ok(Self(items)) // Unknown terms do not match anything.
+					};
 					let matching = ::treeldr::de::Matching::new(
 						dataset,
 						substitution,
-- 
2.43.0


From 872e96a9251ff5eca2a8c75a8188c28e1688026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 28/39] fix: the preset unit and boolean types can be derived
 components

---
 generators/rust/treeldr-rs/src/datatypes.rs | 46 +++++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 8e9543e..5f648d9 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -9,9 +9,49 @@ use rdf_types::{
 };
 
 use crate::{
-	DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeError, SerializeLd,
+	de::FromRdfLiteral, DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeError,
+	SerializeLd,
 };
 
+impl<V, I> SerializeLd<1, V, I> for ()
+where
+	V: VocabularyMut,
+	I: InterpretationMut<V>
+		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn serialize_ld_with(
+		&self,
+		_rdf: &mut RdfContextMut<V, I>,
+		_inputs: &[I::Resource; 1],
+		_current_graph: Option<&I::Resource>,
+		_output: &mut BTreeDataset<I::Resource>,
+	) -> Result<(), SerializeError> {
+		Ok(())
+	}
+}
+
+impl<V, I> DeserializeLd<1, V, I> for ()
+where
+	V: Vocabulary,
+	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn deserialize_ld_with<D>(
+		_rdf: RdfContext<V, I>,
+		_dataset: &D,
+		_graph: Option<&I::Resource>,
+		_inputs: &[I::Resource; 1],
+	) -> Result<Self, DeserializeError>
+	where
+		D: PatternMatchingDataset<Resource = I::Resource>,
+	{
+		Ok(())
+	}
+}
+
 impl<V, I> SerializeLd<1, V, I> for rdf_types::Id
 where
 	V: VocabularyMut,
@@ -175,7 +215,6 @@ macro_rules! xsd_datatypes {
 				where
 					D: PatternMatchingDataset<Resource = I::Resource>,
 				{
-					use xsd_types::ParseXsd;
 					let mut result = None;
 					let mut has_literal = false;
 					for l in rdf.interpretation.literals_of(&inputs[0]) {
@@ -184,7 +223,7 @@ macro_rules! xsd_datatypes {
 						if let LiteralTypeRef::Any(i) = literal.type_ {
 							let iri = rdf.vocabulary.iri(i).unwrap();
 							if iri == xsd_types::$xsd_iri {
-								match Self::parse_xsd(&literal.value) {
+								match Self::from_rdf_literal(literal.value) {
 									Ok(value) => {
 										if result.replace(value).is_some() {
 											return Err(DeserializeError::AmbiguousLiteralValue)
@@ -213,6 +252,7 @@ macro_rules! xsd_datatypes {
 }
 
 xsd_datatypes! {
+	bool: XSD_BOOLEAN,
 	u8: XSD_UNSIGNED_BYTE,
 	u16: XSD_UNSIGNED_SHORT,
 	u32: XSD_UNSIGNED_INT,
-- 
2.43.0


From 726630d30c92752d73cc0bdf1a0f1dcbfa465463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 29/39] fix: derived serialization of string newtypes compiles

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index d475117..ec25207 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -155,7 +155,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						let target = env.instantiate_pattern(&#target);
-- 
2.43.0


From c0495c5c1d589cc1bb41e0016cae4f62113868f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 30/39] fix: derived serialization with constant inputs or
 graphs compiles

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index ec25207..599eb93 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -200,11 +200,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -214,11 +216,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let inputs = env.instantiate_patterns(&#field_inputs);
+								let graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&inputs,
+									graph.as_ref(),
 									output
 								)?;
 							}
@@ -262,11 +266,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, current_graph, output);
+						let inputs = env.instantiate_patterns(&#variant_inputs);
+						let graph: Option<I::Resource> = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)
 					}
@@ -313,11 +319,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+						let inputs = env.instantiate_patterns(&#item_value_inputs);
+						let graph: Option<I::Resource> = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 					}
@@ -368,11 +376,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
+						let inputs = env.instantiate_patterns(&#node_value_inputs);
+						let graph: Option<I::Resource> = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&inputs,
+							graph.as_ref(),
 							output
 						)?;
 
@@ -412,11 +422,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+							let inputs = env.instantiate_patterns(&#item_value_inputs);
+							let graph: Option<I::Resource> = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&inputs,
+								graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From 1c3124cba79c71631057db3ff5b58fc1dd31efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 31/39] fix: generated code marks optional fields as such

---
 generators/rust/generator/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 71f7691..9f21ed4 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -373,7 +373,10 @@ where
 						let dataset = generate_dataset_attribute(rdf, &f.dataset)?;
 						let input = generate_value_input_attribute(rdf, &f.value.input)?;
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
-						let layout = options.layout_ref(rdf, &f.value.layout)?;
+						let mut layout = options.layout_ref(rdf, &f.value.layout)?;
+						if !f.required {
+							layout = syn::parse_quote!(Option<#layout>);
+						}
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-- 
2.43.0


From b8f06ae1001841c54d97439bb4a10b32377776a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 32/39] fix: generated sets use the collection the derive
 macros accept

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 9f21ed4..569f8d6 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -445,7 +445,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collections::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From ba170b3e459236b6d14289b136773fc02e3c26b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 33/39] fix: generated literal types carry their kind, resource
 and datatype

---
 generators/rust/generator/src/lib.rs | 42 ++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 569f8d6..993f72c 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -3,6 +3,7 @@ use std::{
 	hash::Hash,
 };
 
+use iref::IriBuf;
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use rdf_types::{
@@ -183,15 +184,25 @@ where
 {
 	match pattern {
 		Pattern::Var(i) => Ok(Id::Blank(BlankIdBuf::from_suffix(&i.to_string()).unwrap())),
-		Pattern::Resource(r) => rdf
-			.interpretation
-			.iris_of(r)
-			.next()
-			.map(|i| Id::Iri(rdf.vocabulary.iri(i).unwrap().to_owned()))
-			.ok_or(Error::NoIriRepresentation),
+		Pattern::Resource(r) => resource_iri(rdf, r).map(Id::Iri),
 	}
 }
 
+fn resource_iri<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &I::Resource,
+) -> Result<IriBuf, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	rdf.interpretation
+		.iris_of(resource)
+		.next()
+		.map(|i| rdf.vocabulary.iri(i).unwrap().to_owned())
+		.ok_or(Error::NoIriRepresentation)
+}
+
 pub fn generate_intro_attribute(count: u32, offset: u32) -> TokenStream {
 	let names = (offset..(count + offset)).map(|i| i.to_string());
 
@@ -304,10 +315,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_iri(rdf, &layout.datatype)?.to_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(boolean, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(bool);
 					})
 				}
@@ -315,10 +328,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_iri(rdf, &layout.datatype)?.to_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(number, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(Number);
 					})
 				}
@@ -326,10 +341,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_iri(rdf, &layout.datatype)?.to_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(string, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(String);
 					})
 				}
@@ -337,10 +354,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
+					let datatype = resource_iri(rdf, &layout.datatype)?.to_string();
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(bytes, #input, #intro, #dataset, resource(#resource), datatype(#datatype))]
 						pub struct #ident(Vec<u8>);
 					})
 				}
@@ -349,10 +368,11 @@ where
 				let input = generate_input_attribute(layout.input);
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+				let resource = pattern_to_id(rdf, &layout.resource)?.to_string();
 
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
+					#[tldr(id, #input, #intro, #dataset, resource(#resource))]
 					pub struct #ident(Id);
 				})
 			}
-- 
2.43.0


From d7acb2e8d03e4fcb44b780fa6a10e509ee5e8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:03 +0000
Subject: [PATCH 34/39] fix: derived deserializers refuse a variable that
 nothing binds instead of panicking

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 30 +++++++-------
 generators/rust/treeldr-rs/src/de/mod.rs      | 40 +++++++++++++------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index eab9800..f47b9f4 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -76,7 +76,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let resource = ::treeldr::de::select_resource(&#resource.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 
 					let mut selected = None;
 
@@ -212,10 +212,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					};
 
 					if let Some(field_substitution) = field_substitution {
-						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let item_graph =
-							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let value = <#field_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -305,10 +305,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					};
 
 					if let Some(variant_substitution) = variant_substitution {
-						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let value = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -402,13 +402,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					for item_substitution in matching {
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -459,8 +459,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
-					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let mut head = ::treeldr::de::select_resource(&#head.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
+					let tail = ::treeldr::de::select_resource(&#tail.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 					let mut items = Vec::new();
 					let mut visited = ::std::collections::BTreeSet::new();
 
@@ -488,13 +488,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -505,7 +505,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = ::treeldr::de::select_resource(&::treeldr::Pattern::Var(rest), &item_substitution)?;
 					}
 
 					Ok(Self(items))
@@ -545,13 +545,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						).into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -736,7 +736,7 @@ fn generate_data(
 		)
 		.into_required_unique()?;
 
-		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+		let resource = ::treeldr::de::select_resource(&#resource.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 
 		let mut result = None;
 
diff --git a/generators/rust/treeldr-rs/src/de/mod.rs b/generators/rust/treeldr-rs/src/de/mod.rs
index b0d9951..41c53e9 100644
--- a/generators/rust/treeldr-rs/src/de/mod.rs
+++ b/generators/rust/treeldr-rs/src/de/mod.rs
@@ -9,31 +9,45 @@ use rdf_types::{
 
 use crate::{pattern::Substitution, Pattern, RdfContext};
 
+/// Selects the resource denoted by the given pattern.
+///
+/// It is ambiguous if the pattern is a variable that matching the dataset left
+/// unbound, as it then could be any resource.
+pub fn select_resource<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, Error> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or(Error::DataAmbiguity)
+}
+
 pub fn select_inputs<R: Clone, const N: usize>(
 	inputs: &[Pattern<R>; N],
 	substitution: &Substitution<R>,
-) -> [R; N] {
-	inputs
+) -> Result<[R; N], Error> {
+	Ok(inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
-		.collect::<Vec<_>>()
+		.map(|p| select_resource(p, substitution))
+		.collect::<Result<Vec<_>, _>>()?
 		.try_into()
 		.ok()
-		.unwrap()
+		.unwrap())
 }
 
 pub fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error> {
+	match graph_pattern {
+		Some(g) => g
+			.as_ref()
+			.map(|p| select_resource(p, substitution))
+			.transpose(),
+		None => Ok(current_graph.cloned()),
+	}
 }
 
 #[derive(Debug, thiserror::Error)]
-- 
2.43.0


From d39e2c644b9fdce5be2e7d06f46dfe345f892019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:03 +0000
Subject: [PATCH 35/39] fix: hydration refuses a variable that nothing binds
 instead of panicking

---
 layouts/src/distill/hy/data.rs |  30 +++-----
 layouts/src/distill/hy/mod.rs  | 129 +++++++++++++++++++--------------
 2 files changed, 84 insertions(+), 75 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index d301c17..e948c49 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -13,7 +13,7 @@ use rdf_types::{
 };
 use xsd_types::ParseXsd;
 
-use super::{DataFragment, Error, MatchingForFragment};
+use super::{select_resource, DataFragment, Error, MatchingForFragment};
 
 pub fn hydrate_data<V, I, D>(
 	vocabulary: &V,
@@ -60,11 +60,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -103,11 +100,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -146,11 +140,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -189,11 +180,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4255d3b..ad48fd9 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -6,7 +6,7 @@ use crate::{
 	matching,
 	pattern::Substitution,
 	utils::QuadsExt,
-	Layout, LayoutRegistry, Matching, Pattern, Ref, TypedLiteral, TypedValue, Value,
+	Layout, LayoutRegistry, Matching, Pattern, Ref, TypedLiteral, TypedValue, Value, ValueFormat,
 };
 use iref::IriBuf;
 use rdf_types::{
@@ -213,11 +213,8 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let resource = layout
-						.resource
-						.apply(&substitution)
-						.into_resource()
-						.unwrap();
+					let resource = select_resource(&layout.resource, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut selected = None;
 
@@ -274,14 +271,15 @@ where
 
 				match variant_substitution {
 					Some(variant_substitution) => {
-						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
-
-						let variant_graph = select_graph(
+						let (variant_inputs, variant_graph) = select_value(
 							current_graph,
-							&variant.value.graph,
+							&variant.value,
 							&variant_substitution,
-						);
+						)
+						.for_fragment(|| DataFragment::Variant {
+							layout: layout_ref.clone().cast(),
+							variant_name: variant.name.clone(),
+						})?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -351,10 +349,12 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
-
-						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+						let (field_inputs, item_graph) =
+							select_value(current_graph, &field.value, &field_substitution)
+								.for_fragment(|| DataFragment::Key {
+									layout: layout_ref.clone().cast(),
+									key: key.clone(),
+								})?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -409,14 +409,9 @@ where
 					let mut items = Vec::new();
 
 					for item_substitution in matching {
-						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
-
-						let item_graph = select_graph(
-							current_graph,
-							&layout.item.value.graph,
-							&item_substitution,
-						);
+						let (item_inputs, item_graph) =
+							select_value(current_graph, &layout.item.value, &item_substitution)
+								.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -447,8 +442,10 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = select_resource(&layout.head, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
+					let tail = select_resource(&layout.tail, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut items = Vec::new();
 					let mut visited = BTreeSet::new();
@@ -481,18 +478,17 @@ where
 						.into_required_unique()
 						.for_fragment(|| DataFragment::OrderedListNode {
 							layout: layout_ref.clone().cast(),
-							head,
+							head: head.clone(),
 							tail: tail.clone(),
 						})?;
 
-						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
-
-						let item_graph = select_graph(
-							current_graph,
-							&layout.node.value.graph,
-							&item_substitution,
-						);
+						let (item_inputs, item_graph) =
+							select_value(current_graph, &layout.node.value, &item_substitution)
+								.for_fragment(|| DataFragment::OrderedListNode {
+									layout: layout_ref.clone().cast(),
+									head: head.clone(),
+									tail: tail.clone(),
+								})?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -506,7 +502,13 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = select_resource(&Pattern::Var(rest), &item_substitution).for_fragment(
+							|| DataFragment::OrderedListNode {
+								layout: layout_ref.clone().cast(),
+								head,
+								tail: tail.clone(),
+							},
+						)?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -540,9 +542,12 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
-						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+						let (item_inputs, item_graph) =
+							select_value(current_graph, &item.value, &item_substitution)
+								.for_fragment(|| DataFragment::SizedListItem {
+									layout: layout_ref.clone().cast(),
+									index,
+								})?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -565,23 +570,39 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
-	inputs
-		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
-		.collect()
+/// Selects the resource denoted by the given pattern.
+///
+/// It is ambiguous if the pattern is a variable that matching the dataset left
+/// unbound, as it then could be any resource.
+fn select_resource<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, matching::Error> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or(matching::Error::Ambiguity)
 }
 
-fn select_graph<R: Clone>(
+/// Selects the input resources and the graph of a value.
+fn select_value<R: Clone>(
 	current_graph: Option<&R>,
-	graph_pattern: &Option<Option<Pattern<R>>>,
+	format: &ValueFormat<R>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<(Vec<R>, Option<R>), matching::Error> {
+	let inputs = format
+		.input
+		.iter()
+		.map(|p| select_resource(p, substitution))
+		.collect::<Result<_, _>>()?;
+
+	let graph = match &format.graph {
+		Some(graph) => graph
+			.as_ref()
+			.map(|p| select_resource(p, substitution))
+			.transpose()?,
+		None => current_graph.cloned(),
+	};
+
+	Ok((inputs, graph))
 }
-- 
2.43.0


From 95971a9a35fce043f34f9f5c01cd947bb4d46907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 36/39] fix: a value that is a part of itself is refused
 instead of overflowing the stack

---
 layouts/src/distill/de/mod.rs |  50 ++++++++++++--
 layouts/src/distill/hy/mod.rs | 124 ++++++++++++++++++++++++----------
 2 files changed, 135 insertions(+), 39 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index cae7918..6c1ec99 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -46,6 +46,9 @@ pub enum Error<R = Term> {
 	#[error("layout `{0}` is undefined")]
 	LayoutNotFound(Ref<LayoutType, R>),
 
+	#[error("layout `{0}` is a variant of itself")]
+	CyclicLayout(Ref<LayoutType, R>),
+
 	#[error("missing required key `{key}`")]
 	MissingRequiredKey {
 		layout: Ref<ProductLayoutType, R>,
@@ -65,6 +68,7 @@ impl<R> Error<R> {
 			Self::DataAmbiguity => Error::DataAmbiguity,
 			Self::TermAmbiguity(a) => Error::TermAmbiguity(a),
 			Self::LayoutNotFound(layout_ref) => Error::LayoutNotFound(layout_ref.map(f)),
+			Self::CyclicLayout(layout_ref) => Error::CyclicLayout(layout_ref.map(f)),
 			Self::MissingRequiredKey {
 				layout,
 				key: field_name,
@@ -536,6 +540,7 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 		&mut pending,
 	)?;
 
@@ -592,6 +597,19 @@ impl<R: Clone + Ord, Iri, L> Pending<R, Iri, L> {
 	}
 }
 
+/// Sum layouts being tried on a value.
+struct Trying<'a, Q> {
+	layout_ref: &'a Ref<LayoutType, Q>,
+	parent: Option<&'a Self>,
+}
+
+impl<Q: PartialEq> Trying<'_, Q> {
+	fn contains(&self, layout_ref: &Ref<LayoutType, Q>) -> bool {
+		self.layout_ref == layout_ref || self.parent.is_some_and(|p| p.contains(layout_ref))
+	}
+}
+
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_with_ref<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -599,6 +617,7 @@ fn dehydrate_with_ref<V, I, Q>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
+	trying: Option<&Trying<Q>>,
 	output: &mut Pending<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
@@ -732,6 +751,15 @@ where
 			_ => Err(Error::IncompatibleLayout),
 		},
 		Layout::Sum(layout) => {
+			if trying.is_some_and(|t| t.contains(layout_ref)) {
+				return Err(Error::CyclicLayout(layout_ref.clone()));
+			}
+
+			let trying = Trying {
+				layout_ref,
+				parent: trying,
+			};
+
 			let env = env.intro(rdf, layout.intro);
 			env.instantiate_dataset(&layout.dataset, current_graph, &mut output.dataset)?;
 
@@ -746,18 +774,23 @@ where
 					&mut variant_output.dataset,
 				)?;
 
-				if dehydrate_sub_value(
+				match dehydrate_sub_value(
 					rdf,
 					layouts,
 					value,
 					current_graph,
 					&variant.value,
 					&env,
+					Some(&trying),
 					&mut variant_output,
-				)
-				.is_ok() && selection.replace(variant_output).is_some()
-				{
-					return Err(Error::DataAmbiguity);
+				) {
+					Ok(()) => {
+						if selection.replace(variant_output).is_some() {
+							return Err(Error::DataAmbiguity);
+						}
+					}
+					Err(e @ Error::CyclicLayout(_)) => return Err(e),
+					Err(_) => (),
 				}
 			}
 
@@ -790,6 +823,7 @@ where
 								current_graph,
 								&field.value,
 								&env,
+								None,
 								output,
 							)?;
 						}
@@ -831,6 +865,7 @@ where
 							current_graph,
 							&layout.item.value,
 							&env,
+							None,
 							output,
 						)?;
 					}
@@ -866,6 +901,7 @@ where
 							current_graph,
 							&layout.node.value,
 							&env,
+							None,
 							output,
 						)?;
 
@@ -897,6 +933,7 @@ where
 									current_graph,
 									&item_layout.value,
 									&env,
+									None,
 									output,
 								)?;
 							}
@@ -914,6 +951,7 @@ where
 	}
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_sub_value<V, I, Q>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -921,6 +959,7 @@ fn dehydrate_sub_value<V, I, Q>(
 	current_graph: Option<&I::Resource>,
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
+	trying: Option<&Trying<Q>>,
 	output: &mut Pending<I::Resource, V::Iri, V::Literal>,
 ) -> Result<(), Error<Q>>
 where
@@ -946,6 +985,7 @@ where
 		graph.as_ref(),
 		&format.layout,
 		&inputs,
+		trying,
 		output,
 	)
 }
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index ad48fd9..3c73bea 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -42,6 +42,9 @@ pub enum Error<R = Term> {
 
 	#[error("layout `{0}` is undefined")]
 	LayoutNotFound(Ref<LayoutType, R>),
+
+	#[error("value of layout `{0}` is a part of itself")]
+	CyclicValue(Ref<LayoutType, R>),
 }
 
 static_assertions::assert_impl_all!(Error: ToString);
@@ -150,20 +153,49 @@ where
 		interpretation,
 		&context,
 		dataset,
-		current_graph,
-		layout_ref,
-		inputs,
+		Call {
+			layout_ref,
+			current_graph,
+			inputs,
+			parent: None,
+		},
 	)
 }
 
+/// Use of a layout on some inputs, as a part of its parent.
+struct Call<'a, R> {
+	layout_ref: &'a Ref<LayoutType, R>,
+	current_graph: Option<&'a R>,
+	inputs: &'a [R],
+	parent: Option<&'a Self>,
+}
+
+impl<R: PartialEq> Call<'_, R> {
+	/// Checks if this is a part of itself, which would make the value infinite.
+	fn is_cyclic(&self) -> bool {
+		let mut ancestor = self.parent;
+
+		while let Some(call) = ancestor {
+			if call.layout_ref == self.layout_ref
+				&& call.current_graph == self.current_graph
+				&& call.inputs == self.inputs
+			{
+				return true;
+			}
+
+			ancestor = call.parent;
+		}
+
+		false
+	}
+}
+
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
 	context: &impl LayoutRegistry<I::Resource>,
 	dataset: &D,
-	current_graph: Option<&I::Resource>,
-	layout_ref: &Ref<LayoutType, I::Resource>,
-	inputs: &[I::Resource],
+	call: Call<I::Resource>,
 ) -> Result<TypedValue<I::Resource>, Error<I::Resource>>
 where
 	V: Vocabulary,
@@ -174,10 +206,21 @@ where
 	I::Resource: Clone + Ord,
 	D: PatternMatchingDataset<Resource = I::Resource>,
 {
+	let Call {
+		layout_ref,
+		current_graph,
+		inputs,
+		..
+	} = call;
+
 	let layout = context
 		.get(layout_ref)
 		.ok_or_else(|| Error::LayoutNotFound(layout_ref.clone()))?;
 
+	if call.is_cyclic() {
+		return Err(Error::CyclicValue(layout_ref.clone()));
+	}
+
 	if let Some(expected) = layout.input_count().filter(|&i| i != inputs.len() as u32) {
 		return Err(Error::InvalidInputCount {
 			expected,
@@ -271,24 +314,24 @@ where
 
 				match variant_substitution {
 					Some(variant_substitution) => {
-						let (variant_inputs, variant_graph) = select_value(
-							current_graph,
-							&variant.value,
-							&variant_substitution,
-						)
-						.for_fragment(|| DataFragment::Variant {
-							layout: layout_ref.clone().cast(),
-							variant_name: variant.name.clone(),
-						})?;
+						let (variant_inputs, variant_graph) =
+							select_value(current_graph, &variant.value, &variant_substitution)
+								.for_fragment(|| DataFragment::Variant {
+									layout: layout_ref.clone().cast(),
+									variant_name: variant.name.clone(),
+								})?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
 							interpretation,
 							context,
 							dataset,
-							variant_graph.as_ref(),
-							&variant.value.layout,
-							&variant_inputs,
+							Call {
+								layout_ref: &variant.value.layout,
+								current_graph: variant_graph.as_ref(),
+								inputs: &variant_inputs,
+								parent: Some(&call),
+							},
 						);
 
 						match value {
@@ -300,6 +343,8 @@ where
 								}
 								None => selected = Some((i, value)),
 							},
+							// This may be any of the variants.
+							Err(e @ Error::CyclicValue(_)) => return Err(e),
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -361,9 +406,12 @@ where
 							interpretation,
 							context,
 							dataset,
-							item_graph.as_ref(),
-							&field.value.layout,
-							&field_inputs,
+							Call {
+								layout_ref: &field.value.layout,
+								current_graph: item_graph.as_ref(),
+								inputs: &field_inputs,
+								parent: Some(&call),
+							},
 						)?;
 
 						record.insert(key.clone(), value);
@@ -418,9 +466,12 @@ where
 							interpretation,
 							context,
 							dataset,
-							item_graph.as_ref(),
-							&layout.item.value.layout,
-							&item_inputs,
+							Call {
+								layout_ref: &layout.item.value.layout,
+								current_graph: item_graph.as_ref(),
+								inputs: &item_inputs,
+								parent: Some(&call),
+							},
 						)?;
 
 						items.push(item);
@@ -495,20 +546,22 @@ where
 							interpretation,
 							context,
 							dataset,
-							item_graph.as_ref(),
-							&layout.node.value.layout,
-							&item_inputs,
+							Call {
+								layout_ref: &layout.node.value.layout,
+								current_graph: item_graph.as_ref(),
+								inputs: &item_inputs,
+								parent: Some(&call),
+							},
 						)?;
 
 						items.push(item);
 
-						head = select_resource(&Pattern::Var(rest), &item_substitution).for_fragment(
-							|| DataFragment::OrderedListNode {
+						head = select_resource(&Pattern::Var(rest), &item_substitution)
+							.for_fragment(|| DataFragment::OrderedListNode {
 								layout: layout_ref.clone().cast(),
 								head,
 								tail: tail.clone(),
-							},
-						)?;
+							})?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -554,9 +607,12 @@ where
 							interpretation,
 							context,
 							dataset,
-							item_graph.as_ref(),
-							&item.value.layout,
-							&item_inputs,
+							Call {
+								layout_ref: &item.value.layout,
+								current_graph: item_graph.as_ref(),
+								inputs: &item_inputs,
+								parent: Some(&call),
+							},
 						)?;
 
 						items.push(item)
-- 
2.43.0


From d89218c5efe815fed6974cde4e30bab28fa4a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:50 +0000
Subject: [PATCH 37/39] fix: byte strings are written and read instead of
 panicking

Dehydration encodes a byte string in the lexical form of its datatype
(xsd:hexBinary or xsd:base64Binary) and hydration decodes it.
---
 layouts/src/distill/de/data.rs | 25 +++++++++++++++++++++----
 layouts/src/distill/hy/data.rs | 15 +++++++++++++--
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 1f697e4..15bebbd 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -58,16 +58,33 @@ where
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
-	_rdf: &RdfContextMut<V, I>,
-	_value: &[u8],
-	_type_: &I::Resource,
+	rdf: &RdfContextMut<V, I>,
+	value: &[u8],
+	type_: &I::Resource,
 ) -> Result<RdfLiteral<V>, Error<Q>>
 where
 	V: LiteralVocabulary,
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	use xsd_types::{Base64Binary, HexBinary};
+	for i in rdf.interpretation.iris_of(type_) {
+		let iri = rdf.vocabulary.iri(i).unwrap();
+		let lexical = if iri == xsd_types::XSD_HEX_BINARY {
+			HexBinary::new(value).to_string()
+		} else if iri == xsd_types::XSD_BASE64_BINARY {
+			Base64Binary::new(value).to_string()
+		} else {
+			continue;
+		};
+
+		return Ok(rdf_types::Literal::new(
+			lexical,
+			LiteralType::Any(i.clone()),
+		));
+	}
+
+	Err(Error::IncompatibleLayout) // unknown datatype.
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index e948c49..fecae05 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -232,8 +232,19 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 	}
 }
 
-fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+fn hydrate_byte_string_value<R>(value: &str, type_: &Iri) -> Result<Vec<u8>, Error<R>> {
+	use xsd_types::{Base64BinaryBuf, HexBinaryBuf};
+	if type_ == xsd_types::XSD_HEX_BINARY {
+		HexBinaryBuf::decode(value)
+			.map(HexBinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral)
+	} else if type_ == xsd_types::XSD_BASE64_BINARY {
+		Base64BinaryBuf::decode(value)
+			.map(Base64BinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral)
+	} else {
+		Err(Error::NoMatchingLiteral) // unknown byte string type.
+	}
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
-- 
2.43.0


From 59b374df4fd1d16c8277444fb7a3fdf007e09d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:08 +0000
Subject: [PATCH 38/39] fix: tldr-rs reports a file it cannot read instead of
 panicking

---
 generators/rust/generator/src/bin/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/bin/main.rs b/generators/rust/generator/src/bin/main.rs
index fd3d9ee..fcc998b 100644
--- a/generators/rust/generator/src/bin/main.rs
+++ b/generators/rust/generator/src/bin/main.rs
@@ -50,7 +50,13 @@ fn main() -> ExitCode {
 	let mut default_layout_ref = DefaultLayoutRef::Unknown;
 
 	for filename in args.filenames {
-		let content = fs::read_to_string(filename).unwrap();
+		let content = match fs::read_to_string(&filename) {
+			Ok(content) => content,
+			Err(e) => {
+				log::error!("unable to read file `{}`: {e}", filename.display());
+				return ExitCode::FAILURE;
+			}
+		};
 
 		match serde_json::from_str::<abs::syntax::Layout>(&content) {
 			Ok(abstract_layout) => match abstract_layout.build(&mut builder) {
-- 
2.43.0


From d3160f4a897440bbbcdfe63a68868bb53c8aa5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 39/39] fix: serde keeps the language of a literal in a layout
 file

---
 layouts/src/abs/syntax/pattern/literal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..933e50f 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -94,6 +94,7 @@ impl From<rdf_types::LiteralType> for LiteralType {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeIri {
 	#[serde(
 		rename = "type",
@@ -112,6 +113,7 @@ impl LiteralTypeIri {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeLanguage {
 	pub language: LangTagBuf,
 }
-- 
2.43.0

