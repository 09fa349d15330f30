//! C15: types with derived code, and the layouts they stand for.

use crate::parts::*;
use rdf_types::dataset::BTreeDataset;
use sim::json::{self, J};
use sim::rng::Rng;
use sim::val::Val;
use std::collections::BTreeMap;
use treeldr::{DeserializeLd, RdfContext, RdfContextMut, SerializeLd};

/// A type, its tree values (with or without the names of variants), and random instances.
pub trait Typed: Sized {
    fn make(v: &Val) -> Option<Self>;
    fn val(&self, tags: bool) -> Val;
    fn gen(r: &mut Rng, depth: usize) -> Self;
}

const STRINGS: [&str; 8] = ["", "a", "b", "true", "7", "x y", "é\n\"\\", "https://t.ex/i0"];

impl Typed for String {
    fn make(v: &Val) -> Option<Self> {
        match v {
            Val::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    fn val(&self, _: bool) -> Val {
        Val::Str(self.clone())
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.pick(&STRINGS).to_string()
    }
}
impl Typed for bool {
    fn make(v: &Val) -> Option<Self> {
        match v {
            Val::Bool(b) => Some(*b),
            _ => None,
        }
    }
    fn val(&self, _: bool) -> Val {
        Val::Bool(*self)
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.pct(50)
    }
}
impl Typed for () {
    fn make(v: &Val) -> Option<Self> {
        (*v == Val::Unit).then_some(())
    }
    fn val(&self, _: bool) -> Val {
        Val::Unit
    }
    fn gen(_: &mut Rng, _: usize) -> Self {}
}
macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                match v {
                    Val::Num(n) if n.is_integer() => <$t>::try_from(n.to_integer()).ok(),
                    _ => None,
                }
            }
            fn val(&self, _: bool) -> Val {
                Val::Num(num_rational::BigRational::from_integer((*self).into()))
            }
            fn gen(r: &mut Rng, _: usize) -> Self {
                *r.pick(&[0, 1, 7, 100, <$t>::MAX, <$t>::MIN])
            }
        }
    )* };
}
ints!(u8, u16, u32, u64, i8, i16, i32, i64);

impl Typed for rdf_types::Id {
    fn make(v: &Val) -> Option<Self> {
        match v {
            Val::Str(s) => match s.strip_prefix("_:") {
                Some(_) => Some(rdf_types::Id::Blank(rdf_types::BlankIdBuf::new(s.clone()).ok()?)),
                None => Some(rdf_types::Id::Iri(iref::IriBuf::new(s.clone()).ok()?)),
            },
            _ => None,
        }
    }
    fn val(&self, _: bool) -> Val {
        Val::Str(self.to_string())
    }
    fn gen(r: &mut Rng, _: usize) -> Self {
        let i = r.below(3);
        Self::make(&Val::Str(if r.pct(8) { format!("_:b{i}") } else { format!("https://t.ex/i{i}") })).unwrap()
    }
}

// ---- the types ----

macro_rules! newtype {
    ($t:ident $inner:ty) => {
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                <$inner>::make(v).map($t)
            }
            fn val(&self, tags: bool) -> Val {
                self.0.val(tags)
            }
            fn gen(r: &mut Rng, d: usize) -> Self {
                $t(<$inner>::gen(r, d))
            }
        }
    };
}
macro_rules! unit {
    ($t:ident) => {
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                (*v == Val::Unit).then_some($t)
            }
            fn val(&self, _: bool) -> Val {
                Val::Unit
            }
            fn gen(_: &mut Rng, _: usize) -> Self {
                $t
            }
        }
    };
}
macro_rules! record {
    ($t:ident $($f:ident $k:ident $ty:ty),*) => {
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                let Val::Map(m) = v else { return None };
                let _known = [$(stringify!($f)),*];
                m.keys().all(|k| matches!(k, Val::Str(k) if _known.contains(&k.as_str()))).then_some(())?;
                Some($t { $($f: record!(@make $k m $f $ty)),* })
            }
            fn val(&self, _tags: bool) -> Val {
                let mut _m = BTreeMap::new();
                $( record!(@val $k self _m _tags $f); )*
                Val::Map(_m)
            }
            fn gen(_r: &mut Rng, _d: usize) -> Self {
                $t { $($f: record!(@gen $k _r _d $ty)),* }
            }
        }
    };
    (@make req $m:ident $f:ident $ty:ty) => { <$ty>::make($m.get(&Val::Str(stringify!($f).into()))?)? };
    (@make opt $m:ident $f:ident $ty:ty) => { match $m.get(&Val::Str(stringify!($f).into())) { Some(x) => Some(<$ty>::make(x)?), None => None } };
    (@val req $s:ident $m:ident $tags:ident $f:ident) => { $m.insert(Val::Str(stringify!($f).into()), $s.$f.val($tags)) };
    (@val opt $s:ident $m:ident $tags:ident $f:ident) => { if let Some(x) = &$s.$f { $m.insert(Val::Str(stringify!($f).into()), x.val($tags)); } };
    (@gen req $r:ident $d:ident $ty:ty) => { <$ty>::gen($r, $d + 1) };
    (@gen opt $r:ident $d:ident $ty:ty) => { if $r.pct(60) { Some(<$ty>::gen($r, $d + 1)) } else { None } };
}
macro_rules! sum {
    ($t:ident $($v:ident $ty:ty),*) => {
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                if let Val::Map(m) = v {
                    if let (1, Some((Val::Str(k), x))) = (m.len(), m.iter().next()) {
                        match k.as_str() {
                            $( concat!("$", stringify!($v)) => return <$ty>::make(x).map($t::$v), )*
                            _ => (),
                        }
                    }
                }
                $( if let Some(x) = <$ty>::make(v) { return Some($t::$v(x)); } )*
                None
            }
            fn val(&self, tags: bool) -> Val {
                match self {
                    $( $t::$v(x) if tags => Val::Map([(Val::Str(concat!("$", stringify!($v)).into()), x.val(true))].into()), )*
                    $( $t::$v(x) => x.val(false), )*
                }
            }
            fn gen(r: &mut Rng, d: usize) -> Self {
                let n = [$(stringify!($v)),*].len();
                let mut k = r.below(n);
                $( if k == 0 { return $t::$v(<$ty>::gen(r, d + 1)); } k = k.wrapping_sub(1); )*
                let _ = k;
                unreachable!()
            }
        }
    };
}
macro_rules! list {
    ($t:ident $item:ty, $sorted:literal, $min:literal) => {
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                let Val::List(a) = v else { return None };
                Some($t(a.iter().map(<$item>::make).collect::<Option<_>>()?))
            }
            fn val(&self, tags: bool) -> Val {
                let mut a: Vec<Val> = self.0.iter().map(|x| x.val(tags)).collect();
                if $sorted {
                    a.sort();
                }
                Val::List(a)
            }
            fn gen(r: &mut Rng, d: usize) -> Self {
                let n = if d > 2 { r.below(2) } else { *r.pick(&[0, 1, 1, 2, 3, 5]) };
                $t((0..n.max($min)).map(|_| <$item>::gen(r, d + 1)).collect())
            }
        }
    };
}
macro_rules! tuple {
    ($t:ident $($i:tt $ty:ty),*) => {
        impl Typed for $t {
            fn make(v: &Val) -> Option<Self> {
                let Val::List(a) = v else { return None };
                let n = [$(stringify!($i)),*].len();
                (a.len() == n).then_some(())?;
                Some($t($(<$ty>::make(&a[$i])?),*))
            }
            fn val(&self, tags: bool) -> Val {
                Val::List(vec![$(self.$i.val(tags)),*])
            }
            fn gen(r: &mut Rng, d: usize) -> Self {
                $t($(<$ty>::gen(r, d + 1)),*)
            }
        }
    };
}

include!("types.rs");

record!(Plain name req String, age opt i32);
record!(Parent id req rdf_types::Id, child req Plain, other opt Plain);
record!(Inner street req String, town opt String, no opt u8);
sum!(Shape Text String, Number i32, Record Plain, Tuple Pair);
sum!(Either A String, B String, C Plain);
list!(Words String, true, 0);
list!(Members Plain, true, 0);
list!(Tree Tree, true, 0);
list!(Line String, false, 0);
list!(Chain Shape, false, 1);
tuple!(Pair 0 String, 1 i64);
tuple!(Edge 0 Flag, 1 Words, 2 Plain);
tuple!(Single 0 Shape);
newtype!(Flag bool);
newtype!(Size u16);
newtype!(Code String);
newtype!(Label String);
unit!(Mark);
newtype!(Name rdf_types::Id);
record!(Graphs inside req Plain, kept opt Plain, fixed opt Words, out opt Plain);
record!(Numbers a opt u8, b opt u16, c opt u32, d opt u64, e opt i8, f opt i16, g opt i64, again opt u8);
record!(All mark opt Mark, code opt Code, flag req Flag, size opt Size, id opt Name, line opt Line, tree opt Tree, single opt Single, chain opt Chain);
record!(Loops same opt String, pred opt rdf_types::Id, by opt String, of opt rdf_types::Id, held opt i32, own opt Plain);
record!(Loose free opt String, name req String, any opt u8);
sum!(Swap Edge Edge, Shape Shape, Words Words);
list!(Keyed Swap, false, 1);
const GENERATED: [&str; 12] = [include_str!("../gen/GFar.json"), include_str!("../gen/GRec.json"), include_str!("../gen/GTags.json"), include_str!("../gen/GItems.json"), include_str!("../gen/GLine.json"), include_str!("../gen/GChain.json"), include_str!("../gen/GSum.json"), include_str!("../gen/GPair.json"), include_str!("../gen/GFlag.json"), include_str!("../gen/GCode.json"), include_str!("../gen/GMark.json"), include_str!("../gen/GLabel.json")];
record!(GRec key req rdf_types::Id, name req String, age opt i32, deep opt bool, note opt (), tags opt GTags);
list!(GTags String, true, 0);
list!(GItems GSum, true, 0);
list!(GLine GSum, false, 0);
list!(GChain u16, false, 1);
sum!(GSum Mark GMark, Pair GPair, Small u8, Text String);
tuple!(GPair 0 GFlag, 1 GCode, 2 i64);
newtype!(GFlag bool);
newtype!(GCode String);
newtype!(GLabel String);
unit!(GMark);
sum!(GFar Chain GChain, Pair GPair, Flag GFlag, Code String);

// ---- the layouts ----

/// `"@out"` fields are those written in the default graph, which the syntax cannot express.
const LAYOUTS: &str = r#"[
{"id":"ex:String","type":"string"},
{"id":"ex:Id","type":"id"},
{"id":"ex:Plain","type":"record","fields":{"name":{"property":"ex:name","value":"ex:String","required":true},"age":{"property":"ex:age","value":"ex:i32"}}},
{"id":"ex:Parent","type":"record","dataset":[["_:self","rdf:type","ex:ParentC"]],"fields":{"id":{"value":{"layout":"ex:Id","input":"_:self"},"required":true},"child":{"property":"ex:child","value":"ex:Plain","required":true},"other":{"property":"ex:other","value":"ex:Plain"}}},
{"id":"ex:Inner","type":"record","intro":"addr","dataset":[["_:self","ex:address","_:addr"]],"fields":{
  "street":{"dataset":[["_:addr","ex:street","_:value"]],"value":"ex:String","required":true},
  "town":{"intro":["mid","v"],"dataset":[["_:addr","ex:place","_:mid"],["_:mid","ex:town","_:v"]],"value":{"layout":"ex:String","input":"_:v"}},
  "no":{"property":"ex:no","value":"ex:u8"}}},
{"id":"ex:Shape","type":"sum","variants":{"Text":{"value":"ex:String"},"Number":{"value":"ex:i32"},"Record":{"value":"ex:Plain"},"Tuple":{"value":"ex:Pair"}}},
{"id":"ex:Either","type":"sum","variants":{
  "A":{"intro":"v","dataset":[["_:self","ex:a","_:v"]],"value":{"layout":"ex:String","input":"_:v"}},
  "B":{"intro":"v","dataset":[["_:self","ex:b","_:v"]],"value":{"layout":"ex:String","input":"_:v"}},
  "C":{"intro":["v","g"],"dataset":[["_:self","ex:in","_:g"],["_:self","ex:c","_:v","_:g"]],"value":{"layout":"ex:Plain","input":"_:v","graph":"_:g"}}}},
{"id":"ex:Either-A","type":"sum","variants":{"A":{"intro":"v","dataset":[["_:self","ex:a","_:v"]],"value":{"layout":"ex:String","input":"_:v"}}}},
{"id":"ex:Either-B","type":"sum","variants":{"B":{"intro":"v","dataset":[["_:self","ex:b","_:v"]],"value":{"layout":"ex:String","input":"_:v"}}}},
{"id":"ex:Words","type":"set","item":{"property":"ex:word","value":"ex:String"}},
{"id":"ex:Members","type":"set","intro":"box","dataset":[["_:self","ex:box","_:box"]],"item":{"intro":["m","k"],"dataset":[["_:box","ex:has","_:m"],["_:m","ex:key","_:k"]],"value":{"layout":"ex:Plain","input":"_:m"}}},
{"id":"ex:Tree","type":"set","item":{"property":"ex:sub","value":"ex:Tree"}},
{"id":"ex:Line","type":"list","node":{"value":"ex:String"}},
{"id":"ex:Chain","type":"list","intro":"start","dataset":[["_:self","ex:start","_:start"]],"head":"_:start","tail":"ex:end","node":{"head":"h","rest":"t","intro":["v","w"],"dataset":[["_:h","ex:val","_:v"],["_:v","ex:is","_:w"],["_:h","ex:next","_:t"]],"value":{"layout":"ex:Shape","input":"_:w"}}},
{"id":"ex:Pair","type":"tuple","items":[{"property":"ex:x","value":"ex:String"},{"property":"ex:y","value":"ex:i64"}]},
{"id":"ex:Edge","type":"tuple","input":["a","b"],"dataset":[["_:a","ex:to","_:b"]],"items":[{"intro":"w","dataset":[["_:a","ex:weight","_:w"]],"value":{"layout":"ex:Flag","input":"_:w"}},{"value":{"layout":"ex:Words","input":"_:b"}},{"intro":[],"dataset":[["_:b","ex:back","_:a"]],"value":{"layout":"ex:Plain","input":"_:a"}}]},
{"id":"ex:Single","type":"tuple","items":[{"property":"ex:x","value":"ex:Shape"}]},
{"id":"ex:Flag","type":"boolean"},
{"id":"ex:Size","type":"number","datatype":"xsd:unsignedShort","intro":"v","dataset":[["_:self","ex:size","_:v"]],"resource":"_:v"},
{"id":"ex:Code","type":"string","datatype":"ex:code"},
{"id":"ex:Label","type":"string","intro":["n","t"],"dataset":[["_:self","ex:label","_:n"],["_:n","ex:text","_:t"]],"resource":"_:t"},
{"id":"ex:Mark","type":"unit","dataset":[["_:self","ex:is","ex:Unit"]]},
{"id":"ex:Name","type":"id","intro":"v","dataset":[["_:self","ex:named","_:v"]],"resource":"_:v"},
{"id":"ex:Graphs","type":"record","fields":{
  "inside":{"intro":["value","g"],"dataset":[["_:self","ex:in","_:g"],["_:self","ex:val","_:value","_:g"]],"value":{"layout":"ex:Plain","input":"_:value","graph":"_:g"},"required":true},
  "kept":{"property":"ex:kept","value":"ex:Plain"},
  "fixed":{"property":"ex:fixed","value":{"layout":"ex:Words","input":"_:value","graph":"ex:Graph"}},
  "out":{"property":"ex:out","value":{"layout":"ex:Plain","input":"_:value"}}}},
{"id":"ex:Numbers","type":"record","fields":{"a":{"property":"ex:n1","value":"ex:u8"},"b":{"property":"ex:n2","value":"ex:u16"},"c":{"property":"ex:n3","value":"ex:u32"},"d":{"property":"ex:n4","value":"ex:u64"},"e":{"property":"ex:n5","value":"ex:i8"},"f":{"property":"ex:n6","value":"ex:i16"},"g":{"property":"ex:n7","value":"ex:i64"},"again":{"property":"ex:n1","value":"ex:u8"}}},
{"id":"ex:All","type":"record","fields":{"mark":{"property":"ex:mark","value":"ex:Mark"},"code":{"property":"ex:code","value":"ex:Code"},"flag":{"property":"ex:flag","value":"ex:Flag","required":true},"size":{"property":"ex:size","value":"ex:Size"},"id":{"property":"ex:id","value":"ex:Name"},"line":{"property":"ex:line","value":"ex:Line"},"tree":{"property":"ex:tree","value":"ex:Tree"},"single":{"property":"ex:single","value":"ex:Single"},"chain":{"property":"ex:chain","value":"ex:Chain"}}},
{"id":"ex:Loops","type":"record","fields":{
  "same":{"intro":"v","dataset":[["_:v","ex:is","_:v"],["_:self","ex:same","_:v"]],"value":{"layout":"ex:String","input":"_:v"}},
  "pred":{"intro":"p","dataset":[["_:self","_:p","_:p"]],"value":{"layout":"ex:Id","input":"_:p"}},
  "by":{"intro":["p","v"],"dataset":[["_:p","_:p","_:v"],["_:self","ex:by","_:p"]],"value":{"layout":"ex:String","input":"_:v"}},
  "of":{"intro":"g","dataset":[["_:self","ex:of","_:g","_:g"]],"value":{"layout":"ex:Id","input":"_:g"}},
  "held":{"intro":["g","v"],"dataset":[["_:self","_:g","_:v","_:g"],["_:v","ex:mid","_:self"]],"value":{"layout":"ex:i32","input":"_:v"}},
  "own":{"intro":["g","v"],"dataset":[["_:g","ex:has","_:v","_:g"],["_:self","ex:in","_:g"]],"value":{"layout":"ex:Plain","input":"_:v","graph":"_:g"}}}},
{"id":"ex:Loose","type":"record","fields":{
  "free":{"intro":"v","value":{"layout":"ex:String","input":"_:v"}},
  "name":{"property":"ex:name","value":"ex:String","required":true},
  "any":{"intro":["p","v"],"dataset":[["_:self","_:p","_:v"],["_:p","ex:is","ex:Prop"]],"value":{"layout":"ex:u8","input":"_:v"}}}},
{"id":"ex:Swap","type":"sum","input":["x","y"],"variants":{
  "Edge":{"intro":[],"dataset":[["_:x","ex:first","_:y"]],"value":{"layout":"ex:Edge","input":["_:y","_:x"]}},
  "Shape":{"intro":"z","dataset":[["_:x","_:y","_:z"]],"value":{"layout":"ex:Shape","input":"_:z"}},
  "Words":{"intro":"g","dataset":[["_:y","ex:in","_:g"]],"value":{"layout":"ex:Words","input":"_:x","graph":"_:g"}}}},
{"id":"ex:Keyed","type":"list","input":["self","k"],"node":{"head":"first","rest":"rest","intro":"v","dataset":[["_:first","_:k","_:v"],["_:first","ex:then","_:rest"]],"value":{"layout":"ex:Swap","input":["_:v","_:k"]}}},
{"id":"ex:bool","type":"boolean"},
{"id":"ex:unit","type":"unit"},
{"id":"ex:u8","type":"number","datatype":"xsd:unsignedByte"},
{"id":"ex:u16","type":"number","datatype":"xsd:unsignedShort"},
{"id":"ex:u32","type":"number","datatype":"xsd:unsignedInt"},
{"id":"ex:u64","type":"number","datatype":"xsd:unsignedLong"},
{"id":"ex:i8","type":"number","datatype":"xsd:byte"},
{"id":"ex:i16","type":"number","datatype":"xsd:short"},
{"id":"ex:i32","type":"number","datatype":"xsd:int"},
{"id":"ex:i64","type":"number","datatype":"xsd:long"}
]"#;

pub fn layouts() -> Vec<J> {
    fn expand(j: &J) -> J {
        match j {
            J::Str(x) => J::Str(match x.split_once(':') {
                // Layout names are not the terms of the same name.
                Some(("ex", n)) if n.starts_with(char::is_uppercase) && n != "Unit" && n != "Prop" && n != "Graph" && n != "ParentC" || matches!(x.as_str(), "ex:bool" | "ex:unit" | "ex:u8" | "ex:u16" | "ex:u32" | "ex:u64" | "ex:i8" | "ex:i16" | "ex:i32" | "ex:i64") => layout_id(x.split_once(':').unwrap().1),
                Some(("ex", "ParentC")) => "https://t.ex/Parent".into(),
                Some(("ex", n)) => format!("https://t.ex/{n}"),
                Some(("xsd", n)) => format!("http://www.w3.org/2001/XMLSchema#{n}"),
                Some(("rdf", n)) => format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#{n}"),
                _ => x.clone(),
            }),
            J::Arr(a) => J::Arr(a.iter().map(expand).collect()),
            J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), expand(v))).collect()),
            j => j.clone(),
        }
    }
    let mut all = expand(&json::parse(LAYOUTS.as_bytes()).expect("layouts")).arr().to_vec();
    for g in GENERATED {
        // The preset layouts are those above.
        let mut t = g.to_string();
        for (a, b) in [("id", "Id"), ("unit", "unit"), ("boolean", "bool"), ("u8", "u8"), ("u16", "u16"), ("i32", "i32"), ("i64", "i64"), ("string", "String")] {
            t = t.replace(&format!("\"tldr:{a}\""), &format!("\"{}\"", layout_id(b)));
        }
        all.push(json::parse(t.as_bytes()).expect("layouts"));
    }
    all
}

pub fn layout_id(name: &str) -> String {
    match name.strip_prefix('G') {
        Some(n) if n.starts_with(char::is_uppercase) => format!("https://t.ex/layout/g_{}", n.to_lowercase()),
        _ => format!("https://t.ex/layout/{name}"),
    }
}

// ---- the table ----

type Ser = fn(&Val, &mut Interp, &[Rs], Option<&Rs>, &mut BTreeDataset<Rs>) -> Option<bool>;
type De = fn(&Interp, &Store<Rs>, Option<&Rs>, &[Rs]) -> Result<Val, String>;

pub struct Ty {
    pub name: &'static str,
    pub inputs: usize,
    pub ser: Ser,
    pub de: De,
    /// The form in which two values of the type are compared.
    pub norm: fn(&Val) -> Option<Val>,
    /// The value with the names of variants.
    pub gen: fn(&mut Rng) -> Val,
    pub tagged: fn(&Val) -> Option<(Val, Val)>,
}

fn ser<const N: usize, T: Typed + SerializeLd<N, Voc, Interp>>(v: &Val, i: &mut Interp, inputs: &[Rs], graph: Option<&Rs>, out: &mut BTreeDataset<Rs>) -> Option<bool> {
    let t = sched::calm(|| T::make(v))?;
    let inputs: &[Rs; N] = inputs.try_into().ok()?;
    Some(t.serialize_ld_with(&mut RdfContextMut::new(&mut Voc, i), inputs, graph, out).is_ok())
}
fn de<const N: usize, T: Typed + DeserializeLd<N, Voc, Interp>>(i: &Interp, d: &Store<Rs>, graph: Option<&Rs>, inputs: &[Rs]) -> Result<Val, String> {
    let inputs: &[Rs; N] = inputs.try_into().map_err(|_| "inputs")?;
    let r = T::deserialize_ld_with(RdfContext::new(&Voc, i), d, graph, inputs);
    sched::calm(|| r.map(|t| t.val(false)).map_err(|e| e.to_string()))
}
fn norm<T: Typed>(v: &Val) -> Option<Val> {
    T::make(v).map(|t| t.val(false))
}
fn gen<T: Typed>(r: &mut Rng) -> Val {
    T::gen(r, 0).val(true)
}
fn tagged<T: Typed>(v: &Val) -> Option<(Val, Val)> {
    T::make(v).map(|t| (t.val(true), t.val(false)))
}

macro_rules! table {
    ($($t:ident $n:literal),*) => {
        pub const TYPES: &[Ty] = &[$( Ty { name: stringify!($t), inputs: $n, ser: ser::<$n, $t>, de: de::<$n, $t>, norm: norm::<$t>, gen: gen::<$t>, tagged: tagged::<$t> } ),*];
    };
}
use rdf_types::Id;
table!(
    Plain 1, Parent 1, Inner 1, Shape 1, Either 1, Words 1, Members 1, Tree 1, Line 1, Chain 1, Pair 1, Edge 2, Single 1, Flag 1, Size 1, Code 1, Label 1, Mark 1, Name 1,
    Loops 1, Loose 1, Swap 2, Keyed 2, Graphs 1, Numbers 1, All 1, String 1, Id 1, i32 1, u64 1,
    GRec 1, GTags 1, GItems 1, GLine 1, GChain 2, GSum 1, GPair 2, GFlag 1, GCode 1, GMark 1, GLabel 1, GFar 2
);
