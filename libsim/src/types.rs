// Types with derived code. A file of its own so that failures to compile them are told from others.

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct Plain {
    #[tldr("ex:name")]
    pub name: String,
    #[tldr("ex:age")]
    pub age: Option<i32>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"), prefix("rdf" = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"))]
#[tldr(dataset(("_:self", "rdf:type", "ex:Parent")))]
pub struct Parent {
    #[tldr(input("_:self"))]
    pub id: rdf_types::Id,
    #[tldr("ex:child")]
    pub child: Plain,
    #[tldr("ex:other")]
    pub other: Option<Plain>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"), intro("addr"), dataset(("_:self", "ex:address", "_:addr")))]
pub struct Inner {
    #[tldr(dataset(("_:addr", "ex:street", "_:value")))]
    pub street: String,
    #[tldr(intro("mid", "v"), dataset(("_:addr", "ex:place", "_:mid"), ("_:mid", "ex:town", "_:v")), input("_:v"))]
    pub town: Option<String>,
    #[tldr("ex:no")]
    pub no: Option<u8>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub enum Shape {
    Text(String),
    Number(i32),
    Record(Plain),
    Tuple(Pair),
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub enum Either {
    #[tldr(intro("v"), dataset(("_:self", "ex:a", "_:v")), input("_:v"))]
    A(String),
    #[tldr(intro("v"), dataset(("_:self", "ex:b", "_:v")), input("_:v"))]
    B(String),
    #[tldr(intro("v", "g"), dataset(("_:self", "ex:in", "_:g"), ("_:self", "ex:c", "_:v", "_:g")), input("_:v"), graph(Some("_:g")))]
    C(Plain),
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://t.ex/"))]
pub struct Words(#[tldr("ex:word")] pub Vec<String>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://t.ex/"), intro("box"), dataset(("_:self", "ex:box", "_:box")))]
pub struct Members(#[tldr(intro("m", "k"), dataset(("_:box", "ex:has", "_:m"), ("_:m", "ex:key", "_:k")), input("_:m"))] pub Vec<Plain>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(set, prefix("ex" = "https://t.ex/"))]
pub struct Tree(#[tldr("ex:sub")] pub Vec<Tree>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list)]
pub struct Line(pub Vec<String>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "https://t.ex/"), intro("start"), dataset(("_:self", "ex:start", "_:start")), head("_:start"), tail("ex:end"))]
pub struct Chain(#[tldr(head("h"), rest("t"), intro("v", "w"), dataset(("_:h", "ex:val", "_:v"), ("_:v", "ex:is", "_:w"), ("_:h", "ex:next", "_:t")), input("_:w"))] pub Vec<Shape>);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct Pair(#[tldr("ex:x")] pub String, #[tldr("ex:y")] pub i64);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"), input("a", "b"), dataset(("_:a", "ex:to", "_:b")))]
pub struct Edge(#[tldr(intro("w"), dataset(("_:a", "ex:weight", "_:w")), input("_:w"))] pub Flag, #[tldr(input("_:b"))] pub Words, #[tldr(intro(), dataset(("_:b", "ex:back", "_:a")), input("_:a"))] pub Plain);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct Single(#[tldr("ex:x")] pub Shape);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(boolean)]
pub struct Flag(pub bool);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(number, prefix("xsd" = "http://www.w3.org/2001/XMLSchema#"), datatype("xsd:unsignedShort"))]
#[tldr(prefix("ex" = "https://t.ex/"), intro("v"), dataset(("_:self", "ex:size", "_:v")), resource("_:v"))]
pub struct Size(pub u16);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(string, prefix("ex" = "https://t.ex/"), datatype("ex:code"))]
pub struct Code(pub String);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(string, prefix("xsd" = "http://www.w3.org/2001/XMLSchema#"), prefix("ex" = "https://t.ex/"), datatype("xsd:string"), intro("n", "t"))]
#[tldr(dataset(("_:self", "ex:label", "_:n"), ("_:n", "ex:text", "_:t")), resource("_:t"))]
pub struct Label(pub String);

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"), dataset(("_:self", "ex:is", "ex:Unit")))]
pub struct Mark;

#[derive(SerializeLd, DeserializeLd)]
#[tldr(id, prefix("ex" = "https://t.ex/"), intro("v"), dataset(("_:self", "ex:named", "_:v")), resource("_:v"))]
pub struct Name(pub rdf_types::Id);
impl treeldr::AsId for Name {
    fn as_id(&self) -> rdf_types::Id<&iref::Iri, &rdf_types::BlankId> {
        self.0.as_lexical_id_ref()
    }
}
impl From<rdf_types::Id> for Name {
    fn from(i: rdf_types::Id) -> Self {
        Name(i)
    }
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct Graphs {
    #[tldr(intro("value", "g"), dataset(("_:self", "ex:in", "_:g"), ("_:self", "ex:val", "_:value", "_:g")), input("_:value"), graph(Some("_:g")))]
    pub inside: Plain,
    #[tldr("ex:kept", graph(_))]
    pub kept: Option<Plain>,
    #[tldr("ex:fixed", graph(Some("ex:Graph")))]
    pub fixed: Option<Words>,
    #[tldr("ex:out", graph(None))]
    pub out: Option<Plain>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct Numbers {
    #[tldr("ex:n1")]
    pub a: Option<u8>,
    #[tldr("ex:n2")]
    pub b: Option<u16>,
    #[tldr("ex:n3")]
    pub c: Option<u32>,
    #[tldr("ex:n4")]
    pub d: Option<u64>,
    #[tldr("ex:n5")]
    pub e: Option<i8>,
    #[tldr("ex:n6")]
    pub f: Option<i16>,
    #[tldr("ex:n7")]
    pub g: Option<i64>,
    #[tldr("ex:n1")]
    pub again: Option<u8>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct All {
    #[tldr("ex:mark")]
    pub mark: Option<Mark>,
    #[tldr("ex:code")]
    pub code: Option<Code>,
    #[tldr("ex:flag")]
    pub flag: Flag,
    #[tldr("ex:size")]
    pub size: Option<Size>,
    #[tldr("ex:id")]
    pub id: Option<Name>,
    #[tldr("ex:line")]
    pub line: Option<Line>,
    #[tldr("ex:tree")]
    pub tree: Option<Tree>,
    #[tldr("ex:single")]
    pub single: Option<Single>,
    #[tldr("ex:chain")]
    pub chain: Option<Chain>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(base("https://t.ex/"))]
pub struct Loops {
    #[tldr(intro("v"), dataset(("_:v", "is", "_:v"), ("_:self", "same", "_:v")), input("_:v"))]
    pub same: Option<String>,
    #[tldr(intro("p"), dataset(("_:self", "_:p", "_:p")), input("_:p"))]
    pub pred: Option<rdf_types::Id>,
    #[tldr(intro("p", "v"), dataset(("_:p", "_:p", "_:v"), ("_:self", "by", "_:p")), input("_:v"))]
    pub by: Option<String>,
    #[tldr(intro("g"), dataset(("_:self", "of", "_:g", "_:g")), input("_:g"))]
    pub of: Option<rdf_types::Id>,
    #[tldr(intro("g", "v"), dataset(("_:self", "_:g", "_:v", "_:g"), ("_:v", "mid", "_:self")), input("_:v"))]
    pub held: Option<i32>,
    #[tldr(intro("g", "v"), dataset(("_:g", "has", "_:v", "_:g"), ("_:self", "in", "_:g")), input("_:v"), graph(Some("_:g")))]
    pub own: Option<Plain>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"))]
pub struct Loose {
    #[tldr(intro("v"), input("_:v"))]
    pub free: Option<String>,
    #[tldr("ex:name")]
    pub name: String,
    #[tldr(intro("p", "v"), dataset(("_:self", "_:p", "_:v"), ("_:p", "ex:is", "ex:Prop")), input("_:v"))]
    pub any: Option<u8>,
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(prefix("ex" = "https://t.ex/"), input("x", "y"))]
pub enum Swap {
    #[tldr(intro(), dataset(("_:x", "ex:first", "_:y")), input("_:y", "_:x"))]
    Edge(Edge),
    #[tldr(intro("z"), dataset(("_:x", "_:y", "_:z")), input("_:z"))]
    Shape(Shape),
    #[tldr(intro("g"), dataset(("_:y", "ex:in", "_:g")), input("_:x"), graph(Some("_:g")))]
    Words(Words),
}

#[derive(SerializeLd, DeserializeLd)]
#[tldr(list, prefix("ex" = "https://t.ex/"), input("self", "k"))]
pub struct Keyed(#[tldr(intro("v"), dataset(("_:first", "_:k", "_:v"), ("_:first", "ex:then", "_:rest")), head("first"), rest("rest"), input("_:v", "_:k"))] pub Vec<Swap>);

// ---- types generated from layout files ----

treeldr::tldr_include!("gen/GRec.json", "gen/GTags.json", "gen/GItems.json", "gen/GLine.json", "gen/GChain.json", "gen/GSum.json", "gen/GPair.json", "gen/GFlag.json", "gen/GCode.json", "gen/GMark.json", "gen/GLabel.json");
#[treeldr::tldr("gen/GFar.json")]
mod far {
    #[tldr("https://t.ex/layout/")]
    use crate::shapes as up;
}
pub use far::GFar;
