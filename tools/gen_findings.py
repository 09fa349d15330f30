K1="a layout file containing an empty object {} (for instance \"prefixes\": {} or \"fields\": {}) may end the command with a panic (exit 101, no output): json-syntax 0.12.5 gives {} volume 0 in its code map, so later parts are looked up at the wrong offset"
K2="hydration may miss statements about a term that appears twice in the first statement that mentions it (such as <a> <p> <a> .): rdf-types 0.22.5 BTreeDataset::insert stores that term as two resources"
K3="values nested deeper than a few thousand levels (a JSON array of 20000 arrays, one in another) overflow the stack (SIGABRT): values are read, built, written and dropped by recursive functions, json-syntax's and treeldr's"
K4="a layout of type union or intersection in a layout file ends the command with a panic (exit 101): building them is not implemented"
L=["# Genuine defects found by the checks. `known:` lines are reported as KNOWN-FINDING and not as violations;",
"# `fixed:` lines suppress nothing. K1 to K4 are recognised by the signatures in sim/src/scen.rs (k1 to k4).",""]
for p in "C01 C02 C03 C04 C06 C08 C09 C12 C13 C14".split(): L.append(f"known: property={p} K1 {K1}")
for p in "C02 C03 C04 C06 C08 C09 C14".split(): L.append(f"known: property={p} K2 {K2}")
L.append(f"known: property=C14 K3 {K3}")
L.append(f"known: property=C14 K4 {K4}")
L.append("")
F=[("C05","1c77fc3","output errors were lost when writing tree values: the buffered writer was dropped without flush, so a full or broken output gave exit status 0"),
("C04","8c608df","the decimal representation of negative fractions had a wrong sign or digits"),
("C04","adff921","negative xsd:decimal literals were not read back or written correctly"),
("C04","f294528","JSON numbers with an exponent were refused or misread"),
("C04","614e5ba","writing zero as CBOR panicked"),
("C04","a648657","negative big integers were encoded off by one in CBOR"),
("C04","adbd62f","the constant of a unit layout was not written in CBOR"),
("C02","7ba31fb","hydrating a sum whose variants introduce variables panicked: the variables were not declared"),
("C01","668662f","data that does not match the layout made the command panic instead of reporting an error"),
("C06","c910520","the term reported as ambiguous depended on the hash seed"),
("C14","9744623","hydrating a cyclic list never ended"),
("C01","f3606ca","dehydration wrote into the default graph instead of the graph selected by the layout"),
("C01","279ca41","the statements of sum variants that did not match stayed in the output"),
("C13","ad40931","tldr-rs ended with success after a layout parse error"),
("C16","452d4a1","anonymous layouts built by separate builder calls replaced each other"),
("C13","fe2fa28","generated code named a set type that does not exist"),
("C16","179ecef","a refused redefinition replaced the first definition of the layout"),
("C02","7471460","a default graph statement tried against a graph variable made hydration panic"),
("C15","e6f0a5f","derived serialization wrote into the default graph instead of the current one"),
("C15","aaa35d8","a derived sum failed to read as soon as one of its variants failed to"),
("C15","05d50b3","derived deserialization of a cyclic list never ended"),
("C15","c461654","derived literals and identifiers were written at an input instead of the resource of their layout"),
("C15","14c2a92","derived code for a component with graph(Some(..)) did not compile"),
("C15","f1fd236","a derived String field read the first of several string values"),
("C15","e6eade1","a derived literal skipped invalid values of its datatype"),
("C15","b51c977","derived code for a one-item tuple did not compile"),
("C15","ce01019","reading an optional field, a variant or a set failed when its pattern used a term unknown to the store"),
("C15","726630d","derived serialization of a string newtype did not compile"),
("C15","c0495c5","derived serialization of a component with a constant input or graph did not compile"),
("C15","872e96a","components of the preset unit and boolean layouts did not compile in derived or generated types"),
("C13","1c3124c","generated code made optional fields required"),
("C13","b8f06ae","generated sets used a collection that the derive macros refuse"),
("C13","ba170b3","generated literal types lost their kind, resource and datatype"),
("C15","d7acb2e","a derived type panicked when its pattern left a variable unbound"),
("C02","d39e2c6","hydration panicked when a layout left a variable unbound"),
("C14","95971a9","a value that is a part of itself made hydration and dehydration overflow the stack"),
("C04","d89218c","byte strings panicked when written or read: xsd:hexBinary and xsd:base64Binary were not implemented"),
("C14","59b374d","tldr-rs panicked on a file it cannot read")]
for p,c,d in F: L.append(f"fixed: property={p} {c} {d}")
open('/verif/known_findings.txt','w').write("\n".join(L)+"\n")
