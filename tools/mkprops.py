#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook)))
SER=["yaserde_derive/src/ser/expand_struct.rs","yaserde_derive/src/ser/expand_enum.rs","yaserde_derive/src/ser/implement_serializer.rs","yaserde_derive/src/ser/element.rs"]
DE=["yaserde_derive/src/de/expand_struct.rs","yaserde_derive/src/de/expand_enum.rs"]
RT_S="yaserde/src/ser/mod.rs"; RT_D="yaserde/src/de/mod.rs"; LIB="yaserde/src/lib.rs"; PRIM="yaserde/src/primitives.rs"; DPRIM="yaserde_derive/src/primitives.rs"
ATTR="yaserde_derive/src/common/attribute.rs"; FIELD="yaserde_derive/src/common/field.rs"

p("C01","Every output failure during serialization reaches the caller",
  "If writing any XML event to the output fails, or serializing any nested value fails, the serialization call returns an error and never reports success. After the failure nothing further is written.",
  ["programs","inputs","fault_sequences"],"For every derivable type, every value of it, and every position in the output at which the writer may fail.",
  "Tests serialize into an infallible in-memory buffer; no test ever makes a write fail, and the failure can come at any event of any document.",
  SER+[RT_S,LIB,PRIM],[("error mapping at every write",SER[0]),("propagation of nested errors",SER[2]),("scalar serializers",LIB+": serialize_type!"),("newtype serializer",PRIM+": serialize_primitives")],observe=["result of to_string / serialize_with_writer"])
p("C02","Serialized output is always a balanced element tree",
  "For every value, the start and end tags a type's serializer emits are properly nested and balanced on every successful path, whatever fields are absent, skipped or empty, and it closes exactly what it opened. When asked for content only, it emits neither its own start tag nor its own end tag.",
  ["programs","inputs"],"For every derivable type, every value and every nesting position.",
  "Tests compare a few complete documents; the combinations of absent/skipped/empty fields with nesting contexts are exponential.",
  SER+[PRIM],[("start/end emission guarded by the same decision",SER[2]),("field element emission",SER[3])],
  [("skip_start_end / start_event_name","how the parent tells the child whether and under which name to write its tags",RT_S)],["events handed to the XML writer"])
p("C03","Every field is emitted once, completely, in its declared role and order",
  "Serializing a value emits, for each field that is not skipped, exactly the field's own value in the declared role (attribute on the type's own start tag, child element, text, CDATA, or flattened content), element-like fields in declaration order, and nothing else. Every element of a sequence is emitted in order and an absent optional emits nothing.",
  ["programs","inputs"],"For every derivable struct and enum, every supported field type and role, every value.",
  "Each test pins one type and one value; a mis-wired arm for one scalar type, wrapper and role combination is invisible to the others.",
  SER,[("per-type emission arms",SER[0]),("variant emission arms",SER[1])],observe=["events handed to the XML writer"])
p("C04","Emitted names are the declared names",
  "The element, attribute and variant names written are the declared ones: the rename if any, otherwise the identifier, qualified by the declared prefix unless that prefix is the default namespace. A nested value is written under the name of the field that holds it, and a root value under its own name.",
  ["programs","configurations","inputs"],"For every combination of rename, prefix, default namespace and nesting position on containers, fields and variants.",
  "Tests cover a handful of attribute combinations out of a cross product; a name is computed independently in several places of the generator.",
  SER+[FIELD,ATTR,"yaserde_derive/src/ser/label.rs"],[("label computation",FIELD+": renamed_label"),("variant label","yaserde_derive/src/ser/label.rs"),("root name","yaserde_derive/src/ser/mod.rs")],observe=["events handed to the XML writer"])
p("C05","Skip conditions decide exactly which fields are serialized",
  "A struct field is omitted from the output exactly when it is marked as never serialized, or its skip predicate holds for its value, or its value equals its declared default; otherwise it is written. This holds for every field type and role.",
  ["programs","inputs","configurations"],"For every combination of skip, skip predicate and default on every field type and role, and every value.",
  "Tests exercise each condition alone on one or two field types; the interaction of conditions and their dependence on the value are not covered.",
  SER+[FIELD],[("element conditions",SER[3]+": condition_generator"),("attribute conditions",FIELD+": ser_wrap_default_attribute")],observe=["events handed to the XML writer"])
p("C07","Namespace declarations are emitted on the declaring element",
  "Every namespace declared on a type is declared on the type's own start tag, with its prefix or as the default namespace when so designated, and each exactly once; a flattened or content-only value adds no tag of its own, and a flattened field contributes its attributes and namespace declarations to the enclosing start tag.",
  ["programs","configurations","inputs"],"For every set of declared namespaces, default-namespace choice and flattening.",
  "Tests fix a few namespace tables and compare strings.",
  ["yaserde_derive/src/ser/namespace.rs",SER[2],SER[0],SER[1]],[("namespace table expansion","yaserde_derive/src/ser/namespace.rs"),("collection of flattened attributes",SER[2])],observe=["start-tag events handed to the XML writer"])
p("C08","User data only reaches the output through the escaping writer",
  "Field values are only ever passed to the XML writer as character data or attribute values, which the writer escapes; they never become markup, tag names or raw output, and CDATA is used exactly for the fields declared as CDATA. No value, whatever characters it holds, can change the structure of the document.",
  ["inputs","programs"],"For every value of every field, including markup characters.",
  "Tests use benign strings; injection needs a hostile value in a particular field role.",
  SER+[RT_S,PRIM],[("all output goes through the event writer",RT_S+": Serializer::write"),("text/attribute/CDATA roles",SER[0])],observe=["events handed to the XML writer"])
p("C09","Every serialization entry point honours its configuration",
  "Serializing to a string and to a writer produce the same events; the configured document declaration, indentation and indent string are what the output writer is configured with; content-only entry points write no declaration and no root tags; and the bytes returned are exactly the ones written.",
  ["configurations","inputs"],"For every configuration value and every entry point.",
  "Tests use two or three fixed configurations and compare complete strings for one model each.",
  [RT_S],[("configuration mapping",RT_S+": Serializer::new_from_writer"),("content mode",RT_S+": serialize_with_writer_content")],observe=["writer configuration","returned value"])
p("D10","Deserialization never panics",
  "No input document, well-formed or not, makes deserialization of any type panic: malformed, truncated, unexpected or unconvertible input yields an error result.",
  ["inputs","programs"],"For every byte sequence fed to every derived type and every reader operation.",
  "Tests feed well-formed samples and a few broken ones; the panicking inputs are specific to a type, a variant and a value.",
  DE+[RT_D,PRIM],[("checked conversions in generated visitors",DE[0]),("depth counter",RT_D)],observe=["result of from_str / from_reader"])
p("D11","Deserialization always terminates on finite input",
  "On any finite input deserialization returns: every repetition in the parser consumes input, and once the input is exhausted or has failed no loop keeps polling it.",
  ["inputs","programs"],"For every finite input, including truncated documents and documents whose root does not match the type.",
  "A non-terminating input hangs rather than fails a test, and the inputs needed are ones whose shape the type does not expect.",
  DE+[RT_D],[("main event loop",DE[0]),("subtree skipping",RT_D+": skip_element")],observe=["return of from_str / from_reader"])
p("D12","A broken input is never accepted",
  "If the underlying parser reports an error (malformed or truncated XML, I/O failure) at any point up to the end of the element being read, deserialization returns an error rather than a value.",
  ["inputs","fault_sequences","programs"],"For every position in every document at which the parser can fail.",
  "Tests contain a couple of malformed documents; the failure can be at any event, in any nested element, in any role.",
  DE+[RT_D,PRIM],[("propagation in peek/next",RT_D),("nested element reading",RT_D+": read_inner_value")],observe=["result of from_str / from_reader"])
p("D13","Unconvertible content is never turned into a different value",
  "When an attribute value or a nested element fails to convert to the declared type, deserialization of the enclosing value fails, and when the text of a scalar element fails to convert, no value is fabricated: the required field is reported and never silently filled from that text.",
  ["inputs","programs"],"For every scalar type, role, wrapper and every unconvertible text.",
  "Tests try one or two bad values for one type.",
  DE+[LIB,PRIM],[("generated visitors",DE[0]),("variant visitors",DE[1])],observe=["result of from_str / from_reader"])
p("D14","A field is populated only from the document part that declares it",
  "Each field takes its value only from its own place: an element field only from a direct child whose local name and namespace are the declared ones, an attribute field only from the same-named attribute of the value's own start tag, a text field only from character data directly inside the value's element. Nothing in the document can put a value into another field.",
  ["inputs","programs"],"For every document and every derived type, including repeated, reordered, nested and foreign content.",
  "Tests use documents shaped like the type; confusion needs look-alike content at another level or in another namespace.",
  DE+[FIELD,ATTR],[("name and namespace match arms",DE[0]),("attribute loading at own start tag only",DE[0])],observe=["value returned by from_str / from_reader"])
p("D15","Absent fields: error, default, none or empty, exactly as declared",
  "If nothing in the document supplies a field, then deserialization fails naming that field if it is required, uses the declared default function if it is a plain (neither optional nor sequence) field that declares one, and yields none or an empty sequence for optional and sequence fields. A field that is supplied is never replaced by its default.",
  ["inputs","programs"],"For every subset of fields supplied by the document and every field type.",
  "Tests omit one field of one type at a time.",
  DE+["yaserde_derive/src/de/build_default_value.rs"],[("struct construction",DE[0]),("initial accumulators","yaserde_derive/src/de/build_default_value.rs")],observe=["value returned by from_str / from_reader"])
p("D16","Each field is converted by its own declared type's parser",
  "The value stored for a scalar field is the declared type's own parse of the complete text found, with booleans also accepting 1 and 0, identically in element, attribute and sequence position; string fields keep the text unchanged; a whitespace-separated attribute list is converted item by item.",
  ["inputs","programs"],"For every scalar type, role and wrapper, and every text.",
  "Type-specific arms are written out per scalar type; tests sample a value for each.",
  DE+[FIELD],[("generated visitors",DE[0]),("type mapping",FIELD)],observe=["value returned by from_str / from_reader"])
p("D17","Unknown content is skipped as a whole and changes nothing",
  "An element that matches no field is consumed up to and including its own end tag, however deeply nested and whatever names it contains, without affecting any field; parsing then resumes with the next sibling.",
  ["inputs","programs"],"For every unknown subtree, at every position, of any depth.",
  "Tests skip one or two shallow unknown elements; names inside the unknown subtree equal to field names or to the enclosing element are the hard cases.",
  [DE[0],RT_D],[("skip arm",DE[0]),("subtree skipping",RT_D+": skip_element")],[("depth","number of open elements consumed so far",RT_D)],["value returned by from_str / from_reader"])
p("D18","Repeated elements accumulate in document order",
  "Each occurrence of a sequence field's element whose content converts appends exactly one item, in document order, and never replaces or drops earlier items; for a single-valued field a later convertible occurrence replaces the earlier one.",
  ["inputs","programs"],"For every number and interleaving of repeated elements.",
  "Tests have two or three adjacent items of a few types.",
  DE,[("push vs assignment actions",DE[0])],observe=["value returned by from_str / from_reader"])
p("D19","A namespace other than the declared one is rejected",
  "A root element in a namespace other than the one bound to the type's declared prefix is rejected with an error, and a child element in another namespace than its field's declared one is never taken for that field.",
  ["inputs","programs","configurations"],"For every namespace of every element and every declared namespace table.",
  "Tests cover a few wrong-namespace documents.",
  DE+[ATTR,FIELD],[("root namespace check",ATTR+": get_namespace_matching"),("child match arms",DE[0])],observe=["result of from_str / from_reader"])
p("D20","Enum variants are selected by exactly their declared names",
  "Deserializing an enum yields a variant only if the document names it: by element name, by text content (its name, alone or with its prefix) for unit variants, or by the tag attribute's value when a tag is declared; a newtype payload comes from the element that names the variant, and a document naming no variant yields the type's default value.",
  ["inputs","programs"],"For every enum shape, variant and document.",
  "Tests list a few variants with matching documents.",
  [DE[1]],[("variant match arms",DE[1]+": parse_variant")],observe=["value returned by from_str / from_reader"])
p("D21","The event cursor neither loses, repeats nor miscounts events",
  "For the operations that look ahead at, consume or skip events: looking ahead never consumes or changes an event, consuming returns exactly the next event in document order with declaration, comment and processing-instruction events filtered out, the reported depth always equals the number of elements opened and not yet closed by the consumed events, and skipping an element ends right after its end tag.",
  ["inputs","histories"],"For every sequence of cursor operations over every document.",
  "Cursor operations are exercised only through derived code; hand-written implementations combine them in arbitrary orders.",
  [RT_D],[("one-event look-ahead",RT_D+": peek/next_event"),("filtering",RT_D+": inner_next"),("depth accounting",RT_D+": next_event")],
  [("peeked","the looked-ahead event",RT_D),("depth","open elements",RT_D)],["return values of peek, next_event, depth, skip_element, read_inner_value, expect_end_element"])
p("D22","A deserializer leaves its caller's cursor at its own end tag",
  "When deserializing a struct or enum from a running cursor succeeds, the cursor stands at that element's own end tag, which is not consumed, with the depth one above where it began, so that the enclosing parser resumes at the right place whatever the element contained.",
  ["inputs","programs","histories"],"For every derived struct and enum and every content of its element.",
  "Tests nest types one or two levels with regular content.",
  [DE[0],RT_D],[("end-of-element test",DE[0]),("nested call protocol",DE[0])],observe=["cursor state after a nested deserialization"])
p("X22","Writer and reader agree on the vocabulary of every type",
  "For every derived type the names, namespaces and roles under which serialization writes each field and variant are ones under which deserialization of the same type reads that same field or variant.",
  ["programs","configurations"],"For every container, field and variant declaration.",
  "The two generators compute names independently; round-trip tests sample a few declarations.",
  SER+DE+[FIELD,ATTR],[("writer labels",FIELD+": renamed_label"),("reader labels",DE[0])],observe=["events written and events matched"])
p("X23","Newtype wrappers read back the notation they write",
  "A wrapper type derived from a primitive is written as its inner value's text inside one element named by its holder, and read from the element's complete text with the inner type's parser; the hexadecimal wrapper reads the same radix that it writes.",
  ["inputs","programs"],"For every wrapper derive, inner type and value.",
  "Tests pick one value per wrapper; one that reads the same in both radices hides the disagreement.",
  [PRIM,DPRIM],[("wrapper writer",PRIM+": serialize_primitives"),("wrapper reader",PRIM+": deserialize_primitives"),("generated text conversions",DPRIM)],observe=["events written and value returned"])
p("X24","Every supported declaration derives to code that compiles",
  "Every declaration built from the documented attributes and supported field types expands to code that type-checks, whatever the names of its fields and variants and whatever other items are in scope under names other than those of the standard prelude. Supported are: attributes and child elements of scalar, string and user-defined types, plain, optional or as sequences; text fields that are plain or optional strings; plain string CDATA fields; plain or optional flattened fields of user-defined types; and enum variants that are unit, hold one supported value, or hold named element fields.",
  ["programs"],"For every supported declaration, name and surrounding scope.",
  "A declaration the generator cannot handle fails at the user's build; the tests contain only declarations known to work.",
  ["yaserde_derive/src"],[("token generation","yaserde_derive/src")],observe=["type-checking of the expansion"])
p("X25","A flattened field receives exactly the unclaimed content",
  "A flattened field is deserialized from the enclosing element's own tags with all their attributes and its own character data, together with precisely the child elements not claimed by other fields, complete and in document order, whatever the namespace of the enclosing element; claimed child elements never reach it.",
  ["inputs","programs"],"For every document and every set of sibling fields.",
  "Tests flatten one or two shapes.",
  [DE[0]],[("buffering of unclaimed events",DE[0]+": build_code_for_unused_xml_events")],observe=["value of the flattened field"])
p("X26","A visitor accepts only the content kinds it implements",
  "A visitor that does not implement a content kind rejects that kind with an error naming it, for every kind and every text.",
  ["inputs","programs"],"For every content kind and text.",
  "The test checks one empty text per kind and omits some kinds.",
  [LIB],[("default methods of the visitor trait",LIB+": Visitor")],observe=["result of visit_*"])
p("X27","Cursor and writer invariants cannot be broken from outside",
  "Code outside the crate cannot alter the cursor's depth, look-ahead or underlying parser, nor the serializer's underlying writer, except through the documented operations.",
  ["programs"],"For every client program.",
  "Absence of an access path is not something a run can show.",
  [RT_D,RT_S],[("field privacy",RT_D),("field privacy",RT_S)],observe=["type-checking of client code"])
p("X28","Every deserialization entry point parses exactly the source it is given",
  "from_str, from_reader and a cursor made by Deserializer::new_from_reader read exactly the given source, all of it and from its start, under the same parser settings (whitespace trimmed, CDATA as text, comments ignored, adjacent text joined, an incomplete document an error), at depth 0 with nothing looked ahead; from_str and from_reader return exactly the value or error that reading the type from that cursor gives; and Deserializer::new reads from the parser it is given.",
  ["inputs","configurations"],"For every source, type and outcome.",
  "Tests call the entry points with small in-memory documents only.",
  [RT_D],[("entry points",RT_D+": from_str/from_reader"),("parser settings",RT_D+": new_from_reader")],observe=["value returned by from_str / from_reader","cursor handed to YaDeserialize::deserialize"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
