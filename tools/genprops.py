import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    P.append(d)
I='v0/internal/raml/'; K='v0/pkg/raml/'
p('C01','Ordered maps behave as an ordered dictionary under every history',
 "Every ordered map type of the library behaves, after any sequence of operations, as one insertion-ordered dictionary: put removes an existing entry of that key and appends at the end, put-if-not-nil ignores nil and otherwise puts the pointed-to value, replace keeps the position and acts only on existing keys (replace-or-put appends otherwise), and delete removes exactly one entry. Lookup by key, optional lookup, presence, position, entry-by-index, length and iteration always agree with that one dictionary, in that order. Every mutator returns the map it was called on.",
 ['histories'],"All operation sequences over a small key/value alphabet on each of the 21 map types, with any initial capacity, and all single operations at every position of larger maps.",
 "Only 4 of the 21 map types have tests and each test performs one or two operations on fresh maps of at most two entries; agreement of index and order depends on the whole history.",
 [K+'*Map.go'],[('slice of entries plus key index, kept in step by every mutator',K+'*Map.go')],
 [('ordered','entries in order',K+'*Map.go'),('index','key lookup',K+'*Map.go')],['map method results'])
p('C02','Ordered maps serialize exactly their current contents, in order',
 "Serializing an ordered map to YAML or JSON yields exactly the entries it holds at that moment, each value in the full form it serializes to on its own, whatever operations produced them. In ordered mode (the default) both formats emit a list with one element per entry in map order (YAML as an ordered map of one-entry mappings, JSON as key/value objects); in unordered mode YAML emits a mapping with the keys in map order and JSON emits an object with the same keys and values. Changing the mode or serializing never changes the entries, and the serialization entry points agree with each other.",
 ['histories','inputs'],"All operation histories up to the bound, both modes and mode flips, all 21 map types, value alphabets including nil, nested containers, scalars that need quoting and library elements.",
 "The tests serialize one-entry maps of string values for 4 of 21 types.",
 [K+'*Map.go'],[('serialization walks the ordered entries',K+'*Map.go')],[('outOrder','serialization mode',K+'*Map.go')],['ToYAML, MarshalYAML, MarshalJSON'])
p('C03','API documents survive parse, write and re-parse unchanged',
 "Reading an API document, writing it and reading the result again gives an API description with the same content in every part the description exposes: title, version, description, base URI and its parameters, protocols, media types, documentation, types, traits, resource types, annotation types, annotations, security schemes, secured-by, uses, resources and all unrecognised root entries under the text of their keys. The written text, read by any YAML reader, contains exactly that content and nothing else, and writing the re-read description reproduces the same text byte for byte. Written text begins with the line '#%RAML 1.0'.",
 ['inputs'],"All API documents built from the facet/value alphabet up to the bound: every facet alone with every value, all pairs of facets in both orders, the full document, and nested raw values.",
 "No test parses or writes a document.",
 [I+'APISpec.go',I+'Documentation.go',I+'util-*.go','v0/internal/util/assign/*.go'],
 [('root key dispatch',I+'APISpec.go assign'),('root assembly',I+'APISpec.go MarshalYAML, WriteRAML')],None,['ParseApiDoc, WriteRAML, getters'])
p('C04','Libraries survive parse, write and re-parse unchanged',
 "Reading a RAML library, writing it and reading the result again gives a library with the same content in every part it exposes: usage, uses, types, traits, resource types, annotation types, annotations, security schemes and all unrecognised entries under the text of their keys. The written text, read by any YAML reader, contains exactly that content and nothing else, and writing the re-read library reproduces the same text byte for byte. Written text begins with the line '#%RAML 1.0 Library'.",
 ['inputs'],"All library documents built from the facet/value alphabet up to the bound (every facet alone with every value, all ordered pairs, the full document), and the empty library.",
 "No test parses or writes a library.",
 [I+'Library.go',I+'util-*.go'],[('root key dispatch',I+'Library.go assign'),('root assembly',I+'Library.go MarshalYAML, WriteRAML')],None,['ParseLibrary, WriteRAML, getters'])
p('C05','Type declarations survive parse, write and re-parse unchanged',
 "Every data type declaration the reader accepts - of any kind, inline or expanded, nested as property or array item at any depth, with any combination of facets, examples, annotations, facet definitions, XML settings and unrecognised facets - is written back with every facet value intact and no facet added (at most the implied type is spelled out), so that re-reading gives an equal declaration. Numbers keep their full value, strings their exact text, and unrecognised facets their values under the text of their keys.",
 ['inputs'],"All kinds x all facets x boundary values, all ordered pairs of facets per kind, triples over representative values, all nestings up to depth 3.",
 "No test touches a data type; correctness depends on the product of kind, facet, value and facet order.",
 [I+'x-gen-type-*.go',I+'x-gen-ex-*.go',I+'DataType.go',I+'type-datatype-ext.go',I+'type-xml.go',I+'in-components.go'],
 [('per-kind facet readers and writers',I+'x-gen-type-*.go assign/marshal'),('example readers and writers',I+'x-gen-ex-*.go')],None,['Types() of a parsed document, WriteRAML'])
p('C06','Parsed API documents and libraries report exactly what the text says',
 "After reading an API document or library, every accessor reports exactly the value the document gives for its facet: the same text, the same list elements in order, the same map entries in order, with the synonym 'schemas' reported as types and a single media type reported as a one-element list. Facets that the document does not mention report absence or emptiness, and every entry that is not a known facet, an annotation or a resource is available unchanged among the extra facets. No entry is reported under a facet it was not given for.",
 ['inputs'],"All root documents from the facet/value alphabet up to the bound, for both document kinds.",
 "No test parses a document; the claim quantifies over every facet combination and order.",
 [I+'APISpec.go',I+'Library.go',I+'Documentation.go','v0/internal/util/assign/*.go'],
 [('key dispatch and typed assignment',I+'APISpec.go assign; '+I+'Library.go assign')],None,['getters after ParseApiDoc/ParseLibrary'])
p('C07','Parsed type declarations report exactly the facets the text gives',
 "For a type declaration of any kind, every accessor of the type, its example(s), XML settings and facet definitions reports exactly the value given in the text for that facet, independent of the order in which facets are written and of the other facets present. Facets not given report their documented default or absence. Facets unknown to that kind appear unchanged among the extra facets, and an unspecified 'required' means true.",
 ['inputs'],"All kinds x facets x boundary values; all ordered facet pairs; triples; nested properties and items to depth 3; plain and expanded example forms.",
 "No test reads a type declaration.",
 [I+'x-gen-type-*.go',I+'x-gen-ex-*.go',I+'type-datatype-ext.go',I+'type-xml.go','v0/pkg/raml/rmeta/defaults.go'],
 [('per-kind facet readers',I+'x-gen-type-*.go assign'),('defaults','v0/pkg/raml/rmeta/defaults.go')],None,['getters of parsed types'])
p('C08','Type expressions are classified into the right kind of type',
 "A type expression, given inline or through a type or schema facet, at top level, as property or as array item, is classified as exactly the built-in kind it names; otherwise as an include if it is one, as a union if it contains '|', else as a custom type, and the expression text is retained exactly. A declaration without a type is an object if it has properties, an array if it has items, and a string otherwise, including the empty declaration. Classification never depends on the position of the type facet among the other facets.",
 ['inputs'],"All type expressions over an alphabet of names, array/optional/union syntax and near-misses, in every syntactic position, with every placement of the type facet.",
 "No test classifies a type.",
 [I+'fn-sorting-hat-type.go',I+'fn-sorting-hat-property.go','v0/pkg/raml/rmeta/type-names.go'],
 [('type sifting',I+'fn-sorting-hat-type.go')],None,['Kind(), Type(), Schema() and dynamic type of parsed types'])
p('C09','Malformed input is rejected with an error, never a panic or silent loss',
 "Reading never panics and never hangs on any input text. If any recognised facet, at any depth, has a value of the wrong kind (wrong scalar type, scalar instead of list or map, negative size, and so on), reading returns an error and no document. If reading succeeds then writing the result succeeds too.",
 ['inputs'],"Every single-position mutation of a set of rich valid documents by every node kind in the alphabet, every wrong-kind value for every facet of every kind, and all short token sequences up to the bound.",
 "No test feeds malformed input.",
 [I+'*.go','v0/internal/util/assign/*.go','v0/pkg/raml/rparse/*.go'],
 [('kind checks before use','v0/internal/util/assign/*.go'),('error propagation from nested readers',I+'util-*.go')],None,['ParseApiDoc, ParseLibrary results'])
p('C10','Accessors, setters and unsetters form an independent record',
 "On every buildable element (API description, library, documentation, every data type, every example, XML settings) a setter makes its own accessor report exactly the given value, an unsetter or a nil map makes it report the freshly created state, and no setter changes what any other accessor reports, whatever sequence of setters and unsetters came before. Setters return the element they were called on. A fresh element reports its documented defaults.",
 ['histories'],"All sequences of setter/unsetter calls up to the depth bound over boundary values for each of the element types.",
 "No test calls a setter; independence quantifies over all pairs and histories of setters.",
 [I+'APISpec.go',I+'Library.go',I+'Documentation.go',I+'type-xml.go',I+'x-gen-type-*.go',I+'x-gen-ex-*.go'],
 [('one field per facet',I+'*.go')],None,['getters'])
p('C11','Programmatically built documents read back as built',
 "A document built through the public constructors and setters and then written can be read back, and the read document reports exactly the values that were set, for every facet that was set last and not unset, and nothing for the rest. This includes documents whose collections were emptied with unset and filled again; maps handed to setters are taken to be in unordered serialization mode.",
 ['histories','inputs'],"All builder call sequences up to the bound over API descriptions, libraries and every data type with boundary values, including unset-then-refill.",
 "No test writes a built document.",
 [I+'APISpec.go',I+'Library.go',I+'x-gen-type-*.go',I+'x-gen-ex-*.go','v0/pkg/raml/rbuild/new.go'],
 [('marshalling of each facet',I+'*.go MarshalYAML/marshal')],None,['WriteRAML then ParseApiDoc/ParseLibrary'])
p('C12','Written types are minimal RAML: defaults omitted, others present',
 "In written output a facet appears if and only if it is set to something other than its default; a type with nothing but its type expression is written in inline form and any other in expanded form, and an example with nothing but a value is written as that plain value. Only plain YAML mappings, lists and scalars are written for parsed documents and for collections created by the library itself, never ordered-map or other tagged constructs except includes.",
 ['inputs','histories'],"All types and examples reachable by parsing or by setter sequences within the bound, with boundary values around each default.",
 "No test writes a type.",
 [I+'DataType.go',I+'type-datatype-ext.go',I+'x-gen-type-*.go',I+'x-gen-ex-*.go','v0/pkg/raml/rmeta/defaults.go'],
 [('default comparison on output',I+'x-gen-type-*.go marshal'),('short form decision',I+'DataType.go')],None,['WriteRAML output as YAML tree'])
p('C13','Write failures are always reported',
 "When the destination of a write fails at any byte offset, writing the API description or library returns an error, and everything the destination accepted is a prefix of the text a successful write would have produced. A write that returns no error has delivered the complete text. A failed write leaves the document unchanged, so that a later write produces the full text.",
 ['fault_sequences'],"Every failing write call / byte offset of the output of a set of documents including ones larger than internal buffers; failures that are permanent, one-shot, or short writes.",
 "No test writes to a failing destination.",
 [I+'APISpec.go',I+'Library.go'],[('error return of header and body writes',I+'APISpec.go WriteRAML; '+I+'Library.go WriteRAML')],None,['WriteRAML error and bytes received'])
p('C14','Reading is independent of chunking and reports every read failure',
 "The result of reading a document does not depend on how the source splits its bytes into reads, and it depends on nothing but the bytes. If the source fails with an error before the end of the document, reading returns an error and no document rather than a truncated document.",
 ['fault_sequences','inputs'],"Every split of small documents into two chunks, fixed chunk sizes, data-with-EOF and empty reads, and a read failure at every byte offset.",
 "No test reads from anything.",
 ['v0/pkg/raml/rparse/*.go'],[('decoder error handling','v0/pkg/raml/rparse/*.go')],None,['ParseApiDoc/ParseLibrary results'])
p('C15','Writing and inspecting never change a document; output is deterministic',
 "Calling any accessor or any writing or marshalling operation any number of times, in any order, on any document, type, example or map changes nothing that can be observed afterwards. Writing the same content always produces the same bytes, in one process and across processes.",
 ['histories'],"All sequences of read-only operations up to the bound on rich documents and on every type kind, repeated writes, and separate processes.",
 "No test writes twice.",
 [I+'*.go',K+'*Map.go'],[('marshalling builds fresh output',I+'*.go')],None,['WriteRAML bytes, getters before and after'])
p('C16','Separate elements never share state',
 "Elements and collections created or parsed separately never affect each other: after any interleaving of operations on two of them, each is in exactly the state it would have had if the other did not exist. Reading a document after any number of other documents gives the same result as reading it first, whether those were read successfully or rejected.",
 ['histories'],"All interleavings up to the bound of operations on two instances of every element and map type, and all sequences of up to three documents from an alphabet of valid and invalid documents.",
 "No test uses two instances.",
 [I+'*.go',K+'*Map.go','v0/pkg/raml/rbuild/new.go'],[('constructors allocate all state',I+'New*'),('no mutable package state',I)],None,['getters and output of both instances'])
p('C17','Separate documents can be processed concurrently under any schedule',
 "Goroutines that parse, build, edit and write different documents at the same time each get exactly the result they would get alone, under every interleaving. Concurrent reading and writing-out of one shared document that nobody modifies also gives each goroutine the sequential result. Neither involves a data race.",
 ['schedules'],"All interleavings of two goroutines at statement granularity within the preemption bound, over a set of document workloads, plus race detection of the same workloads.",
 "All tests are single-threaded.",
 [I+'*.go',K+'*Map.go','v0/pkg/raml/rparse/*.go','v0/pkg/raml/rbuild/new.go'],[('no shared mutable state','all packages')],None,['per-goroutine results'],'none in /repo: scheduling points are inserted into overlay copies at build time')
p('C18','Edits to a parsed document are written exactly, and nothing else changes',
 "After reading a document, changing any part of it through the public setters, unsetters or mutable collections and writing it, the written document reads back with exactly that change: the new value wins over whatever the text said, removed parts are gone, and every other part is as it was in the original.",
 ['histories','inputs'],"All edit sequences up to the bound over every setter, unsetter and collection operation on rich parsed API documents, libraries and types of every kind.",
 "No test edits a parsed document.",
 [I+'APISpec.go',I+'Library.go',I+'x-gen-type-*.go',I+'x-gen-ex-*.go',I+'type-xml.go'],[('one home for each facet value',I+'*.go assign/marshal')],None,['WriteRAML output re-parsed'])
p('C19','Order of named entries and list elements is preserved end to end',
 "Types, properties, examples, resources, traits, resource types, annotation types, security schemes, annotations, uses, base URI parameters, facet definitions, extra facets and all list elements keep the order of the source text in the parsed document, in the written text and in the re-read document, for any number and any naming of entries. No entry is lost or duplicated, and no order depends on the names.",
 ['inputs'],"All permutations of up to 5 names in every named collection, all sizes up to the bound in ascending, descending and rotated name order.",
 "No test parses or writes a document with two entries.",
 [I+'*.go',K+'*Map.go'],[('ordered maps throughout',K+'*Map.go')],None,['iteration order after parse, key order in output'])
p('C20','Regenerating the sources from the templates preserves behaviour',
 "Running the project's own code generators over the templates produces sources that compile and behave exactly like the committed ones in every operation covered here, for every generated interface, type and example implementation. Running them twice changes nothing further.",
 ['programs','configurations'],"All generated kinds (16 type kinds, 14 example kinds, 6 document interfaces), behaviour compared over the bounded input space of the other checks.",
 "The tests run the committed sources only and never the generators.",
 ['v0/gen/*','v0/tools/gen/*','makefile'],[('templates and generator tables','v0/gen, v0/tools/gen')],None,['observations of a harness built against committed and regenerated sources'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
