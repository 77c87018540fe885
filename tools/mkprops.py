#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=hook))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

HEAP="src/cas/uima/lowlevel_fsheap.hpp"
# ---------------------------------------------------------------- CAS data
p("C01","Feature values read back exactly what was last written",
  "For every feature structure and every feature of any primitive, string or reference range, reading the feature returns the value most recently written to that feature of that feature structure, or the default (0, 0.0, false, empty/unset string, invalid reference) if none was written since it was created. Writing one feature never changes any other feature, any other feature structure or any array.",
  ["inputs","histories"],"all values of every primitive type (all bit patterns of byte, short, int, long, float, double, boolean), all interleavings of a bounded number of writes over features of several feature structures, before and after a CAS reset",
  "The tests write a few hand-picked constants once per feature; truncation, sign and slot-aliasing errors show only for particular bit patterns or write orders.",
  ["src/cas/featurestructure.cpp","src/cas/uima/featurestructure.hpp",HEAP,"src/cas/lowlevel_fsheap.cpp"],
  [("typed get/set on the heap incl. 8/16/64-bit side heaps",HEAP),("typed accessors","src/cas/featurestructure.cpp")],
  ["FeatureStructure::get*Value / set*Value"])
p("C02","Array feature structures: element access is exact and bounds-checked",
  "For every array type (FS, string, int, float, boolean, byte, short, long, double) and every length, reading element i returns the last value stored at i (default 0/unset), size reports the creation length, and an access outside the bounds raises an error and changes nothing. Bulk copies into and out of an array transfer exactly the requested range and reject a range that does not lie inside the array, without touching memory outside the given buffers.",
  ["inputs","histories"],"all element indices (including huge ones), all values, all copy ranges over arrays of bounded length",
  "Tests use in-range indices and one copy range; boundary and overflow cases of the range checks need all index values.",
  ["src/cas/arrayfs.cpp","src/cas/uima/arrayfs.hpp",HEAP],
  [("bounds checks and copy loops","src/cas/arrayfs.cpp"),("array storage",HEAP)],["*ArrayFS::get/set/size/copyToArray/copyFromArray"])
p("C03","List feature structures keep their elements and order",
  "Pushing, adding and reading elements of FS, string, int and float lists behaves as on an ordinary sequence: length, head, tail, n-th element and last element agree with the sequence built by the operations, and inserting or appending at one node changes no other element.",
  ["inputs","histories"],"all element values and all bounded sequences of list operations",
  "Tests build one list in one way; order and tail-sharing errors depend on the operation sequence.",
  ["src/cas/listfs.cpp","src/cas/uima/listfs.hpp"],[("list operations","src/cas/listfs.cpp")],["ListFS API"])
p("C04","Strings stored in the CAS read back unchanged",
  "Every string stored in a string feature, string array or list reads back with the same length and code units, an empty string is distinguishable from an unset one, overwriting never disturbs other strings, and a value is accepted for a restricted string type exactly when it is one of the type's declared values.",
  ["inputs","histories"],"all strings up to a bounded length over all UTF-16 code units, bounded write histories",
  "Tests store ASCII words; offset/length bookkeeping and subtype membership depend on content, length and order of writes.",
  ["src/cas/lowlevel_fsheap.cpp",HEAP,"src/cas/featurestructure.cpp","src/cas/lowlevel_typesystem.cpp"],
  [("string heap","src/cas/lowlevel_fsheap.cpp"),("string subtype enforcement","src/cas/featurestructure.cpp")],["setStringValue/getStringValue"])
p("C05","Accesses that violate the type system are rejected without effect",
  "Accessing a feature through a feature structure whose type does not carry the feature, with an accessor for another range type, or storing a reference whose type is not subsumed by the feature's range raises an error and leaves every value unchanged; accesses that conform are accepted.",
  ["inputs","programs"],"all combinations of (type of feature structure, feature, accessor kind, type of stored value) in a type system with inheritance",
  "The tests try a handful of illegal accesses; the guarantee is about the whole cross product.",
  ["src/cas/featurestructure.cpp","src/cas/uima/featurestructure.hpp","src/cas/internal_casimpl.cpp"],
  [("check* functions before each access","src/cas/featurestructure.cpp")],["FeatureStructure accessors"])
p("C06","A reset CAS is indistinguishable from a new one; heaps grow losslessly",
  "After a reset the CAS contains no feature structures, indexed entries, documents or values from before, newly created feature structures have default values, and old validity does not leak; growing storage beyond its initial allocation preserves every stored value.",
  ["histories"],"all bounded histories of create/write/index/set-document operations followed by reset and reuse; values crossing every heap page boundary",
  "Tests reset after one fixed history with small data that never crosses an allocation boundary.",
  ["src/cas/lowlevel_fsheap.cpp",HEAP,"src/cas/internal_casimpl.cpp","src/cas/lowlevel_indexrepository.cpp"],
  [("heap reset and page growth",HEAP),("CASImpl::reset","src/cas/internal_casimpl.cpp")],["CAS::reset, FeatureStructure getters, index sizes"])
p("C07","The type system is a consistent inheritance hierarchy",
  "For every sequence of type and feature definitions, subsumption is exactly the reflexive-transitive closure of the declared parent relation, every type carries exactly its own and inherited features, lookups by name and by number agree, and conflicting definitions are rejected without changing the type system.",
  ["programs","histories"],"all bounded definition sequences: any parent choices, any feature introductions (before or after subtypes exist), duplicates included",
  "Tests check one fixed small hierarchy.",
  ["src/cas/lowlevel_typesystem.cpp","src/cas/typesystem.cpp","src/cas/uima/lowlevel_typesystem.hpp"],
  [("createType/createFeature/subsumes","src/cas/lowlevel_typesystem.cpp")],["TypeSystem, Type and Feature API"])
# ---------------------------------------------------------------- Indexes
IDX="src/cas/lowlevel_internal_indexes.cpp"
p("I01","A sorted index contains exactly the added structures, in key order",
  "After any history of additions and removals, iterating a sorted index forward yields exactly the feature structures that were added and not removed (as a multiset), in an order consistent with the index's comparator over all its keys (ascending or descending); backward iteration yields the reverse sequence, and size and find agree.",
  ["inputs","histories"],"all key values and all bounded add/remove histories",
  "Tests index a handful of fixed annotations; ordering and membership errors depend on ties, key extremes and removal order.",
  [IDX,"src/cas/lowlevel_indexcomparator.cpp","src/cas/lowlevel_index.cpp","src/cas/lowlevel_indexrepository.cpp"],
  [("OrderedSingleIndex","src/cas/lowlevel_internal_indexes.cpp"),("key comparators","src/cas/lowlevel_indexcomparator.cpp")],["FSIndex iterator(), size(), find()"])
p("I02","Set and bag indexes keep exactly the promised members",
  "A set index holds exactly one representative, the first added, of each class of key-equal feature structures of a type; further key-equal additions change nothing, removing the representative empties the class until the next addition, and removing a structure that is not a member changes nothing. A bag index holds every addition not removed. find returns a key-equal member exactly when one exists.",
  ["inputs","histories"],"all key values and all bounded add/remove histories",
  "Tests never mix equal keys with removals across kinds of index.",
  [IDX,"src/cas/lowlevel_indexdefinition.cpp"],[("SetSingleIndex, FIFOSingleIndex/bag",IDX)],["FSIndex API"])
p("I03","Removing a feature structure removes it and only it",
  "Removing a feature structure from the index repository makes it disappear from every index of its type and its supertypes in that view, including indexes already iterated, and leaves every other indexed feature structure, including key-equal ones, in place; other views are unaffected.",
  ["inputs","histories"],"all key values, all bounded add/remove/iterate histories over type, subtype and several indexes",
  "Tests remove a single distinct structure; confusion of key-equal structures and stale cached iterations need particular histories.",
  [IDX,"src/cas/lowlevel_indexrepository.cpp"],[("remove on single indexes",IDX),("repository remove and composite cache","src/cas/lowlevel_indexrepository.cpp")],["FSIndexRepository::addFS/removeFS, FSIndex iterator"])
p("I04","An index over a type presents all instances of its subtypes in one order",
  "Iterating a sorted index defined on a type yields the instances of the type and of all its subtypes, each exactly once, merged in the index's key order, whatever the order in which they were added and whichever subtype they belong to; a set or bag index yields each exactly once in some order. Restricting an index to a subtype yields exactly the instances of that subtype tree.",
  ["inputs","histories"],"all key values, type choices and bounded histories, with re-iteration between additions",
  "Tests use types added in a fixed order; merging errors depend on interleaving of keys over types.",
  ["src/cas/lowlevel_index.cpp",IDX,"src/cas/lowlevel_indexrepository.cpp"],
  [("CompositeIndex merge / cache","src/cas/lowlevel_index.cpp")],["ANIndex, FSIndex iterator over supertypes"])
p("I05","Iterators navigate like a cursor over a sequence",
  "For every bounded sequence of first/last/next/previous/peek/copy operations on an iterator, the current element and validity equal those of a cursor over the index contents; moving off either end makes it invalid, peeking moves nothing, and copies are independent.",
  ["programs","inputs"],"all bounded operation sequences over index contents of bounded size, for each index kind",
  "Tests walk forward once.",
  ["src/cas/fsiterator.cpp","src/cas/lowlevel_index.cpp","src/cas/lowlevel_internal_indexes.cpp"],
  [("iterator adapters","src/cas/lowlevel_internal_indexes.cpp")],["FSIterator API"])
p("I06","moveTo positions at the first element not less than its argument",
  "Positioning an iterator of a sorted or set index at a feature structure places it on that structure when it is indexed, and otherwise on an element such that no element before it is at least the argument and it is itself not smaller than the argument (when some element is not smaller); this also holds for sorted indexes over several subtypes. In a bag index it stands on the structure itself when it is indexed.",
  ["inputs","histories"],"all key values of index contents and of the argument",
  "Tests position at existing elements.",
  ["src/cas/lowlevel_index.cpp",IDX,"src/cas/fsiterator.cpp"],[("moveTo / lower_bound",IDX)],["FSIterator::moveTo"])
p("I07","Filtered iteration leaves out exactly the structures the filter matches",
  "A filtered iterator yields, in index order and in both directions, exactly the elements of the unfiltered iteration that the filter does not exclude (it excludes those for which it matches); filters built from feature comparisons, negation, conjunction, disjunction and feature paths match exactly when the corresponding formula over feature values holds.",
  ["inputs","programs"],"all feature values and all comparison operators/combinators within a bounded formula size",
  "Tests evaluate a few filters on constant data.",
  ["src/cas/fsfilterbuilder.cpp","src/cas/fsiterator.cpp","src/cas/uima/fsfilterbuilder.hpp","src/cas/lowlevel_index.cpp"],
  [("filter constructors","src/cas/fsfilterbuilder.cpp"),("filter iterator","src/cas/lowlevel_index.cpp")],["FSFilterBuilder, FSIndex::filteredIterator"])
p("I08","Annotation index order: begin ascending, end descending, then type priority",
  "Iterating the annotation index yields annotations by ascending begin, then descending end, then declared type priority, whatever begins and ends are used and in whatever order they were added.",
  ["inputs","histories"],"all begin/end values, all bounded addition orders over several types",
  "Tests use one document; comparison errors at extremes or ties need particular values.",
  ["src/cas/lowlevel_indexcomparator.cpp","src/cas/internal_casimpl.cpp","src/cas/lowlevel_indexdefinition.cpp"],
  [("built-in annotation index comparator","src/cas/lowlevel_indexdefinition.cpp")],["CAS::getAnnotationIndex"])
p("I09","Subiterators and unambiguous iteration select exactly the covered annotations",
  "A subiterator bounded by an annotation yields, in index order, exactly the indexed annotations that follow the bounding annotation in the index order and start within its span, subject to its options (ambiguous or not, strict or not); an unambiguous iterator of the annotation index yields, forward, the greedy left-to-right sequence of non-overlapping annotations; a subiterator's navigation in both directions agrees with its sequence.",
  ["inputs","programs"],"all begin/end values of a bounded number of annotations and bounding annotation, bounded navigation sequences",
  "Tests cover one document; span edge cases (empty, equal, nested, adjacent) need all value combinations.",
  ["src/cas/cas.cpp","src/cas/fsindex.cpp","src/cas/fsiterator.cpp"],
  [("SubIterator, UnambiguousIterator","src/cas/cas.cpp")],["ANIndex::subIterator, unambigousIterator"])
p("I10","Key comparison is a consistent order for all key types",
  "For every key type (int, float, string, byte, short, long, double, type priority, combinations, ascending and descending) the comparison used by sorted indexes is antisymmetric, transitive and total on non-NaN values and agrees with the numerical or code-unit order of the keys.",
  ["inputs"],"all pairs and triples of key values including extremes and unset strings",
  "Subtraction-style or truncating comparisons fail only at extreme values that tests do not use.",
  ["src/cas/lowlevel_indexcomparator.cpp","src/cas/uima/lowlevel_indexcomparator.hpp"],[("feature comparators","src/cas/lowlevel_indexcomparator.cpp")],["FSIndex::compare via iteration and find"])
# ---------------------------------------------------------------- Views
p("V01","Views (Sofas) are isolated and uniquely named",
  "Creating views by name yields distinct views for distinct names, looking a view up by name returns the view created under that name, creating an existing view or looking up a missing one raises an error without side effects, and documents and index entries of one view never appear in another.",
  ["inputs","histories"],"all bounded sequences of create/lookup/add/set-document operations over several view names, with the initial view created before or after",
  "Tests create views in one order.",
  ["src/cas/cas.cpp","src/cas/internal_casimpl.cpp","src/cas/uima/internal_casimpl.hpp"],[("view map and Sofa numbering","src/cas/internal_casimpl.cpp")],["CAS::createView/getView/getSofa"])
p("V02","Document text is stored once and covered text is its exact slice",
  "Setting the document text makes exactly that text retrievable from its view, the document annotation spans exactly the text, a later setting replaces the earlier one, also by an empty text or by a text the CAS itself holds, and in a view with a non-empty text the covered text of an annotation with begin<=end<=length is exactly that slice of the text.",
  ["inputs"],"all texts up to a bounded length over all code units and all begin/end pairs within it",
  "Tests use a fixed English sentence.",
  ["src/cas/cas.cpp","src/cas/internal_casimpl.cpp","src/cas/featurestructure.cpp"],[("setDocumentText, getCoveredText","src/cas/internal_casimpl.cpp")],["CAS::setDocumentText/getDocumentText, AnnotationFS::getCoveredText"])
p("V03","Sofa data streams deliver exactly the Sofa's bytes",
  "Reading a local Sofa data stream in pieces of whole elements of the data's element size, with repositioning from start, current position or backwards from the end, delivers exactly the bytes of the array or UTF-8 string from the current position, never more than remain, and never touches memory outside the data; invalid positions are refused. This holds while the CAS grows between the reads.",
  ["inputs","programs"],"all bounded data contents and lengths, all seek offsets and read sizes, all array element types",
  "Tests read sequentially from valid positions.",
  ["src/cas/sofastream.cpp","src/cas/uima/sofastream.hpp"],[("LocalSofaDataStream","src/cas/sofastream.cpp")],["SofaDataStream::read/seek/size"])
# ---------------------------------------------------------------- Serialization
BIN=["src/cas/internal_casserializer.cpp","src/cas/internal_casdeserializer.cpp","src/cas/internal_serializedcas.cpp"]
p("S01","Binary CAS serialization round-trips",
  "Serializing any CAS into its binary blob and deserializing it into a CAS of the same type system reproduces every feature structure, every feature and array value, every string, every view with its Sofa, and the contents of every index of every view.",
  ["inputs","histories"],"all values and bounded CAS contents (several views, all array kinds, with and without Sofas)",
  "Tests round-trip one CAS; alignment, counts and per-view bookkeeping depend on the content.",
  BIN,[("getBlob / deserializeBlob","src/cas/internal_casserializer.cpp")],["CASSerializer, CASDeserializer"])
p("S02","Binary blobs from an opposite-endian machine are read correctly",
  "A blob produced on a machine of the opposite byte order is deserialized to the same CAS contents as the blob of the native byte order.",
  ["inputs"],"all values of all widths in bounded CAS contents",
  "No test has an opposite-endian blob.",
  ["src/cas/internal_casdeserializer.cpp"],[("swap2/swap4/swap8","src/cas/internal_casdeserializer.cpp")],["CASDeserializer::deserializeBlob"])
p("S03","Serialized type system, index definitions and data transfer to another CAS",
  "Serializing a CAS with its type system and index definitions and deserializing into a fresh CAS yields the same types, features, ranges, subsumption, priorities and index definitions, and the same data and index contents.",
  ["programs","inputs"],"bounded type systems (parent/range choices) and CAS contents",
  "Tests transfer one fixed type system.",
  BIN,[("serializeDefinitions / deserializeDefinitions","src/cas/internal_casserializer.cpp")],["CASSerializer, CASDeserializer"])
p("S04","XMI output read back gives the same CAS",
  "Writing any CAS to XMI and reading the document back yields the same views and documents, feature values (numbers exactly), arrays, lists, references and index memberships per view; characters with a meaning in XML are escaped so that text and strings survive unchanged; types of any namespaces are told apart. Data read with shared data by a service whose type system lacks types or features is passed on unchanged when the CAS is written again.",
  ["inputs"],"all XML-legal strings of bounded length, all primitive values, bounded object graphs with shared and cyclic references",
  "Tests read and write sample files.",
  ["src/cas/xmiwriter.cpp","src/cas/xmideserializer_handler.cpp","src/cas/xmlwriter.cpp","src/cas/caswriter_abase.cpp"],
  [("XmiWriter / XmiDeserializerHandler","src/cas/xmiwriter.cpp")],["XmiWriter::write, XmiDeserializer::deserialize, XmiSerializationSharedData"])
p("S05","XCAS output read back gives the same CAS",
  "Writing any CAS to XCAS and reading the document back yields the same views and documents, feature values (numbers exactly), arrays, lists, references and index memberships per view; characters with a meaning in XML are escaped so that text and strings survive unchanged.",
  ["inputs"],"all XML-legal strings of bounded length, all primitive values, bounded object graphs with shared and cyclic references",
  "Tests read and write sample files.",
  ["src/cas/xmlwriter.cpp","src/cas/xcasdeserializer_handler.cpp","src/cas/caswriter_abase.cpp"],
  [("XCASWriter / XCASDeserializerHandler","src/cas/xmlwriter.cpp")],["XCASWriter::write, XCASDeserializer::deserialize"])
# ---------------------------------------------------------------- Strings / utilities
p("U01","String views behave like the equivalent independent string",
  "Every comparison, search, prefix/suffix test, extraction, concatenation-range and trimming operation on a string view gives the same result as the definition of that operation on the code-unit sequence it refers to, for every content, offset and length, and never reads outside that sequence.",
  ["inputs"],"all strings of bounded length over all UTF-16 code units, all offsets and lengths",
  "Tests use ASCII samples with in-range offsets.",
  ["src/framework/unistrref.cpp","src/framework/uima/unistrref.hpp"],[("UnicodeStringRef","src/framework/unistrref.cpp")],["UnicodeStringRef API"])
p("U02","Number parsing/formatting, trimming, splitting and replacing are exact",
  "Converting integers to text and back yields the same number, boolean and numeric parsing accept exactly their documented syntax, normalising/trimming removes exactly leading and trailing (or redundant) whitespace, tokenising returns exactly the delimited pieces, and search-and-replace replaces every occurrence and nothing else.",
  ["inputs"],"all 32-bit values and all strings of bounded length",
  "Tests use a few samples.",
  ["src/framework/strtools.cpp","src/framework/uima/strtools.hpp","src/framework/uima/strconvert.hpp","src/framework/uima/stltools.hpp"],
  [("strtools","src/framework/strtools.cpp")],["strtools functions"])
p("L01","Language codes parse, match and convert consistently",
  "Every well-formed language identifier (two-letter ISO language with optional two-letter territory, any letter, either case, '-' or '_' separator) parses to a language equal to itself by name, number and text; ill-formed text yields the invalid/unspecified language; and matching accepts exactly equal languages, a language without territory on the less specific side, or the unspecified one.",
  ["inputs"],"all character sequences of bounded length, all pairs of languages",
  "Tests use a dozen common codes.",
  ["src/framework/language.cpp","src/framework/uima/language.hpp"],[("Language construction and conversion","src/framework/language.cpp")],["Language API"])
p("D01","File names are split and joined without loss",
  "For every path text, extracting directory, base name and extension and recombining them gives an equivalent path, and each extracted part is exactly the corresponding slice of the path (last separator, last dot after it).",
  ["inputs"],"all path strings of bounded length over all bytes",
  "Tests use a few well-formed paths.",
  ["src/framework/uima/filename.hpp","src/framework/uima/location.hpp"],[("FileName parsing","src/framework/uima/filename.hpp")],["FileName API"])
# ---------------------------------------------------------------- Framework
p("K01","A result specification answers containment exactly",
  "A result specification contains a type or feature exactly when it was added and not removed since, independent of the order of operations; and an engine is considered to provide or need a type or feature for a document language exactly when one of its capabilities declares it for a matching language (the language itself, the language without or with territory, or the unspecified language, which extends every language that declares anything).",
  ["inputs","histories"],"all bounded add/remove sequences over types, features and languages",
  "Tests query one configuration.",
  ["src/framework/internal_capability_container.cpp","src/framework/annotator_mgr.cpp","src/framework/uima/result_specification.hpp","src/framework/taespecifier.cpp"],
  [("CapabilityContainer","src/framework/internal_capability_container.cpp")],["ResultSpecification, CapabilityContainer"])
p("F01","Configuration parameters resolve by type, group and fallback rules",
  "Looking up a configuration parameter returns the value of the most specific applicable setting (the group itself, then its language fallbacks, then the default group, as the declared search strategy says), an aggregate's override wins over its delegate's own setting wherever the aggregate's parameter is visible to that delegate, a parameter that is not defined there is refused, and a value is only returned through an accessor of its declared type and multiplicity; an assignment is accepted exactly when the parameter is defined with that type and multiplicity, is what the assigner reads back afterwards and changes no component the parameter is not visible to.",
  ["configurations","inputs"],"all presence/absence combinations of settings over groups and all accessors and search strategies",
  "Tests check two fixed descriptors.",
  ["src/framework/taespecifier.cpp","src/framework/annotator_context.cpp","src/framework/config_param.cpp","src/framework/taemetadata.cpp"],
  [("NameValuePair lookup and search strategy","src/framework/taespecifier.cpp"),("context override","src/framework/annotator_context.cpp")],["AnnotatorContext::extractValue, AnalysisEngineMetaData"])
p("F02","An aggregate runs its delegates in flow order, and exactly those required",
  "With a fixed flow an aggregate calls every delegate exactly once in the declared order; with a capability-language flow it calls exactly those delegates that declare an output still required for the document's language, in the declared order, each asked for the required outputs it declares and with the view mapped for it; a delegate's error code is reported and its outputs stay required for later delegates, an exception stops the flow and reaches the caller; batch and collection completion, reconfiguration and destruction reach every delegate whatever the others return.",
  ["configurations","inputs","fault_sequences"],"all outcomes of each delegate, all language/capability/result-specification combinations within bounds",
  "Tests run one aggregate with succeeding delegates.",
  ["src/framework/annotator_mgr.cpp","src/framework/internal_aggregate_engine.cpp"],[("AnnotatorManager::process","src/framework/annotator_mgr.cpp")],["AnalysisEngine::process"])
p("F03","An analysis engine is created, used and destroyed in order",
  "Creating an analysis engine succeeds exactly when every annotator could be loaded and initialised and otherwise reports the failure; calls out of sequence are refused and do not reach the annotators; every annotator created is initialised once, destroyed exactly once and released, whatever fails; failed processing yields no output CASes.",
  ["histories","fault_sequences"],"all bounded call sequences with any outcome of each annotator call",
  "Tests create and use engines in the proper order with succeeding annotators.",
  ["src/framework/engine.cpp","src/framework/internal_engine_base.cpp","src/framework/annotator_mgr.cpp","src/framework/annotator.cpp","src/framework/internal_primitive_engine.cpp","src/framework/casiterator.cpp"],[("Framework::createAnalysisEngine","src/framework/engine.cpp"),("EngineBase state checks","src/framework/internal_engine_base.cpp")],["Framework::createAnalysisEngine, AnalysisEngine, CASIterator"])
p("P01","The CAS pool never hands out one CAS twice",
  "For every history of taking and returning CASes, each CAS handed out is empty and not currently held by anyone else, at most the pool size are out at once, and every returned CAS becomes available again.",
  ["histories","schedules"],"all bounded get/release histories; thread interleavings are outside the encoding",
  "Tests take and return CASes in one order.",
  ["src/framework/caspool.cpp","src/framework/uima/caspool.hpp"],[("CASPool","src/framework/caspool.cpp")],["CASPool::getCAS/releaseCAS"])
p("T01","Sofa mappings are applied in both directions and nested",
  "A component sees exactly the views its aggregate maps for it: a logical view name that its aggregate maps resolves to the mapped name, which resolves in turn through every enclosing aggregate until one does not map it; unmapped names resolve to themselves, both when a view is created and when it is looked up, and with no mapping the behaviour is the identity.",
  ["configurations","inputs"],"all mapping tables of bounded size over bounded nesting",
  "Tests use one mapping.",
  ["src/framework/annotator_context.cpp","src/framework/taespecifier.cpp"],[("mapToSofaID","src/framework/annotator_context.cpp")],["AnnotatorContext::mapToSofaID"])
p("E01","Type system descriptions are realised and written back faithfully",
  "Creating a type system from descriptions yields exactly the described types, parents, features, ranges and allowed values independently of description order, imports included; conflicting, cyclic or undefined descriptions are reported as errors, and type priorities and indexes come out as described. A type system written as XML by XMLTypeSystemWriter and read back has the same types, parents and features.",
  ["programs","configurations"],"all bounded description orders and parent/range choices",
  "Tests load sample descriptors.",
  ["src/framework/casdefinition.cpp","src/cas/xmltypesystemreader.cpp","src/cas/xmltypesystemwriter.cpp","src/framework/taespecifierbuilder.cpp"],
  [("type system merging","src/framework/casdefinition.cpp"),("XML reader/writer","src/cas/xmltypesystemwriter.cpp")],["TypeSystem, XMLTypeSystemWriter"])
p("E02","Descriptors are read as written",
  "Reading an analysis engine, delegate, type system, index, priority or sofa mapping descriptor yields exactly what it says, whatever the layout, order and form of its text (white space, comments, character references, CDATA sections, environment variable references): names, implementation, parameters with groups, fallback strategy and restrictions, settings, types, priorities, indexes with their keys, capabilities, flow, operational properties, sofa mappings and delegates; imports are followed once each, cycles included, and a setting for an undefined parameter or anything defined twice is refused.",
  ["programs","configurations","inputs"],"all bounded combinations of descriptor elements, layouts and import graphs",
  "Tests read a few sample descriptors.",
  ["src/framework/taespecifierbuilder.cpp","src/framework/taespecifier.cpp","src/framework/resmgr.cpp","src/framework/config_param.cpp"],
  [("XMLParser::build*","src/framework/taespecifierbuilder.cpp"),("import resolution","src/framework/resmgr.cpp")],["TextAnalysisEngineSpecifierBuilder"])
p("E03","Descriptions are written to XML faithfully",
  "The XML written for an analysis engine description (AnalysisEngineDescription::toXMLBuffer and the appendToXMLBuffer functions) can be read back and yields the same description: every name and text with any characters, parameters, groups, settings with exact numbers, types, priorities, indexes, capabilities, flow, operational properties, sofa mappings and nested delegates.",
  ["programs","configurations","inputs"],"all bounded descriptions, every listed kind of text in every element",
  "Tests write one description and do not compare it.",
  ["src/framework/taespecifier.cpp","src/framework/taespecifierbuilder.cpp"],
  [("toXMLBuffer","src/framework/taespecifier.cpp")],["AnalysisEngineDescription::toXMLBuffer"])
p("E04","Only consistent descriptions become engines, and they stay as they were",
  "An engine is created from a descriptor only if the description is consistent: every mandatory parameter has a value in each of its groups under the search strategy, index labels of a component are unique, allowed values are given for string types only, and the descriptions of a type by an aggregate and its delegates agree (their features and allowed values are united); otherwise an error tells the cause and nothing is left behind. A descriptor given as text in memory counts as the same characters in a file, whatever encoding it declares. A committed description refuses every change.",
  ["configurations","inputs"],"all bounded descriptions, settings, groups, strategies and setters",
  "Tests create engines from a few valid descriptors.",
  ["src/framework/taespecifier.cpp","src/framework/typesystemdescription.cpp","src/framework/engine.cpp"],
  [("AnalysisEngineDescription::validate","src/framework/taespecifier.cpp"),("createAnalysisEngine","src/framework/engine.cpp")],["Framework::createAnalysisEngine"])
p("J01","The JNI bridge transfers CAS contents faithfully between Java and C++",
  "Every array, string and table passed across the Java boundary, in either direction, equals the value on the other side; a CAS sent to C++ and read back is the same CAS; an error of the C++ side surfaces as exactly one InternalTafException carrying its error code and message, and the instance stays usable or reports itself unusable without touching freed memory; every array lent by Java is returned and every local frame is popped.",
  ["inputs","fault_sequences"],"all bounded CAS contents, call orders and error outcomes of the native functions, against a recording stand-in for the Java VM","No test drives the JNI layer.",
  ["src/jni/jni.cpp","src/jni/jni_utils.cpp","src/cas/internal_serializedcas.cpp"],[("native functions","src/jni/jni.cpp"),("JNIUtils","src/jni/jni_utils.cpp")],["UimacppEngine native methods"])
# ---------------------------------------------------------------- whole-system, not solver-decidable here
p("M01","Concurrent engines in separate threads do not interfere",
  "Distinct analysis engines used from distinct threads give the same results as when used one after another, and shared process-wide state is initialised and torn down exactly once.",
  ["schedules"],"all thread interleavings","Tests sample a few schedules.",
  ["src/framework/resmgr.cpp","src/framework/caspool.cpp"],[("ResourceManager singletons","src/framework/resmgr.cpp")])
for d in P: print(json.dumps(d))
