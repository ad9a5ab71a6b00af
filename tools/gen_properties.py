import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],
                   **({"state":state} if state else {}),hook_needed=None)))
S="strong_typing/serializer.py"; D="strong_typing/deserializer.py"; SC="strong_typing/schema.py"; I="strong_typing/inspection.py"; Z="strong_typing/serialization.py"; CD="strong_typing/classdef.py"; DS="strong_typing/docstring.py"; M="strong_typing/mapping.py"; A="strong_typing/auxiliary.py"; T="strong_typing/topological.py"; N="strong_typing/name.py"
p("C01","Scalar values survive a JSON round trip unchanged",
 "Serializing any boolean, integer, float, string, byte string, enumeration member or literal value and deserializing the result under the same type yields an equal value of the same Python type. The serialized form is the documented one: JSON boolean, number or string as is, byte strings as standard padded Base64, enumeration members as their member value.",
 ["inputs"],"every value of each scalar type: unbounded integers, every float including NaN and infinities, strings of every length, byte strings, every member of an enumeration",
 "Tests compare one or two hand-picked values per type (23, 4.5, 'an', two bytes); thresholds, sign, width, length and padding cases are unsampled.",
 [S,D,Z],[("scalar serializers",S),("scalar deserializers",D)],["object_to_json","json_to_object","json_to_generic"])
p("C02","Dates, times and zoned timestamps survive a JSON round trip",
 "Serializing any date, time of day or time-zone-aware timestamp produces an ISO 8601 string (a timestamp at UTC ends in Z, any other offset is written explicitly) and deserializing that string yields an equal value with the same UTC offset. A timestamp without a time zone is refused with a JSON value error both when serializing and when deserializing, and Z is understood as UTC.",
 ["inputs"],"every date in years 1 to 9999, every time of day to the microsecond, every fixed UTC offset strictly between -24 h and +24 h",
 "Tests use one timestamp in UTC and one in CET; offsets with seconds, negative offsets, microseconds and year boundaries are not covered.",
 [S,D],[("DateTimeSerializer/DateSerializer/TimeSerializer",S),("DateTimeDeserializer/DateDeserializer/TimeDeserializer",D)],["object_to_json","json_to_object"])
p("C03","Durations are written and read as exact ISO 8601 amounts",
 "Serializing any non-negative duration produces an ISO 8601 duration text whose components add up to exactly that duration, and deserializing that text yields an equal duration. Deserializing a text of the documented form (weeks, days, hours, minutes, seconds and up to nine fractional digits, each optional but at least one present) yields exactly the sum of its components; any other text, a fraction finer than a microsecond, or an amount outside the range of the Python type is refused with a JSON value error.",
 ["inputs"],"every non-negative timedelta (days, seconds, microseconds unbounded within the type); every short text over arbitrary characters, every digit choice in the documented forms",
 "Tests list about twenty literal strings; carries between components, fraction padding, component order and malformed texts are sampled, not covered.",
 [S,D],[("TimeDeltaSerializer",S),("TimeDeltaDeserializer",D)],["object_to_json","json_to_object"])
p("C04","UUIDs and IP addresses survive a JSON round trip",
 "Serializing any UUID, IPv4 address or IPv6 address gives its canonical text (lower-case 8-4-4-4-12 hexadecimal groups, dotted quad, or compressed IPv6 text, with the scope if it has one) and deserializing that text yields an equal value of the same type. A JSON value that is not a string is refused with a JSON type error.",
 ["inputs"],"all 2^128 UUIDs, all 2^32 IPv4 addresses and all 2^128 IPv6 addresses; every non-string JSON value",
 "Tests use one value of each type.",
 [S,D],[("UUIDSerializer, IPv4Serializer, IPv6Serializer",S),("UUIDDeserializer, IPv4Deserializer, IPv6Deserializer",D)],["object_to_json","json_to_object"])
p("C05","Containers survive a JSON round trip element for element",
 "Lists, string- or enumeration-keyed dictionaries, sets, fixed-length tuples, optionals and unions, nested in any combination, serialize to JSON arrays and objects with one entry per element (order kept for lists, tuples and dictionaries, keys as strings) and deserialize to an equal container with elements of the declared types. A JSON array is accepted for a fixed-length tuple only if its length is the declared one.",
 ["inputs","programs"],"every container type in the supported grammar up to a nesting bound, every content of such a container up to a length bound with arbitrary element values and keys",
 "Tests round-trip a handful of literal containers of three elements; they cannot range over element values, keys, lengths and nestings.",
 [S,D],[("Typed*Serializer for collections",S),("ListDeserializer, DictDeserializer, SetDeserializer, TupleDeserializer",D)],["object_to_json","json_to_object"])
p("C06","Objects survive a JSON round trip field for field",
 "Serializing any instance of a data class (plain, frozen, slotted, derived, nested, recursive), typed named tuple or annotated plain class gives a JSON object holding exactly the fields whose value is not None, and deserializing it yields an equal instance of the same class with every field equal to the original. A field left out because it is None reads back as None unless the class declares another default for it. An object of a class that declares no types (an untyped named tuple, or a class without annotations) is written with all its fields or attributes, own or of the class, except methods, special names and, for a class, those that are None.",
 ["inputs","programs"],"every class shape in a family covering all field kinds (required, optional, defaulted, default-factory, aliased, keyword-suffixed, annotated, nested, inherited), every assignment of field values",
 "Tests round-trip one default-constructed instance of a few classes.",
 [S,D,M],[("TypedClassSerializer and FieldSerializer",S),("ClassDeserializer and FieldDeserializer subclasses",D)],["object_to_json","json_to_object"])
p("C07","Serialization emits pure JSON and leaves the object unchanged",
 "For every supported value, the result of serialization is built only from None, booleans, integers, floats, strings, lists and dictionaries with string keys, so that it can be written as JSON text. Serialization never modifies the value being serialized, and the lists and dictionaries in its result are newly created, not shared with the value.",
 ["inputs","programs"],"every value of every supported type up to the nesting and length bounds, including untyped containers, enumeration-keyed dictionaries and custom classes",
 "Tests compare a few outputs to literals and never look at the source object afterwards or at key types.",
 [S],[("object_to_json and all Serializer.generate methods",S)],["object_to_json","create_serializer"])
p("C08","Deserialization only ever returns genuine instances of the type",
 "For every supported type and every JSON value whatsoever, deserialization either raises an error or returns a value that is, recursively, an instance of the requested type: list items, dictionary keys and values, set members, tuple positions, object fields, union members, literals and enumerations all conform to their declared types. A JSON value of the wrong kind for a type (such as a string for an integer, or an object for a list) is always refused with a JSON type error (a JSON key error for a plain union).",
 ["inputs","programs"],"every JSON value up to a depth and width bound with arbitrary scalars and keys, for every type in the supported grammar up to a nesting bound",
 "Tests check a dozen mismatches by example; they cannot range over all JSON values.",
 [D],[("Deserializer.parse implementations",D),("Union/TaggedUnion/Literal/EnumDeserializer",D)],["json_to_object","json_to_generic"])
p("C09","Object properties: required, optional, default and unknown handling",
 "Deserializing a JSON object to a class succeeds only if every required property is present and not null (otherwise JSON key error or JSON value error) and there is no property the class does not know (otherwise JSON key error, unless the caller asked to skip unassigned properties, in which case extras are ignored). Every property present with a non-null value sets its field to the parsed value; an absent or null optional or defaulted property sets the declared default, a freshly built one for a default factory, or None if there is none (the value an annotated plain class has for an attribute is not a declared default).",
 ["inputs","configurations"],"every JSON object with arbitrary keys and values up to a width bound, for each class kind and each option setting",
 "Tests probe one missing key and one extra key; subsets of properties, nulls and option settings combine exponentially.",
 [D],[("FieldDeserializer subclasses",D),("ClassDeserializer.parse",D)],["json_to_object","DeserializerOptions"])
p("C10","Plain unions yield the first member type that accepts the data",
 "Deserializing into a union without tags returns exactly what the first member type, in declaration order, that accepts the JSON value would return on its own, whatever kind of parse failure the earlier members reported. If no member accepts the value, a JSON key error is raised.",
 ["inputs","programs"],"every JSON value up to the bounds, for unions over scalar, temporal, container, enumeration and object members in every order",
 "Tests try a few unions whose members all fail with the same error class.",
 [D],[("UnionDeserializer",D)],["json_to_generic"])
p("C11","Tagged unions dispatch on the tag and refuse unknown tags",
 "For a union of classes that share a literal-typed property with distinct values, deserializing a JSON object whose tag equals a literal of one member yields what that member alone would yield, and never another member. A missing, null or unmatched tag of any JSON kind, or data that is not an object, is refused with a JSON type error; literal values that clash between members are reported when the deserializer is built.",
 ["inputs","programs"],"every JSON object with arbitrary tag and property values, for tagged unions of two to four classes, string, integer and boolean tags, aliased and keyword-suffixed tag properties",
 "Tests use four hand-written objects with valid tags.",
 [D],[("TaggedUnionDeserializer, get_discriminating_properties",D)],["json_to_generic"])
p("C12","JSON property names follow one naming rule everywhere",
 "The JSON name of a field is its explicit alias if it has one, else the field name without its trailing underscore if the rest is a Python keyword, else the field name itself. The serializer, the deserializer and the JSON schema use the same name for every field of data classes, typed named tuples and annotated plain classes.",
 ["inputs","programs"],"every identifier up to a length bound and every alias text; every class kind with aliased, keyword-suffixed and plain fields",
 "The test suite has a single aliased class and no keyword-suffixed round trip.",
 [M,S,D,SC],[("python_field_to_json_property",M),("field name mapping",S),("field name mapping",D),("property naming",SC)],["object_to_json","json_to_object","classdef_to_schema"])
p("C13","Results never depend on what was processed before",
 "The outcome of serializing, deserializing or generating a schema for a type is the same whether it is the first operation of the process or follows any other operations, including operations on other types with the same name, with other options, in other modules, or operations that failed.",
 ["histories","inputs"],"every sequence of up to three earlier operations chosen from a set of operations on related types and options, with arbitrary data",
 "Each unit test observes one history; caches are filled by whatever test ran earlier.",
 [D,S,SC],[("deserializer cache",D),("serializer cache",S),("type catalog and types_used",SC)],["json_to_object","object_to_json","classdef_to_schema"],
 [dict(name="_CACHE",meaning="deserializers already built",where=D),dict(name="_fetch_serializer lru_cache",meaning="serializers already built",where=S),dict(name="type_catalog",meaning="registered schemas",where=SC)])
p("C14","Deserialization leaves its input alone and shares nothing with it",
 "Deserialization never modifies the JSON value it reads. Lists, dictionaries, sets and objects in the result are newly created on every call: they are not the input's own containers, are not shared between two results nor between two places of one result (even when the input holds the same container in both), and defaults from a default factory are built anew each time.",
 ["inputs","programs","histories"],"every JSON value up to the bounds, every supported type up to the nesting bound, two consecutive calls",
 "Tests never inspect the input afterwards nor compare identities of two results.",
 [D],[("parse methods build new containers",D),("DefaultFactoryFieldDeserializer",D)],["json_to_object"])
p("C15","Every serialized value validates against the schema of its type",
 "For every supported type, schema generation succeeds and the JSON obtained by serializing any value of that type is valid under the generated schema (types, properties, required names, no additional properties, item counts, uniqueness, constants, enumerations, references).",
 ["inputs","programs"],"every type in the supported grammar up to a nesting bound, every value up to the bounds with arbitrary scalars",
 "Tests validate four default-constructed objects.",
 [SC,S],[("JsonSchemaGenerator.type_to_schema",SC),("serializers",S)],["classdef_to_schema","validate_object","object_to_json"])
p("C16","Every document valid under the schema of a type deserializes",
 "For every supported type, any JSON value that is valid under the generated schema is accepted by deserialization of that type (given integers written without a fraction and well-formed text in the formatted strings). Conversely, an object with a property unknown to the schema or lacking a non-defaulted required one is refused by both.",
 ["inputs","programs"],"every JSON value up to depth and width bounds with arbitrary scalars and keys; every type in the grammar up to a nesting bound",
 "No test relates schema acceptance to deserialization on anything but serializer output.",
 [SC,D],[("JsonSchemaGenerator.type_to_schema",SC),("Deserializer.parse",D)],["classdef_to_schema","validate_object","json_to_object"])
p("C17","Annotated constraints reach the schema with their exact meaning",
 "An integer range, a decimal precision and a minimum, maximum or exact text length attached to a type appear in its schema so that a value validates exactly when it satisfies the constraint, also inside containers, optionals and object properties. The fixed-width integer and float types are written with their own format name and nothing else, and adding a foreign annotation to a constrained type changes nothing.",
 ["inputs","configurations"],"every choice of bounds, digits and lengths, every candidate value; every position of the annotated type in a composite type",
 "Tests use one literal range, precision and length each.",
 [SC,A],[("_metadata_to_schema, _with_metadata",SC),("get_auxiliary_format",A)],["classdef_to_schema"])
p("C18","Schemas are self-contained and generating them has no side effects",
 "Every reference in a generated schema resolves to a definition in the same schema, which is the definition of the class meant, and definitions are exactly the registered types that the schema refers to, directly or through another definition, in alphabetical order. Generating a schema any number of times, with any options, gives equal results and changes neither registered schemas nor examples nor later results, even if the caller modifies a schema obtained earlier.",
 ["programs","histories"],"every type graph of registered and unregistered classes up to a size bound (including cycles), every subset of edges, two consecutive generations",
 "Tests generate each schema once, for a few fixed types.",
 [SC],[("classdef_to_schema, types_used, TypeCatalog",SC)],["classdef_to_schema","register_schema"])
p("C19","Types rebuilt from a schema accept the same data",
 "Building Python types from a JSON schema yields classes with one field per property of the matching type, optional exactly if not required, with the stated default, and one enumeration member per listed value. The integer type chosen for a range is the narrowest of 16, 32 and 64 bits that contains the whole range, and generating a schema from the rebuilt class describes the same properties.",
 ["inputs","programs"],"every object schema in the supported subset up to a size bound with arbitrary numeric bounds, defaults, constants and required sets; enumeration texts over arbitrary characters up to a length bound",
 "Tests rebuild a dozen literal schemas.",
 [CD],[("schema_to_type, node_to_typedef, integer_range_to_type, enum_safe_name",CD)],["schema_to_type"])
p("C20","Flattening a schema keeps every leaf property and its requiredness",
 "Flattening an object schema replaces each nested object property by that object's own properties (one level, or all levels when recursive), prefixed with the parent name and a dot when qualified names are requested, keeps all other properties (including objects of arbitrary content, which have no properties of their own) unchanged and in order, and lists a property as required exactly when it was required in its own object. The schema passed in is not modified.",
 ["inputs","configurations"],"every object schema up to a depth and width bound with arbitrary property names and required sets, for each option combination",
 "Tests flatten one fixed schema per option.",
 [CD],[("SchemaFlattener.flatten, flatten_schema",CD)],["flatten_schema"])
p("C21","Topological sort orders dependencies first and reports cycles",
 "For every directed graph, sorting returns each node exactly once, after all other nodes it points to, if the graph has no cycle other than self-references; otherwise it raises a run-time error. The graph is not modified.",
 ["inputs"],"every directed graph up to a node bound, every subset of edges including self-references",
 "Tests sort five small graphs.",
 [T],[("topological_sort",T)],["topological_sort"])
p("C22","Type dependency analysis finds every referenced type",
 "The types reported as referenced by a type are exactly those reachable through fields, arguments of lists, sets, dictionaries and fixed-length tuples, optionals, unions, annotations and forward references, and the dependency graph collected links each type to exactly those it refers to itself. Sorting types by dependency lists every such type once with dependencies before dependents and reports cyclic dependencies.",
 ["programs"],"every graph of data classes up to a size bound with every choice of edges and of the way each edge is written (direct, optional, list, dictionary, union, annotated, forward reference)",
 "Tests use one small family of classes.",
 [I,T],[("TypeCollector",I),("type_topological_sort",T)],["get_referenced_types","type_topological_sort"])
p("C23","Recursive instance and predicate checks decide exactly what they claim",
 "Checking whether a value is an instance of a generic type (list, set, dictionary, fixed-length tuple, union or optional, nested in any way, or a class) answers true exactly when the value and all its items, keys, values, members and positions conform to the type. Applying a predicate recursively to an object answers true exactly when the predicate holds for every leaf value of every (inherited, nested or contained) property.",
 ["inputs","programs"],"every value up to the bounds for each supported type up to a nesting bound; every truth assignment of the predicate to leaves",
 "Tests try a few literal values and predicates.",
 [I],[("is_generic_instance",I),("RecursiveChecker, check_recursive",I)],["is_generic_instance","check_recursive"])
p("C24","Documentation strings parse into exactly their components",
 "Parsing a documentation text made of a short description, an optional long description and a block of parameter, returns, raises and see-also declarations yields exactly those components, and rendering a parsed documentation string and parsing it again gives the same components. Parsing any text ends with components or a value error and invents no text that is not in the input.",
 ["inputs"],"every text over arbitrary printable characters and line breaks up to a length bound; every combination of present components",
 "Tests parse a few fixed docstrings.",
 [DS],[("parse_text",DS),("Docstring.__str__",DS)],["parse_text","Docstring"])
p("C25","First use of a type from several threads is safe",
 "When several threads serialize or deserialize values of the same or mutually dependent types for the first time at the same time, each call returns or raises exactly what it would have when running alone, under every interleaving.",
 ["schedules"],"every interleaving of two threads' first use up to a preemption bound, at the granularity of statements of the library",
 "Tests are single-threaded; a race needs a preemption inside deserializer construction.",
 [D,S],[("deserializer cache fill",D),("serializer cache",S)],["json_to_object","object_to_json"],
 [dict(name="_CACHE",meaning="shared cache filled before the entry is complete",where=D)])
p("C26","Custom to_json and from_json hooks are used wherever the type occurs",
 "A class that defines its own conversion to JSON or from JSON has exactly that conversion applied to each of its instances, once per occurrence, wherever it is the declared type of a value: at top level, in containers, optionals, unions, named tuples and fields of other classes (a null custom form of a field being indistinguishable from an absent one).",
 ["inputs","programs"],"every position of a hooked type in a composite type up to a nesting bound, arbitrary payloads",
 "Tests call the hooks at top level with one value.",
 [S,D],[("CustomSerializer",S),("CustomDeserializer",D)],["object_to_json","json_to_object"])
p("C27","Type expressions print to text that evaluates back to the type",
 "Formatting a type built from classes, generics, optionals, unions, literals, callables and annotations gives Python source text that evaluates to an equal type, in both union notations.",
 ["programs"],"every type expression in the supported grammar up to a nesting bound",
 "Tests format about forty fixed types.",
 [N],[("TypeFormatter.python_type_to_str",N)],["python_type_to_str"])
p("C28","Mismatched documentation is reported, matching documentation is not",
 "Parsing the documentation of a data class or function fails with a type error exactly when it describes a parameter that is not a member or argument, documents a return value without a return annotation, or names an exception not defined in context; strict checking additionally fails exactly when a member that is not inherited, an argument (other than self) or an annotated return value is undocumented.",
 ["inputs","programs"],"every set of documented names and every set of declared names up to a bound, with arbitrary names",
 "Tests cover one example per message.",
 [DS],[("check_docstring and parse_type",DS)],["parse_type","check_docstring"])
p("C29","Combining enumerations keeps all members and rejects clashes",
 "Extending an enumeration yields one with exactly the members of both, in order, each with its own value, and a value that occurs under two names is rejected.",
 ["inputs"],"every pair of small enumerations with arbitrary names and values",
 "Tests extend one enumeration.",
 [I],[("extend_enum",I)],["extend_enum"])
p("C30","JSON text stands for exactly the value that is written",
 "Writing any JSON value as text gives compact JSON text (no white space outside of texts, characters escaped only where JSON requires it, members in their order) that any JSON reader reads back as the same value, with each number of the same kind. Writing to a file gives the same text followed by a single line break. The value is not modified, and text written from a serialized object and read back deserializes to an equal object.",
 ["inputs"],"every JSON value up to a depth and width bound: arbitrary characters in texts and names, integers of any size within the number of digits stated, floating-point numbers from a list that covers each form of text",
 "Tests write two or three fixed values; they do not range over characters, nesting, and empty containers.",
 [Z],[("json_dump_string",Z),("json_dump",Z)],["json_dump_string","json_dump"])
p("C31","Type inspection agrees with how types are formed",
 "For every type expression, the predicates (optional, union, literal, list, set, dictionary, enumeration, data class, named tuple, annotated, type) answer true exactly when the expression is of that form, metadata around it making no difference, and taking it apart gives exactly its items, members, values or metadata, with metadata around an optional, list or set kept on the result. The properties of a class are all its own and inherited fields in order, each with its declared type (names evaluated where the class that declares them is defined) and default. A data class created from a list of fields has exactly these; an object is created without being initialized; the classes and functions of a module are those defined in it.",
 ["inputs","programs"],"every type expression up to a nesting bound with any metadata at each level, every class with up to three own and inherited properties each written in any way, any values held by instances",
 "Tests assert a few expressions per predicate; combinations of metadata, nesting, both union notations and inheritance are not covered.",
 [I],[("is_type_optional and other predicates",I),("unwrap_optional_type and others",I),("get_class_properties, dataclass_fields",I)],["is_type_optional","is_type_union","unwrap_optional_type","get_class_properties","dataclass_fields","create_data_type"])
p("C32","Schemas carry the documentation, defaults, examples and names of types",
 "In a schema, the title and description of a class or enumeration are the short and long description of its own documentation (none if there is only generated documentation, or descriptions are turned off); the description of a property is the documentation of the nearest class that documents it, passed through the function given with the class whose schema is made, and takes the place of the title and description of the property's type, all else being the schema of that type. A property has a default exactly if the class gives one that JSON has a form for (boolean, number, text, enumeration member, date, time, duration; not None, not a factory), and it is that form, even if it counts as false. Definitions have the examples given on registration unless turned off. A type is registered under the name given or its own, once; a registration that fails changes nothing, and the definition is the schema given or else the schema of the type. A schema document names the dialect asked for; an argument that is not a type, or a schema that is none, is refused with a type error, and a value is refused exactly if it is not valid.",
 ["inputs","configurations"],"every documentation form with arbitrary texts, each kind of type and place of use; every chain of three classes declaring and documenting any of two properties; every default value of each kind in each kind of class; any examples and options",
 "Tests compare a few schemas of fixed classes to literals.",
 [SC,DS],[("docstring_to_schema, get_class_property_docstrings",SC),("JsonSchemaGenerator.type_to_schema (default, description)",SC),("TypeCatalog.add, register_schema",SC)],["classdef_to_schema","register_schema","json_schema_type","get_class_property_docstrings","validate_object"])
p("C33","Schemas have the documented form for every type expression",
 "The schema of a type expression (scalars with their formats, fixed-width and constrained numbers and texts, enumerations, literals, lists, sets, fixed-length tuples, dictionaries with text, integer or enumeration keys, optionals, unions, annotated types, type[T], data classes, named tuples, plain classes, registered and forward-referenced types), nested in any way, is the JSON schema that the documented correspondence of types gives, put together from the schemas of its parts, with references under the definitions path asked for. Types whose values have no consistent form (enumerations or literals of mixed or no members, dictionaries with other keys) are refused with a value error wherever they occur.",
 ["programs","configurations"],"every type expression up to a nesting bound, any bounds of ranges and lengths, each definitions path",
 "Tests compare the schemas of about fifty fixed types.",
 [SC],[("type_to_schema, _simple_type_to_schema, _with_metadata",SC)],["classdef_to_schema","JsonSchemaGenerator.classdef_to_schema"])
p("C34","Types and objects without a JSON form are refused up front",
 "Making a deserializer for a type that has an unsupported part anywhere (an untyped list, dict, set or tuple; Any; callables, type[T], type variables and abstract containers; tuples of open length; literals of mixed types; dictionaries whose keys are neither text nor an enumeration of texts; a function, module, data-class instance or other value in place of a type) raises a type error, whatever data are to be read and before they are looked at; likewise for making a serializer for such a type (except untyped containers, which are written as they are, and unions, which are written by the value they hold). A type given by name is refused with a type error if there is no module to look it up in, and with a name error if it is not defined there. Serializing an object that is, or has in it anywhere, a function, method, class or module raises a type error.",
 ["inputs","programs"],"every unsupported leaf in every position of a composite type up to a nesting bound with any data; every such object in any position of nested containers and objects",
 "Tests refuse a handful of top-level types.",
 [D,S],[("_create_deserializer, _get_deserializer",D),("_create_serializer, TypedEnumDictSerializer, LiteralSerializer",S)],["create_deserializer","create_serializer","json_to_object","object_to_json"])
p("C35","Annotations compare by content, cannot be changed, and print as the code that makes them",
 "Two annotation objects (built in, or of a class made with the decorator, with or without options, plain, derived or already a data class) are equal exactly if they are of the same class with equal contents, and then have the same hash (unless comparison by content is turned off); they are ordered by their contents exactly if that was asked for; they cannot be changed or lose contents; and they print as the class name with the contents in order. Compact data classes print likewise. A type has the name of a fixed-width type exactly if it is that type.",
 ["inputs","programs"],"every annotation class with up to two fields of any of four kinds and all contents; every combination of sign, width and range",
 "Tests print two annotations and compare none.",
 [A],[("typeannotation, _compact_dataclass_repr",A),("get_auxiliary_format",A)],["typeannotation","CompactDataClass","get_auxiliary_format"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
