"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "The schema registry storage is a faithful versioned map",
  "For any sequence of writes and reads, through any number of storage objects opened on the same location, reading a name and version returns an equivalent of the type last written there and reading without a version returns the highest version; a write without a version is stored under, and returns, exactly one more than the highest existing version (1 for a new name), and a write with a version is stored under, and returns, that version. The version list is exactly the written versions in ascending numeric order and the name list exactly the written names in ascending order. Unknown names and versions are reported as absent, never as an error or as some other entry.",
  ["histories", "inputs"], "every history of put/get/ls/versions/latest over any names, versions (also sparse, multi-digit, decreasing) and types, including reopening the storage between any two operations",
  "The unit tests run single short histories with versions 1..2; numeric vs. lexicographic order, sparse versions, interleaved names and reopening are not sampled.",
  ["recap/storage/registry.py"],
  [("RegistryStorage.put/get/versions/latest/ls", "recap/storage/registry.py")],
  ["return values of the storage calls", "HTTP answers of /registry"],
  [("store", "name -> version -> type", "files <root>/<quoted name>/<version>.json")])

p("C02", "Published registry versions are immutable under concurrent HTTP requests",
  "Once a version of a type has been published through the HTTP registry, no later or concurrent request changes or removes it: a publish to a name and version that already exists is refused with 409 and changes nothing, and a publish without a version always creates a number higher than all existing ones. Every acknowledged publish is readable afterwards, under exactly the acknowledged version, as the type that was sent. This holds for every interleaving of arrival, body delivery and completion of requests at one server process.",
  ["schedules", "histories"], "every interleaving of any number of concurrent requests at one server process, with request bodies arriving at any time and in any pieces",
  "The existing tests send one complete request at a time; a check-then-act window only opens while a body is still arriving.",
  ["recap/server/registry.py", "recap/storage/registry.py"],
  [("409 check before writing", "recap/server/registry.py put"), ("max+1 version allocation without suspension", "recap/storage/registry.py put")],
  ["HTTP status and body of each request", "later GET of the version"],
  [("published", "acknowledged (name, version) -> type", "registry root")])

p("C03", "Registry HTTP requests get the documented answer and errors have no effect",
  "A publish with a content type other than Recap's is answered 415, one whose body is not a valid type description 400, a read of an unknown name or version 404, a publish of an existing version 409, and everything else succeeds with the stored type in Recap form together with its version number (or the version list, name list or new version). A missing content type means Recap's, and a body that is not JSON is taken as the name of a type. A request that is answered with an error leaves every name, version list and stored type unchanged.",
  ["inputs", "histories"], "every request (method, path, content type, body bytes) at every registry state",
  "The tests try a handful of bodies; the set of bodies, names and content types is unbounded and 'leaves no trace' needs the whole state compared after each request.",
  ["recap/server/registry.py"],
  [("content type and body checks", "recap/server/registry.py _request_to_type"), ("404/409 answers", "recap/server/registry.py")],
  ["HTTP status and JSON answer", "registry contents before and after"])

p("C04", "Registry names are isolated from one another and confined to the registry",
  "Types stored under different non-empty names never share versions, whatever characters the names contain (slashes, dots, '..', percent signs, plus signs, spaces, letters differing only in case, non-ASCII): writing one name changes nothing that is read or listed for any other. Listing returns exactly the original names. Nothing is ever created, changed or read outside the registry's storage location.",
  ["inputs", "histories"], "every pair of distinct non-empty names and every order of operations on them",
  "Injectivity and confinement are statements about all names; the tests use two or three harmless ones.",
  ["recap/storage/registry.py"],
  [("percent-encoding of the name as one path component", "recap/storage/registry.py")],
  ["get/versions/ls of all names after each write", "the directory tree around the registry root"])

p("C05", "A failed registry write leaves everything already stored intact",
  "If storing a type fails at any point - the type cannot be represented, the storage reports an error, or the process stops - every version that was stored before is still listed and still reads back as the same type, for the same name and for all others. The failed write itself is not listed as a version, unless the failure came after it was completely stored (then it reads back completely), and a later write of the same type succeeds.",
  ["crash_points", "fault_sequences"], "every point at which a put can fail or the process can stop (before, between and during each storage operation), after every history",
  "No existing test makes a write fail; the property quantifies over all failure points.",
  ["recap/storage/registry.py"],
  [("the type is serialized before any storage is touched", "recap/storage/registry.py put"), ("one new file per version, no shared index", "recap/storage/registry.py put")],
  ["get/versions/ls of a fresh storage object after the failure"])

p("C06", "Writing a type as a Recap description and reading it back loses nothing",
  "Every valid type can be written as a Recap description, compact or full and with or without alias substitution, and that description reads back as an equivalent type: the same structure, field and alternative order, names, sizes, signedness, nullability, defaults, docs, logical types, aliases and extra attributes (a built-in alias counts as equivalent to the type it stands for, and the position of null in an optional type does not matter). The description consists of plain JSON values, and writing a type does not modify it.",
  ["inputs"], "every valid type (all kinds, nested to any depth, any attributes) and all four combinations of the compact and alias options",
  "The tests round-trip a few dozen hand-written types; combinations such as an optional union with extra attributes, or an alias below an unaliased type, are not among them.",
  ["recap/types.py"],
  [("to_dict, clean_dict, alias_dict, from_dict", "recap/types.py")],
  ["the written description", "the type read back from it"])

p("C07", "Type descriptions are accepted exactly when well-formed and read as written",
  "A Recap description is accepted exactly when it names a type, has every attribute that type requires, keeps integer and float bits in 1..2147483647 and byte and list lengths in 1..9223372036854775807, gives every fixed-length string, bytes or list a length, and declares only fully qualified aliases each at most once; the same holds at every nesting level. The resulting type has exactly the described attributes, with the documented defaults for the rest, and the shorthands (a string, a list, a list as the type, optional=true) mean the same as the long forms. The description passed in is not modified.",
  ["inputs"], "every JSON-like description, well-formed or not, at any nesting depth",
  "Boundary values, nested violations and combinations of shorthands form an unbounded input space of which the tests sample a few points.",
  ["recap/types.py"],
  [("from_dict and the validate methods", "recap/types.py"), ("RecapTypeRegistry.register_alias", "recap/types.py")],
  ["the returned type or the rejection", "the input description afterwards"])

p("C08", "Aliases resolve to their definition, and resolved types are independent",
  "A reference to an alias resolves to an equivalent of the type declared with that alias - not inheriting the declaration's doc, default or alias - with the attributes given on the reference applied on top, and every built-in alias resolves to its documented type. Resolving, or modifying a resolved type, never changes the declaration, the built-in aliases, another reference or another description's types. A reference may precede or be nested in its declaration, and a reference to an alias that is never declared is only rejected when it is resolved.",
  ["inputs", "histories"], "every set of alias declarations and references in one description, every override, every order of resolutions and modifications",
  "Isolation between references is a statement about histories of resolutions and mutations; tests resolve one reference once.",
  ["recap/types.py"],
  [("ProxyType.resolve (deep copy, overrides)", "recap/types.py"), ("RecapTypeRegistry", "recap/types.py")],
  ["the resolved type", "all other types before and after"])

p("C09", "Making a type nullable adds null, keeps everything else, and copies",
  "Making a type nullable returns a union of null (first) and that type - or, for a union, its alternatives with null put first unless it already has one (a union with an alias but no null is an alternative itself, so the alias keeps its meaning) - whose doc, default (null if there was none) and name are those of the original type, while all its other attributes stay on the alternative (or union) unchanged. A type is reported as nullable exactly when it is null or a union with a null alternative. The original type, its alternatives and its attributes are not modified, also not by later changes to the result's own attributes or alternatives list.",
  ["inputs", "histories"], "every type with any attributes, including unions with and without null, and repeated application",
  "Tests compare a few results; they never look at the original afterwards, and non-mutation is a statement about all types.",
  ["recap/types.py"],
  [("RecapType.make_nullable, is_nullable", "recap/types.py")],
  ["the returned union", "the original type before and after"])

p("C10", "Reading an Avro schema yields the documented type for every field",
  "Every Avro record schema is read as a struct with the same fields in the same order, each with its name, doc and default, and each of the documented type: exact sizes for primitives, fixed, enum symbols in order, arrays, maps with string keys, unions with their alternatives in order, nested records, and the documented logical types. Named types (record, enum, fixed) get their namespace-qualified name as alias - inheriting the enclosing namespace, or that in a dotted name - and later references by full or namespace-relative name resolve to them, also recursively. Schemas that are not records, or that use unknown logical types, are rejected.",
  ["inputs"], "every Avro schema of the supported language, nested to any depth, with any placement of namespaces and references",
  "Tests have one schema per feature; combinations (same field name in two records, unions inside arrays, namespaces at several levels) are unbounded.",
  ["recap/converters/avro.py"],
  [("AvroConverter.to_recap/_parse/_parse_logical", "recap/converters/avro.py")],
  ["the returned struct", "resolution of its references"])

p("C11", "Writing an Avro schema never narrows, drops or renames anything",
  "Writing a type as Avro keeps every field, in order, with its name, doc, default, alternatives, symbols and nesting, and picks an Avro type that can hold every value of the Recap type: int only for signed integers of at most 32 bits, long for at most 64 signed or 32 unsigned, a decimal of the documented precision (38 digits for 128 bits) beyond that, float or double by size, fixed only for fixed-length bytes, and the documented logical type only when unit and size agree; a type Avro cannot hold is rejected, never approximated. Reading the written schema back gives the same fields with types at least as wide.",
  ["inputs"], "every Recap type, any nesting, sizes and attributes",
  "Boundaries between Avro types and all nestings are an unbounded input space; tests check one representative each.",
  ["recap/converters/avro.py"],
  [("AvroConverter.from_recap/_from_recap_logical", "recap/converters/avro.py")],
  ["the returned Avro schema", "reading it back"])

p("C12", "Reading a JSON schema yields the documented type for every property",
  "Every JSON schema of an object is read as a struct with one field per property, in order, with its name, description and default, and of the documented type for its type and format, recursively through objects, arrays, type lists and references to schemas with an $id. A property is non-nullable unless its schema allows null when it is listed as required, and otherwise it is nullable with a default (null if none is given). Schemas with an $id get the documented alias, a schema referenced several times is defined once and referenced otherwise, and non-object or unsupported schemas are rejected.",
  ["inputs"], "every JSON schema of the supported language, nested to any depth, any required list, any reference structure",
  "Tests have one schema per feature; required-ness, defaults and nesting combine without bound.",
  ["recap/converters/json_schema.py"],
  [("JSONSchemaConverter.to_recap/_parse", "recap/converters/json_schema.py")],
  ["the returned struct"])

p("C13", "A written JSON schema has every property, and all its references are defined",
  "Writing a type as JSON schema gives every struct field, in order, a property of the same name with the documented JSON type, description and default, listed as required exactly when the field is not optional (null plus one other type with a default). Every reference in the output has a definition in the same output, built-in aliases are written out instead of referenced, attributes overridden on a reference take effect, and a struct field without a name or an unsupported type is rejected.",
  ["inputs"], "every Recap type, any nesting, any aliases and references, any attributes",
  "Closedness of references and the required rule are statements about all types; tests sample one shape each.",
  ["recap/converters/json_schema.py"],
  [("JSONSchemaConverter.from_recap/_convert_field/_generate_alias_defs", "recap/converters/json_schema.py")],
  ["the returned JSON schema"])

p("C14", "Reading a Protobuf file yields the documented type for every field",
  "Every Protobuf file is read as a struct for its first message with one field per field, map or oneof, in order, with its name: scalars get their documented size and signedness, repeated fields become lists, maps keep key and value types, oneofs become unions of their named members, and every field not marked required is nullable with default null. References to messages and enums, before or after their definition and inside the same package, resolve to the referenced definition; each definition is expanded at most once and recursive messages terminate. A file without a message is rejected.",
  ["inputs"], "every Protobuf file of the supported language: any messages, enums, nesting, packages and reference graphs (including cycles)",
  "Reference graphs (diamonds, cycles, forward references) are unbounded; the tests have single examples.",
  ["recap/converters/protobuf.py"],
  [("ProtobufConverter.to_recap/_resolve_proxies", "recap/converters/protobuf.py")],
  ["the returned struct"])

p("C15", "Written Protobuf files keep every field and never reuse a field number",
  "Writing a struct as Protobuf gives a file whose root message has, in order, one field, map or oneof per struct field with that field's name and a type that can hold all its values; lists become repeated, nullable fields optional, unions oneofs. Within each message all field numbers (oneof members included) are distinct and positive, each struct and enum is declared once in its package, and every reference names a declaration. The root message is the file's first message. Types Protobuf cannot hold are rejected, and parsing the printed file gives the same fields with the same names and cardinalities.",
  ["inputs"], "every struct type, any nesting and aliases",
  "Uniqueness of numbers and completeness of declarations are statements about all structs; the tests have one per feature.",
  ["recap/converters/protobuf.py"],
  [("ProtobufConverter.from_recap/_recap_to_field/_from_recap_gather_types", "recap/converters/protobuf.py")],
  ["the returned file and its printed form"])

p("C16", "Every table column appears once, in order, with its nullability and default",
  "For every table, the struct read from MySQL, PostgreSQL, Snowflake or SQLite column metadata has exactly one field per column, in column order and under the column's name; the field is nullable exactly when the column is (or its type can hold null by itself), and it has a default exactly when the column has one or is nullable, namely the column's default or else null. Reading the same or another table again, with the same or another client, gives the same result as reading it first.",
  ["inputs", "histories"], "every list of columns (any types, names, nullability, defaults) and every history of earlier reads",
  "Tests read one column list per type with a fresh converter; combinations and histories are not sampled.",
  ["recap/converters/dbapi.py", "recap/converters/mysql.py", "recap/converters/postgresql.py", "recap/converters/snowflake.py", "recap/converters/sqlite.py"],
  [("DbapiConverter.to_recap", "recap/converters/dbapi.py")],
  ["the returned struct"])

p("C17", "Each SQL column type maps to its documented Recap type",
  "Every MySQL, PostgreSQL, Snowflake and SQLite column type is read as the documented Recap type, in any letter case and with any length, precision, scale or fractional-second parameter: integers with their exact bits, floats by precision, character and binary types with their octet length and fixed or variable length, decimals with precision and scale, date and time types with the unit their precision gives, PostgreSQL arrays as self-referencing or fixed-depth lists and enums with their labels in order, SQLite by its affinity rules. A type that is not in the documentation is rejected rather than guessed.",
  ["inputs"], "every type name, letter case and combination of parameters the databases can report",
  "The type x parameter space is unbounded; the tests sample one parameter value per type.",
  ["recap/converters/mysql.py", "recap/converters/postgresql.py", "recap/converters/snowflake.py", "recap/converters/sqlite.py", "recap/converters/dbapi.py"],
  [("_parse_type of each converter", "recap/converters/"), ("_get_time_unit", "recap/converters/dbapi.py")],
  ["the returned field type"])

p("C18", "Reading a BigQuery schema yields the documented type for every field",
  "For every list of BigQuery fields the result is a struct with one field per BigQuery field, in order, with its name, description and default expression, and of the documented type (recursively for records): lengths, precision and scale taken from the field or else the documented maximum. A field is a list exactly when its mode is repeated, nullable exactly when its mode is nullable, and neither when it is required. Unknown field types are rejected.",
  ["inputs"], "every list of BigQuery fields: any types, modes, parameters, nesting",
  "Modes, parameters and nesting combine without bound; the tests sample one combination per type.",
  ["recap/converters/bigquery.py"], [("BigQueryConverter.to_recap", "recap/converters/bigquery.py")], ["the returned struct"])

p("C19", "Reading a Hive table yields nullable documented types and correct statistics",
  "For every Hive table the result is a struct named after the table with one field per column, in order, with the column's name and comment, of the documented type (recursively for lists, maps, structs and unions), nullable with default null, nested unions being flattened without duplicate or lost alternatives. When statistics are requested, each column's statistics appear on that column's field and on no other, unchanged (decimals as exact text, dates as days since the epoch), under the documented names; without a request none appear.",
  ["inputs"], "every table (any column types, nesting, comments) and every set of column statistics",
  "Type nesting and the pairing of statistics with columns are unbounded; tests use one or two columns.",
  ["recap/converters/hive_metastore.py", "recap/clients/hive_metastore.py"],
  [("HiveMetastoreConverter", "recap/converters/hive_metastore.py"), ("HiveMetastoreClient._load_stats", "recap/clients/hive_metastore.py")],
  ["the returned struct"])

p("C20", "Listed URLs never reveal credentials and otherwise stay what was configured",
  "For every configured URL, the URL that is listed publicly contains neither the user name nor the password and still has the same scheme, host, port, path (a trailing slash aside), query and fragment as configured. URLs are listed in configuration order, one per configured URL, and a listed URL is completed to the configured one again (C21).",
  ["configurations", "inputs"], "every list of configured URLs: any scheme, host form (names, IPv4, IPv6, empty), port, user, password (any characters), path, query, fragment",
  "The tests try two or three URLs; leaking is a statement about all of them.",
  ["recap/settings.py"], [("RecapSettings.safe_urls", "recap/settings.py")], ["the listed URLs", "GET /gateway/ls/"])

p("C21", "Credentials are used only for the configured host and path",
  "A requested URL is completed with a configured URL's credentials and query parameters only if scheme, host (whatever its case) and port are equal and the configured path is a prefix of the requested path at component boundaries, with no '..' in the requested path; the result then has the request's scheme, host, port and path, the configured user and password, both query parts with the request's values winning, and the request's fragment (or else the configured one). In strict mode every other URL is refused; otherwise it is passed through unchanged.",
  ["configurations", "inputs"], "every configuration and every requested URL",
  "Matching is a relation over two unbounded URL spaces of which the tests sample a few pairs.",
  ["recap/settings.py"], [("RecapSettings.unsafe_url", "recap/settings.py")], ["the completed URL or the refusal"])

p("C22", "A URL reaches the right system with the right object path",
  "Every supported URL is handled by the system its scheme names, and the catalog, schema, table, subject, database or file it names reach that system exactly as written in the URL, with the URL's host, port, (decoded) user and password and the supported query parameters as connection settings, all completed from the configured URL where there is one; the components of the URL cannot be replaced by query parameters. The connection URL can itself be opened again and leads to the same system, and unsupported schemes and incomplete paths are refused.",
  ["inputs"], "every URL of every supported scheme, for listing and for schemas",
  "The tests fix one URL per client and never open the parsed connection URL; URLs are unbounded.",
  ["recap/clients/__init__.py", "recap/clients/*.py"],
  [("parse_url, create_client, _url_to_dict", "recap/clients/__init__.py"), ("the clients' parse and create", "recap/clients/")],
  ["arguments of the drivers' connect calls and of the metadata queries"])

p("C23", "Gateway, command line and library agree on formats and answers",
  "For every schema source and requested format (Avro, JSON schema, Protobuf, Recap), the gateway, the command line and the library call return the same schema, namely the conversion of the source's type to that format, and the gateway chooses the format from the content type (Recap when there is none) and answers 415 for any other. Files are read in the language their extension names and Confluent subjects in the language of their registered schema, with '-value' appended to subjects that have no suffix; anything else is refused.",
  ["inputs", "configurations"], "every source schema, format, content type, file extension and subject name",
  "Tests mock the client and check one format each; agreement is over all sources and formats.",
  ["recap/commands.py", "recap/server/gateway.py", "recap/cli.py", "recap/clients/fs.py", "recap/clients/confluent_registry.py"],
  [("commands.schema, FORMAT_MAP", "recap/commands.py"), ("gateway routes", "recap/server/gateway.py"), ("suffix and schema type dispatch", "recap/clients/fs.py, recap/clients/confluent_registry.py")],
  ["HTTP answers, command output, return values"])

p("C24", "Every connection that is opened is closed again on every path",
  "Every listing or schema read opens one connection to the named system and has closed it when it returns or fails, whatever step fails: connecting, querying, fetching, converting or formatting. A failure while closing or before connecting does not hide as success, and no connection is shared between requests.",
  ["fault_sequences", "schedules"], "every operation of every client and every point at which it can fail",
  "No test makes a step fail or looks at the connection afterwards.",
  ["recap/clients/__init__.py", "recap/clients/*.py", "recap/commands.py"],
  [("context managers around the driver connections", "recap/clients/*.py create"), ("create_client", "recap/clients/__init__.py")],
  ["open/close calls seen by the driver"])

p("C25", "Conversions are repeatable, independent, and leave their input unchanged",
  "Converting the same input again with a fresh converter gives an equal result, whatever was converted before by it or any other converter, and converting never modifies the type or schema it was given or a result returned earlier. Writing a type in one format does not change what is written for it in any other.",
  ["histories", "inputs"], "every history of conversions across all formats over shared inputs",
  "Tests convert each input once with a fresh converter and never look at the input afterwards.",
  ["recap/converters/*.py", "recap/types.py"],
  [("copies of aliased and built-in types", "recap/types.py"), ("per-converter registries", "recap/converters/")],
  ["results and inputs before and after every step of a history"])

p("C26", "Object names reach databases only as values, never as SQL",
  "For every catalog, schema and table name, listing and schema reads send the database the same statement text with the names as bound parameters (for SQLite: properly quoted), in the position that belongs to them, so that any table name that exists can be read and no name can change which statement runs or which table is read. Listings return exactly the names the database reports, in its order.",
  ["inputs"], "every catalog, schema and table name, including quotes, semicolons, spaces, keywords, percent signs, non-ASCII",
  "Names are unbounded; the tests use plain identifiers.",
  ["recap/clients/dbapi.py", "recap/clients/mysql.py", "recap/clients/postgresql.py", "recap/clients/snowflake.py", "recap/clients/sqlite.py"],
  [("parameter binding in ls_*/schema", "recap/clients/dbapi.py"), ("identifier quoting", "recap/clients/sqlite.py")],
  ["statements and parameters seen by the driver; results on a real SQLite database"])

p("C27", "The configuration decides which storage and URLs are used",
  "The registry server stores and finds everything in exactly one folder: that of RECAP_REGISTRY_STORAGE_URL (percent-escapes stand for their characters, a trailing slash makes no difference), otherwise 'schemas' in RECAP_HOME, otherwise ~/.recap/schemas; folders that are missing are created, and a relative RECAP_HOME is below the working directory. A server finds what any earlier server stored if and only if their configurations lead to the same folder, and writes no file elsewhere. Variables of the environment go before those in a .env file beside the package, which go before the files in the folder RECAP_SECRETS (for RECAP_URLS, the storage URL and its args); an empty RECAP_HOME or RECAP_SECRETS counts as not set, but hides .env's. RECAP_URLS are exactly the URLs listed, and the storage's file system gets exactly the options of RECAP_REGISTRY_STORAGE_URL_ARGS, as an object or one variable per option (which goes first).",
  ["configurations", "histories"], "every combination of sources of configuration, every path, every sequence of server runs with their configurations on one disk",
  "No test starts Recap with another configuration than the default one.",
  ["recap/settings.py", "recap/server/registry.py", "recap/storage/registry.py"],
  [("HOME_PATH, SECRETS_PATH, mkdirs, RecapSettings", "recap/settings.py"), ("get_storage", "recap/server/registry.py"), ("RegistryStorage.__init__", "recap/storage/registry.py")],
  ["files on disk", "GET and POST /registry", "listed URLs", "options seen by the file system"])

p("C28", "Types compare equal exactly when their content is equal",
  "Two types are equal (==, and found with `in`) if and only if they are of the same kind and agree in all their attributes, including alias, logical, doc, name, default and free-form ones (in any order), and in their nested types, in order. Equality is symmetric, != is its opposite, references are compared by alias and attributes whatever they resolve to, a copy of a type is equal to it, nothing that is not a type is equal to a type, and comparing changes nothing.",
  ["inputs"], "every pair of types",
  "Tests rely on equality everywhere but compare types that are expected to be equal; an equality that overlooks something makes them, and code that detects changed schemas, blind.",
  ["recap/types.py"], [("__eq__ of all types", "recap/types.py")], ["results of comparisons"])

p("C29", "What is read from any source is a valid type that Recap's own format can carry",
  "Reading any schema that a reader accepts (Avro, JSON Schema, Protobuf, tables of MySQL, PostgreSQL, Snowflake, SQLite, BigQuery and the Hive metastore) yields a valid Recap type: its sizes are in range, and the aliases it declares are fully qualified names, each declared once (provided no two schemas of the source have the same name, or $ids with the same alias). That type can be described in all four forms, put into the registry and got back, and what comes back is equivalent; references to the source's own types still denote the same types.",
  ["inputs"], "every source schema that is accepted, in all nine source languages",
  "Readers and the Recap format are tested apart, each on a few samples; that everything the readers can make is something the format can carry is nowhere tested.",
  ["recap/converters", "recap/types.py", "recap/storage/registry.py"],
  [("to_recap of all converters", "recap/converters/"), ("to_dict, from_dict", "recap/types.py"), ("urn_to_alias", "recap/converters/json_schema.py")], ["types read", "their descriptions", "types got from the registry"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
