"""Source of properties.jsonl and MANIFEST.json (see mk.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         technique="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, na=na))


prop("C01", "OData entity stores behave like a keyed collection of entities",
     "For any sequence of insert, update, replace, delete and key lookup "
     "operations on the entity sets of an OData container, the in-memory "
     "and the SQL-backed stores both hold exactly the entities a keyed "
     "map would hold: the same keys, the same property values when read "
     "back, the same lengths and membership answers. Inserting an existing "
     "key, or addressing a key that is absent, is refused with the "
     "documented error and changes nothing.",
     ["histories"], "all sequences of CRUD operations over generated "
     "entities of every EDM type, on memds and on sqlds (SQLite)",
     "The tests run a fixed script of a few operations per store; a lost "
     "or resurrected entity needs a particular history.",
     ["pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py",
      "pyslet/odata2/csdl.py"],
     [("in-memory entity store", "memds.InMemoryEntityStore"),
      ("SQL statement generation", "sqlds.SQLEntityCollection")])

prop("C02", "Associations stay symmetric and honour their multiplicity",
     "After any sequence of entity inserts (including deep inserts), links "
     "made, replaced or removed through navigation properties and entity "
     "deletes, both ends of every association report the same links, no "
     "link refers to a deleted entity, no end with multiplicity 0..1 or 1 "
     "holds more than one link, and an operation which would break a "
     "multiplicity constraint is refused leaving entities and links as "
     "they were. This holds for the in-memory and the SQL-backed store.",
     ["histories"], "all sequences of link, unlink, replace, insert and "
     "delete operations over all multiplicity combinations",
     "Tests link and unlink a couple of entities; dangling or one-sided "
     "links appear only after particular histories.",
     ["pyslet/odata2/memds.py", "pyslet/odata2/sqlds.py",
      "pyslet/odata2/core.py"],
     [("association index", "memds.InMemoryAssociationIndex"),
      ("foreign keys and auxiliary tables",
       "sqlds.SQLNavigationCollection, SQLAssociationCollection")])

prop("C03", "A failing SQL statement leaves the SQL-backed store unchanged",
     "If the database raises an error at any statement or at the commit "
     "during an insert, update, delete or link operation of the SQL-backed "
     "store, the operation reports failure, the data visible afterwards is "
     "exactly the data visible before it, and the store remains usable for "
     "later operations.",
     ["faults", "histories"], "every position at which a database error can "
     "be injected in every operation of generated histories",
     "The tests never make the database fail.",
     ["pyslet/odata2/sqlds.py"],
     [("transaction handling", "sqlds.SQLTransaction"),
      ("collection operations", "sqlds.SQLEntityCollection")])

prop("C04", "OData filter expressions evaluate to the value OData defines",
     "Any well-formed OData common expression, written as text, is parsed "
     "with the operator precedence and associativity of the OData URI "
     "conventions and evaluates on an entity to the value defined by them: "
     "numeric promotion, null propagation, comparison, boolean logic and "
     "the string, date and math functions. Formatting a parsed expression "
     "gives text which parses to the same expression.",
     ["inputs"], "all expressions over literals of every simple type, "
     "entity properties, operators and built-in functions",
     "Tests check a few fixed expressions per operator; precedence, "
     "promotion and null handling interact combinatorially.",
     ["pyslet/odata2/core.py"],
     [("expression parser", "core.Parser.parse_common_expression"),
      ("evaluators", "core.BinaryExpression, core.CallExpression")])

prop("C05", "SQL-backed queries select and order like in-process evaluation",
     "For any stored entities and any filter or ordering supported by the "
     "SQL-backed store, iterating a filtered and ordered collection gives "
     "the same entities in the same order as evaluating the same "
     "expressions over the entities in process (the in-memory store).",
     ["inputs"], "all filter and order-by expressions in the common subset "
     "over generated tables",
     "A wrong operator, quoting, precedence or null rule in generated SQL "
     "shows only for particular expressions and data.",
     ["pyslet/odata2/sqlds.py", "pyslet/odata2/memds.py",
      "pyslet/odata2/core.py"],
     [("SQL generation", "sqlds.SQLCollectionBase.sql_expression"),
      ("in-process evaluation", "core.BinaryExpression.evaluate")])

prop("C06", "Paging partitions a collection without loss or repetition",
     "Whatever the page size, skip, top, filter and ordering, walking a "
     "collection page by page visits exactly the entities of the unpaged "
     "collection, each once and in the same order, and every page "
     "except the last has the requested size; skip and top select the "
     "corresponding slice. Continuing from a formatted skip token in a new "
     "collection resumes at the following entity.",
     ["inputs"], "all combinations of data, ordering (with ties and nulls), "
     "filter, skip, top, page size and skip tokens",
     "Off-by-one and tie-break errors appear only for particular page "
     "boundaries and duplicate order values.",
     ["pyslet/odata2/core.py", "pyslet/odata2/memds.py",
      "pyslet/odata2/sqlds.py"],
     [("paging", "core.EntityCollection.iterpage, page_generator"),
      ("SQL skip token", "sqlds.SQLEntityCollection.sql_where_skiptoken")])

prop("C08", "EDM simple values survive every textual encoding",
     "A value of any of the fifteen EDM simple types, set from Python and "
     "formatted as a literal, a URI literal, a JSON value or an Atom "
     "property element, parses back to the same value (within the "
     "precision the encoding carries); malformed and out of range literals "
     "are refused with ValueError; numbers convert between the integer "
     "types exactly or are refused.",
     ["inputs"], "all values of all EDM simple types and all literals "
     "near their grammars",
     "Tests use a handful of literals per type; the value space includes "
     "extremes, signs, exponents, leap dates, zones, quotes and non-ASCII.",
     ["pyslet/odata2/csdl.py", "pyslet/odata2/core.py"],
     [("literal parsing and formatting", "csdl.SimpleValue subclasses"),
      ("URI and JSON forms", "core.uri_literal_to_str, "
       "core.simple_value_to_json_str, core.Property")])

prop("C09", "Entities survive Atom and JSON serialisation",
     "An entity with any property values (simple, complex, null), key, "
     "navigation links and media type, serialised as an Atom entry or as "
     "JSON and read back, gives an entity with the same key and the same "
     "values; feeds and JSON collections keep every entity and their "
     "order; JSON output is always valid JSON.",
     ["inputs"], "all entities of generated entity types, in Atom and in "
     "JSON versions 1 and 2",
     "Fixed examples exercise few types, nulls and awkward characters.",
     ["pyslet/odata2/core.py", "pyslet/rfc4287.py"],
     [("Atom entry", "core.Entry.set_value, get_value"),
      ("JSON", "core.Entity.generate_entity_type_in_json, "
       "set_from_json_object")])

prop("C10", "OData URIs are parsed into the resource path they denote",
     "Every well-formed OData request URI composed of entity set names, "
     "keys, navigation properties, links, $value, $count and system query "
     "options is parsed into exactly the path and options it was composed "
     "of, whatever percent-encoding is used and whatever characters keys "
     "contain; formatting a key predicate and parsing it gives the same "
     "key; malformed URIs are refused with the documented error.",
     ["inputs"], "all paths, key values of every key type, query options "
     "and encodings",
     "Quotes, slashes, percent-encodings and key predicates interact; "
     "tests use simple keys.",
     ["pyslet/odata2/core.py"],
     [("URI parser", "core.ODataURI"), ("key predicates",
                                        "core.ODataURI.format_entity_key, "
                                        "core.Parser")])

prop("C11", "The OData server answers any request history correctly",
     "For any sequence of HTTP requests on an OData service the server "
     "answers with the status code the protocol defines (success, not "
     "found, bad request, method not allowed), never with an internal "
     "error, every entity and value returned is the one a model of the "
     "service holds, and requests which fail leave the service's data "
     "unchanged.",
     ["histories", "inputs"], "all sequences of requests over paths, "
     "methods, formats and bodies, well formed or not",
     "Tests send one request at a time with well formed bodies.",
     ["pyslet/odata2/server.py", "pyslet/odata2/core.py",
      "pyslet/odata2/memds.py"],
     [("request dispatch", "server.Server.handle_request"),
      ("negotiation and errors", "server.Server.odata_error")])

prop("C12", "Data accessed through the OData client equals the server's",
     "Operations performed through the OData client's entity collections "
     "against a server (create, read, update, delete, navigate, query, "
     "page) give the same results and leave the same data as performing "
     "them directly on the container behind the server.",
     ["histories"], "all sequences of client operations with values of "
     "every EDM type",
     "End-to-end behaviour composes URI, Atom, HTTP and store layers; "
     "the tests' client runs only against a public server, off line.",
     ["pyslet/odata2/client.py", "pyslet/odata2/server.py"],
     [("client collections", "client.EntityCollection, "
       "client.NavigationCollection")])

prop("C13", "A metadata document defines the same model when reloaded",
     "Any valid entity model (entity and complex types, keys, facets, "
     "associations, entity sets, function imports) written as a metadata "
     "document and read back defines the same model; a model with dangling "
     "or inconsistent references is refused when validated.",
     ["inputs"], "all generated models and single-fault mutations of them",
     "The sample documents of the tests cover one model.",
     ["pyslet/odata2/csdl.py", "pyslet/odata2/edmx.py",
      "pyslet/odata2/metadata.py"],
     [("model elements", "csdl.Schema.update_type_refs, update_set_refs")])

prop("C14", "Optimistic concurrency control admits no lost update",
     "For an entity type with concurrency tokens, an update or delete "
     "request carrying an If-Match value succeeds exactly when the value "
     "is * or matches the current ETag of the entity; one carrying no "
     "If-Match or a stale one is refused with 412 and changes nothing; the "
     "ETag returned changes whenever a token value changes, and a GET with "
     "If-None-Match returns 304 exactly when the tag is current.",
     ["histories"], "all interleavings of reads and conditional writes by "
     "several clients",
     "A lost update requires a particular interleaving of clients.",
     ["pyslet/odata2/server.py", "pyslet/odata2/core.py",
      "pyslet/odata2/csdl.py"],
     [("precondition check", "server.Server.check_etag"),
      ("etag computation", "csdl.Entity.etag, core.ODataURI")])

prop("C15", "The XML parser accepts well-formed documents with the right tree",
     "A document is accepted by the non-validating XML parser exactly when "
     "it is well-formed XML 1.0; an accepted document gives the elements, "
     "attributes (normalised), character data, processing instructions and "
     "entity expansions that a conforming processor reports; a rejected "
     "one raises an XML error and never any other exception.",
     ["inputs"], "all documents, generated well-formed and mutated",
     "The conformance suite is absent; tests hold a few documents per "
     "production.",
     ["pyslet/xml/parser.py", "pyslet/xml/structures.py"],
     [("parser productions", "parser.XMLParser")],
     technique="differential property-based testing against expat, with "
     "grammar-based generation and mutation; a model of entity nesting")

prop("C16", "Serialised XML documents parse back to the same document",
     "Any element tree built through the API from legal XML names and "
     "characters, serialised and parsed again, is the same tree: names, "
     "namespaces, attributes and text, including characters that need "
     "escaping; serialisation is deterministic, namespace prefixes are "
     "always declared.",
     ["inputs"], "all trees with namespaces, mixed content and awkward "
     "characters",
     "Escaping and prefix allocation depend on combinations of context and "
     "content.",
     ["pyslet/xml/structures.py", "pyslet/xml/namespace.py"],
     [("serialiser", "structures.Element.generate_xml"),
      ("escaping", "structures.escape_char_data"),
      ("namespaces", "namespace.NSElement")],
     technique="property-based testing: round trips through pyslet and expat "
     "compared with the generated tree")

prop("C17", "DTD validation decides validity as XML 1.0 defines it",
     "With validation on, a document is reported valid exactly when every "
     "element's content matches its declared content model, attributes are "
     "declared, have legal values and required ones are present, defaults "
     "are supplied, IDs are unique and IDREFs resolve.",
     ["inputs"], "all DTDs (content models, attribute lists, notations, "
     "entities, internal and external subsets, parameter entities) and "
     "documents over them",
     "Content model matching is an automaton over unbounded input; tests "
     "hold a few models.",
     ["pyslet/xml/parser.py", "pyslet/xml/structures.py"],
     [("content particles", "structures.ContentParticle"),
      ("validity checks", "parser.XMLParser.check_attributes")],
     technique="property-based testing: generated DTDs and documents judged "
     "by an independent implementation of the validity constraints "
     "(position automata for content models)")

prop("C18", "XML entities decode identically in every supported encoding",
     "A document parses to the same tree whichever supported encoding it is "
     "stored in and however that encoding is announced (byte order mark, "
     "XML declaration, protocol), positions and line ends are reported as "
     "for the decoded text, and undecodable input raises an error.",
     ["inputs"], "all texts, encodings, declarations and line-end styles",
     "Encoding detection depends on the first bytes and on buffer "
     "boundaries.",
     ["pyslet/xml/structures.py"],
     [("auto detection and decoding", "structures.XMLEntity")],
     technique="metamorphic property-based testing: encodings, "
     "announcements and chunk sizes against the decoded text; damage "
     "injection against Python's codecs")

prop("C19", "XML Schema datatypes map lexical forms to values and back",
     "For each supported XML Schema datatype every lexical form the "
     "specification allows is decoded to the value it denotes, others are "
     "refused with ValueError, and encoding any value gives a lexical form "
     "that decodes to it.",
     ["inputs"], "all lexical forms and values of boolean, decimal, "
     "integer, float, double, duration, dateTime, Name/NCName and "
     "enumerated types",
     "Boundary exponents, signs and rounding lie outside sampled cases.",
     ["pyslet/xml/xsdatatypes.py"],
     [("decoders and encoders", "xsdatatypes.*_from_str, *_to_str")],
     technique="property-based testing: lexical forms against the "
     "specification's grammars and exact rational arithmetic, round trips")

prop("C20", "XML Schema regular expressions match exactly their language",
     "A pattern accepted by the XML Schema regular expression class matches "
     "exactly the strings in the language the specification defines "
     "(anchored, character class subtraction, category and block escapes, "
     "quantifiers), and malformed patterns are refused.",
     ["inputs"], "all patterns of the grammar with strings in and out of "
     "their language",
     "The translation to Python's re depends on nesting of classes and "
     "escapes.",
     ["pyslet/xml/xsdatatypes.py", "pyslet/unicode5.py"],
     [("regular expression translation", "xsdatatypes.RegularExpression")])

prop("C21", "Character classes are exact sets of code points",
     "A character class built by any sequence of adding and subtracting "
     "characters, ranges and classes, and negation, contains exactly the "
     "code points of the corresponding set, equality is set equality, and "
     "its regular expression form matches exactly its members; Unicode "
     "categories and blocks hold the characters Unicode assigns to them.",
     ["histories", "inputs"], "all sequences of set operations over the "
     "Unicode range",
     "Range merging at boundaries needs adjacent or overlapping ranges in "
     "particular orders.",
     ["pyslet/unicode5.py"],
     [("range set", "unicode5.CharClass")])

prop("C22", "ISO 8601 dates follow the proleptic Gregorian calendar",
     "Every date in years 1 to 9999 converts between calendar, ordinal, "
     "week and absolute-day forms as the proleptic Gregorian calendar "
     "defines; every ISO representation that can be written parses to the "
     "same date (at the same precision); adding an offset and comparing "
     "agree with day numbers; impossible dates and malformed strings are "
     "refused with DateTimeError.",
     ["inputs"], "all dates, precisions and representations",
     "Errors concentrate at week-year, century and leap boundaries.",
     ["pyslet/iso8601.py"],
     [("calendar arithmetic", "iso8601.Date"),
      ("parsing", "iso8601.ISO8601Parser")])

prop("C23", "ISO 8601 times, time points and durations are exact",
     "Times and time points round trip through every representation at "
     "their precision, with any zone; shifting zone denotes the same "
     "instant; comparison orders time points by instant; offset adds "
     "elapsed time exactly; Unix and struct conversions agree with the "
     "calendar; durations round trip; malformed or impossible values are "
     "refused with DateTimeError.",
     ["inputs"], "all times, fractions, zones, precisions and durations",
     "Carries across minute, hour, day and year, and fractions, need "
     "particular values.",
     ["pyslet/iso8601.py"],
     [("times", "iso8601.Time"), ("time points", "iso8601.TimePoint"),
      ("durations", "iso8601.Duration")])

prop("C24", "URIs are parsed into components and escaped reversibly",
     "Every RFC 2396 URI reference splits into the scheme, authority, path, "
     "query and fragment the RFC's grammar gives, and its string form is "
     "preserved; escaping data for a component and unescaping returns the "
     "data, uses only characters allowed there, and canonicalisation is "
     "idempotent and preserves meaning; strings that are not URI "
     "references are refused.",
     ["inputs"], "all URI references and data strings",
     "Component boundaries and reserved characters combine freely.",
     ["pyslet/rfc2396.py"],
     [("parser", "rfc2396.URI"), ("escaping", "rfc2396.escape_data")])

prop("C25", "Resolving and relativising URIs are inverse and follow the RFC",
     "Resolving a reference against a base gives the URI defined by RFC "
     "2396 section 5.2; making a URI relative to a base and resolving the "
     "result against the same base gives the original URI.",
     ["inputs"], "all base and reference pairs including dot segments, "
     "empty segments, parameters and queries",
     "Dot-segment removal is sensitive to combinations absent from the "
     "RFC's example list.",
     ["pyslet/rfc2396.py"],
     [("resolution", "rfc2396.URI.resolve"),
      ("relativisation", "rfc2396.URI.relative")])

prop("C26", "URNs are parsed, compared and canonicalised per RFC 2141",
     "Every string of the RFC 2141 grammar is accepted with its namespace "
     "identifier and specific string, everything else is refused; lexical "
     "equivalence of URNs is that of section 5; translating a string to "
     "URN characters and back returns it.",
     ["inputs"], "all strings in and near the grammar",
     "Tests hold the RFC's examples.",
     ["pyslet/urn.py"],
     [("URN class", "urn.URN"), ("translation", "urn.translate_to_urnchar, "
                                 "parse_urn")])

prop("C27", "Virtual file paths and file URLs address the same files",
     "File paths survive conversion to a file URL and back, splitting and "
     "joining are inverse, normalisation is idempotent and denotes the same "
     "file, and reading, writing, listing, making and removing through the "
     "virtual file system has the effect of the operating system's call.",
     ["inputs", "histories"], "all paths with awkward characters and "
     "sequences of file operations in a scratch directory",
     "Escaping in file URLs depends on characters tests do not use.",
     ["pyslet/vfs.py", "pyslet/rfc2396.py"],
     [("file paths", "vfs.OSFilePath"), ("file URLs", "rfc2396.FileURL")])

prop("C28", "HTTP messages are framed and decoded without loss",
     "Any HTTP message (request or response, any headers, body with content "
     "length, chunked or gzip coding) written by the message classes and "
     "read back, however the byte stream is fragmented, yields the same "
     "start line, headers and body, consumes exactly its own bytes, and "
     "truncated or malformed messages are refused with an HTTP error.",
     ["inputs", "schedules"], "all messages and all ways of fragmenting "
     "their bytes",
     "Framing bugs depend on where reads are split and on chunk sizes.",
     ["pyslet/http/messages.py", "pyslet/streams.py"],
     [("framing", "messages.Message, messages.ChunkedReader, "
       "messages.WSGIInputWrapper")])

prop("C29", "HTTP header values are parsed and negotiated per RFC 2616",
     "Header field values (media types, accept lists, tokens, quoted "
     "strings, dates, content ranges, entity tags, cache directives, "
     "product and language lists) format and parse reversibly, however "
     "they are spelt; setting or removing a header of a message changes "
     "that header only; malformed values are refused with a syntax error; "
     "and content, charset, encoding and language negotiation selects the "
     "highest quality, most specific acceptable alternative.",
     ["inputs"], "all header values, spellings, malformed values and "
     "accept lists",
     "Negotiation depends on the combination of all ranges and qualities.",
     ["pyslet/http/grammar.py", "pyslet/http/params.py",
      "pyslet/http/messages.py"],
     [("grammar", "grammar.OctetParser"), ("parameters",
                                           "params.MediaType, FullDate"),
      ("negotiation", "messages.AcceptList.select_type"),
      ("message headers", "messages.Message.set_header")],
     technique="property-based testing: round trips with spelling "
     "variation, an independent negotiation model, syntax fuzzing")

prop("C30", "The HTTP client delivers each response to its own request",
     "For any sequence of requests and any server behaviour (keep-alive or "
     "close, chunked or length-delimited bodies, redirects, informational "
     "responses, early close), every completed request holds exactly the "
     "response sent for it, requests are sent exactly as built to the "
     "right server, a POST is never sent twice on account of a failed "
     "connection, and a failure is reported, not silently truncated.",
     ["histories", "faults"], "all sequences of requests and scripted "
     "server responses",
     "Connection reuse bugs depend on the order and framing of earlier "
     "responses.",
     ["pyslet/http/client.py", "pyslet/http/messages.py"],
     [("connections", "client.Connection, client.Client")])

prop("C31", "Cookies are returned only where RFC 6265 allows",
     "Any Set-Cookie header is read as RFC 6265's user agent algorithm "
     "reads it, and cookies built by a server are formatted so that they "
     "are read back unchanged. After any history of Set-Cookie headers, "
     "waits, expiries and session ends, a request is sent exactly the "
     "cookies whose domain, path, secure, http-only and expiry rules match, "
     "in the specified order; newer cookies replace older ones of the same "
     "name, domain and path; cookies for public suffixes or foreign "
     "domains are refused with CookieError, as decided by any list of "
     "public suffix rules. Parsing never fails on arbitrary header bytes "
     "other than with ValueError.",
     ["histories", "inputs"], "all histories of Set-Cookie headers and "
     "request URLs, all header bytes and suffix lists",
     "Scope leaks need particular domain, path and order combinations.",
     ["pyslet/http/cookie.py"],
     [("cookie store", "cookie.CookieStore"),
      ("parsing", "cookie.CookieParser, cookie.Section4Cookie")],
     technique="stateful property-based testing against an independent "
     "implementation of RFC 6265 and of the public suffix algorithm; "
     "grammar-based fuzzing")

prop("C32", "HTTP credentials are sent only within their protection space",
     "Challenges and basic credentials format and parse reversibly; a "
     "client answers a challenge only with credentials added for that "
     "scheme, server (scheme, host, port) and realm, sends credentials "
     "unasked only at or below paths where they succeeded on that server, "
     "forgets credentials that are refused, and never sends Authorization "
     "to another server after a redirect.",
     ["inputs", "histories"], "all credentials, challenges and URLs",
     "A credential leak needs an unusual URL pairing.",
     ["pyslet/http/auth.py", "pyslet/http/client.py"],
     [("credentials", "auth.BasicCredentials"),
      ("selection", "client.Client.find_credentials")])

prop("C33", "Stream wrappers deliver bytes unchanged and in order",
     "Bytes written to a pipe are read in order without loss or "
     "duplication whatever the sizes of writes, reads and the buffer, in "
     "blocking and non-blocking modes; a buffered wrapper over any "
     "stream behaves as the stream itself for any sequence of reads, "
     "peeks, seeks and read-lines.",
     ["histories", "schedules"], "all sequences of reads and writes over "
     "all buffer sizes, and threaded schedules",
     "Boundary conditions depend on the interleaving of partial reads and "
     "writes.",
     ["pyslet/streams.py"],
     [("pipe", "streams.Pipe"), ("wrapper", "streams.BufferedStreamWrapper")])

prop("C34", "Block-backed streams behave like files of bytes",
     "A stream kept in a stream store over any block store behaves as a "
     "file for any sequence of open, write, read and seek, "
     "survives being reopened, streams do not disturb each other, and "
     "deleting a stream releases its blocks.",
     ["histories"], "all operation sequences over block sizes and several "
     "streams",
     "Partial-block, gap and reopen cases depend on operation history.",
     ["pyslet/blockstore.py"],
     [("stream store", "blockstore.StreamStore"),
      ("block stores", "blockstore.FileBlockStore, EDMBlockStore")])

prop("C35", "Store locks exclude each other and can be recovered",
     "At any time at most one owner holds the lock on a given target; a "
     "lock is granted when free or expired, refused while held and its "
     "timeout has not passed, and after release or timeout can be acquired "
     "again.",
     ["schedules", "histories"], "all sequences and thread interleavings of "
     "lock operations",
     "Mutual exclusion is a property of interleavings.",
     ["pyslet/blockstore.py"],
     [("lock store", "blockstore.LockStore")])

prop("C36", "Encrypted application data decrypts to what was encrypted",
     "Data encrypted with an application cipher decrypts to the same bytes "
     "after any sequence of encryptions, key changes (immediate or "
     "scheduled), waits and restarts from the stored keys, so long as no "
     "more key changes than the cipher remembers separate them. A signed "
     "message verifies to exactly what was signed. Altered or foreign data "
     "or signatures, and those made with keys the cipher doesn't hold, are "
     "refused and never silently give something else.",
     ["inputs", "histories"], "all data, key histories and tamperings",
     "Key rotation histories and tampering positions are unbounded.",
     ["pyslet/wsgi.py"],
     [("cipher", "wsgi.AppCipher"),
      ("key store", "wsgi.AppCipher.change_key")],
     technique="stateful property-based testing against a key history "
     "model, with a virtual clock; mutation of ciphertexts")

prop("C37", "WSGI sessions keep users apart and resist forgery",
     "Session data stored during a request is returned on later requests "
     "with the same session cookie and to nobody else; a form post without "
     "the session's own token is refused; a session cookie that was not "
     "issued by the application is never adopted; any request gets a well "
     "formed response, not an unhandled exception.",
     ["histories"], "all interleavings of requests from several browsers, "
     "with forged and replayed cookies",
     "Session fixation and mix-up need particular interleavings.",
     ["pyslet/wsgi.py"],
     [("session decorator", "wsgi.session_decorator, wsgi.SessionApp")],
     technique="stateful property-based testing of several browsers and a "
     "forger against a model of cookies, links and the clock; fuzzing of raw "
     "requests")

prop("C38", "LTI launches are accepted only when authentic and fresh",
     "A launch signed with a consumer's current secret is accepted once and "
     "yields the launched user, context, resource and roles; a launch with "
     "any altered parameter, wrong secret, replayed nonce or stale "
     "timestamp is refused. A resource is seen only by a session that "
     "launched it, as the user and with the permissions of its last launch.",
     ["inputs", "histories"], "all launch parameters, alterations and "
     "replay histories",
     "Signature base strings depend on every parameter's encoding.",
     ["pyslet/imsbltiv1p0.py"],
     [("provider", "imsbltiv1p0.ToolProviderApp, ToolConsumer"),
      ("nonces and launch", "ToolProvider.launch")],
     technique="stateful property-based testing of consumers and browsers "
     "against a model of nonces, sessions and visits, with an independent "
     "OAuth signer")

prop("C39", "Content packages survive saving and reopening",
     "A content package built from any files, resources, dependencies and "
     "organisations saved to a manifest or zip file and opened again has "
     "the same resources, files and contents; identifiers stay unique, and "
     "no file outside the package is touched or listed.",
     ["histories"], "all package constructions, file names and deletions",
     "Path escaping and shared-file bookkeeping depend on names and "
     "histories.",
     ["pyslet/imscpv1p2.py"],
     [("package", "imscpv1p2.ContentPackage")])

prop("C40", "The HTML parser reads any input and output reparses",
     "Any character string is parsed by the HTML parser to a document "
     "without an exception other than an XML error, and a document built "
     "from valid HTML 4.01 markup keeps its elements, attributes and "
     "text when written out and parsed again.",
     ["inputs"], "all strings and generated HTML documents",
     "Tag omission and entity handling depend on arbitrary nesting.",
     ["pyslet/html401.py"],
     [("parser", "html401.HTMLParser, XHTMLDocument"),
      ("values", "html401.Length, Coords, Color")])

prop("C41", "Atom documents keep their metadata and entries",
     "Any feed or entry built with titles, text constructs, links, "
     "categories, persons, dates and content is written as an Atom "
     "document which reads back with equal values, and publishing "
     "operations on an in-memory collection follow RFC 5023.",
     ["inputs"], "all feeds and entries",
     "Text constructs with markup and awkward characters are not sampled.",
     ["pyslet/rfc4287.py", "pyslet/rfc5023.py"],
     [("documents", "rfc4287.AtomDocument, rfc4287.Feed")])

prop("C42", "QTI values and variables hold only values of their type",
     "QTI variables of every base type and cardinality accept exactly the "
     "values of that type, values read from and written to their text form "
     "are equal, containers count members correctly, and defaults, "
     "correct responses and mappings are reported as declared.",
     ["inputs"], "all base types, cardinalities and values",
     "Type and cardinality combinations are many; tests sample each once.",
     ["pyslet/qtiv2/variables.py"],
     [("values", "variables.Value and subclasses"),
      ("mapping", "variables.Mapping, AreaMapping, MatchTable")],
     technique="stateful property-based testing of values, containers and "
     "session variables against lists, counters and dictionaries; "
     "generated declarations, mappings and lookup tables against direct "
     "computation",
     note="Generated-input search; files in MIME form are not supported.")

prop("C43", "QTI expressions evaluate as the QTI specification defines",
     "Every QTI expression over any operand values, nulls, cardinalities "
     "and nesting evaluates to the value the QTI 2.1 specification defines "
     "or raises a processing error where operands have the wrong type; no "
     "other exception escapes.  (As the repository's tests have it, "
     "contains looks for its first operand in the second.)",
     ["inputs"], "all expression trees over all value types including "
     "NULL, containers and records",
     "Null propagation and container semantics depend on combinations.",
     ["pyslet/qtiv2/expressions.py"],
     [("operators", "qtiv2.expressions")],
     technique="property-based testing: generated expression trees in XML, "
     "well and badly typed, against an independent evaluator with exact "
     "arithmetic",
     note="Generated-input search; customOperator, test-level number "
     "expressions and weights are not covered.")

prop("C44", "QTI item and test sessions follow response processing",
     "Running an item session through any sequence of begin, response, "
     "processing and end events yields the outcome values an interpreter "
     "of the response rules gives, selection and ordering in tests "
     "respects the declared rules, and session state is internally "
     "consistent after every event.",
     ["histories"], "all rule programs and event sequences",
     "Rule programs are arbitrary; tests run one program each.",
     ["pyslet/qtiv2/processing.py", "pyslet/qtiv2/variables.py",
      "pyslet/qtiv2/tests.py"],
     [("rules", "qtiv2.processing"), ("sessions",
                                      "variables.ItemSessionState")],
     technique="stateful, model-based property testing: generated rule "
     "programs, tests and event histories (bad keys and submissions "
     "included) on a virtual clock against an interpreter of the rules; "
     "forms against the selection and ordering rules",
     note="Generated-input search; only linear, individual test parts "
     "(others are not implemented).")

prop("C45", "QTI version 1 items migrate to equivalent version 2 items",
     "Any QTI 1.2 item with choice, multiple response or fill-in-blank "
     "responses and score conditions migrates to a QTI 2.1 item that "
     "parses, has the same choices, and gives the same score for every "
     "response.",
     ["inputs"], "all generated items and responses",
     "Scoring equivalence quantifies over all responses.",
     ["pyslet/qtiv1/item.py", "pyslet/qtiv1/common.py",
      "pyslet/qtiv1/section.py"],
     [("migration", "qtiv1.item.Item.migrate_v2")])

prop("C46", "Comparison and compatibility mixins are consistent",
     "Types built on the library's ordering mixins have a total order "
     "consistent with equality and hashing; text and bytes helpers convert "
     "losslessly or raise; renamed methods keep working under their old "
     "name, including when overridden in a subclass.",
     ["inputs"], "all values and class hierarchies",
     "Override chains and mixed-type comparisons are unbounded.",
     ["pyslet/py2.py", "pyslet/pep8.py"],
     [("mixins", "py2.SortableMixin, CmpMixin"),
      ("renaming", "pep8.MigratedClass, old_method")],
     technique="property-based testing: laws of order, equality and hashing "
     "over values of every type; generated class hierarchies against a model "
     "of renaming; text helpers against Python's codecs")

prop("C47", "WSGI requests reach their handler and are read and answered exactly",
     "A WSGI application passes each request to a handler registered for its "
     "path, the named path if there is one and otherwise a wildcard that "
     "matches, and answers 404 only when none does. The context gives back "
     "exactly the URL, query parameters, form fields and content that the "
     "client sent, within the stated limits on size. Responses are delivered "
     "with the given status and body and a correct length. Static pages give "
     "the exact content of files below the static directory and never "
     "anything outside it.",
     ["inputs"], "all registrations, paths, parameters, bodies and responses",
     "Which handler wins depends on the combination of registered paths; "
     "quoting on the particular characters.",
     ["pyslet/wsgi.py"],
     [("dispatcher", "wsgi.WSGIApp.set_method, WSGIApp.__call__"),
      ("request", "wsgi.WSGIContext"),
      ("responses", "wsgi.WSGIApp.static_page, redirect_page, "
       "text_response")],
     technique="property-based testing against a matcher of path patterns, "
     "round trips of generated requests and responses, and a directory tree "
     "with files outside it")
