# Writes /verif/properties.jsonl and /verif/MANIFEST.json.
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=level_note, technique=technique, na=na))

GOTECH = "property-based testing: random schemas, generated Go code run against a reference interpreter of the rules"
GONOTE = "Exploration: every run generates fresh annotated schemas, builds the plugin from /repo, generates and compiles the Go code and compares the verdict and the violated field set of Validate and ValidateAll with an independent interpreter. Trusts protoc, protoc-gen-go, protobuf-go reflection and the interpreter in harness/pv/model.go."
WHY = "The conformance cases are a fixed list of messages with fixed rule parameters; no test draws a new combination of rules, parameters, field kinds, positions and values, and the baseline runs the same few values for each."

prop("C01", "Numeric rules accept exactly the values they describe",
 "For every numeric field kind, the generated Go validation accepts a value exactly when it satisfies the field's const, lt, lte, gt, gte, in and not_in rules; a lower bound at or above the upper bound means outside the gap between them, and ignore_empty exempts zero. This holds for singular fields, oneof members, list items, map keys and map values.",
 ["programs", "inputs"], "all twelve numeric kinds x all consistent combinations of const, bounds, in, not_in and ignore_empty, with any parameter values, in every position, x all values of the kind (NaN excluded)",
 WHY + " Off-by-one bounds at type limits, the inverted (exclusive) ranges of each lt/lte x gt/gte pair, and kind-specific code paths are only sampled at a few points.",
 ["templates/goshared/num.go", "templates/goshared/ltgt.go", "templates/goshared/const.go", "templates/goshared/in.go", "templates/goshared/msg.go", "templates/shared/context.go"],
 [("the bound templates, one branch per pair of bounds", "templates/goshared/ltgt.go"), ("lookup sets for in and not_in", "templates/goshared/msg.go, templates/goshared/register.go inType/inKey"), ("choice of the rule template by rule type", "templates/shared/context.go resolveRules")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C02", "String length, affix and list rules mean what they say",
 "The generated Go validation accepts a string exactly when it satisfies const, in, not_in, the length rules in runes (len, min_len, max_len) and in bytes (len_bytes, min_bytes, max_bytes), prefix, suffix, contains and not_contains; ignore_empty exempts the empty string. The rules combine conjunctively and hold in every position a string can be in.",
 ["programs", "inputs"], "all consistent combinations of the string rules with any parameters, including multi-byte, quote, backslash, percent, newline and NUL characters, x all strings",
 WHY + " Quoting of arbitrary parameter text into source code and rune versus byte counting need arbitrary strings.",
 ["templates/goshared/string.go", "templates/goshared/in.go", "templates/goshared/const.go", "templates/goshared/register.go"],
 [("string template", "templates/goshared/string.go"), ("literals", "templates/goshared/register.go lit")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C03", "String format and pattern rules match exactly the documented syntax",
 "The generated Go validation accepts a string for email, hostname, ip, ipv4, ipv6, address, uri, uri_ref, uuid and the HTTP header rules (strict or not) exactly when it has that syntax, and for pattern exactly when the RE2 expression matches somewhere in it. This holds in every position, in nested messages, through StringValue wrappers and together with other string rules.",
 ["programs", "inputs"], "every format rule and any RE2 pattern, alone or combined with other string rules, in every position x all strings, near-valid ones above all",
 WHY + " Formats have boundaries (label lengths 63/64, total 253, 64-character local parts, trailing dots, zones, case) that fixed samples do not reach.",
 ["templates/goshared/known.go", "templates/goshared/string.go", "templates/shared/well_known.go", "module/checker.go"],
 [("helper methods for hostname, email and uuid", "templates/goshared/known.go"), ("decision which helpers a message and a file need", "templates/shared/well_known.go"), ("well known regular expressions", "module/checker.go regex_map, checkWellKnownRegex")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C04", "Bytes rules accept exactly the values they describe",
 "The generated Go validation accepts a bytes value exactly when it satisfies const, in, not_in, len, min_len, max_len, prefix, suffix, contains, pattern and the ip, ipv4 and ipv6 (4 or 16 bytes) rules, for any byte values in parameters and data; ignore_empty exempts the empty value.",
 ["programs", "inputs"], "all consistent combinations of the bytes rules with arbitrary byte parameters, in every position x all byte strings",
 WHY + " Parameters with arbitrary bytes have to survive the way into source code.",
 ["templates/goshared/bytes.go", "templates/goshared/register.go", "templates/goshared/msg.go"],
 [("bytes template", "templates/goshared/bytes.go"), ("byte literals", "templates/goshared/register.go byteStr, lit")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C05", "Bool and enum rules accept exactly the values they describe",
 "The generated Go validation accepts a bool exactly when it equals const, and an enum number exactly when it satisfies const, in, not_in and defined_only, where defined means declared in the enum, under any alias. This holds for enums of the same file, nested in messages and imported from another package, in every position.",
 ["programs", "inputs"], "random enums (gaps, negative numbers, aliases, nested, imported) and rules in every position x all int32 numbers",
 WHY + " Nested and imported enums in lists and maps go through separate code paths.",
 ["templates/goshared/enum.go", "templates/goshared/const.go", "templates/goshared/register.go", "templates/go/file.go"],
 [("enum template", "templates/goshared/enum.go"), ("imports of enum packages", "templates/goshared/register.go externalEnums, enumPackages")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C06", "Embedded messages are validated to any depth unless told not to",
 "A message is valid only if every embedded message that is set is valid, to any depth, except through fields with skip and for types with the disabled or ignored option; required rejects an absent message and nothing else does. Disabled types have methods that always succeed, ignored types have none, and nil receivers are valid.",
 ["programs", "inputs"], "random graphs of message types (nested, recursive, imported, disabled, ignored) with skip and required rules x all message trees",
 WHY + " Deep and recursive trees and the combination of options are not enumerated.",
 ["templates/go/message.go", "templates/go/required.go", "templates/goshared/msg.go", "templates/shared/disabled.go", "templates/shared/context.go"],
 [("interface test on embedded values", "templates/go/message.go"), ("disabled and ignored options", "templates/shared/disabled.go, templates/goshared/msg.go")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C07", "Repeated rules constrain the count, uniqueness and every item",
 "The generated Go validation accepts a list exactly when its length is within min_items and max_items, its items are pairwise distinct if unique is set, and every item satisfies the items rules and, for messages, is itself valid; ignore_empty exempts the empty list. An error about an item names its index.",
 ["programs", "inputs"], "lists of every element type with random list and item rules x all lists, nil message elements included",
 WHY, ["templates/goshared/repeated.go", "templates/shared/context.go", "templates/goshared/register.go"],
 [("repeated template", "templates/goshared/repeated.go"), ("element contexts", "templates/shared/context.go Elem, Unwrap"), ("item lookups", "templates/goshared/msg.go")],
 ["Validate(), ValidateAll() and the Field() of their errors"])
prop("C08", "Map rules constrain the size, every key and every value",
 "The generated Go validation accepts a map exactly when its size is within min_pairs and max_pairs, every key satisfies the keys rules, every value satisfies the values rules and, for messages, is itself valid, and no value is absent if no_sparse is set; ignore_empty exempts the empty map. An error about an entry names its key.",
 ["programs", "inputs"], "maps of every key kind and value type with random rules x all maps, nil message values included",
 WHY, ["templates/goshared/map.go", "templates/shared/context.go", "templates/goshared/register.go"],
 [("map template", "templates/goshared/map.go"), ("key and value contexts", "templates/shared/context.go Key, Elem")],
 ["Validate(), ValidateAll() and the Field() of their errors"])
prop("C09", "Oneof validation looks at the set member only and enforces required",
 "For every oneof, the generated Go validation applies exactly the rules of the member that is set, in whatever type it is, and reports a missing member exactly when the oneof is required. Several oneofs of a message and its other fields do not influence each other.",
 ["programs", "inputs"], "random messages with one or more oneofs of members of every type and rule x every choice of member and value",
 WHY, ["templates/goshared/msg.go", "templates/goshared/register.go", "templates/shared/disabled.go"],
 [("the oneof switch", "templates/goshared/msg.go"), ("type names of members", "templates/goshared/register.go oneofTypeName"), ("required option", "templates/shared/disabled.go RequiredOneOf")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C10", "Wrapper fields follow the scalar's rules when set",
 "For the nine scalar wrapper messages, the generated Go validation applies the scalar's rules to the wrapped value exactly when the wrapper is set; an absent wrapper is valid unless message.required is set, which adds nothing else. This also holds for wrappers as oneof members, list items and map values.",
 ["programs", "inputs"], "all wrapper types x random scalar rules, with and without required, in every position x absent, empty and set wrappers",
 WHY, ["templates/goshared/wrapper.go", "templates/shared/context.go", "templates/goshared/register.go"],
 [("wrapper template and unwrapping", "templates/goshared/wrapper.go, templates/goshared/register.go unwrap")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C11", "Any rules constrain the type URL and presence",
 "The generated Go validation accepts an Any exactly when it is set if required, and, when set, its type URL is in the in list or not in the not_in list; the packed content is not looked at.",
 ["programs", "inputs"], "random lists of type URLs with and without required, in every position x absent, empty and set Any values",
 WHY, ["templates/goshared/any.go", "templates/go/required.go", "templates/goshared/msg.go"],
 [("any template", "templates/goshared/any.go"), ("required", "templates/go/required.go")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C12", "Duration rules compare the exact time span",
 "The generated Go validation accepts a Duration exactly when it is set if required and, when set under value rules, is a valid Duration that satisfies const, lt, lte, gt, gte, in and not_in to the nanosecond; inverted bounds mean outside the gap.",
 ["programs", "inputs"], "all consistent rule combinations with parameters of either sign and any nanoseconds, in every position x all durations within 292 years, and invalid ones",
 WHY + " Invalid values (mixed signs, too many nanoseconds) and sub-second comparisons are hardly sampled.",
 ["templates/go/duration.go", "templates/goshared/duration.go", "templates/goshared/register.go"],
 [("duration templates", "templates/go/duration.go, templates/goshared/duration.go"), ("literals", "templates/goshared/register.go durLit, durGt")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C13", "Timestamp rules compare the exact point in time and the clock",
 "The generated Go validation accepts a Timestamp exactly when it is set if required and, when set under value rules, is a valid Timestamp that satisfies const, lt, lte, gt and gte to the nanosecond and lt_now, gt_now and within relative to the clock at validation time; inverted bounds mean outside the gap.",
 ["programs", "inputs"], "all consistent rule combinations over years 1 to 9999, in every position x all timestamps (further than a minute from clock-relative boundaries), and invalid ones",
 WHY + " Clock-relative rules and the extremes of the range are barely sampled.",
 ["templates/go/timestamp.go", "templates/goshared/timestamp.go", "templates/goshared/register.go"],
 [("timestamp templates", "templates/go/timestamp.go, templates/goshared/timestamp.go"), ("literals", "templates/goshared/register.go tsLit, tsGt")],
 ["Validate() and ValidateAll() of generated messages"])
prop("C14", "ValidateAll lists every violation, Validate the first, both well formed",
 "ValidateAll returns nil exactly when Validate does, and otherwise a list whose errors correspond to the violated constraints of the message, each once, nested messages as the cause of their field's error; Validate returns one error, which for messages without maps is the first of that list. Every error names the message, the field (with index or key), a reason, whether it concerns a map key, and its cause, through its methods and in its text.",
 ["programs", "inputs"], "random messages of mixed fields with several violations at once, nested ones included",
 "The conformance harness looks at the verdict and at whether a list came back, not at which errors a list holds, in what order, or what an error says.",
 ["templates/goshared/msg.go", "templates/goshared/register.go", "templates/go/message.go", "templates/goshared/repeated.go", "templates/goshared/map.go"],
 [("the all flag in every template", "templates/goshared/*.go, templates/go/*.go"), ("error construction", "templates/goshared/register.go errIdxCause"), ("error and multi error types", "templates/goshared/msg.go")],
 ["Field(), Reason(), Cause(), Key(), ErrorName(), Error(), AllErrors()"])
prop("C15", "Contradictory or ill-typed rules are refused, consistent ones accepted",
 "The plugin fails, naming the message and field, for every file with a rule that does not fit its field's type, with mutually exclusive rules, inverted min/max pairs, affixes longer than the maximum, equal opposite bounds, undefined in values under defined_only, unparsable patterns, or invalid durations and timestamps, wherever in a field's rules it occurs; contradictions in disabled messages do not matter. It accepts every file whose rules are well-typed and consistent.",
 ["programs"], "random rules for every field type, nested in items, keys and values, consistent ones and consistent ones with one contradiction or type error put in",
 "No test feeds the plugin a bad rule: the checker's refusals have no coverage at all in the baseline.",
 ["module/checker.go", "module/validate.go"],
 [("one check function per rule type", "module/checker.go"), ("visit of all messages of all targets", "module/validate.go Execute")],
 ["exit status and error text of protoc with the plugin"])
prop("C16", "Accepted files yield Go code that compiles and has the API",
 "For every .proto file that the plugin accepts, whatever the names, nesting, packages, imports, syntax and rules, the generated Go file is gofmt-clean, compiles next to the output of protoc-gen-go and gives every message that is not ignored Validate and ValidateAll methods and the two error types.",
 ["programs"], "random proto2 and proto3 files with unusual names, nesting, keywords, shared and separate Go packages, imports, enums and all rules",
 "The build compiles the fixed conformance files; name clashes, proto2 presence, nested-only helpers and imports depend on the schema.",
 ["templates/go/file.go", "templates/goshared/msg.go", "templates/goshared/register.go", "templates/shared/well_known.go", "templates/pkg.go"],
 [("naming", "templates/goshared/register.go lookup, errName, msgTyp, oneofTypeName"), ("imports", "templates/go/file.go"), ("formatting", "main.go GoFmt")],
 ["the generated file, go build"])
prop("C17", "Generation is deterministic and puts files where the parameters say",
 "The same request yields byte-identical output, and a file's output does not depend on which other files are generated with it or in which order; the paths follow the proto path or go_package, the module prefix and the language (one .pb.validate.go for Go, .pb.validate.h and .cc for C++, one validator class file or one per message for Java, and none for files that do not need one). A missing or unknown lang parameter is refused.",
 ["programs", "configurations"], "random sets of files x lang, paths and module parameters x order and grouping of the files in the request",
 "The build runs one fixed command line per language and never compares two runs.",
 ["module/validate.go", "templates/pkg.go", "templates/java/file.go", "templates/java/register.go", "templates/cc/register.go"],
 [("template sets and file paths per language", "templates/pkg.go"), ("module prefix", "module/validate.go Execute"), ("Java file names", "templates/java/register.go JavaFilePath, JavaMultiFilePath")],
 ["names and bytes of the files protoc writes"])
CCTECH = "property-based testing: random schemas, generated C++ code run against a reference interpreter of the rules"
CCNOTE = "Exploration: as for the Go properties, with the C++ templates and validate.h compiled by g++ and the verdict of Validate compared. Trusts protoc, libprotobuf, RE2 and the interpreter."
prop("C18", "Generated C++ agrees with the rules on scalars or refuses",
 "For numeric, bool, enum, string and bytes rules, the generated C++ Validate accepts a message exactly when its fields satisfy the rules, as the Go code does, for any parameter values; a rule C++ does not implement throws UnimplementedException when it is reached and is never silently passed over.",
 ["programs", "inputs"], "random scalar rules with arbitrary parameters in every position x all values (patterns anchored at both ends)",
 "The C++ harness runs the fixed conformance cases; literals of arbitrary numbers, strings and bytes and the limits of the types are not sampled.",
 ["templates/cc/num.go", "templates/cc/ltgt.go", "templates/cc/string.go", "templates/cc/bytes.go", "templates/cc/enum.go", "templates/cc/in.go", "templates/cc/register.go", "validate/validate.h"],
 [("templates", "templates/cc"), ("literals", "templates/cc/register.go lit"), ("unimplemented rules", "templates/cc/register.go failUnimplemented")],
 ["Validate(const M&, ValidationMsg*) and UnimplementedException"], CCNOTE, CCTECH)
prop("C19", "Generated C++ agrees with the rules on composites or refuses",
 "For embedded messages, lists, maps, oneofs, wrappers, Any and Duration rules, the generated C++ Validate accepts a message exactly when the rules hold, to any depth, and fills the error text exactly when it returns false; CheckMessage finds the validator of every linked message type at run time, and rules C++ does not implement throw UnimplementedException.",
 ["programs", "inputs"], "random messages with composite fields and rules x all message trees",
 "The C++ harness runs the fixed conformance cases.",
 ["templates/cc/msg.go", "templates/cc/message.go", "templates/cc/repeated.go", "templates/cc/map.go", "templates/cc/wrapper.go", "templates/cc/any.go", "templates/cc/duration.go", "templates/cc/file.go", "validate/validate.h"],
 [("templates", "templates/cc"), ("run-time registry", "validate/validate.h BaseValidator, Validator")],
 ["Validate(const M&, ValidationMsg*), pgv::Validator<T>::CheckMessage"], CCNOTE, CCTECH)
prop("C20", "The C++ string helpers classify every input safely",
 "The helpers of the C++ runtime for IP addresses, hostnames, prefixes, suffixes, substrings and UTF-8 length classify every byte string as the reference does (UTF-8 length on valid UTF-8) and never read out of bounds or invoke undefined behaviour.",
 ["inputs"], "all byte strings: valid, near-valid, with NUL bytes, empty, long and not UTF-8",
 "No test calls the helpers directly; the conformance cases pass a handful of well-formed strings and run without sanitizers.",
 ["validate/validate.h"],
 [("IsIp, IsIpv4, IsIpv6, IsHostname, IsPrefix, IsSuffix, Contains, NotContains, Utf8Len", "validate/validate.h")],
 ["return values; ASan and UBSan reports"],
 "Exploration with sanitizers: millions of structured and mutated inputs against an independent model, in one process built with ASan and UBSan.", "fuzzing with structured generators against a reference model, under ASan and UBSan")
prop("C21", "Validation has no side effects and never panics",
 "Validating any message that can be built or decoded, with nil elements, unset fields and invalid nested values, never panics and never changes the message; repeated and concurrent validations of the same message give the same verdict, and so does validating its encoded and decoded copy.",
 ["inputs", "schedules"], "random messages of random mixed types, nil list and map elements included x repeated and concurrent calls",
 "The conformance cases validate each message once, in one goroutine, and do not compare it afterwards.",
 ["templates/goshared/msg.go", "templates/goshared/repeated.go", "templates/goshared/map.go", "templates/go/message.go"],
 [("nil receivers and getters", "templates/goshared/msg.go, templates/goshared/register.go accessor")],
 ["message contents before and after, errors of repeated and concurrent calls"])
JAVATECH = "property-based testing: random schemas, generated Java code run against a reference interpreter of the rules"
JAVANOTE = "Exploration: as for the Go properties, with the Java templates and the Java runtime library of the repository compiled by javac. protobuf-java, re2j, guava and commons-validator are not installed: harness/java/stub has stand-ins for what the code uses, so only plain cases of the formats are asserted. Not asserted (known differences of Java): the order of NaN and -0.0, unknown enum numbers as parameters, timestamps within a minute of now. Trusts protoc --java_out, javac, the stand-ins and the interpreter."
prop("C22", "The Java validation library judges every value as documented",
 "The comparison, length, affix, membership, uniqueness, format, presence, Duration and Timestamp checks of the Java runtime throw a ValidationException exactly when the value breaks the rule, for all values and parameters, and the exception carries the field, the value and a reason.",
 ["inputs"], "all values and parameters of each check",
 "The Java unit tests do not run in the baseline and sample a few values per check.",
 ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv"],
 [("one class per rule family", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/*.java")],
 ["ValidationException"],
 "Exploration: hundreds of thousands of random calls of the library classes, and scripts of index operations, in one JVM, against a reference model in Go. protobuf-java, re2j, guava and commons-validator are not installed: harness/java/stub has stand-ins for what the code uses, so only plain cases of the formats are asserted, and not the order of NaN and -0.0. Trusts javac, the stand-ins and the model.",
 "property-based testing: random calls of the library classes and scripts of index operations against a reference model")
prop("C23", "Generated Java validators agree with the rules on values",
 "For numeric, bool, enum, string and bytes rules, in every position, the generated Java validator throws a ValidationException exactly when a rule is violated, as the Go code does, for any parameter values, strings and numbers that need escapes or are unsigned included; isValid agrees with assertValid and the exception names the field.",
 ["programs", "inputs"], "random scalar rules with arbitrary parameters in every position x all values (patterns anchored at both ends)",
 "No test compiles or runs generated Java code in the baseline; literals of arbitrary numbers, strings and bytes are not sampled anywhere.",
 ["templates/java/num.go", "templates/java/string.go", "templates/java/bytes.go", "templates/java/enum.go", "templates/java/register.go", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv"],
 [("templates", "templates/java"), ("literals", "templates/java/register.go, templates/java/string.go"), ("run-time library", "java/pgv-java-stub")],
 ["assertValid and isValid of generated validators"], JAVANOTE, JAVATECH)
prop("C25", "Generated Java validators agree with the rules on composites",
 "For embedded messages, lists, maps, oneofs, wrappers, Any, Duration and Timestamp rules, required, skip, disabled and ignored, the generated Java validator throws exactly when a rule of the message or of a nested one is violated, to any depth, and the reflective and the explicit index find the validator of every nested and imported message, whatever java_package, java_multiple_files and java_outer_classname say.",
 ["programs", "inputs", "configurations"], "random messages with composite fields and rules x Java options x all message trees",
 "No test compiles or runs generated Java code in the baseline.",
 ["templates/java/msg.go", "templates/java/message.go", "templates/java/repeated.go", "templates/java/map.go", "templates/java/oneof.go", "templates/java/wrapper.go", "templates/java/any.go", "templates/java/duration.go", "templates/java/timestamp.go", "templates/java/file.go", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv"],
 [("templates", "templates/java"), ("run-time registry", "ReflectiveValidatorIndex, ExplicitValidatorIndex")],
 ["assertValid and isValid of generated validators"], JAVANOTE, JAVATECH)
prop("C26", "C++ and Java code of files with any names and structure builds and loads",
 "For every set of .proto files whose own C++ or Java code compiles, whatever their file names, packages, message, field, enum and oneof names, nesting, imports, syntax and Java options, the code that the plugin generates for C++ or Java compiles with it, and the Java indexes find a validator that runs for exactly the messages that should have one.",
 ["programs", "configurations"], "random sets of files with unusual names (keywords, underscores, digits, capitals, names of library classes, accessors that collide), packages (none, keywords, underscores) and options",
 "The conformance cases have one package and ordinary names; names are rewritten by tables and case conversions that must follow protoc's own for every input.",
 ["templates/java/register.go", "templates/java/file.go", "templates/cc/register.go", "templates/cc/file.go"],
 [("Java names", "templates/java/register.go qualifiedName, accessorName, classNameFile"), ("C++ names", "templates/cc/register.go className, accessors")],
 ["javac, class loading, g++"],
 "Exploration: each run draws fresh sets of files; those whose own code (protoc's) does not compile are discarded. The Java runtime is that of harness/java/stub. Trusts protoc, javac and g++.",
 "property-based testing: random .proto files with unusual names, generated, compiled with protoc's own code and, for Java, loaded and run")
PYTECH = "property-based testing: random schemas and messages, validated by the Python module of the repository and by a reference interpreter of the rules"
PYNOTE = "Exploration: each run draws fresh schemas and messages, loads python/protoc_gen_validate/validator.py of the repository in CPython 3.12 and compares the verdict of validate(message), given twice, with an independent interpreter. jinja2, protobuf and validate_email are not installed: harness/py/stub has stand-ins for what the module uses, so only plain cases of e-mail addresses and URIs are asserted. Not asserted (known differences of Python's re): non-ASCII text with character classes, a final newline with patterns, IP zones. Trusts protoc, the stand-ins and the interpreter."
prop("C24", "The Python validator agrees with the rules on values",
 "For numeric, bool, enum, string and bytes rules, in singular, repeated, map, oneof, optional and wrapper positions, validate(message) of the Python module raises ValidationFailed exactly when a rule is violated, as the Go code does, for any parameter values, zero, quotes, backslashes and newlines included; it raises nothing else, and gives the same answer every time.",
 ["programs", "inputs"], "random scalar rules with arbitrary parameters in every position x all values (patterns of the syntax that RE2 and Python share)",
 "No test runs the Python validator in the baseline, and the conformance cases hold a fixed list of messages.",
 ["python/protoc_gen_validate/validator.py"],
 [("templates per rule type", "python/protoc_gen_validate/validator.py in_template, num_template, string_template, bytes_template, enum_template"), ("choice of the template by rule type", "python/protoc_gen_validate/validator.py rule_type"), ("formats", "python/protoc_gen_validate/validator.py _validateHostName, _validateEmail")],
 ["validate(message)"], PYNOTE, PYTECH)
prop("C27", "The Python validator agrees with the rules on composites",
 "For embedded messages, lists, maps, oneofs, wrappers, Any, Duration and Timestamp rules, required, skip, disabled and ignored, validate(message) of the Python module raises ValidationFailed exactly when a rule of the message or of a nested one is violated, to any depth, and raises nothing else (no_sparse apart, which the Python module does not support).",
 ["programs", "inputs"], "random messages with composite fields and rules x all message trees",
 "No test runs the Python validator in the baseline.",
 ["python/protoc_gen_validate/validator.py"],
 [("templates of composite rules", "python/protoc_gen_validate/validator.py repeated_template, map_template, message_template, required_template, wrapper_template, duration_template, timestamp_template, any_template"), ("recursion into fields and the cache of compiled validators", "python/protoc_gen_validate/validator.py file_template, _validate_inner, ValidatingMessage")],
 ["validate(message)"], PYNOTE, PYTECH)

prop("C28", "The gRPC interceptors let exactly the valid messages pass",
 "For every sequence of events on a call, with any number of calls (also concurrent) through one interceptor: the server interceptor gives the service each message up to the first invalid one, in order; that one closes the call, once, with INVALID_ARGUMENT, the message of the ValidationException and a BadRequest detail with its field and reason, and after it no message and no half-close reach the service, while cancel, complete and ready always do. The client interceptor sends each valid message, in order, and throws for each invalid one, without sending it, a StatusRuntimeException with the same contents; everything else of the call is passed on unchanged, and so are other exceptions. Calls do not affect each other.",
 ["inputs", "histories", "schedules"], "event sequences of calls through one interceptor x messages x validators",
 "The Java unit tests do not run in the baseline and send one message per call.",
 ["java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc"],
 [("server side", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java"), ("client side", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingClientInterceptor.java"), ("status of an exception", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidationExceptions.java"), ("validator of a message", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java")],
 ["ServerCall, ServerCall.Listener and ClientCall around the interceptors"],
 "Exploration: tens of thousands of random scripts of calls (up to 4 calls through one interceptor, interleaved or in threads), with generated validators and scripted ones, against a state-machine model in Go. gRPC is not installed: harness/java/grpcstub has stand-ins for what the code uses, with calls that record what reaches them. Trusts javac, the stand-ins and the model.",
 "stateful property-based testing: random event sequences of calls through the interceptors against a state-machine model, with shrinking")

GO = {"C%02d" % i for i in range(1, 15)} | {"C21"}
CLAIMED = set(json.load(open(os.path.join(HERE, "tools/claimed.json"))))
NOTES = json.load(open(os.path.join(HERE, "tools/notes.json"))) if os.path.exists(os.path.join(HERE, "tools/notes.json")) else {}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] not in CLAIMED:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
        continue
    n = NOTES.get(p["id"], {})
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "technique": n.get("technique") or p["technique"] or GOTECH, "level": "exploration", "level_note": n.get("note") or p["note"] or GONOTE})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: everything is observed through protoc, the generated code and the public runtime."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
