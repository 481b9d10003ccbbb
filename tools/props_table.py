prop('C01', 'A mapped value has passed munge, filter and validate, in that order',
 'Whenever a field yields a value for a source value (or for a value handed to it directly), that value first went through munging, then filtering, then validation, each built-in step followed by the user hook registered for it, each run exactly once on the output of the step before. A value that validation turns down is never yielded, a value that munging or filtering drops is replaced by the default, and no later step runs once a step has dropped or turned down the value.',
 ['inputs', 'programs'], 'every source value, every field class (built-in or user-derived) and every combination of registered hooks and hook outcomes',
 'tests fix two or three munge hooks on well-formed values; the combinations of hook presence and outcome (none/dropped/rejected/falsy) are not enumerated',
 [F], [('Field.map / Field._map', F), ('Hook', F)], ['result of Field.map', 'calls made to hooks'])
prop('C02', 'Missing, dropped and filtered values follow the default policy',
 'When a field has no value (absent in the source, or dropped by munge or filter) it yields its default: the default hook\'s result, else a freshly called callable default, else the literal default, and this is never munged, filtered or validated. A field with no default instead records exactly one Missing error and yields nothing; an optional field yields nothing and records nothing. While defaults are suppressed in the context every such field counts as having no default, and while missing values are ignored in the context no Missing error is recorded.',
 ['inputs', 'configurations'], 'every way of having no value x every kind of default (absent, literal incl. None/falsy, callable, class, hook, optional) x both context switches',
 'tests use default=None, a literal and a lambda only, with both context switches at their initial value',
 [F, C], [('Field._default', F), ('Field._map', F), ('ctx.ignore_default / ctx.ignore_missing', C)], ['result of Field.map', 'recorded errors'])
prop('C03', 'Absent, null and falsy source values are told apart',
 'A field treats its value as missing only when its key does not exist in the source; an existing null yields None without being parsed, and every other value, including 0, False, empty strings and empty containers, is parsed and kept. A parse that fails with a value or source error yields no value and records exactly one Invalid error at the field\'s path.',
 ['inputs', 'programs'], 'every source value and every parse outcome, for built-in parsing and for parse/compute/resolve hooks',
 'the tests have no falsy non-null value in a required field and no parse hook at all',
 [F, S], [('Field._compute', F), ('Path.exists / Path.is_null', S)], ['result of Field.map', 'recorded errors'])
prop('C04', 'Null is accepted exactly by nullable fields',
 'For every built-in field type a null value is accepted, without further constraints being applied to it, if and only if the field is nullable; otherwise exactly one Invalid error is recorded and no value is yielded. A field is nullable unless it is declared with nullable=False, and a default of None makes it nullable in any case.',
 ['inputs', 'configurations'], 'every built-in field type, nullable or not, with any combination of constraints set, given null',
 'only two nullable fields occur in the tests and neither is given an explicit null',
 [F], [('_validate of every Field class', F), ('Field.options', F)], ['result of Field.map', 'recorded errors'])
prop('C05', 'Built-in rejections are always reported, acceptances never are',
 'Whenever built-in parsing or validation of any field type turns a value down, at least one error whose field is that field (or a field nested in it) is recorded, and the value does not appear in the result; whenever it accepts a value no error is recorded. An input that a field type (code fields aside) cannot parse is never silently turned into null or dropped.',
 ['inputs', 'configurations'], 'every built-in field type, every kind of input value and every setting of its constraints',
 'the tests check the messages of about ten rejections; silent rejections and spurious errors on the remaining branches are never exercised',
 [F], [('_parse/_validate of every Field class', F), ('Errors', F)], ['result of Field.map', 'recorded errors'])
prop('C06', 'Range constraints on numbers, dates and times are exact and inclusive',
 'Among values that can be compared with the bounds, a number is accepted if and only if it is not below the minimum and not above the maximum, a date, time or datetime if and only if it is not before the lower and not after the upper bound; each bound is inclusive, is applied independently of the other, and applies also when it is zero or falsy; a value that cannot be compared with a bound is invalid. This holds however the bound was given: constructor argument, range/between, min/max/after/before.',
 ['inputs', 'configurations'], 'every ordering of value, lower and upper bound, each bound set or unset, for all numeric and temporal field types',
 'tests hold one Integer range, never at or outside its bounds',
 [F], [('Number._validate', F), ('Date/Time/Datetime._validate', F), ('RangeMixin', F)], ['result of Field.map', 'recorded errors'])
prop('C07', 'String length, alphabet, pattern and choice constraints are exact',
 'A string is accepted if and only if its length lies within the inclusive bounds, all its characters are in the alphabet, the pattern matches it from its start, and it is one of the choices or of the translated values; constraints left unset do not restrict and all set ones must hold together. Translations replace exactly the values they list.',
 ['inputs', 'configurations'], 'every string, every subset of the constraints, each satisfied or violated',
 'tests exercise length=5 and choices with one value each; combinations and boundaries are not covered',
 [F], [('String._validate', F), ('Field._munge', F)], ['result of Field.map', 'recorded errors'])
prop('C08', 'Collection size and key constraints are exact',
 'A list is accepted if and only if its item count lies within the inclusive minimum and maximum, a mapping if and only if it holds every required key and at most the maximum number of keys. Each constraint is independent and unset ones do not restrict.',
 ['inputs', 'configurations'], 'every count relative to every bound, every subset of constraints',
 'no test sets any collection constraint',
 [F], [('List._validate', F), ('Dict._validate', F)], ['result of Field.map', 'recorded errors'])
prop('C09', 'Sequence fields map every element, in order, at its own position',
 'A list field maps each source item exactly once with its item field, in source order, at the path of that item, and yields exactly the items that produced a value; a non-sequence is an error unless single items are allowed, in which case it is mapped as one. A tuple field requires exactly as many items as it declares, maps item i with its i-th field and yields the mapped values in that order, leaving out items that yield none.',
 ['inputs', 'programs'], 'every sequence and every outcome of each element (value, falsy value, nothing, error)',
 'tests use well-formed lists and one invalid element',
 [F], [('List._parse', F), ('Tuple._parse', F)], ['result of Field.map', 'paths seen by element fields'])
prop('C10', 'Mapping and group fields map exactly the selected keys',
 'A mapping field yields one entry for each source key that passes the key filter, maps to a key and maps to a value, pairing each mapped key with the value mapped from that same key\'s path (of keys mapped to the same key the last counts); nothing else appears. A group field yields, in source order, one (key, match, value) triple for each source key matched by one of its field specifications, using the first specification that matches, and counts as missing only if no key matched; it cannot be declared with anything but fields that have a source key, (key or pattern, field) pairs, and lists of these.',
 ['inputs', 'programs'], 'every set of source keys and every outcome of key filter, key mapping and value mapping',
 'one Dict and one Group declaration are run once on one well-formed mapping',
 [F], [('Dict._parse', F), ('Group._parse / Group._match', F)], ['result of Field.map', 'recorded errors'])
prop('C11', 'Errors in nested forms surface in the enclosing form',
 'A sub-form field yields a form if and only if mapping that nested form recorded no error, and every error recorded by a nested form, at any depth and in any container, is also recorded, exactly once and in order, by the enclosing mapping. The nested form is mapped from the field\'s own position in the source with the reset and unmapped options declared on the field.',
 ['inputs', 'programs'], 'every nesting of forms in sub-form, list, dict and polymorphic fields, every pattern of failing fields',
 'one two-level nesting through a list is tested',
 [F], [('SubForm._parse', F), ('Form._nested_map', F)], ['Form.map result', 'recorded errors'])
prop('C12', 'Polymorphic forms are dispatched by their declared identity',
 'Casting or mapping a polymorphic value picks the form class that declares the identity found in (or computed from) the value, among all direct and indirect sub-classes, and maps it completely with that class; an identity nobody declares or that cannot be determined is reported as invalid and yields no form; a null identity counts as a missing value. Every choice declared by a class is dispatchable to it.',
 ['inputs', 'programs'], 'every hierarchy of forms, every identity value',
 'two flat hierarchies with two classes each; PolymorphicSubForm itself is never used in a test',
 [F, I], [('Type.cast/probe', F), ('Types', I), ('PolymorphicSubForm', F)], ['type of the mapped form', 'recorded errors'])
prop('C13', 'Mapping a form maps each selected field once and keeps exactly what mapped',
 'Mapping a form maps every declared field selected by the tags (all, without tags) exactly once in declaration order, whether or not earlier fields failed; afterwards the form holds, under each such field\'s name, the value the field yielded, if it yielded one. Fields not selected are neither mapped nor changed.',
 ['inputs', 'programs'], 'every set of declared fields, every tag selection, every pattern of field outcomes',
 'tags are never used in the tests; error patterns cover three cases',
 [F], [('Form._map', F), ('Form.map', F)], ['form contents', 'order of field mapping'])
prop('C14', 'Undeclared source keys are ignored or captured, never clobbering fields',
 'With unmapped="ignore" a form holds nothing but its declared fields; with "capture", or a value field, or a (key field, value field) pair, it additionally holds every source key that is not already one of its entries, mapped with those fields, and never overwrites an entry of a declared field. Any other string is rejected with an error.',
 ['inputs', 'configurations'], 'every source mapping, every directive',
 'the happy path of each directive is tested on one source; invalid entries, collisions and invalid directives are not',
 [F], [('Form._unmapped', F)], ['form contents', 'recorded errors'])
prop('C15', 'Errors are collected completely or raised, as asked',
 'Mapping with error collection never raises for invalid data below a root that is a mapping: it returns the list of all errors, empty exactly if everything was valid. Mapping with error="raise" returns the form if everything was valid and otherwise raises a form error carrying at least every distinct field error; constructing a form from data raises a form error carrying all of them, and otherwise leaves a fully mapped form. A root that is no mapping is refused with an error, whichever fields are selected.',
 ['inputs', 'configurations'], 'every pattern of invalid fields in both modes, root and nested',
 'raising mode is only exercised with valid data, collecting with one error',
 [F], [('Form.__init__', F), ('Form.map', F), ('RaiseErrors/CollectErrors', F), ('FormError', F)], ['return value', 'raised exception'])
prop('C16', 'Resetting a form forgets exactly the selected fields',
 'Mapping with reset removes the previous values of the fields selected by the tags (all without tags) before mapping, so that no stale value survives when the new source lacks it; without reset the previous values of fields that yield nothing are kept, and fields outside the tags are never removed.',
 ['histories', 'inputs'], 'every earlier content of the form, every tag selection, with and without reset',
 'no test maps a form twice',
 [F], [('Form._reset', F), ('Form.map', F), ('Field.__delete__', F)], ['form contents'])
prop('C17', 'Reading a form attribute maps it at most once and caches the value',
 'Reading a field as an attribute returns the stored value if there is one without mapping again; otherwise it maps the field once, in the position the form is being mapped from, stores and returns the value, and if nothing could be mapped raises without storing anything. Assigning and deleting the attribute set and remove exactly that entry.',
 ['histories', 'inputs'], 'every order of reads, writes, deletes and mapping, inside and outside of an ongoing mapping',
 'test_rewind covers one ongoing-mapping read; stored falsy values, failures and deletes are not covered',
 [F, C], [('Field.__get__/__set__/__delete__', F), ('Context.rewind', C)], ['attribute value', 'form contents', 'number of field mappings'])
prop('C18', 'Declared fields are complete, named, and ordered by declaration',
 'A form class lists each of its own and inherited fields exactly once, each knowing its attribute name, with its source key defaulting to that name, in declaration order; a field that overrides an inherited one takes over its place in the order. Attaching never renames an explicitly given source key and sub-classing never changes the field list of a base.',
 ['programs'], 'every class hierarchy of forms',
 'declaration order and overriding are only implicitly used by two tests',
 [F], [('FormMeta', F), ('Field.attach', F), ('CreatedCountMixin', F)], ['Form.fields'])
prop('C19', 'Hooks accept only matching signatures and run against the form',
 'Registering a function on a hook is accepted only if its signature is the one of the step it replaces and otherwise raises a type error leaving the hook unset; registration on a field under declaration returns the outermost field, so that decorating keeps the attribute. A registered hook is invoked with the form being mapped (or the target it was attached to) followed by the step\'s arguments, and registration on one field affects no other field.',
 ['programs', 'inputs'], 'every hook of every field type, every signature',
 'tests register munge and compute hooks with the right signature only',
 [F], [('Hook.__call__', F), ('Field.__init__', F)], ['hook call arguments', 'exception at registration'])
prop('C20', 'Field builders configure only their own field',
 'Declaring options, ignores, translations or tags on a field, or deriving a field by clone or constant, changes only that field: no other field, whether created before or after or the one it was derived from, behaves differently. Options left out keep their previous setting.',
 ['programs', 'histories'], 'every sequence of builder calls on any set of fields',
 'no test builds two fields and compares them afterwards',
 [F], [('Field.options/clone/constant/ignore/translate/tag', F)], ['field behaviour'])
prop('C21', 'Mapping leaves context and path as it found them on every exit',
 'After any mapping operation, attribute read or context block ends, normally or by any exception raised by a hook, a source, a parser or the library itself, the thread\'s context stack has the same frames and the current source path the same parts as before.',
 ['inputs', 'fault_sequences', 'programs'], 'every operation, every point at which user code or a source may raise',
 'tests never let a hook or source raise out of the library and never look at the stack afterwards',
 [C, F, S], [('Context.push/restore', C), ('Close.__exit__', C), ('with blocks', F)], ['ctx.stack', 'ctx.src_path'],
 [('ctx.stack', 'frames of variables, one list per thread', C), ('path.parts', 'keys pushed so far', S)])
prop('C22', 'Rewinding exposes an earlier frame and restores exactly',
 'Rewinding to a frame hides exactly the frames above the topmost frame that satisfies the stop condition and removes exactly the path parts these pushed on the path that becomes current; leaving the block, normally or by exception, puts the same frames and parts back in the same order. If no frame satisfies it, an error is raised and nothing changes.',
 ['histories', 'fault_sequences'], 'every stack of plain, keyed and source frames, every stop frame including the topmost',
 'one two-frame rewind occurs in test_rewind',
 [C], [('Context.rewind', C), ('Context.restore', C)], ['ctx.stack', 'ctx.src_path'])
prop('C23', 'Context variables resolve innermost first',
 'Reading a context variable returns the value of the innermost frame that defines it, even if that value is None or falsy, all values of a name are listed outermost first, and a name that neither a frame nor the context itself defines raises an attribute error. Pushing a source starts a new root path, pushing a key extends the current path by that key, any other push leaves the path alone.',
 ['histories'], 'every stack of frames and every variable name',
 'only keyed pushes are looked at',
 [C], [('Context.__getattr__/push/values_for/reset', C), ('Frame', C)], ['ctx attributes', 'ctx.src_path'])
prop('C24', 'Concurrent mappings in different threads do not affect each other',
 'Mapping a form in one thread touches no mutable state that a mapping in another thread can see, other than idempotent caches of facts derived from the declarations and the counter that orders declarations: context frames, paths, errors and warning filters are private to the thread.',
 ['schedules'], 'every interleaving of mappings sharing form classes',
 'no test uses threads',
 [C, F, S, I], [('Context(threading.local)', C), ('absence of writes to shared objects on the mapping path', F)], ['shared objects written'])
prop('C25', 'Mapping never modifies declarations or source data',
 'Mapping, reading attributes, probing identities and deriving views never modify the field declarations, form classes, hooks, or the data held by a source, so that mapping the same source again with the same declarations starts from the same state.',
 ['histories', 'inputs'], 'every mapping operation over every field type and source type',
 'no test compares declarations or source data before and after mapping',
 [F, S], [('absence of writes to declaration and data objects', F)], ['objects written'])
prop('C26', 'Primitive conversion follows one table and yields the requested type',
 'For mapping, list and config data, asking for a string, integer, float or boolean yields a value of that type or fails with the source\'s error: strings only from strings; integers from non-boolean integers, integral floats and integer text; floats from floats, non-boolean integers and numeric text (whether a boolean also reads as a float is left open); booleans from booleans, integers (non-zero is true) and the texts 0/f/false and 1/t/true in any case. Asking for no type returns the value unchanged.',
 ['inputs'], 'every source value and every requested primitive type',
 'tests read nine values, all convertible',
 [S, SD, SC], [('ParserMixin', S)], ['Source.primitive result'])
prop('C27', 'JSON conversion is lenient by default and exact in strict mode',
 'A strict JSON source only yields strings from strings, integers from integers, floats from numbers and booleans from booleans and fails with the source\'s error otherwise; a lenient one additionally renders any value as string, reads integral floats and integer text as integers, numeric text as floats and integers as booleans (whether a boolean also reads as a float is left open). Either way the yielded value has the requested type.',
 ['inputs', 'configurations'], 'every JSON value, every requested type, both modes',
 'the only JSON test does not convert anything',
 [SJ], [('JsonSource.as_*', SJ)], ['Source.primitive result'])
prop('C28', 'Unparsable data surfaces as a field error, not as a foreign exception',
 'For every built-in field type and built-in source, data that cannot be converted, has the wrong shape, or is out of the convertible range makes the field invalid through a recorded Invalid error; no other exception leaves the mapping because of data.',
 ['inputs'], 'every built-in field type x every kind of source value',
 'tests feed a handful of malformed values, none to Decimal, UUID, Date, Time, Tuple or Code',
 [F, S, SJ], [('Field._compute', F), ('Source.error', S)], ['exceptions leaving Form.map'])
prop('C29', 'Looking up a missing key or position never raises',
 'Resolving a path whose key, index or attribute does not exist, or that descends into a value that is not a container, reports the path as not existing, for every source type; an existing value, including null and falsy ones, is reported as existing and returned as it is in the data. Text counts as a sequence of characters, and values of a union other than its merged mappings and sequences are reached through these.',
 ['inputs'], 'every data shape and every path',
 'tests look up about ten paths per source',
 [S, SD, SJ, SC, SU, SM], [('Path.resolve of every path class', S), ('Path.value', S)], ['Path.exists', 'Path.value'])
prop('C30', 'Container access is granted only to containers of the asked kind',
 'Asking a source for the length of a sequence or the keys of a mapping answers truthfully for values of that kind and fails with the source\'s error for every other value, for every source type.',
 ['inputs'], 'every value at the path, every source type',
 'one wrong-shape access is tested, through a union',
 [SD, SJ, SC, SU, SM], [('Source.mapping/sequence', S)], ['result or error of mapping()/sequence()'])
prop('C31', 'A union merges mappings and sequences by its merge policy',
 'Below the root of a union, merging mappings, "first" exposes the keys of the first source that has the path, "last" those of the last that has it, "combine" the keys of all, a key present in several taking its value from the earliest; merging sequences, "combine" concatenates in source order, "first" and "last" keep one. The root combines the keys of all sources; a source that lacks the path or holds null there does not contribute (with "first" a null in the first source that has the path leaves nothing), what holds nothing but nulls is null, also after its container was asked for, and an unknown policy is rejected when it is needed.',
 ['inputs', 'configurations'], 'every list of sources, each lacking the path, holding null or a container, every policy',
 'one pair of sources per policy is tested, without nulls, gaps or a third source',
 [SU], [('union.Mapping', SU), ('union.Sequence', SU)], ['keys and values seen through the union'])
prop('C32', 'A union path addresses the same position in every source',
 'Every insertion, replacement or removal of a path part through a union is applied at the same position of every member path, and values read through a union are the earliest value that is not null, are converted to the requested type as in the member they come from, are null exactly if null in every member that has them, and missing exactly if missing in all.',
 ['inputs', 'histories'], 'every sequence of path operations and reads over any number of sources',
 'the merge test reads each position once, with one type',
 [SU], [('UnionPath', SU), ('Join', SU), ('UnionSource.primitive', SU)], ['member paths', 'Source.primitive result'])
prop('C33', 'A mounted source routes each path to the source mounted at its head',
 'Below a mount the first path part selects the mounted source and the remaining parts address data within it; an unknown mount point does not exist, the root lists exactly the mount points, and operations below one mount leave the others untouched.',
 ['inputs', 'histories'], 'every set of mounted sources and every path',
 'mounting has no test',
 [SM], [('MountPath', SM), ('MountSource', SM)], ['Path.value / exists / mapping'])
prop('C34', 'A config source exposes sections, options, sub-options and defaults',
 'A config source without section exposes sections as mappings, with a section that section\'s options; name[key] options appear together as one mapping under name; an option that is not set falls back to the supplied defaults and otherwise does not exist; multi-line text reads as a sequence of its non-blank lines and single-line text as its shell words.',
 ['inputs', 'configurations'], 'every configuration content and every source option',
 'the only test looks up keys that do not exist',
 [SC], [('SectionMapping', SC), ('Mapping', SC), ('Sequence', SC)], ['Path.value / exists / mapping / sequence'])
prop('C35', 'Aliases, ignores, dotted and call keys resolve by fixed precedence',
 'In native data a key resolves to the item of that name, else at the top level to the item its alias points to, else to the attribute of that name; if none exists the key is retried as a dotted path, and a key ending in () yields the result of calling what the rest resolves to. A path listed as ignored never exists, however it is addressed; nor does anything below it; paths that merely start like it are not affected.',
 ['inputs', 'configurations'], 'every container, key, alias table and ignore list',
 'aliases are only used implicitly and ignores, attributes and calls not at all',
 [SD], [('DefaultPath._resolve/resolve', SD), ('DefaultSource.ignore', SD)], ['Path.value / exists'])
prop('C36', 'Errors name the exact location of the offending value',
 'The message of every recorded error starts with the rendered path of the value it concerns, keys joined by dots, positions after the first part in brackets, prefixed by the location of the source if it has one, and the error carries the field concerned and that path, which stays as it was when the error was recorded (so do the errors of sources). Below a mount the rendered path names the mount point first (@mount, or @mount: and the path within the mounted source); errors of the keys of a mapping field are located at that mapping.',
 ['inputs', 'programs'], 'every path and every error site',
 'messages of about ten errors are compared',
 [F, S, SD, SJ, SC], [('Path.__str__', S), ('Missing/Invalid/FieldError', F)], ['error message', 'error.field', 'error.path'])
prop('C37', 'Copies and filtered views are faithful and leave the form alone',
 'Copying a form yields an equal form of the same class; munging or filtering yields a form of the same class whose entries are exactly those the function or tags keep, applied also to nested forms and to forms in sequences; flattening lists every stored leaf once with its field path in declaration order. None of them modifies the original form or shares its top-level storage.',
 ['inputs', 'programs'], 'every form content, including nested forms, lists and falsy values',
 'these operations have no test',
 [F], [('Form.copy/munge/filter/flatten', F)], ['returned form', 'original form'])
prop('C38', 'Every feature runs on both Python 2.7 and Python 3',
 'No operation of the library depends on a function, method, syntax meaning or module attribute that exists in only one of the supported Python versions, unless guarded by a version or availability check.',
 ['configurations', 'programs'], 'every function of the package on every supported interpreter line',
 'the tests never execute the affected functions (config text, mounts, inline code, from_context)',
 [F, S, SD, SJ, SC, SU, SM, C, I], [('six', S)], ['attribute references'])
prop('C39', 'Temporal fields parse by their declared formats in order',
 'A date, time or datetime field keeps values that already have the right type and parses text with its declared format(s): with several formats the first one that fits determines the value, and text that fits none of them, or a field without format, is reported as invalid with exactly one error.',
 ['inputs', 'configurations'], 'every list of formats and every pattern of formats that fit',
 'one ISO datetime without check of its value is parsed in the tests',
 [F], [('Date._parse', F), ('Time._parse', F), ('Datetime._parse', F)], ['result of Field.map', 'recorded errors'])
prop('C40', 'Code fields yield exactly what the text denotes',
 'A code field given text that starts as module:attribute yields that attribute of that module, given multi-line text yields a module holding what the code defines, keeps non-text values, and reports text that can be neither resolved nor compiled as invalid. Code compiled with given names can use them, and its module holds them beside what the code defines.',
 ['inputs'], 'every text',
 'code fields have no test',
 [F], [('Code._parse/load/compile', F)], ['result of Field.map', 'recorded errors'])
prop('C43', 'A path stands for the value at its current parts, however it was changed',
 'At any time the parts, value, existence, nullness, name and rendering of a source path are those of a newly built path with the same parts: after any sequence of appending, inserting, replacing, removing, reversing and clearing parts, and no matter whether or where values were read in between. Parts can be looked up, counted, iterated and compared like the items of a list.',
 ['inputs', 'histories'], 'every sequence of changes to a path, interleaved in any way with reads',
 'values are resolved lazily and remembered per part; the tests only ever append, read once and pop',
 [S, SD, SJ, SC, SM], [('Path', S), ('PathPart', S), ('MountPath', SM)], ['Path.value / exists / is_null / parts / str'])
prop('C44', 'Constant, format, capture, pattern and context fields yield what they denote',
 'A constant field yields its constant (one its type can hold) whatever the source holds; a formatted text field yields the format filled with the named (dotted) fields of the form it belongs to and is invalid if one of them cannot be mapped; a capturing text field yields the group of the given name, else (if no name is given) the group named like the field, else the first group, and counts as missing if the text does not match; a numeric field with a pattern reads the number from the text the pattern matches; a field read from the context takes the innermost context variable named by its key, parses it like a source value and counts as missing if there is none. Built from an attached field these are independent copies, and later steps (filter, validate, constraints) apply as usual.',
 ['inputs', 'configurations'], 'every text, pattern and format, constants and context variables of any kind, on fresh, attached and copied fields',
 'constant and capture are used once each, format, pattern and from_context not at all',
 [F], [('Field.constant / from_context', F), ('String.format / capture', F), ('Integer.pattern / Float.pattern', F), ('Type.constant', F)], ['result of Field.map', 'recorded errors'])
prop('C45', 'Options in the context govern every mapping below, innermost first',
 'Tags, ignore_default, ignore_missing and the error classes Missing and Invalid put in the context apply to every form mapped while their block lasts, at any depth (sub-forms, polymorphic sub-forms, items of sequences, values of mappings and groups) and also to fields read by hooks; the innermost block counts even if it sets an option back, and nothing lasts beyond its block. Tags given as an argument come before those of the context, no tags (None or empty) select every field, and the identity of a polymorphic sub-form is determined whatever is selected. Invalid values are reported whatever is ignored.',
 ['inputs', 'configurations'], 'every combination and nesting of options around mappings of forms nested in any way',
 'no test sets tags, switches or error classes in the context',
 [F, C, I], [('Form.map / Form._map', F), ('Field._default', F), ('Errors.missing / invalid', F), ('Types.probe', I)], ['form contents', 'recorded errors'])
prop('C46', 'Text of several lines can be read exactly as it stands in the config file',
 'A config source that preserves whitespace reads an option whose text has several lines as the lines of that option in the file (text on the line of the option first), each with its indentation relative to the least indented continuation line; never the lines of another option (also one whose name starts alike), of another section, or of text that only reads like an option or section; sub-options name[key] and, without section, options of the section named by the first key alike. Text of a single line, other types, and text that is not set in the section of the file (defaults) are read as parsed. Reading a source from a file is the same as reading its text, with the file name as location, and files are closed again.',
 ['inputs', 'configurations'], 'every config file and every option in it',
 'the option is not tested at all',
 [SC], [('ConfigSource.as_raw', SC), ('ConfigSource.from_file', SC)], ['Path.primitive'])
prop('C47', 'A form tells which fields it has, and attached values know their parent',
 'Form.has answers True for a name the form holds an entry of and for a field (by name or field object, own or inherited) that holds or can be mapped to a value other than null, which it then holds; it answers False, and neither raises nor leaves anything behind, for a declared field that is missing, invalid or null or the hooks of which fail to look something up, and for a name that is neither held nor a declared field (attributes and methods are no fields), and raises a type error for anything else. The value of a field that attaches its parent has the form it belongs to as parent (none if it was mapped outside of forms), also if it is a default, computed, or mapped by reading the attribute; other values get no parent, and a null or failed value is no error.',
 ['inputs', 'histories'], 'every field, value and moment at which a form is asked',
 'neither is tested',
 [F], [('Form.has', F), ('Field.map (attach_parent)', F)], ['result of Form.has', 'value.parent'])
prop('C48', 'Forms and sources are made from data of the documented kinds only',
 'A form maps the same from a mapping, a list or tuple (each field, whatever the name of a key of its own, takes the item at its position in declaration order), keywords, or a source of the same data, given to the constructor or to map; without data it maps from the current position inside an ongoing mapping and from an empty mapping outside, and given data inside another mapping it maps and reports on its own. Empty data is data. Anything else given to map is turned down with a value error before anything changes. Form classes made from fields have these and those of their base. A JSON source holds what its text (or encoded bytes) says or raises a value error, a union takes sources and mappings, a mount sources and dictionaries, a config source text or a parser, and anything else or options they cannot fulfil are turned down when they are made.',
 ['inputs', 'configurations'], 'every kind of data and source',
 'tests map from dictionaries almost exclusively and never give anything else',
 [F, SD, SJ, SC, SU, SM], [('Form.__init__ / map / _root_map / _seq_source', F), ('constructors of the sources', S)], ['form contents', 'exceptions'])
prop('C41', 'Converted numbers and decimals equal the number the text denotes',
 'The number a numeric field yields is numerically equal to the number its source text or value denotes, for integers, floats and decimals of any magnitude.',
 ['inputs'], 'every numeric text', 'infinitely many texts', [F, S], [('ParserMixin.as_int/as_float', S), ('Decimal._parse', F)], ['value'])
prop('C42', 'Deeply nested data is mapped without exhausting the stack',
 'Mapping data nested to any depth that the interpreter\'s parser accepts terminates with a result or a recorded error and never with a stack overflow.',
 ['inputs'], 'every nesting depth', 'depth is unbounded', [F, S], [('recursion SubForm -> Form.map', F)], ['exceptions'])
