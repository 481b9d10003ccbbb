"""What decides each property: specification modules (abstract interpretation) and structural rules."""
from rules import portability

# bound on the number of abstract elements of a collection of unknown size, and seconds per entry point
K = {'quick': 3, 'thorough': 4}
BUDGET = {'quick': 300, 'thorough': 5000}
#: seconds for all entry points of a property together
TOTAL = {'quick': 600, 'thorough': 20000}

RULE = ('Each entry point of the specification is analysed by abstract interpretation of the current source of '
        'pilo: inputs are abstract (any value of the stated kinds), every branch the facts at hand leave open is '
        'taken both ways, states are joined at function ends; an obligation counts as decided when a path of the '
        'abstract program reaches it, and is non-trivial when its label differs.')
ASSUMPTIONS = [
    'library functions (six, re, json, shlex, datetime, ...) behave as their stubs in absint/stubs say',
    'collections of unknown size are analysed up to K elements (collection_bound_K)',
    'the order of floats is total (no NaN); decimals that are no number raise when compared',
    'language semantics are those of Python 3 (the other supported lines are covered by the rule of C38)',
]
TECHNIQUE = 'path-sensitive abstract interpretation of the source (type tags, sentinels, order facts)'
NOTE = ('Sound over the abstract inputs the entry points quantify over (any value of the stated kinds, any outcome of '
        'opaque hooks), collections bounded to K elements, field and source types enumerated; trusts the analyser in '
        'absint/ and its stubs of the standard library. Not a proof: declarations outside the enumerated ones are not '
        'covered.')
NOT_APPLICABLE = {
    'C41': 'Numeric equality between arbitrary text and the parsed number is a relation over unbounded runtime values '
           'computed inside int(), float() and decimal.Decimal(); no static argument over the source of pilo bounds '
           'it (which conversion is applied, and to what, is decided under C26 and C27).',
    'C42': 'The depth of the recursion between sub-forms is that of the data, a runtime quantity; pilo recurses '
           'structurally by design and no static argument bounds the stack it needs.',
}

PROPS = {}


def prop(pid, explanation, *specs, **kw):
    PROPS[pid] = dict(kw, specs=list(specs) or [pid.lower()], explanation=explanation)


prop('C01', 'Every field type is mapped from any value with opaque munge, filter and validate hooks present or absent '
     'and any outcome of each (value, nothing, falsy, rejection); the trace of steps, their arguments and the yielded '
     'value are compared with the prescribed sequence on every path.')
prop('C02', 'Every way of having no value (absent, dropped by munge, filtered) x every kind of default x both context '
     'switches; on every path the yielded value, its identity, the errors and the absence of further steps are compared '
     'with the policy.')
prop('C03', 'Any value, null, falsy constants of each type and absence at a key of native, JSON, mounted and joined '
     'sources, with built-in and opaque parse hooks that may fail in each way.')
prop('C04', 'Null from a source, produced by munging or translation, or handed in, given to every field type with all '
     'constraints set, for each way of declaring nullability.')
prop('C05', 'Every field type with and without constraints, over any value of any kind: on every path the number and '
     'place of errors and the presence of the value in the result must correspond.')
prop('C06', 'Values and bounds are abstract members of an ordered set; every order relation of value, lower and upper '
     'bound that the code distinguishes is a path, and on each acceptance must equal lower <= value <= upper, for every '
     'numeric and temporal type and every way of giving the bound.')
prop('C07', 'Strings are abstract with length and predicate facts (matches, member, all in alphabet); on every path '
     'acceptance must equal the conjunction of the constraints set; translations are compared with the table.')
prop('C08', 'Lists and mappings of up to K abstract elements, each possibly yielding nothing, against abstract bounds '
     'and key sets; acceptance must equal the inequality or inclusion on every path.')
prop('C09', 'Sequences of up to K abstract elements, each mapped by an opaque item field with any outcome; the paths, '
     'order and multiplicity seen by the item field and the resulting list are compared on every path.')
prop('C10', 'Mappings of up to K abstract keys and values with opaque key filter, key field and value field; groups '
     'with text and pattern specifications over any keys; results are compared entry by entry.')
prop('C11', 'Forms nested in sub-form, list, dict and polymorphic fields with every pattern of failing fields; errors '
     'of the enclosing mapping are compared in number, order and field with those of the nested one.')
prop('C12', 'Hierarchies of forms (flat, deep, branching, declared later, inheriting or computing identities) '
     'dispatched on any identity value; the class picked and the errors are compared with the declarations.')
prop('C13', 'Forms with opaque fields of any outcome, any tag selection; the trace of field mappings and the resulting '
     'entries are compared on every path.')
prop('C14', 'Sources with up to K further abstract keys, every directive, key and value fields of any outcome; entries '
     'are compared with declared fields plus captured keys on every path.')
prop('C15', 'Every pattern of failing fields, in collecting, raising and constructing mode, root and nested; result, '
     'exception and the errors carried are compared.')
prop('C16', 'Forms with any previous entries mapped again with every tag selection and reset setting; which entries '
     'survive is compared on every path.')
prop('C17', 'Reads, writes and deletes of attributes in and outside of mappings, with stored values of any kind and '
     'any outcome of the field; the count of mappings, the entries and the position read from are compared.')
prop('C18', 'Class statements of forms are analysed themselves (metaclass included) for hierarchies with overriding, '
     'multiple inheritance, removed and aliased fields; the field list of every class is compared.')
prop('C19', 'Every hook of every field type is registered with every relevant signature; acceptance, return value, '
     'target and arguments of later invocations are compared.')
prop('C20', 'Each builder is applied to one field of several related ones (created before and after, clones, '
     'constants); all others are compared with snapshots and by their behaviour on any value.')
prop('C21', 'Exceptions are thrown from opaque hooks, parsers and sources at every step of every operation; on each '
     'exit of each path the frames of the context and the parts of the path are compared with those at entry.')
prop('C22', 'Stacks of up to three (thorough: four) frames of each kind, every stop condition, every way of leaving '
     'the block; frames and parts inside and after are compared.')
prop('C23', 'Stacks of up to three frames defining a variable or not, with any value; lookup, listing, paths of each '
     'push and the view of another thread are compared.')
prop('C24', 'Effect analysis by write barrier: everything reachable from declarations, modules and other shared objects '
     'is frozen, then any data is mapped with every field type, hook, option and source; a write to a frozen object on '
     'any path is a violation (idempotent caches and the creation counter excepted by name of slot).')
prop('C25', 'Effect analysis by write barrier: declarations, classes, hooks, arguments and source data are frozen while '
     'forms are mapped, read, probed and viewed; a write to a frozen object on any path is a violation; a second '
     'mapping is compared with the first.')
prop('C26', 'Any value of any kind at a path of a native or config source, read by every type; result and error are '
     'compared with the conversion table on every path.')
prop('C27', 'Any JSON value in lenient and strict mode, read by every type; result and error are compared with the '
     'table on every path.')
prop('C28', 'Exception-flow analysis: every field type over any value of any kind below every source type; an exception '
     'other than the recorded error that can leave the mapping on any path is a violation.',
     assumptions=['exceptions of library functions are those their stubs raise'])
prop('C29', 'Paths of up to three parts of any kind over data of any shape in every source type; existence and value '
     'are compared with the data, and any exception is a violation.')
prop('C30', 'Any value at a path of every source type, asked for its keys and its length; answers are compared with '
     'the data and the only exception allowed is the error of the source.')
prop('C31', 'Unions of two and three sources each lacking the path, holding null or a container, for every policy; '
     'keys, values and order are compared with a direct statement of the policy.')
prop('C32', 'Every sequence of three path operations on unions of up to three sources; positions of members, values, '
     'conversions and null are compared with those of the members on their own.')
prop('C33', 'Mounted sources of every kind addressed by paths of any parts; values, containers and conversions are '
     'compared with those of the mounted source on its own.')
prop('C34', 'Config contents with sections, options, sub-options, lines and defaults, constant and abstract; values, '
     'listings and sequences are compared with the content.')
prop('C35', 'Containers, alias tables, ignores, dotted and call keys in all combinations; value and existence are '
     'compared with the precedence on every path.')
prop('C36', 'Errors of every kind at any path of up to three parts, from every source type and error site; the message '
     'must start with the rendered path on every path of the program.')
prop('C37', 'Forms with up to K entries of any kind, nested directly and in sequences; copies and views are compared '
     'entry by entry and the original with a snapshot.')
prop('C38', 'Name, attribute, module and construct lookup: every file of the package is walked once per supported '
     'version (2.7, 3.5 to 3.9), branches guarded by version or availability tests are resolved, and every remaining '
     'use of a name that the version lacks is a violation; the features concerned are also analysed on Python 3.',
     rules=[portability.rule], portable=True,
     technique='version-resolved syntax-tree rule over every name and attribute, plus abstract interpretation',
     assumptions=['the tables of rules/portability.py list what each Python version has',
                  'a version-limited method name is version-limited on any receiver'])
prop('C39', 'Date, time and datetime fields with every list of formats and every pattern of formats that fit (an '
     'uninterpreted relation of text and format); the value, its origin and the errors are compared.')
prop('C40', 'Any text, with uninterpreted results of importing, compiling and running it; value and errors are compared '
     'with what the text denotes.')
prop('C43', 'Every single operation and every sequence of three of append, insert, replace, remove, reverse and clear on '
     'paths of native, JSON, config and mounted sources, with values read in between or not; parts, value, existence, '
     'null, name and rendering are compared with those of a newly built path of the same parts.')
prop('C44', 'Constants of any kind, formats over own and nested values, captures and number patterns over any text '
     '(matching an uninterpreted relation of pattern and text), context variables of any kind, on plain, attached and '
     'derived fields; the value is compared with what the builder denotes on every path.')
prop('C45', 'Tags, both default switches and both error classes put in the context around mappings of forms nested by every '
     'kind of container field, alone, in nested blocks and against arguments; the errors and entries of the nested '
     'forms are compared with what the innermost option asks for.')
prop('C46', 'Options with text of several lines in every shape (indentation, blank lines, text on the line of the option, '
     'lines that read like options and sections) among every kind of neighbour, in sections, sub-options and defaults, '
     'read from files and from text; the text read is compared with the lines of the option.')
prop('C47', 'Asking for held, mappable, missing, invalid and null fields by name and by field, outside of and during '
     'mappings, and for anything else; values of sub-forms, polymorphic and computed fields attached to their parent at '
     'any depth; answers, entries and parents are compared with what the form can map.')
prop('C48', 'Every kind of value handed to the constructor, as keywords and to map, inside and outside of ongoing mappings; '
     'sequences of up to four items for fields with any keys; JSON, config, union and mounted sources of text, parsers, '
     'mappings and sources; the form is compared with the one mapped from a dictionary of the same data.')
