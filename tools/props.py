"""The properties, their anchors and what their checks cover."""
STD = ('Contracts of the named functions are discharged for all inputs by z3 from the current '
       'source; the same contracts and the end-to-end drivers are also run natively on random '
       'inputs (bounded, never counted as proved). Trusts pvc (the verifier in this repository), '
       'z3, CPython, and the library functions listed as uninterpreted in the evidence. ')
PROPS = []
NA = []
NOTES = ('Checks prove contracts from /repo\'s current source on every run (no hooks in /repo). '
         'fix: commits in /repo are listed in known_findings.json.')


def prop(id, title, statement, over, all, why, files, mech, note='', **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why,
                      files=files, mech=mech, note=STD + note, **k))


prop('C06', 'Every validation rule accepts exactly the values its definition names',
     'For every value and every parameter (given directly or as a function of nothing, the owner, '
     'or the owner and the context), each scalar validation rule - bounds, lengths, equality, '
     'membership, prefix and suffix, parity and sign, text classes and patterns, dates, presence '
     'and conditional presence, custom validators, value comparison, object identity, basic types '
     'and operator permission - raises a validation error exactly when the rule is broken. '
     'Values the rule does not apply to pass; a rejection carries one message, at the key path of '
     'the field, on the root object.',
     ['inputs'], 'all values of every kind, all parameters and parameter forms',
     'Tests try one or two values per rule; the rules differ at boundaries, on falsy values, on '
     'other value kinds and on parameter forms that no test enumerates.',
     ['jsonclasses/modifiers/', 'jsonclasses/ctx.py', 'jsonclasses/excs.py'],
     [('validate() of each rule modifier', 'jsonclasses/modifiers/*_modifier.py'),
      ('parameter resolution', 'jsonclasses/modifiers/modifier.py: Modifier.resolve_param')],
     'email matching is an uninterpreted predicate of pattern and text (word boundaries).',
     observe=['Modifier.validate', 'object.validate()'])

prop('C07', 'Value transformers compute their function and pass all else through',
     'For every value and parameter, each value transformer - arithmetic, rounding and bounding, '
     'text case, trimming, padding, truncation, replacement, splitting and joining, list and text '
     'editing, conversions, mapping and filtering, defaults, and the begin-of / next-period date '
     'transformers - returns exactly its documented function of the value. Values it does not '
     'apply to, including null, are returned unchanged, and the input value itself is never '
     'modified.',
     ['inputs'], 'all values of every kind, all parameters and parameter forms',
     'Tests try one or two values per transformer; negative indices, falsy values, empty texts, '
     'month and year ends and foreign value kinds are not enumerated.',
     ['jsonclasses/modifiers/'],
     [('transform() of each transformer modifier', 'jsonclasses/modifiers/*_modifier.py')],
     'Library operations the transformer is defined by (str methods, math, calendar arithmetic) '
     'are uninterpreted or axiomatised; random and salted values are out of scope.',
     observe=['Modifier.transform', 'object construction and set()'])

prop('C08', 'An owned list is a list, and its owner hears of every change',
     'For every list content, argument and index, each operation of OwnedList has exactly the '
     'result, the error and the final contents of the same operation on a plain list. An '
     'operation that changes the list first tells its owner, once, that the list will change '
     '(while it still holds its old contents), and then reports every removed item and every '
     'added item with the index it really has, in order; sort and reverse are reported as a '
     'reordering. An operation that changes nothing, fails, or only reads reports nothing '
     'that was not done; any iterable, even one readable only once, is accepted where a list '
     'accepts it.',
     ['inputs', 'histories'], 'all contents, indices, slices and added iterables',
     'Change tracking and relationship links are built on these reports; tests try one call per '
     'method on one list, never negative, out-of-range or slice indices in general.',
     ['jsonclasses/olist.py'],
     [('OwnedList mutators and their owner notifications', 'jsonclasses/olist.py: OwnedList')],
     'Stepped slices, sort and one-shot iterators are bounded native checks.',
     observe=['OwnedList methods', 'owner.__olist_will_change__/__olist_add__/__olist_del__/__olist_sor__'])

prop('C09', 'An owned dict is a dict, and its owner hears of every change',
     'For every dict content, key and argument, each operation of OwnedDict has exactly the '
     'result, the error and the final contents of the same operation on a plain dict. An '
     'operation that changes the dict first tells its owner that the dict will change (while it '
     'still holds its old contents), and then reports every removed value and every added key '
     'and value. Operations that change nothing, fail, or only read report nothing that was not '
     'done.',
     ['inputs', 'histories'], 'all contents, keys, defaults and update arguments',
     'Change tracking is built on these reports; tests try one call per method, never defaults, '
     'missing keys, iterators and overwritten keys in general.',
     ['jsonclasses/odict.py'],
     [('OwnedDict mutators and their owner notifications', 'jsonclasses/odict.py: OwnedDict')],
     'popitem, keyword updates and one-shot iterators are bounded native checks.',
     observe=['OwnedDict methods', 'owner.__odict_will_change__/__odict_add__/__odict_del__'])

prop('C10', 'Converting a collection to its owned form and back loses nothing',
     'For every list or dict, nested to any depth, to_owned_list and to_owned_dict return an '
     'owned collection with the same items in the same order, in which every nested list and '
     'dict is owned too, by the same owner, at the key path of its place; unowned_copy_list and '
     'unowned_copy_dict return a new plain collection in which every nested collection is plain. '
     'The source is never modified, and non-collection values are the same values.',
     ['inputs'], 'all lists and dicts, all nestings, all owners and key paths',
     'Change records of nested collections rely on key paths at every depth; tests convert a few '
     'flat collections.',
     ['jsonclasses/outils.py'],
     [('to_owned_list, to_owned_dict, unowned_copy_list, unowned_copy_dict', 'jsonclasses/outils.py')],
     'Recursion is handled by assume-guarantee on the same contracts (termination not proved).',
     observe=['the conversion functions', 'previous values and values of list and dict fields'])

prop('C01', 'Input writes exactly the fields it may write',
     'For every class definition, current object state and input, giving input to an object '
     '(construction or set, by field name, JSON name, reference key or key path, at any nesting) '
     'never writes a readonly field, never replaces the present value of a writeonce field, and '
     'never nulls a writenonnull field; every other field the input names gets its transformed '
     'value, and no other field changes. A new object has all remaining fields filled with their '
     'defaults. update writes exactly the given fields whatever their rules and refuses unknown '
     'names before writing anything.',
     ['inputs', 'histories'], 'all class definitions, object states and inputs',
     'Tests set one field per rule; they do not combine rules with nesting, reference keys, key '
     'paths, null values or repeated objects.',
     ['jsonclasses/modifiers/instanceof_modifier.py', 'jsonclasses/jsonclassify.py'],
     [('InstanceOfModifier.transform', 'jsonclasses/modifiers/instanceof_modifier.py'),
      ('_set, _update, __init__', 'jsonclasses/jsonclassify.py')],
     'InstanceOfModifier.transform is proved for an arbitrary list of embedded fields (reference '
     'fields, nested and repeated objects and key paths: concrete classes with symbolic values, '
     'and bounded native histories).',
     observe=['object construction', 'set()', 'update()'])

prop('C04', 'Validation reports exactly the broken rules, each at its key path',
     'For every object graph, cyclic or not, validation checks every present field of every '
     'reachable object that is new or changed exactly once, and raises one validation error '
     'exactly when some rule is broken, naming every broken place by the key path it has from '
     'the root - all of them when all fields are validated, otherwise the first. Items of lists '
     'and dicts, alternatives of a union and combined rules are judged by their own types, and a '
     'value of the wrong kind is reported, never a crash. Validation never changes the object.',
     ['inputs', 'histories'], 'all object graphs, collections, unions and validation settings',
     'Tests validate small fixed objects; they do not combine all-fields settings, several broken '
     'rules, cycles, nesting and unions.',
     ['jsonclasses/modifiers/', 'jsonclasses/vmsgcollector.py', 'jsonclasses/excs.py',
      'jsonclasses/ctx.py'],
     [('InstanceOfModifier.validate, ListOfModifier / DictOfModifier (CollectionTypeModifier) validate, '
       'UnionModifier, OneIsValidModifier', 'jsonclasses/modifiers/'),
      ('VMsgCollector', 'jsonclasses/vmsgcollector.py')],
     'Rules inside the fields are stubs with arbitrary outcomes; recursion by assume-guarantee.',
     observe=['validate()', 'is_valid', 'ValidationException.keypath_messages'])

prop('C05', 'A field definition is run as the pipeline it spells',
     'For every chain of modifiers, input transformation applies the modifiers in order, each to '
     'the result of the one before; modifiers before an eager point also validate there and then, '
     'and later validation starts behind it; output and save-time transformation run their own '
     'stages only. Save-time setters and callbacks (setonsave, onsave, onwrite, onupdate) run '
     'exactly when their condition holds, with the right value, and never on input.',
     ['inputs', 'configurations'], 'all modifier chains up to five modifiers, all values',
     'Tests run a few chains; the position of eager points and save stages relative to other '
     'modifiers is not enumerated.',
     ['jsonclasses/modifiers/chained_modifier.py', 'jsonclasses/modifiers/'],
     [('ChainedModifier.transform/validate/tojson/serialize/append',
       'jsonclasses/modifiers/chained_modifier.py'),
      ('SetOnSaveModifier, OnSaveModifier, OnWriteModifier, OnUpdateModifier', 'jsonclasses/modifiers/')],
     'Chains are proved for every composition of up to five modifiers with arbitrary behaviour.',
     observe=['object construction', 'validate()', 'tojson()', 'save()'])

prop('C14', 'Object graphs and marks identify objects by class and key',
     'For every history of insertions, an object graph returns for a class and key the object '
     'last put there, keyless objects by identity, never an object of another class (even one of '
     'the same name in another class graph), and iterates over each object once; merging and '
     'copying keep both; linked objects with keys share one graph, and two objects for one class '
     'and key cannot be linked into one. A mark graph says an object is marked exactly when that '
     'object, or one of its class and key, was marked, and iterates over each marked object once.',
     ['inputs', 'histories'], 'all sequences of insertions, lookups and merges',
     'Tests insert two or three objects; equal keys of different types or classes, keyless and '
     'same-named classes are not enumerated.',
     ['jsonclasses/ograph.py', 'jsonclasses/mgraph.py'],
     [('OGraph', 'jsonclasses/ograph.py'), ('MGraph', 'jsonclasses/mgraph.py')],
     observe=['OGraph', 'MGraph', 'nested input of one object given twice'])

prop('C16', 'Key paths and contexts always name the right place and owner',
     'For every key path, concatenation, splitting, prefix removal and reference-key naming are '
     'exact, mutually inverse text functions. Every derived context carries the value, key path, '
     'definition, owner, original and settings of its place and keeps the root, operator and '
     'passed-in data, so every reported error names the place from the root at any nesting.',
     ['inputs'], 'all key paths, contexts and nestings',
     'Tests check single derivations and flat paths; numeric keys, empty keys, nesting and the '
     'carry-over of every context part are not enumerated.',
     ['jsonclasses/keypath.py', 'jsonclasses/ctx.py'],
     [('keypath functions', 'jsonclasses/keypath.py'), ('Ctx derivations', 'jsonclasses/ctx.py')],
     observe=['Ctx', 'ValidationException.keypath_messages'])

prop('C02', 'Output shows exactly what may be read',
     'For every object, however nested, JSON output contains every readable field that is present '
     '(or null, when nulls are output) under its JSON name, and never a writeonly or temporary '
     'field or the reference key of one, unless writeonly marks are explicitly ignored. Picking '
     'and omitting restrict it to the named fields of that object alone; references carry their '
     'key and value, except the way back along the relation just followed and references below '
     'an object of the same class. Producing output changes no object.',
     ['inputs', 'configurations'], 'all class definitions, values, options and object graphs',
     'Tests print a handful of objects; options, write-only marks, references, partial objects '
     'and nesting are not combined.',
     ['jsonclasses/modifiers/instanceof_modifier.py', 'jsonclasses/jsonclassify.py',
      'jsonclasses/modifiers/collection_type_modifier.py'],
     [('InstanceOfModifier.tojson', 'jsonclasses/modifiers/instanceof_modifier.py'),
      ('tojson, pick, omit', 'jsonclasses/jsonclassify.py')],
     'InstanceOfModifier.tojson is proved for an arbitrary list of fields; whole graphs are '
     'bounded native checks.',
     observe=['tojson()', 'pick()', 'omit()'])

prop('C03', 'Strict input accepts exactly the known keys',
     'For every input at any nesting, an object that takes strict input accepts exactly its field '
     'names, their JSON names, and its reference keys in both spellings; any other key is reported '
     'as an error at its key path before any field of that object is written. An object that does '
     'not take strict input ignores unknown keys; a strictness mark on a field goes before the '
     'setting of the class.',
     ['inputs', 'configurations'], 'all keys, inputs, settings and nestings',
     'Tests try one unknown key at the top; other key spellings, nesting and settings are not '
     'combined.',
     ['jsonclasses/modifiers/instanceof_modifier.py', 'jsonclasses/cdef.py'],
     [('InstanceOfModifier.transform, _strictness_check', 'jsonclasses/modifiers/instanceof_modifier.py'),
      ('CDef.available_names', 'jsonclasses/cdef.py')],
     'Input dicts of up to three arbitrary keys; nesting is a bounded native check.',
     observe=['object construction', 'set()'])

prop('C11', 'Every change of a persisted object is recorded, and nothing else',
     'For every history of assignments and in-place list and dict operations on an object that is '
     'not new, a field whose value differs from the persisted one is recorded as modified at the '
     'key path of the field or of the collection changed in it; a field that was never written is '
     'never recorded, and assigning an equal value, and reading, record nothing. is_modified says '
     'whether anything is recorded; new objects record nothing; persisted_modified_fields leaves '
     'out temporary fields and no others.',
     ['inputs', 'histories'], 'all values and all sequences of assignments and in-place changes',
     'Tests change one field once; nested collections, calculated and temporary fields, equal '
     'assignments and sequences of changes are not enumerated.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/olist.py', 'jsonclasses/odict.py'],
     [('__setattr__', 'jsonclasses/jsonclassify.py'),
      ('__olist_add__ and the other change callbacks', 'jsonclasses/jsonclassify.py')],
     'Single operations are proved for arbitrary values at each nesting; random histories are a '
     'bounded native check.',
     observe=['modified_fields', 'persisted_modified_fields', 'is_modified'])

prop('C12', 'Reset brings back exactly the persisted state',
     'For every history of changes of a persisted object that keeps previous values, the previous '
     'value of a field is the value before its first change, unshared with the object, whatever '
     'follows; a compare rule is given it and the current value, and is not asked about an '
     'unchanged field. reset() brings every field back to an equal value, tracked as before, with '
     'nothing marked modified and no previous values left; an object that may not be reset (new, '
     'or without reset) is left entirely as it is. complete() changes no mark and the object stays '
     'tracked.',
     ['inputs', 'histories'], 'all values and all sequences of changes and resets',
     'Tests reset after one assignment; in-place changes, nested collections, repeated changes '
     'and resets, and refused resets are not enumerated.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/modifiers/compare_modifier.py',
      'jsonclasses/outils.py'],
     [('reset, complete, __setattr__, __olist_will_change__, __odict_will_change__',
       'jsonclasses/jsonclassify.py'),
      ('CompareModifier.validate', 'jsonclasses/modifiers/compare_modifier.py')],
     'Lists of references are left out of reset (the system keeps no previous value for in-place '
     'changes of them). Random histories are a bounded native check.',
     observe=['reset()', 'previous_values', 'complete()'])

prop('C13', 'Both sides of a relationship always agree',
     'After every sequence of assignments, list operations and reference-key changes on either '
     'side of a one-to-one, one-to-many or many-to-many relationship, an object refers to another '
     'exactly when that one refers back, once, in the order the operations give; a reference key '
     'or key list is the key or keys of the referred objects, in order; no other link changes but '
     'those a single reference has to give up. The holder of a changed key is marked modified; a '
     'dropped object is kept for saving until it is linked again. Objects are told apart by '
     'identity, even when equal by value.',
     ['inputs', 'histories'],
     'all keys, all states of the links of two objects a side, all operations',
     'Tests link and unlink two objects once; states, operations, orders and sides are not '
     'combined.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/olist.py'],
     [('__setattr__, __link_field__, __unlink_field__, __olist_add__, __olist_del__, __olist_sor__',
       'jsonclasses/jsonclassify.py')],
     'The invariant is proved inductive over every state and operation of two objects on each '
     'side, for arbitrary keys; three objects a side only in bounded native histories. Lists hold '
     'an object once.',
     observe=['reference fields', 'reference keys', 'unlinked_objects', 'modified_fields'])

prop('C15', 'Nothing is saved or deleted past a refusal',
     'For every object, operator, guard result, callback and validation outcome, save() and '
     'delete() ask the guards of the action in order with the object and its operator, run its '
     'callbacks, validate (unless told not to), set on-save values and write, in that order; a '
     'refusing guard, a missing operator where there are guards, a raising callback or a broken '
     'rule ends it there with nothing written or deleted and no later stage run. Dropped related '
     'objects are saved with it, each once. The operator is assigned to new objects only.',
     ['inputs', 'histories', 'configurations'],
     'all guard results, callbacks, operators, options and outcomes',
     'Tests try one guard or callback each; combinations of guards, results, stages and failures '
     'are not enumerated.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/modifiers/asop_modifier.py',
      'jsonclasses/modifiers/asopd_modifier.py'],
     [('save, delete, _can_cu_check_common, _run_on_create_callbacks, opby',
       'jsonclasses/jsonclassify.py')],
     'The storage hooks (_database_write, _orm_delete) are stubs that record the call.',
     observe=['save()', 'delete()', 'opby()'])

prop('C17', 'Loading a relation asks for exactly the related objects and marks nothing',
     'For every persisted object and every kind of relationship, including a relation asks the '
     'store exactly once, for the objects whose key or keys the object keeps, or for those that '
     'keep the key of this object, sets the answer (in its order) on the field, returns the '
     'object, and leaves its modification marks as they were. An unknown name is reported and '
     'nothing is asked. restore, delete and complete reach the store once for this object, '
     'complete only if it is partial.',
     ['inputs', 'histories'], 'all objects, keys, relationship kinds, answers and earlier changes',
     'Tests define no store: not one test loads a relation.',
     ['jsonclasses/jsonclassify.py', 'jsonclasses/jfield.py'],
     [('include, restore, delete, complete', 'jsonclasses/jsonclassify.py'),
      ('key names', 'jsonclasses/keypath.py')],
     'The store (id, ids, one, find, _orm_*) is a stub that records what is asked and answers '
     'with up to two objects with arbitrary keys.',
     observe=['include()', 'restore()', 'delete()', 'complete()'])

prop('C18', 'Class graphs are separate name spaces, and settings fall back to their graph',
     'For every history of definitions, a class or enum is found on the graph it was defined on, '
     'under its name, and on no other; a second definition of a name on one graph is refused and '
     'the first stays. A class is configured by exactly the settings given to its decorator, each '
     'taken over unchanged, and by its own graph\'s defaults for those not given; two '
     'configurations are equal exactly when all their settings are.',
     ['histories', 'configurations'], 'all definitions, graphs and settings',
     'Tests define a class or two on the default graph and set one setting at a time.',
     ['jsonclasses/cgraph.py', 'jsonclasses/jconf.py', 'jsonclasses/jsonclass.py',
      'jsonclasses/jsonenum.py'],
     [('CGraph', 'jsonclasses/cgraph.py'), ('JConf', 'jsonclasses/jconf.py'),
      ('jsonclass', 'jsonclasses/jsonclass.py'), ('jsonenum', 'jsonclasses/jsonenum.py')],
     'Histories of three definitions on two graphs; every setting, given and not given.',
     observe=['@jsonclass', '@jsonenum', 'CGraph'])

prop('C20', 'Enum fields take in exactly the configured spellings',
     'For every enum field and every input, null and members are kept, and a value, name or '
     'lower-case name is taken as its member exactly when the field is configured for that '
     'spelling and there is such a member (input by name where nothing is configured); anything '
     'else is reported at its key path. Only members are valid. Output is the member\'s name, '
     'value or lower-case name as configured, and is taken in again as the same member. The enum '
     'given by name is the one of that name on the class graph.',
     ['inputs', 'configurations'], 'all inputs and all combinations of spellings',
     'Tests try one or two spellings per configuration; combinations, values that look like '
     'names, falsy values and members of other enums are not enumerated.',
     ['jsonclasses/modifiers/enum_modifier.py', 'jsonclasses/modifiers/inputall_modifier.py',
      'jsonclasses/modifiers/inputvalue_modifier.py', 'jsonclasses/modifiers/outputvalue_modifier.py'],
     [('EnumModifier', 'jsonclasses/modifiers/enum_modifier.py')],
     'Proved for arbitrary input values on one enum of four members with all seven input '
     'combinations.',
     observe=['object construction', 'tojson()', 'validate()'])

prop('C23', 'Dates and datetimes survive JSON',
     'For every date and datetime, JSON output is the day, or the UTC time to the millisecond (a '
     'datetime without a zone being UTC), and reads back as the same day and instant; text input '
     'with any UTC offset denotes the instant it names, in UTC; a date given for a datetime is '
     'its midnight in UTC and a datetime given for a date its day; text that is no date or '
     'datetime is reported; other values pass unchanged.',
     ['inputs'], 'all dates, datetimes, zones and texts',
     'Tests use a handful of dates in UTC without fractions.',
     ['jsonclasses/modifiers/date_modifier.py', 'jsonclasses/modifiers/datetime_modifier.py',
      'jsonclasses/modifiers/fmtd_modifier.py'],
     [('DateModifier', 'jsonclasses/modifiers/date_modifier.py'),
      ('DatetimeModifier', 'jsonclasses/modifiers/datetime_modifier.py')],
     'isoformat and fromisoformat are uninterpreted, with axioms, in the proofs; zones other than '
     'UTC and the text itself are bounded native checks.',
     observe=['object construction', 'tojson()'])

prop('C19', 'Every declaration word adds exactly its rule and its marks',
     'For every declaration and every argument, each word of `types` (types.min(3), types.required, '
     '...) makes a new declaration that has the rules of the one it is applied to, in order, '
     'followed by the rule of that word with exactly those arguments (transformers starting a new '
     'stage), and the marks of the one it is applied to, changed exactly as the word says '
     '(type, storage, read and write rule, required, relationship, index, enum spelling, '
     'nullability, strictness, operator, authentication). The original declaration is left alone, '
     'so that it can be shared. A function with a parameter count the word cannot call is '
     'refused at the declaration. Questions about a field (is it a reference, a list of '
     'objects, stored locally, ...) follow from its marks, and a class lists its fields, and '
     'those with each mark, in the order declared.',
     ['inputs'], 'all words, arguments, earlier declarations and marks',
     'Tests use most words once or not at all, with one argument, on a fresh declaration; the '
     'rules only show for the word, argument and earlier mark concerned.',
     ['jsonclasses/types.py', 'jsonclasses/fdef.py', 'jsonclasses/jfield.py', 'jsonclasses/modifiers/'],
     [('the words', 'jsonclasses/types.py: Types'), ('marks', 'jsonclasses/modifiers/*: define()'),
      ('field questions', 'jsonclasses/jfield.py: JField, jsonclasses/fdef.py: FDef')],
     'Word arguments that are Types, functions or enums are taken from a few examples; all other '
     'arguments are arbitrary.',
     observe=['types.<word>', 'field.fdef', 'field.modifier'])

prop('C21', 'An annotation means the same however it is written, and means what it says',
     'For every annotation built from the basic types, JSON class and enum names, lists, dicts, '
     'optionals, unions and links, the declaration made from it has the type, the item types, the '
     'members, the class or enum and the link it names, and is required exactly when it is not '
     'optional - whether the annotation is text or a type object, uses List or list, Dict or '
     'dict, Optional, Union or |, a class or its name, and however deep it is nested. A name '
     'stands for the class, else the enum, of that name in the class graph, from the first '
     'question on; an unknown name and an unusable annotation are reported.',
     ['inputs'], 'all annotations of the grammar, in every spelling',
     'Tests declare some annotations at depth one; nesting, spellings and member order multiply.',
     ['jsonclasses/rtypes.py', 'jsonclasses/typing.py', 'jsonclasses/cdef.py'],
     [('annotation reading', 'jsonclasses/rtypes.py: rtypes, to_types, str_to_types'),
      ('name resolution', 'jsonclasses/rtypes.py: rnamedtypes')],
     'The reading of texts is proved step by step for the listed shapes of parts and parts of '
     'depth three, with the meaning of the parts arbitrary; random annotations to depth four are '
     'bounded native checks. Items of lists and dicts are required whatever the annotation says '
     '(documented behaviour). Quoted names inside text annotations are outside the grammar.',
     observe=['class fields', 'field.fdef'])

prop('C22', 'The user configuration is what config.json and the environment say',
     'For every config.json and environment, every key path of the configuration gives the value '
     'the file has there - keys in snake case at every depth, texts of the form environ[\'NAME\'] '
     'replaced by that variable, everything else as it is - lists and dicts as '
     'configurations of their own; a path that is not there gives null, and a variable that is '
     'not set is reported. A named uploader is the configured one, made once, an unknown or '
     'incomplete one is reported; a local upload stores the data as a new file inside its '
     'public directory, with the lower-case extension, and answers with its URL.',
     ['inputs'], 'all configuration trees, key paths and environments',
     'No test reads a configuration file; depth, list nesting and missing parts multiply.',
     ['jsonclasses/uconf.py', 'jsonclasses/uploaders.py'],
     [('reading and normalising', 'jsonclasses/uconf.py: UserConfRoot'),
      ('key paths', 'jsonclasses/uconf.py: UserConf'), ('uploaders', 'jsonclasses/uploaders.py')],
     'Whole files and uploads are bounded native checks in a scratch directory. Lists are '
     'addressed by numbers.',
     observe=['uconf().get()', 'types.uploader'])
