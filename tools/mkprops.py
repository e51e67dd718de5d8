"""Generates /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ['BaseXmlModel.from_xml / from_xml_tree', 'BaseXmlModel.to_xml / to_xml_tree'],
                               hook_needed=None)))
F = 'pydantic_xml/serializers/factories/'
SRC = 'pydantic_xml/'

p('C01', 'Serialize-then-parse round trip',
  'For every model class the library accepts and every instance whose values survive being written as text, parsing the serialized document with the same class yields an equal instance. Excluded are only values that have no distinct XML form: missing/empty ones (None, empty string, empty collection) whose field default does not restore them, collections cut by an empty item, fields excluded from XML, two fields declared on the same text/attribute/adjacent element name, a mapping declared before an attribute of its element, and union values an earlier alternative also accepts.',
  ['programs', 'inputs'], 'every composition of text, attribute, element, wrapped, collection, tuple, mapping, union, model, root-model, raw declarations x every instance x every search mode',
  'Tests round-trip a few dozen hand-picked model/document pairs; the composition space (nesting x entity kinds x modes x namespaces) is unbounded.',
  [SRC + 'model.py', F + 'model.py', F + 'primitive.py', F + 'homogeneous.py', F + 'wrapper.py', SRC + 'element/element.py'],
  [('write and read plans are compiled from the same field declaration', F + '*.py: from_core_schema'),
   ('reader cursor consumes in the order the writer appends', SRC + 'element/element.py: strict_search/_look_behind, append_element')])
p('C02', 'The serialized document is exactly what the declarations say',
  'Serializing an instance produces one root element with the class\'s resolved name, holding each field\'s data at its declared place (own text, attribute, sub-element or path), once per value, in field declaration order and item order, with text equal to the primitive\'s canonical form. Nothing else appears in the document and no value is dropped, unless an exclusion option says so.',
  ['programs', 'inputs'], 'every accepted class x every instance, no flags set',
  'Expected documents in tests are written by hand for one instance each; loss or duplication depends on combinations of sibling fields.',
  [F + 'model.py', F + 'primitive.py', F + 'mapping.py', F + 'homogeneous.py', F + 'heterogeneous.py', F + 'wrapper.py', SRC + 'serializers/serializer.py'],
  [('fields serialized in declaration order into a writer element', F + 'model.py: ModelSerializer.serialize'), ('primitive encoding', SRC + 'serializers/serializer.py: encode_primitive')])
p('C03', 'Each search mode selects exactly the elements its rule names',
  'When binding element-located fields in declaration order: in strict mode a field takes the next unconsumed sub-element only if its name matches; in ordered mode it takes the first match after everything already consumed, skipping others for good; in unordered mode it takes any remaining match regardless of position. A field whose search fails consumes nothing, and the mode is the one of the class declaring the field, however deep the class is nested.',
  ['programs', 'inputs'], 'every sequence of sub-elements x every sequence of element-located fields x three modes x nesting of classes with different modes',
  'Tests check one document per mode; failures need particular interleavings of foreign, missing and repeated elements.',
  [SRC + 'element/element.py', F + 'primitive.py', F + 'model.py', F + 'wrapper.py'],
  [('search functions over a per-element cursor', SRC + 'element/element.py: strict_search, ordered_search, unordered_search'), ('mode stored in the class', SRC + 'model.py: __init_subclass__')],
  state=[dict(name='next_element_idx', meaning='number of sub-elements already passed', where=SRC + 'element/element.py: XmlElement.State')])
p('C04', 'Document data is bound to at most one field, and to the right one',
  'While parsing, every text, attribute and sub-element of the document is bound to at most one field: the first declared field its location and name match; same-named fields receive successive elements, a mapping of attributes receives exactly the attributes not bound before it. A field\'s value never depends on data located elsewhere.',
  ['programs', 'inputs'], 'every set of fields with overlapping names/locations x every document',
  'Needs adversarial overlaps of fields (same tag, text + mapping, sub-model sharing names with the parent) that tests do not enumerate.',
  [SRC + 'element/element.py', F + 'primitive.py', F + 'mapping.py', F + 'model.py'],
  [('destructive reads', SRC + 'element/element.py: pop_text, pop_attrib, pop_attributes, pop_element')])
p('C05', 'extra="forbid" reports exactly the data no field accounts for',
  'With extra inputs forbidden a document is accepted only if every non-blank text and every attribute anywhere beneath the model\'s element was consumed by some field; otherwise one error per leftover text/attribute is raised, located by the path of element names (and @attribute) and carrying the line of its element. With extra inputs ignored the same leftovers change nothing in the result.',
  ['programs', 'inputs'], 'every class with extra=forbid/ignore (also nested in each other) x every insertion of unexpected data at every depth',
  'Tests insert one extra item in a few fixed places; the guarantee is over all positions including inside lists, wrappers, unions and raw elements.',
  [F + 'model.py', SRC + 'element/element.py'],
  [('unbound data collected after all fields are read', F + 'model.py: _check_extra; element.py: get_unbound')])
p('C06', 'Wrapped fields live at their declared path, sharing elements where adjacent',
  'A field wrapped by a path is read from and written to exactly the nested element named by that path; fields declared next to each other with a common path prefix share the prefix elements when written and are all found in them when read. A path whose intermediate element is missing yields a missing field and does not disturb the reading of other fields.',
  ['programs', 'inputs'], 'every sequence of wrapped/unwrapped fields with overlapping paths (also wrapped inside wrapped) x every document x every mode',
  'Interference between sibling paths depends on order and on partially present paths; tests use complete documents.',
  [F + 'wrapper.py', SRC + 'element/element.py'],
  [('look-behind reuse of the previous element', SRC + 'element/element.py: find_sub_element, find_element_or_create, _look_behind')])
p('C07', 'Collections keep count, order and position',
  'A list, variadic tuple, set or frozenset field receives one item per matching element, stopping where its search mode stops; fixed tuples and named tuples assign the matching elements to positions in order; items keep document order in the strict and ordered modes. Serialization writes one element per item in iteration order, and an invalid item is reported at its own index while the other items are still checked.',
  ['programs', 'inputs'], 'every item type (primitive, model, mapping, tuple, union) x every number of items x surrounding fields',
  'Counts, boundaries with neighbouring same-tag fields and error indexes vary with the document; tests use 1-3 items.',
  [F + 'homogeneous.py', F + 'heterogeneous.py', F + 'named_tuple.py', F + 'tuple.py'],
  [('repeat the item reader until it finds nothing', F + 'homogeneous.py: deserialize'), ('one reader per position', F + 'heterogeneous.py: deserialize')])
p('C08', 'Unions take the first matching alternative and leave no trace of failed ones',
  'For a union of models the value is the first alternative, in declaration order, that the element satisfies; trying and rejecting an alternative changes nothing that later alternatives, later items or later fields see. If no alternative fits, the error lists the failures of the alternatives tried, and a union value is always written as the alternative it is an instance of. Unions of primitives follow the validation library\'s choice on the text.',
  ['programs', 'inputs'], 'every list of alternatives (overlapping, same or different names, nested) x every document, alone and inside collections',
  'Isolation failures need a failing alternative that partially consumed data and a later reader of the same data.',
  [F + 'union.py', SRC + 'element/element.py'],
  [('snapshot per alternative', F + 'union.py: ModelSerializer.deserialize; element.py: create_snapshot/apply_snapshot')])
p('C09', 'Discriminated unions dispatch on the discriminating attribute only',
  'For a discriminated union the alternative whose element name and discriminator attribute value both match the next eligible element is used, and only that one: its errors are reported as they are, no other alternative is tried, and an element with an unknown discriminator is left unconsumed. Serialization writes the alternative selected by the instance\'s discriminator, and a missing optional value writes nothing.',
  ['programs', 'inputs'], 'every set of alternatives (same/different element names) x every discriminator value x every mode, alone and in collections',
  'Tests cover one good document per alternative.',
  [F + 'tagged_union.py'], [('peek without consuming, then delegate', F + 'tagged_union.py: deserialize')])
p('C10', 'One name rule for reading and writing',
  'The qualified name of every attribute and element follows one precedence: local name from the entity\'s own tag/name/path, else the sub-model\'s tag, else alias, else field name (class name for a root); namespace prefix from the entity, else the sub-model, else the enclosing path/class, where attributes inherit only if namespaced attributes are on; prefixes resolve in the nearest declaration that has them. The same name is used for reading and writing, so a same-local-name item in another namespace is never bound.',
  ['programs', 'configurations', 'inputs'], 'every combination of the presence of tag, alias, ns, nsmap, default namespace and ns_attrs at entity, sub-model, wrapper and class level',
  'The precedence table has hundreds of combinations; tests touch about a dozen.',
  [SRC + 'utils.py', F + 'primitive.py', F + 'mapping.py', F + 'wrapper.py', F + 'model.py', SRC + 'serializers/serializer.py', SRC + 'fields.py'],
  [('name resolution', SRC + 'utils.py: QName.from_alias, select_ns, merge_nsmaps; serializer.py: Context.parent_ns/parent_nsmap')])
p('C11', 'A class\'s XML meaning depends only on its own definition and bases',
  'Tag, namespace, namespaced-attributes, skip-empty, search-mode settings and namespace declarations are inherited from the first base and overridden by the class\'s own (declarations merged), inherited fields keep place and location. How the class was made (statement, dynamic creation, generic parametrisation, inheritance) and which other classes exist, are created or are used, before or after, makes no difference.',
  ['programs', 'histories', 'configurations'], 'every class hierarchy x settings at each level x creation route x interleaving of definitions and uses',
  'Cross-talk needs several classes and a particular history; tests define one or two classes each.',
  [SRC + 'model.py', SRC + 'fields.py'],
  [('settings stored per class', SRC + 'model.py: __init_subclass__, create_model, XmlModelMeta')],
  state=[dict(name='class registry', meaning='per-class settings and compiled serializer', where=SRC + 'model.py: __xml_*__ class variables')])
p('C12', 'Classes with unresolved parts: refuse cleanly, then behave as if defined whole',
  'A class with unresolved forward references or generic parameters refuses to parse or serialize with a clear error, changing nothing, until it is rebuilt or parametrised; from then on it behaves exactly like the same class defined directly, including self-referencing and mutually referencing classes at every depth.',
  ['histories', 'programs'], 'every order of definition, rebuild, parametrisation and use',
  'Lifecycle orders are histories; tests follow the single documented order.',
  [SRC + 'model.py', F + 'model.py', SRC + 'serializers/serializer.py'],
  [('serializer built only when complete; rebuild hook; proxy looks the serializer up at use', SRC + 'model.py: __build_serializer__, model_rebuild; ' + F + 'model.py: ModelProxySerializer')])
p('C13', 'Exclusion options remove exactly what they name',
  'exclude_none removes exactly the None-valued entities, exclude_unset exactly the fields never set on their instance, skip_empty exactly the None values and the elements left without text, attributes and sub-elements (including emptied wrappers), at every nesting level, each combination behaving as both; a class-level skip_empty overrides the option for that class and what it contains. Everything else in the document is unchanged.',
  ['inputs', 'configurations', 'programs'], 'every subset of options x class-level settings x every instance shape (None/empty/unset at every place)',
  'Eight option combinations x entity kinds x nesting; tests sample a handful.',
  [F + 'model.py', F + 'primitive.py', F + 'mapping.py', F + 'homogeneous.py', F + 'wrapper.py', F + 'raw.py', SRC + 'model.py'],
  [('flags threaded through every serializer', F + '*.py: serialize')])
p('C14', 'None, empty and nil keep their XML meaning',
  'Without exclusion options a None text, attribute or element is written as an empty one (as xsi:nil for nillable declarations) and a None sub-model, collection or wrapped field as nothing; on reading, an xsi:nil element of a nillable field or sub-model gives None, an absent or empty element gives a missing value (the default or a required-field error), and with the empty-as-string option an empty but present element or text gives the empty string while absent ones stay missing.',
  ['inputs', 'configurations'], 'every entity kind x {absent, empty, blank, nil true/1/false, present} x empty_as_string x nillable x default',
  'The product of entity kinds and emptiness forms is not enumerated by tests.',
  [F + 'primitive.py', F + 'model.py', SRC + 'element/utils.py'],
  [('nil handling', SRC + 'element/utils.py: is_element_nill, make_element_nill'), ('empty text is None unless asked', F + 'primitive.py: TextSerializer.deserialize')])
p('C15', 'Validation errors are complete, located and all-or-nothing',
  'If any value in the document is invalid or missing, parsing raises one validation error and returns nothing; it lists every failing sub-model and, within a model whose sub-models are valid, every failing field, each with its path of fields and item indexes, its original type and message, and the line of the element it was read from (the enclosing element when missing). A document whose root has another name raises a parsing error, and hidden inputs never appear in the message.',
  ['inputs', 'programs'], 'every model x every set of simultaneous defects in the document, at every depth, spread over lines',
  'Tests check a few single-defect documents; completeness and location are about combinations and nesting.',
  [F + 'model.py', SRC + 'utils.py', F + 'homogeneous.py', F + 'heterogeneous.py', SRC + 'model.py'],
  [('errors collected per field/item and prefixed', SRC + 'utils.py: into_validation_error'), ('line lookup by longest known location', SRC + 'utils.py: set_validation_error_sourceline')],
  state=[dict(name='sourcemap', meaning='location -> line of the element read', where=F + 'model.py: deserialize')])
p('C16', 'Parsing and serializing are pure and history-independent',
  'Parsing never modifies the tree it is given, serializing never modifies the instance, options or settings, and results share no mutable state with the input or with each other; the outcome of an operation depends only on its arguments and the class, not on operations performed before, whether they succeeded or failed, or interleaved from other threads.',
  ['histories', 'schedules', 'inputs'], 'every interleaving of parse/serialize/mutate operations over shared classes, trees and instances, including failing ones',
  'A property of histories; tests run one operation on fresh objects.',
  [SRC + 'element/native/lxml.py', SRC + 'element/native/std.py', SRC + 'element/element.py', SRC + 'model.py', F + 'model.py'],
  [('native tree copied into a private cursor tree', SRC + 'element/native/*.py: from_native/to_native')])
p('C17', 'Both XML backends give the same results',
  'With the lxml and the standard-library backend the same program gives the same instances, the same errors (except line numbers, unavailable in the standard library) and namespace-wise equal documents; comments and processing instructions in the source never change a result.',
  ['programs', 'inputs', 'configurations'], 'every program of definitions, parses and serializations x {lxml, std}',
  'The suite runs twice with the same few samples; documents with comments, processing instructions, mixed content and prefixes are scarcely used.',
  [SRC + 'element/native/lxml.py', SRC + 'element/native/std.py', SRC + 'element/native/__init__.py', SRC + 'config.py'],
  [('adapter per backend', SRC + 'element/native/*.py')])
p('C18', 'Raw element fields carry the whole element',
  'A raw element field receives exactly the matching element with its whole content (text, attributes, namespaced names, descendants and their order), consumes all of it, and serializing writes the same element back at the same place; the value is independent of the source tree.',
  ['inputs', 'programs'], 'every element content x position x mode, alone, optional, in collections and tuples, wrapped',
  'Tests use one-level elements.',
  [F + 'raw.py', SRC + 'element/element.py', SRC + 'element/native/lxml.py', SRC + 'element/native/std.py'],
  [('element emptied into a copy', SRC + 'element/element.py: pop_element(remove=True)')])
p('C19', 'Custom field hooks see and do exactly what the reader/writer API promises',
  'A custom field validator/serializer (decorator or annotation) runs exactly for its field, in field order, on the element being processed with everything bound earlier already consumed, and its result or output stands in for the default handling of that field and nothing else; subclasses inherit and override hooks. The element API itself follows its contract: pop operations return each item once, lookups follow the search mode, snapshots are independent and restorable, unbound data is reported completely.',
  ['programs', 'inputs', 'histories'], 'every sequence of element API calls on every element x hooks on every field position',
  'The API is a mutable state machine; tests call each method in isolation or once.',
  [SRC + 'fields.py', SRC + 'model.py', SRC + 'element/element.py', F + 'model.py'],
  [('hooks looked up per class', SRC + 'model.py: _collect_xml_field_serializers_validators'), ('reader/writer state', SRC + 'element/element.py: XmlElement')],
  observe=['xml_field_validator / xml_field_serializer callbacks', 'XmlElementReader / XmlElementWriter methods'])
p('C20', 'Computed fields are written like fields and never read',
  'A computed attribute, element or text is serialized with its current value at its declared place after the regular fields, following the same naming, nesting and exclusion rules; parsing never binds or consumes document data for it.',
  ['programs', 'inputs'], 'every computed entity kind and value type x every position x inheritance',
  'Tests serialize one computed field per kind and never check what parsing consumes.',
  [F + 'model.py', SRC + 'fields.py', F + 'primitive.py', F + 'mapping.py', F + 'homogeneous.py', F + 'wrapper.py'],
  [('computed flag checked by every reader', F + '*.py: _computed')])
p('C21', 'Unsupported declarations are rejected when the class is defined',
  'A declaration with no XML meaning (attributes of model, collection, mapping or raw types, collections or mappings of unsupported item types, unnamed entities, undeclared namespace prefixes, default-namespace attributes, mixed or ill-discriminated unions, prefixed variadic tuples, unsupported types) is rejected while the class is being defined or completed, by an error naming the class and field where the library\'s field error is used; every other declaration is accepted.',
  ['programs', 'configurations'], 'every entity kind x every type expression of bounded depth x namespace settings',
  'The table entity kind x type x position is large; tests cover about 20 cells.',
  [F + 'homogeneous.py', F + 'heterogeneous.py', F + 'mapping.py', F + 'union.py', F + 'tagged_union.py', F + 'primitive.py', F + 'model.py', F + 'raw.py', F + 'named_tuple.py', SRC + 'serializers/serializer.py', SRC + 'errors.py'],
  [('checks in the serializer factories', F + '*.py: from_core_schema')])
p('C22', 'Excluded, XML-less and aliased fields',
  'A field marked as not part of the XML is neither read nor written and does not consume document data; a field excluded from serialization is read but never written; an aliased field uses its serialization alias as XML name for reading and writing and its validation alias for construction and error locations. Other fields are unaffected.',
  ['programs', 'inputs'], 'every marker/alias combination x every entity kind x every position',
  'Tests cover one marker on one field.',
  [F + 'model.py', SRC + 'fields.py'], [('field filters in the model serializer', F + 'model.py: ModelSerializer.from_core_schema/serialize/deserialize')])
p('C23', 'Per-call context and options reach every nested value',
  'The validation context and the empty-as-string option given to a parse call, and the exclusion options given to a serialize call, apply to every value of the result however it is nested (sub-models, collections, tuples, unions, discriminated unions, wrappers, root models), and only to that call.',
  ['programs', 'inputs', 'histories'], 'every nesting of field kinds x every option value x successive calls with different options',
  'Each of the ten nested readers/writers forwards the options separately; tests check one or two of them.',
  [F + 'model.py', F + 'wrapper.py', F + 'homogeneous.py', F + 'heterogeneous.py', F + 'named_tuple.py', F + 'union.py', F + 'tagged_union.py', F + 'mapping.py', SRC + 'model.py'],
  [('arguments forwarded by every serializer', F + '*.py')])
p('C24', 'Mappings are attribute sets',
  'A mapping (or typed dictionary) field is exactly the attribute set of its element: reading gives one entry per attribute not bound before, by local name when namespaced attributes are on and by qualified name otherwise; writing adds one attribute per entry, qualified by the inherited prefix when namespaced attributes are on, and leaves other attributes of the element alone.',
  ['inputs', 'programs', 'configurations'], 'every attribute set x neighbours on the same element x ns_attrs settings x mapping inside wrappers, collections and tuples',
  'Tests use one mapping on an otherwise empty element.',
  [F + 'mapping.py', F + 'typed_mapping.py'], [('pop/set of whole attribute sets', F + 'mapping.py')])
p('C25', 'Lexical fidelity of scalar types',
  'Every scalar value (booleans, numbers, decimals, dates, times, durations, UUIDs, addresses, texts, bytes, enumerations, literals of texts) is written in one lexical form wherever it stands - text, attribute, element, item, mapping entry, wrapped, in sub-models, computed - and reading it there gives the same value of the same type; the other forms of the value are read as the same value. Excluded are empty texts, characters XML cannot carry, and non-finite numbers, which follow the class\'s own setting (by default written as empty).',
  ['inputs'], 'all values of all scalar types x every place a scalar may stand x both backends',
  'Infinite value domains: the corners (notation switches of floats, time zones, signs of durations, special characters, words that look like other types) are not sampled by tests, nor is the product with the places.',
  [SRC + 'serializers/serializer.py', F + 'primitive.py', F + 'mapping.py', SRC + 'model.py', SRC + 'element/element.py'],
  [('encoding of scalars', SRC + 'serializers/serializer.py: encode_primitive'), ('delegation to pydantic', SRC + 'model.py: to_xml_tree')])
p('C26', 'The static typing plugin accepts exactly valid constructor calls',
  'With the type-checker plugin enabled, a constructor call of a model by keywords is accepted exactly if it is valid at run time: a field is required unless it (or the entity it wraps) has a default or a factory, it is given by the name it is populated by (validation alias, alias, or its own name where there is none or it is allowed), unknown names only where extra ones are not forbidden, values of another type only where the field is not strict; fields and models that are frozen cannot be assigned to. This holds however the field is declared - attribute, element, wrapped at any depth, plain - for inherited fields and settings too, and the plugin\'s stricter settings only ever reject more.',
  ['programs'], 'every way of writing a field down x class settings x inheritance x every set of arguments',
  'Tests do not run the plugin at all.',
  [SRC + 'mypy.py', SRC + 'fields.py'], [('mypy plugin hooks', SRC + 'mypy.py')], observe=['mypy with pydantic_xml.mypy', 'constructors of models'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
