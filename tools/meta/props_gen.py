import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a)
M='opg/src/models.rs'; L='opg/src/lib.rs'; X='opg/src/macros.rs'
reg=[('schema registry','named schemas shared by the whole document',M+' Components::schemas')]
ps=[
P('C01','Every emitted schema link resolves, also for recursive types',
 'Whenever types are mentioned to a registry whose links all resolve, generation terminates, every link in the returned schema or reference names a registered schema, and every link inside every registered schema still does. This holds for any nesting of named, unnamed, inlined, wrapped and mutually recursive types, as long as every cycle passes through a type that is referred to by name (a schema that is inlined into itself has no finite form).',
 ['inputs','programs','histories'],'all type graphs, all sequences of mentions, all inline flags and parameters',
 'The tests build a handful of fixed types and compare their YAML; the guarantee is over all type graphs (cycles included) and all orders of mentions.',
 [M,L,X,'opg_derive/src/opg.rs'],[('mention_schema reserves the name before describing the type',M+' Components::mention_schema'),('trait contract of OpgModel: described schemas only link to what is registered',M+' OpgModel'),('built-in implementations',X+' impl_opg_model!'),('generated implementations','opg_derive/src/opg.rs')],
 ['Components::mention_schema','OpgModel::get_schema','Components.schemas'],reg),
P('C02','Registration never loses or replaces an entry; the first one wins',
 'No operation of the registry removes or changes a schema or security scheme that is already registered: mentioning or adding a known name leaves the registry as it was, and mentioning a new type adds the schemas it makes reachable by links and nothing else. Queries answer exactly according to that state, and schemas and security schemes do not disturb each other.',
 ['inputs','histories'],'all histories of mentions, manual additions, security schemes and queries',
 'Tests never register a name twice in a row with different contents, let alone arbitrary histories.',
 [M],[('entry taken only when vacant',M+' Components::add_model'),('contains_key guard',M+' Components::mention_schema, mention_security_scheme')],
 ['Components.schemas','Components.security_schemes','contains_model'],reg),
P('C03','Link verification is exact',
 'Verifying a registry succeeds exactly when every link in it, at any depth and in any position (items, properties, additional properties, oneOf, allOf, anyOf, inline models), names a registered schema. When it fails, the reported name is a link that really occurs and really does not resolve.',
 ['inputs'],'all registries: any schemas, nested to any depth',
 'Tests verify two or three registries whose links are one level deep.',
 [M],[('recursive traversal with a shared context',M+' traverse methods'),('lookup',M+' TraverseContext::check')],['Components::verify_schemas'],reg),
P('C04','Context parameters override exactly what they set',
 'Applying context parameters to a schema sets the description, nullability, enum variants, format and example that are given and that the kind of schema has, and leaves everything else, in particular nested schemas and combined schemas, untouched. Wherever a type is described or referred to with parameters, the result is its own schema with the parameters applied that way; references by name carry none.',
 ['inputs'],'all schemas, all combinations of parameters, all built-in types',
 'Tests apply one or two parameters to one kind of schema; the frame condition is over all 32 combinations on every kind.',
 [M,X,'opg_derive/src/opg.rs'],[('apply_params cascade',M+' Model*/apply_params'),('get_schema_with_params and select_reference',M+' OpgModel')],['Model::apply_params','OpgModel::get_schema_with_params','Components::mention_schema']),
P('C05','Merging schemas is all or nothing and loses no property',
 'Adding a property or merging an object schema succeeds exactly when no property name occurs on both sides (and, for whole models, both are object schemas); the result then has exactly the properties of both, each unchanged, and the required names of both. When it fails, the target is exactly as it was.',
 ['inputs','histories'],'all pairs of schemas and all sequences of additions and merges',
 'Tests merge one conflict-free pair; failure atomicity and value preservation quantify over all pairs.',
 [M],[('conflict check before the first change',M+' ModelObject::merge'),('vacant-entry insertion',M+' ModelObject::add_property')],['ModelObject::merge','ModelObject::add_property','Model::try_merge']),
P('C06','Built-in types are described by their own schema in every nesting',
 'Every built-in type (numbers, strings, booleans, atomics, unit, references and smart pointers, optionals, tuples, arrays, sets, maps, dates, UUIDs) is described by the schema of the values it serializes to, however it is nested: wrappers are transparent, an optional is the nullable form of what it wraps, collections have the element type as items or additional properties, and tuples list their element types in order. A named type is registered under its name with its own schema, whichever wrapper mentioned it first.',
 ['inputs','programs'],'all nestings of all built-in types over all user types',
 'Tests describe a few concrete types; the guarantee is over the infinitely many nestings and over which mention comes first.',
 [L,X],[('impl_opg_model! instances',L),('generic_simple, generic_tuple, generic_array, generic_dictionary arms',X+' impl_opg_model!')],['OpgModel::get_schema','OpgModel::select_reference','Components.schemas']),
P('C07','Rename rules give the names serde gives',
 'For every identifier and every rename rule (lowercase, UPPERCASE, PascalCase, camelCase, snake_case, SCREAMING_SNAKE_CASE, kebab-case, SCREAMING-KEBAB-CASE, or none) the name computed for a field or a variant is the one serde computes, and an unknown rule is rejected. An explicit name always wins over a rule, and raw identifiers lose their prefix.',
 ['inputs'],'all identifiers (any length, any characters) and all rules',
 'Two table tests cover about a dozen identifiers.',
 ['opg_derive/src/case.rs','opg_derive/src/attr.rs','opg_derive/src/dummy.rs'],[('RenameRule::apply_to_variant and apply_to_field','opg_derive/src/case.rs'),('Name','opg_derive/src/attr.rs'),('unraw','opg_derive/src/dummy.rs')],['property names and enum variants of derived schemas']),
P('C08','Schemas are serialized faithfully',
 'Every schema object, however nested, is serialized to the OpenAPI object that says the same: type, format, example, enum, nullable, items, properties, additionalProperties, required, oneOf/allOf/anyOf and description appear exactly when they are set, with exactly their values, under their OpenAPI names and nothing else. A link becomes one $ref to the schema of that name and an unconstrained schema becomes an empty object.',
 ['inputs'],'all schema objects of any depth, any serializer',
 'Tests compare the YAML of about fifteen fixed schemas.',
 [M],[('Serialize of Model, ModelData, ModelType, ModelTypeDescription, ModelString, ModelSimple, ModelArray, ModelObject, ModelReference',M),('serialize_model_reference_link, serialize_model_reference_any',M)],['serde_json/serde_yaml output of Model and ModelReference']),
P('C09','Documents, paths and operations are serialized faithfully',
 'Every document is serialized to the OpenAPI document that says the same: paths in declaration order with parameters in braces, each operation under its lowercase method, parameters and tags as lists carrying their names, request bodies and responses as JSON content, callbacks, security requirements and schemes, all optional parts present exactly when set and nothing else.',
 ['inputs'],'all documents, any serializer',
 'Tests print one or two documents; omission, order and naming must hold for all.',
 [M],[('serialize_path_elements, serialize_ordered_entries, serialize_parameters, serialize_tags',M),('Serialize of Opg, PathValue, Operation, RequestBody, Response, SecurityScheme, ...',M)],['serde_json/serde_yaml output of Opg']),
P('C10','Derived schemas agree with what serde writes',
 'For every type definition in the supported subset (structs, tuple structs, newtypes, and enums that are external, internal, adjacent, untagged, unit-only or repr; no serde flatten, transparent or with), the derived schema describes what serde writes for its values: the same property names after renaming, exactly the non-optional ones required, the same variant names where the representation has a place for them (tags and unit enums), the same representation (an external enum is an object whose additional property is one of the contents of its variants), skipped fields and variants absent, and each opg attribute (format, example, nullable, optional, inline, any, string/number/integer/boolean, description) applied to the field or type it is declared on and to nothing else. A type parameter has to be a model itself only where its values are described.',
 ['programs'],'all type definitions the derive accepts, with any combination of attributes',
 'Tests derive about twenty fixed types.',
 ['opg_derive/src/opg.rs','opg_derive/src/attr.rs','opg_derive/src/ast.rs','opg_derive/src/bound.rs'],[('code generation per representation','opg_derive/src/opg.rs'),('type parameters and where clauses','opg_derive/src/bound.rs build_generics'),('attribute parsing','opg_derive/src/attr.rs')],['schemas returned by derived OpgModel implementations']),
P('C12','describe_api! documents contain exactly what is declared',
 'The document built by a description contains exactly what the description declares: every path segment and parameter, operation, tag, server, security scheme and requirement, request body, response, callback and parameter property, with the declared value or the documented default, each in its place, and the schemas of all mentioned types registered. Setting one part of an operation changes no other part.',
 ['programs','inputs'],'all descriptions the macro accepts',
 'Tests contain three descriptions and compare parts of them.',
 [X,M],[('describe_api! arms',X),('Operation builder methods',M+' impl Operation')],['Opg value returned by describe_api!']),
P('C11','Contradictory or malformed attributes are rejected, never ignored',
 'A type definition with an unknown, malformed, duplicated or contradictory opg attribute never produces an implementation: it is rejected with an error that names the place, and a definition whose attributes are well-formed, within the supported subset, is never rejected.',
 ['programs'],'all attribute lists',
 'There are no tests of rejected input.',
 ['opg_derive/src/attr.rs','opg_derive/src/ast.rs','opg_derive/src/parsing_context.rs','opg_derive/src/lib.rs'],[('errors handed to the compiler','opg_derive/src/lib.rs to_compile_errors'),('Attr::set reports duplicates','opg_derive/src/attr.rs'),('ParsingContext collects errors','opg_derive/src/parsing_context.rs')],['compilation of derived types']),
P('C13','describe_type! builds exactly the described schema',
 'A schema written with describe_type! is exactly the described one: the described kind with the given description, format, example and variants, array items, object properties under their names with exactly the marked ones required, links to the given names, nested descriptions and values of the program in their places. What is left out is absent, and nothing else is set.',
 ['programs','inputs'],'all descriptions the macro accepts, at any nesting',
 'Tests write two descriptions and check one link in them.',
 [X],[('describe_type! arms',X+' describe_type!')],['Model value returned by describe_type!']),
]
ps.sort(key=lambda p:p['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in ps))
for p in ps: assert len(p['title'])<=80,p['id']
