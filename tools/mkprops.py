import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
T='transform/'
p('C01','A transformer is never changed by the documents it transforms',
 "Transforming a document never modifies the transformer (its parsed transform instructions, its method order, its stored schema defaults) nor anything reachable from it. The result for a document is therefore the same whether it is the first or the thousandth document, whatever documents came before, and several goroutines may share one transformer.",
 ['histories','schedules','inputs'],'for every transformer, every sequence of documents and every interleaving of concurrent Transform calls',
 'The tests build a fresh transformer per case and transform one document; they never run a second document through the same transformer or two at once.',
 [T+'instance.go',T+'transform.go',T+'transformer.go'],[('write frames of every transform method','transform/instance.go, transform/transform.go'),('default values copied before use','transform/instance.go')],['Transform','TransformNoValidation'])
p('C02','Transformation output is a function of schema, identifier and document',
 "For a given schema, transform identifier and input document the transformer yields the same output bytes, or fails, on every run; the iteration order of Go maps never influences a value, which siblings see, or whether an error occurs (the currentTime operation excepted). The children of one object do not observe each other's results or leave traces in the input that their siblings read.",
 ['inputs','histories'],'for every schema, document and every map iteration order',
 'A test sees a handful of the possible iteration orders of small maps; order dependence between siblings shows up only for particular schemas and orders.',
 [T+'instance.go',T+'transformer.go'],[('children evaluated against an unmodified input','objectTransformer / arrayTransformer'),('copy on write when saving an array base','saveInTree')],['Transform'])
p('C03','Transforming a document never panics',
 "For a transformer that was successfully constructed, transforming any byte sequence as JSON or XML input returns either output or an error and never panics. In particular values of unexpected types, empty or missing arrays and objects, nulls, and paths that lead through values of another kind are reported as errors or treated as absent.",
 ['inputs'],'for every constructed transformer and every input byte sequence',
 'Only documents that have the shape the schema author expected are tested; index, type-assertion and nil-map failures need documents of a different shape.',
 [T+'instance.go',T+'transform.go',T+'operations.go',T+'utils.go',T+'transformer.go'],[('checked type assertions and bounds','all transform methods')],['Transform','TransformNoValidation'])
p('C04','Transform only returns output the schema validated',
 "Whenever Transform returns output without an error, the schema's validator accepted exactly those bytes; if validation reports an error or an invalid verdict, or parsing, transformation or marshalling fails, Transform returns an error and no output. TransformNoValidation performs the same transformation and returns the same bytes as Transform would, without consulting the validator.",
 ['inputs','configurations'],'for every schema, document and validator verdict, for JSON and XML input',
 'Tests check a few valid and invalid results; they do not establish that the validated bytes are the returned bytes on every path and for both formats.',
 [T+'transformer.go','jsonschema/schema.go'],[('validation of the marshalled bytes before return','Transformer.jsonTransform / xmlTransform')],['Transform','TransformNoValidation'])
p('C05','Scalar value resolution order',
 "For every scalar in the schema the output value is the result of its transform if that yields a value; otherwise, for JSON input only, the value at the same path of the input converted to the schema type if it exists and converts; otherwise the schema default, or nothing if there is no default. An error from the transform is returned as an error, while a failed conversion of the same-path value falls through to the default.",
 ['inputs','configurations'],'for every scalar instance definition and every input document, JSON and XML',
 'The tests sample one combination of transform/path/default per type; the order must hold for every combination of presence, type and conversion failure.',
 [T+'instance.go',T+'utils.go'],[('three-step resolution','scalarTransformer'),('conversion','convert')],['Transform'])
p('C06','Array values: base resolution, element order and omission',
 "For every array in the schema the base list is the transform result, else (JSON only) the same-path input value, else the schema default, a single non-list value counting as a list of one. When the schema defines items, the output list consists of the item transformation of each base element (for XML, plain non-node elements are kept as they are) in base order with absent results dropped, and an empty list is omitted; an error from an element is returned.",
 ['inputs','configurations'],'for every array definition, every base length and every pattern of present and absent elements',
 'Tests use arrays of one to three elements with every element present; order, dropping and length must hold for all lengths and patterns.',
 [T+'instance.go'],[('base value selection','arrayTransformer.baseValue*'),('element loop','arrayTransformer.arrayTransform*')],['Transform'])
p('C07','Object values mirror the schema',
 "For every object in the schema with declared properties the output object holds its base (the transform result for JSON input, else the schema default, else empty) plus, under each declared property name, the value produced for that property; a property that produces nothing leaves the base entry for that name untouched, and no other entry is added, changed or dropped. An object that would be empty is omitted, an error of any property is returned, and for XML input an object transform that finds no node yields the default or nothing and otherwise selects the node its properties are resolved against.",
 ['inputs','configurations'],'for every object definition, every set of properties and every pattern of present and absent values',
 'Tests compare a few complete documents; completeness and exclusiveness of the keys must hold for every number of properties and every pattern of absent values.',
 [T+'instance.go',T+'transformer.go'],[('children loop','objectTransformer'),('saving under the property name','saveInTree')],['Transform'])
p('C08','Transform methods first, last and concatenate',
 "With method first (the default) a transform yields the value of the first instruction, in written order, that produces one; with last the value of the last instruction that produces one; with concatenate all produced values joined in written order with the delimiter between non-empty strings. Instructions that find nothing are skipped, none producing a value yields nothing, values of different or non-string types cannot be concatenated with each other, and an error of an instruction that is evaluated makes the transform fail.",
 ['inputs','configurations'],'for every list of instructions, every pattern of found and missing values and every delimiter',
 'Tests use lists of one or two instructions and a single evaluation; the rule must hold for all lengths, all patterns and repeated use.',
 [T+'transform.go',T+'utils.go'],[('method dispatch and loop','transformInstructions.transform'),('joining','concat')],['Transform'])
p('C09','Instruction evaluation: lookup, conversion, operation chaining',
 "A transform instruction that finds nothing at its path, or null, yields nothing and no error. Otherwise the found value is converted to the type of the field (and used unconverted when it cannot be, except that the text of a single XML leaf element that does not convert yields nothing) and passed through the listed operations in written order, each receiving the previous result; the first failing operation makes the instruction fail with an error, and no operation is skipped or applied twice.",
 ['inputs','configurations'],'for every path, value, field type and list of operations, JSON and XML',
 'Tests chain at most two operations; order, exactly-once application and error propagation must hold for any number.',
 [T+'transform.go'],[('operation loop','transformInstruction.jsonTransform / xmlTransform')],['Transform'])
p('C10','Conversion of values to schema types',
 "Conversion keeps values that already have the schema type and otherwise follows fixed rules: strings are parsed as booleans, integers, floats or RFC 3339 times and numbers and booleans are formatted as strings; numbers are true when positive; true and false become 1 and 0; numbers become UTC times from Unix seconds; an empty string is false, no number and no time. For non-array fields a list stands for its first element, recursively, and an empty list or null is nothing; a value that cannot be converted is an error and never a made-up value.",
 ['inputs'],'for every input value of every dynamic type and every schema type',
 'The tests enumerate a few values per type; the rules must hold for every string, number and nesting.',
 [T+'utils.go'],[('type switches','convert, convertBoolean, convertNumber, convertString, convertDateTime')],['Transform'])
p('C11','Text operations compute their documented results',
 "changeCase maps the whole string to the requested case, replace substitutes every match of the regular expression, split yields the substrings between occurrences of the separator in order (none for an empty string), toCamelCase lower-cases the first part and title-cases every later one, timeParse re-formats a time from the given format to the layout, removeHTML strips markup and unescapes entities, currentTime ignores its input and prints the present time in the given format. Given a value that is not a string each of them (except currentTime) fails with an error, as does timeParse on an unparsable time.",
 ['inputs','configurations'],'for every input string and argument value, and every input of another type',
 'Tests use a few short strings per operation; the results must be right for every string, number of parts and argument.',
 [T+'operations.go'],[('operation transform methods','transform/operations.go')],['Transform'])
p('C12','Numeric, boolean and selection operations compute their documented results',
 "duration turns SS-terminated MM:SS and HH:MM:SS strings into seconds, inverse negates a boolean, valueExists tells whether a string or node list is non-empty, convertToFloat64, convertToInt64 and convertToBool convert strings by parsing and numbers by value (non-zero is true, a list is true when non-empty). max returns the requested field of the first element whose numeric by field is greatest, whatever the signs of the numbers. Inputs of other types, unparsable strings, and for max an empty list or a missing or non-numeric field, are errors.",
 ['inputs','configurations'],'for every input value of every dynamic type, every list length and every sign pattern',
 'Tests use one or two elements with positive numbers and well-formed strings; the rules must hold for every list and number.',
 [T+'operations.go'],[('operation transform methods','transform/operations.go')],['Transform'])
p('C13','Malformed transform definitions are rejected when the transformer is built',
 "Building a transformer fails with an error if a transform names an unknown method or operation, or gives an operation that takes arguments a missing, misspelt or additional argument (changeCase a case other than lower or upper, replace an invalid regular expression). A definition that passes yields exactly the written instructions and operations, in written order, of the named kinds and with the written arguments.",
 ['inputs','configurations'],'for every transform section',
 'Tests try a few invalid definitions; rejection and faithful construction must hold for every operation, argument set and list.',
 [T+'transform.go',T+'operations.go',T+'utils.go'],[('UnmarshalJSON of instructions','transform/transform.go'),('argument checks','operation init methods, requiredArgs')],['NewTransformer','NewXMLTransformer'])
p('C14','Relative paths and array indices resolve to the element being built',
 "A path starting with @. or @[ is resolved against the parent of the instance that carries the transform (the array element itself for a scalar item), only that prefix is replaced, and all other paths are used as written. While element i of an array is being transformed, every path below that array - instruction paths and same-path lookups, at any nesting depth - refers to index i of that array instead of [*].",
 ['inputs','configurations'],'for every path, nesting depth and array length',
 'Tests use one level of nesting and small arrays; prefix handling and index substitution must hold for any depth, index and path text.',
 [T+'utils.go',T+'transform.go',T+'instance.go'],[('prefix replacement','extractTransformInstructions, replaceJSONPathPrefix'),('path modifiers','pathReplace')],['NewTransformer','Transform'])
J='jsonschema/'
p('C15','Walking a schema visits every instance exactly once with its path',
 "Walk and WalkRaw call the callback exactly once for every instance below the root, each property of each object and the items of each array, with its JSONPath (parent path plus .name, or [*] for items) and its own definition, a parent before its children. The first error from the callback stops the walk and is returned, as are malformed definitions; if no error occurs, none was returned by any callback.",
 ['inputs','fault_sequences'],'for every schema tree and every point at which the callback fails',
 'Tests walk a few small schemas with a callback that never fails part-way; completeness, paths and error propagation must hold for all trees.',
 [J+'walk.go'],[('recursion','walkInstance / walkRaw')],['Walk','WalkRaw'])
p('C16','The type of a schema field is determined faithfully',
 "The type reported for a field definition is the string given as its type or the single non-null entry of its type list, and it is nullable exactly when it is a list containing null. A list naming two or more other types, a missing type, or a type that is neither a string nor a list is reported as an error, never as some type.",
 ['inputs'],'for every field definition and every type list in any order',
 'Tests try a handful of type values; every list order and length has to be decided correctly.',
 [J+'schema.go'],[('FieldType','jsonschema/schema.go')],['FieldType'])
p('C17','allOf and oneOf parts are merged without loss or override',
 "A loaded schema contains its own properties and required fields plus those of its allOf parts (when flattening, or when it has no properties of its own) and of the oneOf parts whose file name matches the requested type, and nothing from other oneOf parts. A property the schema already has is never replaced, every property of an included part is present, and items are taken from the first source that defines them; the reported allOf and oneOf references and the sorted property names of a schema file are complete.",
 ['inputs','configurations'],'for every set of parts, in every order, with every overlap of property names',
 'Tests load a few fixture schemas; precedence and completeness must hold for every overlap, order and number of parts.',
 [J+'schema.go'],[('merge loops','schemaFromFile'),('map merge','mergeProperties'),('listing','SchemaTypes')],['SchemaFromFile','SchemaFromFileNoFlatten','SchemaTypes'])
p('C18','The load cache returns what was built for that key and never caches failures',
 "Loading a key that is cached returns the cached value without building again; otherwise the builder's value is returned and stored under that key only if it succeeded. A builder's error is returned to the caller with no value and leaves the cache unchanged, so a later load builds again.",
 ['histories','fault_sequences'],'for every sequence of loads and builder failures',
 'Tests exercise a fixed sequence of hits; failure followed by success, key separation and absence of rebuilds must hold for all histories.',
 [J+'cache.go'],[('Load','Cache.Load')],['SchemaFromFile','NewValidator'])
p('C19','The validator reports valid only for documents without validation errors',
 "A validator answers true with no error exactly when the JSON schema engine evaluated the given bytes and found no error; engine failures and validation errors are returned as errors with the answer false.",
 ['inputs'],'for every document and every engine verdict',
 'Tests validate a few documents; the mapping of the engine result must hold on all paths.',
 [J+'validator.go',J+'schema.go'],[('Validate','validator.Validate')],['Validate'])
G='generate/'
p('C20','Generated Go fields have the type, nullability and tag the schema asks for',
 "Each schema type maps to one Go type (boolean bool, number float64, integer int64, string string, date-time time.Time, object a struct or map, arrays a slice of the item type), with a pointer for nullable fields and, when pointers are requested, for optional times; union types are rejected. The JSON tag carries the schema property name unchanged even when the Go field is renamed, with an omit option exactly for fields that are not required.",
 ['inputs','configurations'],'for every field definition, required set, rename map and option setting',
 'Tests compare generated files for a few schemas; the mapping must hold for every combination of type, nullability, requiredness, array and options.',
 [G+'struct.go'],[('field extraction','addField'),('type mapping','goType'),('tags','extractedField.write')],['BuildStructsWithArgs'])
p('C21','GraphQL fields have the type and nullability the schema asks for',
 "Each field maps to the GraphQL scalar of its schema type, to its explicit target or to its object type; it is marked non-null exactly under the documented rules (never for date-times or Any, always for required fields, for non-nullable scalars, and whenever pointers are off), and lists are non-null unless nullable or optional with pointers on. A hydration field yields its target type together with all its arguments in order, and a description is written as a comment on the prefix it belongs to with none of its lines lost.",
 ['inputs','configurations'],'for every field definition and option setting',
 'Tests compare generated files for a few schemas; the mapping must hold for every combination of type, nullability, requiredness, array and options.',
 [G+'graphql.go'],[('type mapping','graphqlType'),('comments','graphqlComment')],['BuildStructsWithArgs'])
p('C22','Avro time helpers preserve the instant to the millisecond',
 "Converting a time to its Avro representation yields its Unix time in milliseconds, rounded down, for every time including years before 1678, after 2262 and the zero time. An absent optional time yields 0 and a present one the same number as a required time; lists are converted element by element in order, absent elements being left out.",
 ['inputs'],'for every time value whose Unix milliseconds fit in 64 bits',
 'The tests use a present-day time; overflow and rounding need extreme or pre-1970 times.',
 [G+'avro_helpers.go'],[('time conversion','AvroTime, AvroOptionalTime')],['AvroTime','AvroOptionalTime'])
p('C24','Generated declarations are complete and deterministically ordered',
 "The fields of a generated struct or GraphQL type are emitted sorted by name with every field exactly once, and the root type comes first followed by every nested type exactly once in name order, so that the same schema always generates the same text. A generated Go file imports time exactly when some field, at any depth, is a date-time.",
 ['inputs'],'for every set of fields with distinct names, every nesting and every map iteration order',
 'A test sees only a few map iteration orders of small structs; completeness and order must hold for all of them.',
 [G+'struct.go',G+'graphql.go'],[('sorting','extractedFields.Sorted, goFile.structs'),('import decision','IncludeTime')],['BuildStructsWithArgs'])
p('C25','Command line rename maps are parsed exactly',
 "A key=value option adds precisely the given pairs, splitting on commas and on the first equals sign of each pair, so that values may themselves contain equals signs; later pairs override earlier ones and pairs given before are kept. A pair without an equals sign is reported as an error.",
 ['inputs','histories'],'for every option string and every sequence of options',
 'No test covers the flag type beyond a few strings.',
 ['main.go'],[('Set','mapFlags.Set')],['main'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,x['title']
