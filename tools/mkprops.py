#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
H3, H31 = "openapi3/helper.go", "openapi31/helper.go"
R3, R31 = "openapi3/reflect.go", "openapi31/reflect.go"
E3, E31 = "openapi3/entities.go", "openapi31/entities.go"
W3, W31 = "openapi3/walk_schema.go", "openapi31/walk_schema.go"
J3, J31 = "openapi3/jsonschema.go", "openapi31/jsonschema.go"
JS, OC, OP = "internal/json_schema.go", "internal/operation_context.go", "operation.go"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Accepted operations are never lost, duplicated or overwritten",
  "After any history of registrations the document contains exactly the operations whose registration succeeded, each once, under its lower-cased method and cleaned path, with the content it was registered with. "
  "Registering a method and path (in 3.1 also a webhook name) that is already taken fails, whichever entry point is used, whatever the letter case of the method and however the placeholder pattern is spelled.",
  ["histories"], "every finite history of context creation and registration calls (reflector entry point, raw document entry point, setup entry point) over any methods, paths and interleavings of prepared contexts",
  "Tests register one or two operations in a fixed order; loss or replacement needs histories that mix entry points, repeat paths with different spelling, or prepare two contexts before adding either.",
  [H3, H31, R3, R31, OP],
  [("duplicate lookup before insert", "Spec.AddOperation / Spec.SetupOperation in both helper.go"), ("duplicate lookup on context creation", "Reflector.NewOperationContext")],
  ["Reflector.AddOperation", "Spec.AddOperation", "Spec.SetupOperation", "marshalled paths"],
  [("paths", "path -> method -> operation map of the document", "Spec.Paths")])
p("C02", "Method validation and path placeholder parsing",
  "A method is accepted exactly when it is one of the eight HTTP methods in any letter case, and it is reported lower-cased. "
  "Every {name} or {name:pattern} placeholder contributes its name, in order, and the resulting path is the given one with only the :pattern parts removed; cleaning an already clean path changes nothing.",
  ["inputs"], "every method string and every path string, including unbalanced braces, nested braces, empty names, colons outside placeholders and repeated placeholders",
  "One table test with a handful of well-formed paths; malformed or adjacent placeholders, repeated placeholders with patterns and unusual characters are not sampled.",
  [OP], [("placeholder scanner", "SanitizeMethodPath"), ("method switch", "SanitizeMethodPath")],
  ["SanitizeMethodPath result", "OperationContext.Method/PathPattern"])
p("C03", "An operation is accepted iff its path parameters match the placeholders",
  "An operation is accepted if and only if its set of path parameters equals the set of placeholders of its path and no two of its parameters share both location and name; same names in different locations are fine. "
  "This holds for parameters declared by hand and for parameters reflected from structures.",
  ["inputs", "histories"], "every list of declared parameters (any location, any name, repeated or not) against every set of path placeholders, on every operation entry point of both document versions",
  "Tests cover one missing, one undefined and one duplicate parameter; combinations (duplicate plus missing, same name in several locations, name/location concatenation clashes) are unsampled.",
  [H3, H31, R3, R31], [("path parameter validation", "Operation.validatePathParams"), ("duplicate parameter detection", "Reflector.parseParametersIn")],
  ["error result of AddOperation/SetupOperation", "marshalled paths"])
p("C04", "A rejected call leaves every registered operation and webhook untouched",
  "When creating, adding or setting up an operation or webhook fails, every operation and webhook already in the document is exactly what it was before the call, and nothing partial is registered under the rejected method, path or name.",
  ["histories", "fault_sequences"], "every history in which some call fails: duplicate, bad method, missing/undefined/duplicate parameter, failing setup function, repeated use of an already added context",
  "Tests check that an error is returned, not that the document is unchanged afterwards; shared maps and pointers between contexts and the document only show in multi-step histories.",
  [H3, H31, R3, R31], [("validate before insert", "Spec.SetupOperation"), ("existence check before set up", "Reflector.AddOperation / AddWebhook")],
  ["marshalled paths and webhooks before and after the failing call"])
p("C05", "Each tagged request field becomes exactly one parameter in its location",
  "Every exported request field tagged (or mapped) for path, query, header or cookie, including those of embedded structures, appears as exactly one parameter with that name and location, a schema describing its Go type and constraint tags, and nothing else appears. "
  "Path parameters are always required, other parameters exactly when tagged so; collection formats select the documented style and explode, structures tagged only for JSON are carried as JSON content, and structures tagged for the location are deep objects. "
  "A location closed by its unnamed field forbids unknown parameters.",
  ["inputs", "configurations"], "every request structure built from scalars, named types, pointers, slices, maps, nested, embedded and recursive structures with any combination of location, constraint, collectionFormat and mapping, on every method",
  "Tests assert a few hand-written structures; the product of tags, types, embedding, mappings, methods and content types is not sampled.",
  [R3, R31, JS], [("parameter reflection", "Reflector.parseParametersIn, internal.ReflectParametersIn"), ("required path", "parseParametersIn")],
  ["marshalled operation parameters", "x-forbid-unknown-* members", "UnknownParamsAreForbidden"])
p("C06", "Request body is present exactly when the input defines one",
  "A request body is documented exactly when the method allows one (not GET, HEAD, DELETE, TRACE, unless enforced) and the input has JSON fields, form fields, a map or slice, or an explicit content type; its media types are JSON, URL-encoded form, multipart when files are present, or the given type. "
  "Form fields suppress the JSON body unless enforced, each media type's schema describes exactly the fields of its tags, and file fields are binary strings.",
  ["inputs", "configurations"], "every method, every request structure (with any mix of json/form/formData/file/contentType fields, enforcer markers and field mappings), every explicit content type and several content units per operation",
  "Tests exercise single examples per body kind; combinations of tags, methods, enforcers and several units in one operation are unsampled.",
  [R3, R31, JS], [("body reflection", "internal.ReflectRequestBody"), ("content type dispatch", "Reflector.setupRequest")],
  ["marshalled requestBody", "form data component schemas"])
p("C07", "Each response unit is documented under its status with content and headers",
  "Every response unit is documented under its status (absent means 200, 1-5 means a status family, default means default); units of one status merge their content types and headers, and other statuses are unaffected. "
  "Each carries the JSON schema of its structure under its media type (parameters of the media type dropped), its header fields, and a description that is the given one, else the structure's, else the standard status text; HEAD responses carry headers only; an operation without responses gets 204.",
  ["inputs", "configurations"], "every list of response units (structures, statuses, families, default, content types, formats, descriptions, customisations, references) on every method in both versions",
  "Tests use one or two responses; merging several units per status, families next to exact codes, HEAD and header combinations are not sampled.",
  [R3, R31, JS, H3, H31], [("response setup", "Reflector.setupResponse"), ("204 default", "Spec.AddOperation")],
  ["marshalled responses"])
p("C08", "Every schema reference resolves and component names are valid",
  "After any successful history every local schema reference in the document, at any depth, points to an existing component schema, and every component schema name consists only of letters, digits, dot, dash and underscore.",
  ["histories", "inputs"], "every sequence of operations over any Go types (generic, recursive, nested in slices/maps/pointers/embedded, in bodies, responses, parameters, headers)",
  "A dangling reference appears only for particular nestings and orders; tests compare a few golden documents.",
  [R3, R31, JS], [("definition collection", "Reflector.collectDefinition, parseRequestBody"), ("name sanitizer", "sanitizeDefName")],
  ["all $ref strings and component keys of the marshalled document"])
p("C09", "Component schemas faithfully and stably describe their Go types",
  "Each named Go structure used in JSON position is described by exactly one component schema holding exactly its fields with the constraints of their tags, equal for every use; once present it is not changed, renamed or removed by later operations. "
  "The form variant of a form-tagged type is kept as a separate component.",
  ["histories", "inputs"], "every order and number of operations sharing types between request bodies, responses and parameters, where each type is used with one naming tag",
  "Tests reflect each type once or twice; interference between uses in different positions and orders is not sampled.",
  [R3, R31, JS], [("definition collection", "Reflector.collectDefinition, parseRequestBody"), ("form variant naming", "internal.ReflectRequestBody")],
  ["components.schemas after every call"])
p("C10", "OpenAPI 3.0 and 3.1 reflectors agree",
  "Given the same history, both reflectors accept and reject the same calls and produce documents with the same operations, parameters, bodies, media types, responses, headers and components, whose schemas are equal once the 3.1 JSON Schema is expressed in 3.0 vocabulary. Left out: members only one version has; null of whole response bodies and of parameters that are not pointers, which 3.0 does not record; component schemas that a rejected call left behind.",
  ["histories", "inputs"], "every history of calls available on both versions over every request/response structure",
  "Each version has its own tests with its own golden documents; nothing compares them on common inputs.",
  [R3, R31, H3, H31, J3, J31], [("parallel implementations", "openapi3 and openapi31 reflect.go, helper.go")],
  ["marshalled documents of both versions"])
p("C11", "JSON encoding of documents is lossless",
  "Decoding a document and encoding it again keeps every member the version defines and every extension (3.0: x- keys; 3.1: everything its schema objects and extension points allow), changing only the omission of optional members that are null or empty collections, and the explicit default of the style of header objects and of 3.0 header and cookie parameters; encoding a document built in code and decoding it gives an equal document. "
  "Encoding is idempotent, and extensions never shadow or lose defined members.",
  ["inputs"], "every document over every object kind of the version (all unions, references, extensions, arbitrary member subsets and schema values)",
  "Round trips are tested on a few fixtures; each object kind has its own generated codec with its own member list, union and extension handling.",
  [E3, E31], [("generated codecs", "UnmarshalJSON/MarshalJSON of each entity"), ("union and extension merging", "marshalUnion, unmarshal maps")],
  ["MarshalJSON after UnmarshalJSON"])
p("C12", "YAML and JSON encodings carry the same document",
  "Reading a document from YAML gives the same document as reading the equivalent JSON, and writing YAML then reading it back gives the document that was written, including member order at the top level, keys and strings that look like other YAML types, and numbers up to double precision.",
  ["inputs"], "every document; strings and keys such as yes, 0x1, 1e3, null, dates, multi-line text, non-string map keys, nested maps and lists",
  "YAML is tested on fixtures without ambiguous scalars or non-string keys.",
  ["openapi3/yaml.go", "openapi31/yaml.go"], [("YAML bridge", "MarshalYAML/UnmarshalYAML"), ("ordered keys", "orderedMap, objectKeys, skipValue")],
  ["MarshalYAML/UnmarshalYAML results"])
p("C13", "Decoders accept valid objects and reject malformed ones",
  "Decoding accepts every well-formed object and rejects one that misses a required member, has an unknown non-extension member (3.0), an enumerated member outside its values, a member of the wrong type, or matches none of the alternatives of a union. A null stands for an absent optional member (an empty value where the member is required by a union) and is not judged elsewhere; members unknown to 3.1 objects are not judged.",
  ["inputs", "fault_sequences"], "every object kind of each version crossed with every single-member corruption: removal, renaming, wrong type, foreign value",
  "Generated code tests decode one or two valid documents; almost no rejection path is tested.",
  [E3, E31], [("required/unknown key checks", "UnmarshalJSON of each entity"), ("const/enum checks", "UnmarshalJSON of const and enum types"), ("union resolution", "OrRef/OrReference and security scheme unions")],
  ["UnmarshalJSON error result"])
p("C14", "JSON Schema to OpenAPI 3.0 schema conversion preserves constraints",
  "Converting a JSON Schema into an OpenAPI 3.0 schema keeps every keyword 3.0 can express (types, null as nullable, numeric, string, array and object bounds inclusive or exclusive, combinators, defaults, examples, references, extensions) at every nesting level, and converting back gives an equivalent JSON Schema. "
  "Boolean schemas become the empty schema or its negation.",
  ["inputs"], "every finite JSON Schema over the shared vocabulary, nested through every applicator, with every combination of keywords",
  "One fixture converts one structure; keyword combinations and nesting under each applicator are not sampled.",
  [J3], [("conversion", "SchemaOrRef.FromJSONSchema"), ("back conversion", "SchemaOrRef.ToJSONSchema")],
  ["FromJSONSchema/ToJSONSchema results"])
p("C15", "Schema walkers report exactly what the operation documents",
  "Walking a request content unit reports each parameter and each form field once with its location, name, schema and required flag, and the JSON body once; walking a response unit reports each header under its canonical name and each content schema; the completion callback is called exactly once, also on failure, and a callback error stops the walk and is returned. "
  "This holds for default, family and referenced responses too.",
  ["inputs", "fault_sequences"], "every request and response content unit, method, and failing callback position",
  "Tests walk two structures with callbacks that never fail.",
  [W3, W31], [("request walk", "WalkRequestJSONSchemas"), ("response walk", "WalkResponseJSONSchemas")],
  ["callback invocations", "returned error"])
p("C16", "Security schemes and requirements are recorded as declared",
  "Each declared security scheme appears once under its name with its type, scheme, bearer format, location, parameter name and description, the last declaration of a name winning and other names unaffected; each requirement added to an operation appears in order with its scopes (an empty list when none).",
  ["histories"], "every sequence of scheme declarations (basic, bearer, API key in any location, repeated names) interleaved with operations adding requirements",
  "Examples declare one scheme each; redeclaration, several requirements and scopes are not combined.",
  [H3, H31, R3, R31], [("scheme setters", "Spec.SetHTTPBasicSecurity/SetAPIKeySecurity/SetHTTPBearerTokenSecurity"), ("requirement append", "operationContext.AddSecurity")],
  ["components.securitySchemes", "operation security"])
p("C17", "Independent reflectors and concurrent readers do not interfere",
  "Documents built concurrently by independent reflectors equal those built alone, and concurrently encoding, exporting and querying a finished document never changes it, races or yields different results.",
  ["schedules"], "every interleaving of goroutines each building its own document over shared Go types, and of goroutines reading one finished document",
  "All tests are sequential; package-level state would be invisible to them.",
  [R3, R31, JS, E3, E31, J3, J31, W3, W31], [("no mutable package state", "all packages"), ("reads do not write", "MarshalJSON, MarshalYAML, ToJSONSchema, ResolveJSONSchemaRef")],
  ["documents built concurrently", "race detector"])
p("C18", "Builder methods set exactly what they name",
  "Each value setter stores its argument in the member it names, each item setter adds or replaces exactly one key, each ensuring getter returns a non-nil value that is the one stored and keeps existing content, each returns its receiver for chaining, and no other member changes.",
  ["inputs", "histories"], "every builder method of every entity of both versions, in every order, starting from empty or populated values",
  "Hundreds of generated methods, a handful called by tests.",
  [E3, E31], [("With*/Ens methods", "entities.go of both versions")],
  ["entity fields before and after each builder call"])
p("C19", "Webhooks are registered by unique name, separately from operations",
  "In 3.1 documents each successfully added webhook appears exactly once under its name and method with its request, responses (204 when none) and metadata; a second webhook of the same name is rejected; registering a webhook never changes or blocks a path operation and registering an operation never changes or blocks a webhook whose context exists (a context itself is refused while its method and path, taken literally, belong to a registered operation), and webhook names need not look like paths.",
  ["histories"], "every interleaving of webhook and operation registrations over clashing names, methods and entry points",
  "One example adds one webhook.",
  [H31, R31], [("webhook registry", "Spec.AddWebhook, Reflector.AddWebhook")], ["marshalled webhooks and paths"])
p("C20", "Operation metadata set on a context is what the document shows",
  "Tags, summary, description, identifier, deprecation and security set on an operation context read back as set, and after a successful registration appear on that operation and no other; the last value set wins and later changes to the context do not alter the registered operation. "
  "Document title, version and description read back and are encoded as last set.",
  ["histories"], "every sequence of metadata setters and registrations over several contexts, including setters called after registration",
  "Tests set each member once before registration.",
  [R3, R31, H3, H31, OC], [("context setters", "operationContext methods"), ("info setters", "Spec.SetTitle/SetVersion/SetDescription")],
  ["context getters", "marshalled operation and info"])
p("C21", "Deprecated 3.0 entry points document the same as the current ones",
  "Setting up request and responses through the deprecated 3.0 reflector functions (including per-location field mappings, string responses and JSON responses) yields the same operation, and the same components, as the current context-based registration of the same structures.",
  ["inputs", "histories"], "every request/response structure, method, status, content type and field mapping expressible through the deprecated functions",
  "The deprecated functions are tested against their own golden documents, never compared with the current ones.",
  ["openapi3/reflect_deprecated.go", R3], [("context conversion", "toOpCtx, fromOpCtx")],
  ["operations built by both entry points"])
p("C22", "Schema hooks see the operation, direction and location being processed",
  "While a structure is reflected, a schema hook can retrieve the operation context and it reports whether a request or response is processed and which location, matching the part being reflected, along with the operation's method and path; outside reflection for an operation no context is reported.",
  ["inputs", "configurations"], "every structure field in every location, body and response, for both versions and the deprecated accessor",
  "One example prints a few combinations.",
  [OP, OC, R3, R31, "openapi3/reflect_deprecated.go"], [("context option", "WithOperationCtx, OperationCtx"), ("processing state", "internal.OperationContext")],
  ["values seen by an interceptor during AddOperation"])
p("C23", "The same history always yields byte-identical documents",
  "Replaying the same history of calls on a fresh reflector gives the same outcome for every call and byte-identical JSON and YAML documents, and parameters and metadata lists keep declaration order.",
  ["histories", "schedules"], "every history, over repeated runs in one process (randomised map iteration) and in several processes",
  "Golden tests run each history once; map-iteration dependence shows only with repetition and several map entries.",
  [R3, R31, H3, H31, E3, E31], [("sorted encoding, ordered lists", "codecs and reflectors")],
  ["encoded documents of repeated runs"])
p("C24", "Exported JSON Schemas are self-contained and equivalent",
  "Exporting a schema of the document to JSON Schema gives one in which every local reference, at any depth and under any keyword, resolves inside the exported schema to the exported form of that component, recursive components included, a non-recursive root reference is inlined, and the document itself is not changed; looking up a component by reference finds it exactly when it exists.",
  ["inputs"], "every set of component schemas (mutually recursive, chained, under every applicator keyword) and every schema referring to them",
  "Tests export one or two schemas with plain property references.",
  [J3, J31, R3, R31], [("reference collection", "toJSONSchema, findReferences"), ("lookup", "Reflector.ResolveJSONSchemaRef")],
  ["ToJSONSchema results", "ResolveJSONSchemaRef results"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
