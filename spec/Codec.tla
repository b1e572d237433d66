-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The objects of OpenAPI 3.0 and 3.1 documents: which JSON values are     *)
(* well-formed objects of a kind, and what is left of them after decoding  *)
(* and encoding.  Types of members:                                        *)
(*   "str" "bool" "num" "nat" "any" "free" (3.1 schema) "link" (any value) *)
(*   <<"enum", values>> <<"obj", kind>> <<"list", type>> <<"map", type>>    *)
(*   "kfree" <<"kmap", type>> (written even if they are empty)              *)
(***************************************************************************)
EXTENDS JV

T(x) == <<x>>
S == T("str")  B == T("bool")  N == T("num")  I == T("nat")  A == T("any")  Free == T("free")  KFree == T("kfree")
Enum(q) == <<"enum", q>>
O(k) == <<"obj", k>>
L(t) == <<"list", t>>
Mp(t) == <<"map", t>>
Km(t) == <<"kmap", t>>
Sec == L(Mp(L(S)))

\* A kind of object: required and other members, members named by a pattern,
\* whether it may have x- members, whether it rejects members it does not know.
Rec(req, mem, ext, strict) == [req |-> req, mem |-> mem, pat |-> <<>>, ext |-> ext, strict |-> strict, alts |-> <<>>]
Pat(req, mem, pat, ext, strict) == [Rec(req, mem, ext, strict) EXCEPT !.pat = pat]
Alts(q) == [Rec({}, Empty, FALSE, FALSE) EXCEPT !.alts = q]

Styles3 == <<"form", "spaceDelimited", "pipeDelimited", "deepObject">>
ParamMem(schema, ex, hdr) ==
  ("description" :> S) @@ ("required" :> B) @@ ("deprecated" :> B) @@ ("explode" :> B) @@ ("schema" :> schema)
  @@ ("content" :> Mp(O("MediaType"))) @@ ("example" :> A) @@ ("examples" :> Mp(ex))
  @@ (IF hdr THEN ("style" :> Enum(<<"simple">>)) ELSE ("name" :> S) @@ ("in" :> Enum(<<"path", "query", "header", "cookie">>)))
FlowMem(urls) == [u \in urls \cup {"refreshUrl"} |-> S] @@ ("scopes" :> Mp(S))
OpMem(param, body, cb) ==
  ("tags" :> L(S)) @@ ("summary" :> S) @@ ("description" :> S) @@ ("externalDocs" :> O("ExternalDocumentation")) @@ ("operationId" :> S)
  @@ ("parameters" :> L(O(param))) @@ ("requestBody" :> O(body)) @@ ("responses" :> O("Responses")) @@ ("callbacks" :> Mp(O(cb)))
  @@ ("deprecated" :> B) @@ ("security" :> Sec) @@ ("servers" :> L(O("Server")))

\* Kinds both versions have.
Common(strict) ==
  [Contact |-> Rec({}, ("name" :> S) @@ ("url" :> S) @@ ("email" :> S), TRUE, strict),
   Server |-> Rec({"url"}, ("url" :> S) @@ ("description" :> S) @@ ("variables" :> Mp(O("ServerVariable"))), TRUE, strict),
   ServerVariable |-> Rec({"default"}, ("enum" :> L(S)) @@ ("default" :> S) @@ ("description" :> S), TRUE, strict),
   Tag |-> Rec({"name"}, ("name" :> S) @@ ("description" :> S) @@ ("externalDocs" :> O("ExternalDocumentation")), TRUE, strict),
   ExternalDocumentation |-> Rec({"url"}, ("url" :> S) @@ ("description" :> S), TRUE, strict),
   Example |-> Rec({}, ("summary" :> S) @@ ("description" :> S) @@ ("value" :> A) @@ ("externalValue" :> S), TRUE, strict)]

-----------------------------------------------------------------------------
RefTo3(where) == Rec({"$ref"}, "$ref" :> <<"ref", "#/components/" \o where \o "/">>, FALSE, TRUE)
K3 == Common(TRUE) @@
  [Spec |-> Rec({"openapi", "info", "paths"},
     ("openapi" :> T("version")) @@ ("info" :> O("Info")) @@ ("externalDocs" :> O("ExternalDocumentation")) @@ ("servers" :> L(O("Server"))) @@ ("security" :> Sec)
     @@ ("tags" :> L(O("Tag"))) @@ ("paths" :> O("Paths")) @@ ("components" :> O("Components")), TRUE, TRUE),
   Info |-> Rec({"title", "version"}, ("title" :> S) @@ ("description" :> S) @@ ("termsOfService" :> S) @@ ("contact" :> O("Contact")) @@ ("license" :> O("License"))
     @@ ("version" :> S), TRUE, TRUE),
   License |-> Rec({"name"}, ("name" :> S) @@ ("url" :> S), TRUE, TRUE),
   Components |-> Rec({}, ("schemas" :> Km(O("SchemaOrRef"))) @@ ("responses" :> Km(O("ResponseOrRef"))) @@ ("parameters" :> Km(O("ParameterOrRef")))
     @@ ("examples" :> Km(O("ExampleOrRef"))) @@ ("requestBodies" :> Km(O("RequestBodyOrRef"))) @@ ("headers" :> Km(O("HeaderOrRef")))
     @@ ("securitySchemes" :> Km(O("SecuritySchemeOrRef"))) @@ ("links" :> Km(O("LinkOrRef"))) @@ ("callbacks" :> Km(O("CallbackOrRef"))), TRUE, TRUE),
   Schema |-> Rec({}, [k \in {"title", "pattern", "description", "format"} |-> S] @@ [k \in {"multipleOf", "maximum", "minimum"} |-> N]
     @@ [k \in {"exclusiveMaximum", "exclusiveMinimum", "uniqueItems", "nullable", "readOnly", "writeOnly", "deprecated"} |-> B]
     @@ [k \in {"maxLength", "minLength", "maxItems", "minItems", "maxProperties", "minProperties"} |-> I]
     @@ [k \in {"allOf", "oneOf", "anyOf"} |-> L(O("SchemaOrRef"))] @@ [k \in {"not", "items"} |-> O("SchemaOrRef")]
     @@ ("required" :> L(S)) @@ ("enum" :> L(A)) @@ ("type" :> Enum(<<"array", "boolean", "integer", "number", "object", "string">>))
     @@ ("properties" :> Mp(O("SchemaOrRef"))) @@ ("additionalProperties" :> O("SchemaAdditionalProperties")) @@ ("default" :> A) @@ ("example" :> A)
     @@ ("discriminator" :> O("Discriminator")) @@ ("externalDocs" :> O("ExternalDocumentation")) @@ ("xml" :> O("XML")), TRUE, TRUE),
   Discriminator |-> Rec({"propertyName"}, ("propertyName" :> S) @@ ("mapping" :> Mp(S)), FALSE, FALSE),
   XML |-> Rec({}, ("name" :> S) @@ ("namespace" :> S) @@ ("prefix" :> S) @@ ("attribute" :> B) @@ ("wrapped" :> B), TRUE, TRUE),
   Response |-> Rec({"description"}, ("description" :> S) @@ ("headers" :> Mp(O("HeaderOrRef"))) @@ ("content" :> Mp(O("MediaType"))) @@ ("links" :> Mp(O("LinkOrRef"))), TRUE, TRUE),
   MediaType |-> Rec({}, ("schema" :> O("SchemaOrRef")) @@ ("example" :> A) @@ ("examples" :> Mp(O("ExampleOrRef"))) @@ ("encoding" :> Mp(O("Encoding"))), TRUE, TRUE),
   Header |-> Rec({}, ParamMem(O("SchemaOrRef"), O("ExampleOrRef"), TRUE) @@ ("allowEmptyValue" :> B) @@ ("allowReserved" :> B), TRUE, TRUE),
   Parameter |-> Rec({"name", "in"}, ParamMem(O("SchemaOrRef"), O("ExampleOrRef"), FALSE) @@ ("allowEmptyValue" :> B) @@ ("allowReserved" :> B)
     @@ ("style" :> T("style")), TRUE, TRUE),
   Paths |-> Pat({}, Empty, <<<<"path", O("PathItem")>>>>, TRUE, TRUE),
   PathItem |-> Pat({}, ("$ref" :> S) @@ ("summary" :> S) @@ ("description" :> S) @@ ("servers" :> L(O("Server"))) @@ ("parameters" :> L(O("ParameterOrRef"))),
     <<<<"method", O("Operation")>>>>, TRUE, TRUE),
   Operation |-> Rec({"responses"}, OpMem("ParameterOrRef", "RequestBodyOrRef", "CallbackOrRef"), TRUE, TRUE),
   Responses |-> Pat({}, "default" :> O("ResponseOrRef"), <<<<"code", O("ResponseOrRef")>>>>, TRUE, TRUE),
   RequestBody |-> Rec({"content"}, ("description" :> S) @@ ("content" :> Mp(O("MediaType"))) @@ ("required" :> B), TRUE, TRUE),
   APIKeySecurityScheme |-> Rec({"type", "name", "in"}, ("type" :> Enum(<<"apiKey">>)) @@ ("name" :> S) @@ ("in" :> Enum(<<"header", "query", "cookie">>)) @@ ("description" :> S), TRUE, TRUE),
   HTTPSecurityScheme |-> Rec({"scheme", "type"}, ("type" :> Enum(<<"http">>)) @@ ("scheme" :> S) @@ ("bearerFormat" :> S) @@ ("description" :> S), TRUE, TRUE),
   OAuth2SecurityScheme |-> Rec({"type", "flows"}, ("type" :> Enum(<<"oauth2">>)) @@ ("flows" :> O("OAuthFlows")) @@ ("description" :> S), TRUE, TRUE),
   OpenIDConnectSecurityScheme |-> Rec({"type", "openIdConnectUrl"}, ("type" :> Enum(<<"openIdConnect">>)) @@ ("openIdConnectUrl" :> S) @@ ("description" :> S), TRUE, TRUE),
   OAuthFlows |-> Rec({}, ("implicit" :> O("ImplicitOAuthFlow")) @@ ("password" :> O("PasswordOAuthFlow")) @@ ("clientCredentials" :> O("ClientCredentialsFlow"))
     @@ ("authorizationCode" :> O("AuthorizationCodeOAuthFlow")), TRUE, TRUE),
   ImplicitOAuthFlow |-> Rec({"authorizationUrl", "scopes"}, FlowMem({"authorizationUrl"}), TRUE, TRUE),
   PasswordOAuthFlow |-> Rec({"tokenUrl"}, FlowMem({"tokenUrl"}), TRUE, TRUE),
   ClientCredentialsFlow |-> Rec({"tokenUrl"}, FlowMem({"tokenUrl"}), TRUE, TRUE),
   AuthorizationCodeOAuthFlow |-> Rec({"authorizationUrl", "tokenUrl"}, FlowMem({"authorizationUrl", "tokenUrl"}), TRUE, TRUE),
   Link |-> Rec({}, ("operationId" :> S) @@ ("operationRef" :> S) @@ ("parameters" :> Mp(A)) @@ ("requestBody" :> A) @@ ("description" :> S) @@ ("server" :> O("Server")), TRUE, TRUE),
   Callback |-> Pat({}, Empty, <<<<"any", O("PathItem")>>>>, TRUE, TRUE),
   Encoding |-> Rec({}, ("contentType" :> S) @@ ("headers" :> Mp(O("Header"))) @@ ("style" :> Enum(Styles3)) @@ ("explode" :> B) @@ ("allowReserved" :> B), TRUE, TRUE),
   SchemaReference |-> RefTo3("schemas"), ResponseReference |-> RefTo3("responses"), ExampleReference |-> RefTo3("examples"), HeaderReference |-> RefTo3("headers"),
   ParameterReference |-> RefTo3("parameters"), RequestBodyReference |-> RefTo3("requestBodies"), SecuritySchemeReference |-> RefTo3("securitySchemes"),
   LinkReference |-> RefTo3("links"), CallbackReference |-> RefTo3("callbacks"),
   SchemaOrRef |-> Alts(<<"Schema", "SchemaReference">>), ResponseOrRef |-> Alts(<<"Response", "ResponseReference">>), ExampleOrRef |-> Alts(<<"Example", "ExampleReference">>),
   HeaderOrRef |-> Alts(<<"Header", "HeaderReference">>), ParameterOrRef |-> Alts(<<"Parameter", "ParameterReference">>),
   RequestBodyOrRef |-> Alts(<<"RequestBody", "RequestBodyReference">>), SecuritySchemeOrRef |-> Alts(<<"SecurityScheme", "SecuritySchemeReference">>),
   LinkOrRef |-> Alts(<<"Link", "LinkReference">>), CallbackOrRef |-> Alts(<<"Callback", "CallbackReference">>),
   SecurityScheme |-> Alts(<<"APIKeySecurityScheme", "HTTPSecurityScheme", "OAuth2SecurityScheme", "OpenIDConnectSecurityScheme">>),
   SchemaAdditionalProperties |-> Alts(<<"SchemaOrRef", "!bool">>)]

-----------------------------------------------------------------------------
K31 == Common(FALSE) @@
  [Spec |-> Rec({"openapi", "info"},
     ("openapi" :> T("version")) @@ ("info" :> O("Info")) @@ ("jsonSchemaDialect" :> S) @@ ("servers" :> L(O("Server"))) @@ ("paths" :> O("Paths"))
     @@ ("webhooks" :> Mp(O("PathItemOrReference"))) @@ ("components" :> O("Components")) @@ ("security" :> Sec) @@ ("tags" :> L(O("Tag")))
     @@ ("externalDocs" :> O("ExternalDocumentation")), TRUE, FALSE),
   Info |-> Rec({"title", "version"}, ("title" :> S) @@ ("summary" :> S) @@ ("description" :> S) @@ ("termsOfService" :> S) @@ ("contact" :> O("Contact"))
     @@ ("license" :> O("License")) @@ ("version" :> S), TRUE, FALSE),
   License |-> Rec({"name"}, ("name" :> S) @@ ("identifier" :> S) @@ ("url" :> S), TRUE, FALSE),
   Components |-> Rec({}, ("schemas" :> Mp(Free)) @@ ("responses" :> Mp(O("ResponseOrReference"))) @@ ("parameters" :> Mp(O("ParameterOrReference")))
     @@ ("examples" :> Mp(O("ExampleOrReference"))) @@ ("requestBodies" :> Mp(O("RequestBodyOrReference"))) @@ ("headers" :> Mp(O("HeaderOrReference")))
     @@ ("securitySchemes" :> Mp(O("SecuritySchemeOrReference"))) @@ ("links" :> Mp(O("LinkOrReference"))) @@ ("callbacks" :> Mp(O("CallbacksOrReference")))
     @@ ("pathItems" :> Mp(O("PathItemOrReference"))), TRUE, FALSE),
   Response |-> Rec({"description"}, ("description" :> S) @@ ("headers" :> Mp(O("HeaderOrReference"))) @@ ("content" :> Mp(O("MediaType")))
     @@ ("links" :> Mp(O("LinkOrReference"))), TRUE, FALSE),
   MediaType |-> Rec({}, ("schema" :> Free) @@ ("example" :> A) @@ ("examples" :> Mp(O("ExampleOrReference"))) @@ ("encoding" :> Mp(O("Encoding"))), TRUE, FALSE),
   Header |-> Rec({}, ParamMem(KFree, O("ExampleOrReference"), TRUE), TRUE, FALSE),
   Parameter |-> Rec({"name", "in"}, ParamMem(Free, O("ExampleOrReference"), FALSE) @@ ("allowEmptyValue" :> B) @@ ("allowReserved" :> B)
     @@ ("style" :> Enum(Styles3 \o <<"matrix", "label", "simple">>)), TRUE, FALSE),
   Paths |-> Pat({}, Empty, <<<<"path", O("PathItem")>>>>, TRUE, FALSE),
   PathItem |-> Rec({}, ("$ref" :> S) @@ ("summary" :> S) @@ ("description" :> S) @@ ("servers" :> L(O("Server"))) @@ ("parameters" :> L(O("ParameterOrReference")))
     @@ [m \in {"get", "put", "post", "delete", "options", "head", "patch", "trace"} |-> O("Operation")], TRUE, FALSE),
   Operation |-> Rec({}, OpMem("ParameterOrReference", "RequestBodyOrReference", "CallbacksOrReference"), TRUE, FALSE),
   Responses |-> Pat({}, "default" :> O("ResponseOrReference"), <<<<"code", O("ResponseOrReference")>>>>, TRUE, FALSE),
   RequestBody |-> Rec({"content"}, ("description" :> S) @@ ("content" :> Mp(O("MediaType"))) @@ ("required" :> B), TRUE, FALSE),
   SecuritySchemeAPIKey |-> Rec({"type", "name", "in"}, ("type" :> Enum(<<"apiKey">>)) @@ ("name" :> S) @@ ("in" :> Enum(<<"query", "header", "cookie">>)) @@ ("description" :> S), TRUE, FALSE),
   SecuritySchemeHTTP |-> Rec({"type", "scheme"}, ("type" :> Enum(<<"http">>)) @@ ("scheme" :> T("nobearer")) @@ ("description" :> S), TRUE, FALSE),
   SecuritySchemeHTTPBearer |-> Rec({"type", "scheme"}, ("type" :> Enum(<<"http">>)) @@ ("scheme" :> Enum(<<"bearer", "Bearer", "BEARER">>)) @@ ("bearerFormat" :> S) @@ ("description" :> S), TRUE, FALSE),
   SecuritySchemeOauth2 |-> Rec({"type", "flows"}, ("type" :> Enum(<<"oauth2">>)) @@ ("flows" :> O("OauthFlows")) @@ ("description" :> S), TRUE, FALSE),
   SecuritySchemeOidc |-> Rec({"type", "openIdConnectUrl"}, ("type" :> Enum(<<"openIdConnect">>)) @@ ("openIdConnectUrl" :> S) @@ ("description" :> S), TRUE, FALSE),
   SecuritySchemeMutualTLS |-> Rec({"type"}, ("type" :> Enum(<<"mutualTLS">>)) @@ ("description" :> S), TRUE, FALSE),
   OauthFlows |-> Rec({}, ("implicit" :> O("OauthFlowsDefsImplicit")) @@ ("password" :> O("OauthFlowsDefsPassword")) @@ ("clientCredentials" :> O("OauthFlowsDefsClientCredentials"))
     @@ ("authorizationCode" :> O("OauthFlowsDefsAuthorizationCode")), TRUE, FALSE),
   OauthFlowsDefsImplicit |-> Rec({"authorizationUrl", "scopes"}, FlowMem({"authorizationUrl"}), TRUE, FALSE),
   OauthFlowsDefsPassword |-> Rec({"tokenUrl", "scopes"}, FlowMem({"tokenUrl"}), TRUE, FALSE),
   OauthFlowsDefsClientCredentials |-> Rec({"tokenUrl", "scopes"}, FlowMem({"tokenUrl"}), TRUE, FALSE),
   OauthFlowsDefsAuthorizationCode |-> Rec({"authorizationUrl", "tokenUrl", "scopes"}, FlowMem({"authorizationUrl", "tokenUrl"}), TRUE, FALSE),
   Link |-> Rec({}, ("operationId" :> S) @@ ("operationRef" :> S) @@ ("parameters" :> Mp(T("link"))) @@ ("requestBody" :> A) @@ ("description" :> S) @@ ("server" :> O("Server")), TRUE, FALSE),
   Callbacks |-> Pat({}, Empty, <<<<"any", O("PathItemOrReference")>>>>, TRUE, FALSE),
   Encoding |-> Rec({}, ("contentType" :> S) @@ ("headers" :> Mp(O("HeaderOrReference"))) @@ ("style" :> Enum(Styles3)) @@ ("explode" :> B) @@ ("allowReserved" :> B), TRUE, FALSE),
   Reference |-> Rec({"$ref"}, ("$ref" :> S) @@ ("summary" :> S) @@ ("description" :> S), FALSE, FALSE),
   ResponseOrReference |-> Alts(<<"Response", "Reference">>), ExampleOrReference |-> Alts(<<"Example", "Reference">>), HeaderOrReference |-> Alts(<<"Header", "Reference">>),
   ParameterOrReference |-> Alts(<<"Parameter", "Reference">>), RequestBodyOrReference |-> Alts(<<"RequestBody", "Reference">>),
   SecuritySchemeOrReference |-> Alts(<<"SecurityScheme", "Reference">>), LinkOrReference |-> Alts(<<"Link", "Reference">>),
   CallbacksOrReference |-> Alts(<<"Callbacks", "Reference">>), PathItemOrReference |-> Alts(<<"PathItem", "Reference">>),
   SecurityScheme |-> Alts(<<"SecuritySchemeAPIKey", "SecuritySchemeHTTP", "SecuritySchemeHTTPBearer", "SecuritySchemeOauth2", "SecuritySchemeOidc", "SecuritySchemeMutualTLS">>)]

Kinds(v) == IF v = "31" THEN K31 ELSE K3

-----------------------------------------------------------------------------
Methods == {"get", "put", "post", "delete", "options", "head", "patch", "trace"}
IsExt(k) == StartsWith(k, "x-")
Matches(pat, k) ==
  CASE pat = "path" -> StartsWith(k, "/")
    [] pat = "method" -> k \in Methods
    [] pat = "code" -> Len(k) = 3 /\ Ch(k, 1) \in {"1", "2", "3", "4", "5"} /\ (From(k, 2) = "XX" \/ \A i \in {2, 3} : Ch(k, i) \in Digits)
    [] pat = "any" -> ~IsExt(k)
\* Type of member k of a kind, <<>> if it has none.
MemberType(K, k) ==
  IF Has(K.mem, k) THEN K.mem[k]
  ELSE IF K.pat # <<>> /\ Matches(K.pat[1][1], k) THEN K.pat[1][2] ELSE <<>>

IsRefObj(v) == IsObj(v) /\ Has(v[2], "$ref")
Nat0(t) == t # "" /\ \A i \in 1..Len(t) : Ch(t, i) \in Digits

RECURSIVE OK(_, _, _)
RECURSIVE OKKind(_, _, _)
\* Is v a well-formed value of a type.  Null members count as absent.
OK(ver, t, v) ==
  CASE t[1] \in {"str", "ref", "version"} -> IsStr(v)
    [] t[1] = "nobearer" -> IsStr(v) /\ ToLower(v[2]) # "bearer"
    [] t[1] = "style" -> IsStr(v)
    [] t[1] = "bool" -> IsBool(v)
    [] t[1] = "num" -> IsNum(v)
    [] t[1] = "nat" -> IsNum(v) /\ Nat0(v[2])
    [] t[1] \in {"any", "link"} -> TRUE
    [] t[1] \in {"free", "kfree"} -> IsObj(v) \/ IsBool(v)
    [] t[1] = "enum" -> IsStr(v) /\ \E i \in DOMAIN t[2] : t[2][i] = v[2]
    [] t[1] = "list" -> IsArr(v) /\ \A i \in DOMAIN v[2] : OK(ver, t[2], v[2][i])
    [] t[1] \in {"map", "kmap"} -> IsObj(v) /\ \A k \in DOMAIN v[2] : OK(ver, t[2], v[2][k])
    [] t[1] = "obj" -> OKKind(ver, t[2], v)

\* The location of a 3.0 parameter restricts its style, and path parameters are required.
OKParam3(f) ==
  /\ Has(f, "schema") # Has(f, "content")
  /\ LET in == f["in"][2]
         style(q) == Has(f, "style") => f["style"][2] \in q
     IN CASE in = "path" -> Has(f, "required") /\ True(f["required"]) /\ style({"matrix", "label", "simple"})
          [] in = "query" -> style(Range0(Styles3))
          [] in = "header" -> style({"simple"})
          [] in = "cookie" -> style({"form"})

OKKind(ver, kind, v) ==
  IF kind = "!bool" THEN IsBool(v)
  ELSE LET K == Kinds(ver)[kind] IN
  IF K.alts # <<>>
  THEN IF ver = "31" /\ "Reference" \in Range0(K.alts)
       THEN OKKind(ver, IF IsRefObj(v) THEN "Reference" ELSE K.alts[1], v)
       ELSE Cardinality({i \in DOMAIN K.alts : OKKind(ver, K.alts[i], v)}) = 1
  ELSE /\ IsObj(v)
       /\ LET f == v[2] IN
          /\ \A k \in K.req : Has(f, k)
          /\ \A k \in DOMAIN f :
               IF MemberType(K, k) # <<>> THEN (IsNull(f[k]) /\ k \notin K.req) \/ OK(ver, MemberType(K, k), f[k])
               ELSE K.strict => (K.ext /\ IsExt(k))
          /\ (ver = "3" /\ kind = "Parameter") => OKParam3(f)
          /\ (ver = "3" /\ kind = "HTTPSecurityScheme") => (Has(f, "bearerFormat") => f["scheme"] = Str("bearer"))
          /\ kind = "Link" /\ ver = "3" => ~(Has(f, "operationId") /\ Has(f, "operationRef"))
          /\ (ver = "31" /\ kind = "Header") => Has(f, "schema") # Has(f, "content")
          /\ kind = "Example" /\ ver = "31" => ~(Has(f, "value") /\ Has(f, "externalValue"))

-----------------------------------------------------------------------------
\* What encoding gives after decoding v: optional members that are null or
\* empty collections are left out, default styles are written out.
IsEmptyColl(v) == (IsArr(v) \/ IsObj(v)) /\ DOMAIN v[2] = {}
RECURSIVE Canon(_, _, _)
RECURSIVE CanonKind(_, _, _)
Canon(ver, t, v) ==
  CASE t[1] = "list" -> Arr([i \in DOMAIN v[2] |-> Canon(ver, t[2], v[2][i])])
    [] t[1] \in {"map", "kmap"} -> Obj([k \in DOMAIN v[2] |-> Canon(ver, t[2], v[2][k])])
    [] t[1] = "obj" -> CanonKind(ver, t[2], v)
    [] OTHER -> v

Collection(t) == t[1] \in {"list", "map", "free"}
CanonKind(ver, kind, v) ==
  IF kind = "!bool" THEN v
  ELSE LET K == Kinds(ver)[kind] IN
  IF K.alts # <<>>
  THEN IF ver = "31" /\ "Reference" \in Range0(K.alts)
       THEN CanonKind(ver, IF IsRefObj(v) THEN "Reference" ELSE K.alts[1], v)
       ELSE CanonKind(ver, K.alts[CHOOSE i \in DOMAIN K.alts : OKKind(ver, K.alts[i], v)], v)
  ELSE LET f == v[2]
           keep(k) == IF MemberType(K, k) = <<>> THEN K.ext /\ IsExt(k)
                      ELSE k \in K.req \/ (LET t == MemberType(K, k) IN
                             IF t = A THEN TRUE ELSE ~IsNull(f[k]) /\ ~(Collection(t) /\ IsEmptyColl(f[k])))
           kept == {k \in DOMAIN f : keep(k)}
           g == [k \in kept |-> IF MemberType(K, k) = <<>> THEN f[k] ELSE Canon(ver, MemberType(K, k), f[k])]
       IN Obj(IF kind = "Header" THEN Put(g, "style", Str("simple"))
              ELSE IF ver = "3" /\ kind = "Parameter" /\ f["in"][2] = "header" THEN Put(g, "style", Str("simple"))
              ELSE IF ver = "3" /\ kind = "Parameter" /\ f["in"][2] = "cookie" THEN Put(g, "style", Str("form"))
              ELSE g)
=============================================================================
