package main

import (
	"reflect"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

// codecKinds are the Go types of the objects of a document.
var codecKinds = map[string]map[string]reflect.Type{
	"3": {
		"Contact":                     reflect.TypeOf(openapi3.Contact{}),
		"Server":                      reflect.TypeOf(openapi3.Server{}),
		"ServerVariable":              reflect.TypeOf(openapi3.ServerVariable{}),
		"Tag":                         reflect.TypeOf(openapi3.Tag{}),
		"ExternalDocumentation":       reflect.TypeOf(openapi3.ExternalDocumentation{}),
		"Example":                     reflect.TypeOf(openapi3.Example{}),
		"Spec":                        reflect.TypeOf(openapi3.Spec{}),
		"Info":                        reflect.TypeOf(openapi3.Info{}),
		"License":                     reflect.TypeOf(openapi3.License{}),
		"Components":                  reflect.TypeOf(openapi3.Components{}),
		"Schema":                      reflect.TypeOf(openapi3.Schema{}),
		"Discriminator":               reflect.TypeOf(openapi3.Discriminator{}),
		"XML":                         reflect.TypeOf(openapi3.XML{}),
		"Response":                    reflect.TypeOf(openapi3.Response{}),
		"MediaType":                   reflect.TypeOf(openapi3.MediaType{}),
		"Header":                      reflect.TypeOf(openapi3.Header{}),
		"Parameter":                   reflect.TypeOf(openapi3.Parameter{}),
		"Paths":                       reflect.TypeOf(openapi3.Paths{}),
		"PathItem":                    reflect.TypeOf(openapi3.PathItem{}),
		"Operation":                   reflect.TypeOf(openapi3.Operation{}),
		"Responses":                   reflect.TypeOf(openapi3.Responses{}),
		"RequestBody":                 reflect.TypeOf(openapi3.RequestBody{}),
		"APIKeySecurityScheme":        reflect.TypeOf(openapi3.APIKeySecurityScheme{}),
		"HTTPSecurityScheme":          reflect.TypeOf(openapi3.HTTPSecurityScheme{}),
		"OAuth2SecurityScheme":        reflect.TypeOf(openapi3.OAuth2SecurityScheme{}),
		"OpenIDConnectSecurityScheme": reflect.TypeOf(openapi3.OpenIDConnectSecurityScheme{}),
		"OAuthFlows":                  reflect.TypeOf(openapi3.OAuthFlows{}),
		"ImplicitOAuthFlow":           reflect.TypeOf(openapi3.ImplicitOAuthFlow{}),
		"PasswordOAuthFlow":           reflect.TypeOf(openapi3.PasswordOAuthFlow{}),
		"ClientCredentialsFlow":       reflect.TypeOf(openapi3.ClientCredentialsFlow{}),
		"AuthorizationCodeOAuthFlow":  reflect.TypeOf(openapi3.AuthorizationCodeOAuthFlow{}),
		"Link":                        reflect.TypeOf(openapi3.Link{}),
		"Callback":                    reflect.TypeOf(openapi3.Callback{}),
		"Encoding":                    reflect.TypeOf(openapi3.Encoding{}),
		"SchemaReference":             reflect.TypeOf(openapi3.SchemaReference{}),
		"ResponseReference":           reflect.TypeOf(openapi3.ResponseReference{}),
		"ExampleReference":            reflect.TypeOf(openapi3.ExampleReference{}),
		"HeaderReference":             reflect.TypeOf(openapi3.HeaderReference{}),
		"ParameterReference":          reflect.TypeOf(openapi3.ParameterReference{}),
		"RequestBodyReference":        reflect.TypeOf(openapi3.RequestBodyReference{}),
		"SecuritySchemeReference":     reflect.TypeOf(openapi3.SecuritySchemeReference{}),
		"LinkReference":               reflect.TypeOf(openapi3.LinkReference{}),
		"CallbackReference":           reflect.TypeOf(openapi3.CallbackReference{}),
		"SchemaOrRef":                 reflect.TypeOf(openapi3.SchemaOrRef{}),
		"ResponseOrRef":               reflect.TypeOf(openapi3.ResponseOrRef{}),
		"ExampleOrRef":                reflect.TypeOf(openapi3.ExampleOrRef{}),
		"HeaderOrRef":                 reflect.TypeOf(openapi3.HeaderOrRef{}),
		"ParameterOrRef":              reflect.TypeOf(openapi3.ParameterOrRef{}),
		"RequestBodyOrRef":            reflect.TypeOf(openapi3.RequestBodyOrRef{}),
		"SecuritySchemeOrRef":         reflect.TypeOf(openapi3.SecuritySchemeOrRef{}),
		"LinkOrRef":                   reflect.TypeOf(openapi3.LinkOrRef{}),
		"CallbackOrRef":               reflect.TypeOf(openapi3.CallbackOrRef{}),
		"SecurityScheme":              reflect.TypeOf(openapi3.SecurityScheme{}),
		"SchemaAdditionalProperties":  reflect.TypeOf(openapi3.SchemaAdditionalProperties{}),
	},
	"31": {
		"Contact":                         reflect.TypeOf(openapi31.Contact{}),
		"Server":                          reflect.TypeOf(openapi31.Server{}),
		"ServerVariable":                  reflect.TypeOf(openapi31.ServerVariable{}),
		"Tag":                             reflect.TypeOf(openapi31.Tag{}),
		"ExternalDocumentation":           reflect.TypeOf(openapi31.ExternalDocumentation{}),
		"Example":                         reflect.TypeOf(openapi31.Example{}),
		"Spec":                            reflect.TypeOf(openapi31.Spec{}),
		"Info":                            reflect.TypeOf(openapi31.Info{}),
		"License":                         reflect.TypeOf(openapi31.License{}),
		"Components":                      reflect.TypeOf(openapi31.Components{}),
		"Response":                        reflect.TypeOf(openapi31.Response{}),
		"MediaType":                       reflect.TypeOf(openapi31.MediaType{}),
		"Header":                          reflect.TypeOf(openapi31.Header{}),
		"Parameter":                       reflect.TypeOf(openapi31.Parameter{}),
		"Paths":                           reflect.TypeOf(openapi31.Paths{}),
		"PathItem":                        reflect.TypeOf(openapi31.PathItem{}),
		"Operation":                       reflect.TypeOf(openapi31.Operation{}),
		"Responses":                       reflect.TypeOf(openapi31.Responses{}),
		"RequestBody":                     reflect.TypeOf(openapi31.RequestBody{}),
		"OauthFlows":                      reflect.TypeOf(openapi31.OauthFlows{}),
		"OauthFlowsDefsImplicit":          reflect.TypeOf(openapi31.OauthFlowsDefsImplicit{}),
		"OauthFlowsDefsPassword":          reflect.TypeOf(openapi31.OauthFlowsDefsPassword{}),
		"OauthFlowsDefsClientCredentials": reflect.TypeOf(openapi31.OauthFlowsDefsClientCredentials{}),
		"OauthFlowsDefsAuthorizationCode": reflect.TypeOf(openapi31.OauthFlowsDefsAuthorizationCode{}),
		"Link":                            reflect.TypeOf(openapi31.Link{}),
		"Callbacks":                       reflect.TypeOf(openapi31.Callbacks{}),
		"Encoding":                        reflect.TypeOf(openapi31.Encoding{}),
		"Reference":                       reflect.TypeOf(openapi31.Reference{}),
		"ResponseOrReference":             reflect.TypeOf(openapi31.ResponseOrReference{}),
		"ExampleOrReference":              reflect.TypeOf(openapi31.ExampleOrReference{}),
		"HeaderOrReference":               reflect.TypeOf(openapi31.HeaderOrReference{}),
		"ParameterOrReference":            reflect.TypeOf(openapi31.ParameterOrReference{}),
		"RequestBodyOrReference":          reflect.TypeOf(openapi31.RequestBodyOrReference{}),
		"SecuritySchemeOrReference":       reflect.TypeOf(openapi31.SecuritySchemeOrReference{}),
		"LinkOrReference":                 reflect.TypeOf(openapi31.LinkOrReference{}),
		"CallbacksOrReference":            reflect.TypeOf(openapi31.CallbacksOrReference{}),
		"PathItemOrReference":             reflect.TypeOf(openapi31.PathItemOrReference{}),
		"SecurityScheme":                  reflect.TypeOf(openapi31.SecurityScheme{}),
	},
}
