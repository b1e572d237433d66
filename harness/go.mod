module vh

go 1.18

require (
	github.com/swaggest/jsonschema-go v0.3.78
	github.com/swaggest/openapi-go v0.0.0
	github.com/swaggest/refl v1.4.0
)

require gopkg.in/yaml.v2 v2.4.0

replace github.com/swaggest/openapi-go => /repo
