package v1

// JSON represents any valid JSON value.
type JSON struct {
	Raw []byte `json:"-"`
}

func (in *JSON) DeepCopyInto(out *JSON) { *out = *in }
func (in *JSON) DeepCopy() *JSON        { return in }

// JSONSchemaURL represents a schema url.
type JSONSchemaURL string

// JSONSchemaProps is a recursive schema.
type JSONSchemaProps struct {
	ID         string                     `json:"id,omitempty"`
	Ref        *string                    `json:"$ref,omitempty"`
	Default    *JSON                      `json:"default,omitempty"`
	AllOf      []JSONSchemaProps          `json:"allOf,omitempty"`
	Properties map[string]JSONSchemaProps `json:"properties,omitempty"`
	Not        *JSONSchemaProps           `json:"not,omitempty"`
}

func (in *JSONSchemaProps) DeepCopyInto(out *JSONSchemaProps) { *out = *in }
func (in *JSONSchemaProps) DeepCopy() *JSONSchemaProps        { return in }
