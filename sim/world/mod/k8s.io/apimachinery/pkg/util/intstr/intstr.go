package intstr

type Type int64

// IntOrString is a type that can hold an int32 or a string.
type IntOrString struct {
	Type   Type
	IntVal int32
	StrVal string
}

func (in IntOrString) MarshalJSON() ([]byte, error) { return nil, nil }
