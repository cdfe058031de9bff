package json

// RawMessage is a raw encoded JSON value.
// It implements [Marshaler] and [Unmarshaler] and can
// be used to delay JSON decoding or precompute a JSON encoding.
type RawMessage []byte

func (m RawMessage) MarshalJSON() ([]byte, error)        { return nil, nil }
func (m *RawMessage) UnmarshalJSON(data []byte) error    { return nil }
func Marshal(v any) ([]byte, error)                      { return nil, nil }
func Unmarshal(data []byte, v any) error                 { return nil }
