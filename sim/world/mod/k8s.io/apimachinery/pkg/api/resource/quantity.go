package resource

type Format string

type Quantity struct {
	s string
	Format
}

func (q Quantity) DeepCopy() Quantity { return q }
func (q Quantity) MarshalJSON() ([]byte, error) { return nil, nil }

func (in *Quantity) DeepCopyInto(out *Quantity) { *out = *in }
