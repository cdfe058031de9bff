package unstructured

// Unstructured allows objects that do not have Golang structs registered.
type Unstructured struct {
	Object map[string]any
}

func (in *Unstructured) DeepCopy() *Unstructured { return in }

func (in *Unstructured) DeepCopyInto(out *Unstructured) { *out = *in }
