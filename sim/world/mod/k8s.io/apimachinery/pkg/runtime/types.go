package runtime

// Object is the interface every API type implements.
type Object interface {
	DeepCopyObject() Object
}

// RawExtension is used to hold extensions in external versions.
type RawExtension struct {
	Raw    []byte `json:"-"`
	Object Object `json:"-"`
}

func (in *RawExtension) DeepCopyInto(out *RawExtension) { *out = *in }
func (in *RawExtension) DeepCopy() *RawExtension        { return in }

// Unknown allows unknown kinds.
type Unknown struct {
	ContentType string `json:"contentType,omitempty"`
	Raw         []byte `json:"raw,omitempty"`
}

func (in *Unknown) DeepCopyInto(out *Unknown) { *out = *in }
func (in *Unknown) DeepCopy() *Unknown { return in }
