// +groupName=meta.k8s.io

package v1

import (
	"time"

	"k8s.io/apimachinery/pkg/types"
)

// TypeMeta describes an individual object in an API response or request.
type TypeMeta struct {
	// Kind is a string value representing the REST resource this object represents.
	// +optional
	Kind string `json:"kind,omitempty"`
	// APIVersion defines the versioned schema of this representation of an object.
	// +optional
	APIVersion string `json:"apiVersion,omitempty"`
}

// ListMeta describes metadata that synthetic resources must have.
type ListMeta struct {
	// +optional
	ResourceVersion string `json:"resourceVersion,omitempty"`
	// +optional
	Continue string `json:"continue,omitempty"`
}

// ObjectMeta is metadata that all persisted resources must have.
type ObjectMeta struct {
	// +optional
	Name string `json:"name,omitempty"`
	// +optional
	Namespace string `json:"namespace,omitempty"`
	// +optional
	UID types.UID `json:"uid,omitempty"`
	// +optional
	CreationTimestamp Time `json:"creationTimestamp,omitempty"`
	// +optional
	Labels map[string]string `json:"labels,omitempty"`
	// +optional
	Annotations map[string]string `json:"annotations,omitempty"`
	// +optional
	OwnerReferences []OwnerReference `json:"ownerReferences,omitempty"`
	// +optional
	Finalizers []string `json:"finalizers,omitempty"`
}

// OwnerReference identifies an owning object.
// +structType=atomic
type OwnerReference struct {
	APIVersion string    `json:"apiVersion"`
	Kind       string    `json:"kind"`
	Name       string    `json:"name"`
	UID        types.UID `json:"uid"`
	// +optional
	Controller *bool `json:"controller,omitempty"`
}

// Time is a wrapper around time.Time.
// +protobuf.as=Timestamp
type Time struct {
	time.Time `protobuf:"-"`
}

// MicroTime is version of Time with microsecond level precision.
type MicroTime struct {
	time.Time `protobuf:"-"`
}

// Duration is a wrapper around time.Duration.
type Duration struct {
	time.Duration `protobuf:"varint,1,opt,name=duration,casttype=time.Duration"`
}

// Fields is a recursive field set.
type Fields struct {
	Map map[string]Fields `json:",inline"`
}

// A label selector is a label query over a set of resources.
// +structType=atomic
type LabelSelector struct {
	// matchLabels is a map of {key,value} pairs.
	// +optional
	MatchLabels map[string]string `json:"matchLabels,omitempty"`
	// matchExpressions is a list of label selector requirements.
	// +optional
	// +listType=atomic
	MatchExpressions []LabelSelectorRequirement `json:"matchExpressions,omitempty"`
}

// LabelSelectorOperator is the set of operators.
type LabelSelectorOperator string

// A label selector requirement.
type LabelSelectorRequirement struct {
	// key is the label key that the selector applies to.
	Key string `json:"key"`
	// operator represents a key's relationship to a set of values.
	Operator LabelSelectorOperator `json:"operator"`
	// +optional
	// +listType=atomic
	Values []string `json:"values,omitempty"`
}

// ConditionStatus is a condition status.
type ConditionStatus string

// Condition contains details for one aspect of the current state of this API Resource.
type Condition struct {
	// type of condition in CamelCase.
	// +required
	// +kubebuilder:validation:Required
	// +kubebuilder:validation:Pattern=`^[A-Za-z]+$`
	// +kubebuilder:validation:MaxLength=316
	Type string `json:"type"`
	// status of the condition, one of True, False, Unknown.
	// +required
	// +kubebuilder:validation:Required
	// +kubebuilder:validation:Enum=True;False;Unknown
	Status ConditionStatus `json:"status"`
	// +optional
	// +kubebuilder:validation:Minimum=0
	ObservedGeneration int64 `json:"observedGeneration,omitempty"`
	// +required
	// +kubebuilder:validation:Type=string
	// +kubebuilder:validation:Format=date-time
	LastTransitionTime Time `json:"lastTransitionTime"`
	// +required
	// +kubebuilder:validation:MaxLength=32768
	Message string `json:"message"`
}

// GroupVersionKind unambiguously identifies a kind.
type GroupVersionKind struct {
	Group   string `json:"group"`
	Version string `json:"version"`
	Kind    string `json:"kind"`
}

func (in *ObjectMeta) DeepCopyInto(out *ObjectMeta)                               { *out = *in }
func (in *ObjectMeta) DeepCopy() *ObjectMeta                                      { return in }
func (in *ListMeta) DeepCopyInto(out *ListMeta)                                   { *out = *in }
func (in *ListMeta) DeepCopy() *ListMeta                                          { return in }
func (t *Time) DeepCopyInto(out *Time)                                            { *out = *t }
func (t *Time) DeepCopy() *Time                                                   { return t }
func (t *MicroTime) DeepCopyInto(out *MicroTime)                                  { *out = *t }
func (t *MicroTime) DeepCopy() *MicroTime                                         { return t }
func (in *Condition) DeepCopyInto(out *Condition)                                 { *out = *in }
func (in *Condition) DeepCopy() *Condition                                        { return in }
func (in *LabelSelector) DeepCopyInto(out *LabelSelector)                         { *out = *in }
func (in *LabelSelector) DeepCopy() *LabelSelector                                { return in }
func (in *LabelSelectorRequirement) DeepCopyInto(out *LabelSelectorRequirement)   { *out = *in }
func (in *LabelSelectorRequirement) DeepCopy() *LabelSelectorRequirement          { return in }
func (in *OwnerReference) DeepCopyInto(out *OwnerReference)                       { *out = *in }
func (in *OwnerReference) DeepCopy() *OwnerReference                              { return in }
func (in *Fields) DeepCopyInto(out *Fields)                                       { *out = *in }
func (in *Fields) DeepCopy() *Fields                                              { return in }
func (in *Duration) DeepCopyInto(out *Duration)                                   { *out = *in }
func (in *Duration) DeepCopy() *Duration                                          { return in }
