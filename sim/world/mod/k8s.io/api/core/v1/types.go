package v1

import (
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/util/intstr"
)

// Protocol defines network protocols supported for things like container ports.
// +enum
type Protocol string

// ResourceName is the name identifying various resources in a ResourceList.
type ResourceName string

// ResourceList is a set of (resource name, quantity) pairs.
type ResourceList map[ResourceName]resource.Quantity

// LocalObjectReference names an object in the same namespace.
// +structType=atomic
type LocalObjectReference struct {
	// Name of the referent.
	// +optional
	// +default=""
	// +kubebuilder:default=""
	Name string `json:"name,omitempty"`
}

// SecretKeySelector selects a key of a Secret.
// +structType=atomic
type SecretKeySelector struct {
	LocalObjectReference `json:",inline"`
	// The key of the secret to select from.
	Key string `json:"key"`
	// +optional
	Optional *bool `json:"optional,omitempty"`
}

// ServicePort contains information on service's port.
type ServicePort struct {
	// +optional
	Name string `json:"name,omitempty"`
	// +default="TCP"
	// +optional
	Protocol Protocol `json:"protocol,omitempty"`
	Port     int32    `json:"port"`
	// +optional
	TargetPort intstr.IntOrString `json:"targetPort,omitempty"`
}

// ContainerPort is a port.
type ContainerPort struct {
	ContainerPort int32 `json:"containerPort"`
	// +optional
	// +default="TCP"
	Protocol Protocol `json:"protocol,omitempty"`
}

// Container is a container.
type Container struct {
	Name string `json:"name"`
	// +optional
	Image string `json:"image,omitempty"`
	// +optional
	// +patchMergeKey=containerPort
	// +patchStrategy=merge
	// +listType=map
	// +listMapKey=containerPort
	// +listMapKey=protocol
	Ports []ContainerPort `json:"ports,omitempty" patchStrategy:"merge" patchMergeKey:"containerPort"`
	// +optional
	Limits ResourceList `json:"limits,omitempty"`
}

// PodSpec is a description of a pod.
type PodSpec struct {
	// +patchMergeKey=name
	// +patchStrategy=merge
	// +listType=map
	// +listMapKey=name
	Containers []Container `json:"containers" patchStrategy:"merge" patchMergeKey:"name"`
	// +optional
	// +mapType=atomic
	NodeSelector map[string]string `json:"nodeSelector,omitempty"`
}

// PodTemplateSpec describes the data a pod should have.
type PodTemplateSpec struct {
	// +optional
	metav1.ObjectMeta `json:"metadata,omitempty"`
	// +optional
	Spec PodSpec `json:"spec,omitempty"`
}

func (in *PodTemplateSpec) DeepCopyInto(out *PodTemplateSpec)           { *out = *in }
func (in *PodTemplateSpec) DeepCopy() *PodTemplateSpec                  { return in }
func (in *PodSpec) DeepCopyInto(out *PodSpec)                           { *out = *in }
func (in *Container) DeepCopyInto(out *Container)                       { *out = *in }
func (in *ServicePort) DeepCopyInto(out *ServicePort)                   { *out = *in }
func (in *SecretKeySelector) DeepCopyInto(out *SecretKeySelector)       { *out = *in }
func (in *LocalObjectReference) DeepCopyInto(out *LocalObjectReference) { *out = *in }
func (in ResourceList) DeepCopy() ResourceList                          { return in }
func (in ResourceList) DeepCopyInto(out *ResourceList)                  { *out = in }

func (in *Container) DeepCopy() *Container                       { return in }
func (in *LocalObjectReference) DeepCopy() *LocalObjectReference { return in }
func (in *PodSpec) DeepCopy() *PodSpec                           { return in }
func (in *SecretKeySelector) DeepCopy() *SecretKeySelector       { return in }
func (in *ServicePort) DeepCopy() *ServicePort                   { return in }
