package types

type UID string

type NamespacedName struct {
	Namespace string
	Name      string
}
