package net

type IP []byte
type IPMask []byte
type IPNet struct {
	IP   IP
	Mask IPMask
}
