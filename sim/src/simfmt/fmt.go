// Package simfmt replaces fmt in simulated code: implicit standard streams are
// the simulated ones.
package simfmt

import (
	"fmt"

	"sigs.k8s.io/controller-tools/verifsim/simos"
)

func Print(a ...any) (int, error)                 { return fmt.Fprint(simos.Stdout, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(simos.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(simos.Stdout, format, a...) }
func Scan(a ...any) (int, error)                  { return fmt.Fscan(simos.Stdin, a...) }
func Scanln(a ...any) (int, error)                { return fmt.Fscanln(simos.Stdin, a...) }
func Scanf(format string, a ...any) (int, error)  { return fmt.Fscanf(simos.Stdin, format, a...) }
