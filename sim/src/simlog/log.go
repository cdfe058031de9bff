// Package simlog replaces log in simulated code.
package simlog

import (
	"fmt"
	"io"
	"log"

	"sigs.k8s.io/controller-tools/verifsim/simos"
)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { return simos.Stderr.Write(b) }

var std = log.New(stderr{}, "", 0)

func Default() *log.Logger         { return std }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetFlags(int)                 {}
func Flags() int                   { return 0 }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Prefix() string               { return std.Prefix() }
func Writer() io.Writer            { return std.Writer() }
func Output(d int, s string) error { return std.Output(d+1, s) }
func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Fatal(v ...any)               { std.Print(v...); simos.Exit(1) }
func Fatalf(f string, v ...any)    { std.Printf(f, v...); simos.Exit(1) }
func Fatalln(v ...any)             { std.Println(v...); simos.Exit(1) }
func Panic(v ...any)               { s := fmt.Sprint(v...); std.Print(s); panic(s) }
func Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); std.Print(s); panic(s) }
func Panicln(v ...any)             { s := fmt.Sprintln(v...); std.Print(s); panic(s) }
