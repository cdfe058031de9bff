// Package simos replaces package os in simulated code. Everything not defined
// here is forwarded to package os by the generated file zz_alias.go.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// Args is the argument vector of the simulated process.
var Args = []string{"sim"}

// Standard streams; replaced at the start of every simulated process.
var (
	Stdin  = &File{std: 3}
	Stdout = &File{std: 1}
	Stderr = &File{std: 2}
)

// Reset prepares the package for a new simulated process.
func Reset(m *simfs.Machine) {
	Args = m.Args
	Stdin = &File{std: 3}
	Stdout = &File{std: 1}
	Stderr = &File{std: 2}
}

func m() *simfs.Machine {
	if simfs.M == nil {
		panic("simos: no simulated machine")
	}
	return simfs.M
}

// File is an open file.
type File struct {
	h   *simfs.Handle
	std int
}

func (f *File) hd() (*simfs.Handle, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	if f.h == nil {
		if f.std == 0 {
			return nil, ErrInvalid
		}
		if simfs.M == nil {
			return nil, ErrInvalid
		}
		f.h = simfs.Std(m(), f.std)
	}
	return f.h, nil
}

func (f *File) Name() string {
	switch f.std {
	case 1:
		return "/dev/stdout"
	case 2:
		return "/dev/stderr"
	case 3:
		return "/dev/stdin"
	}
	return f.h.Name()
}

func (f *File) Read(b []byte) (int, error) {
	h, err := f.hd()
	if err != nil {
		return 0, err
	}
	return h.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	h, err := f.hd()
	if err != nil {
		return 0, err
	}
	return h.ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	h, err := f.hd()
	if err != nil {
		if f.std == 1 || f.std == 2 {
			// before any simulation: package initialisation
			return len(b), nil
		}
		return 0, err
	}
	return h.Write(b)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	h, err := f.hd()
	if err != nil {
		return 0, err
	}
	return h.WriteAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	h, err := f.hd()
	if err != nil {
		return 0, err
	}
	return h.Seek(off, whence)
}

func (f *File) Close() error {
	h, err := f.hd()
	if err != nil {
		return err
	}
	return h.Close()
}

func (f *File) Sync() error {
	h, err := f.hd()
	if err != nil {
		return err
	}
	return h.Sync()
}

func (f *File) Stat() (FileInfo, error) {
	h, err := f.hd()
	if err != nil {
		return nil, err
	}
	return h.Stat()
}

func (f *File) Truncate(n int64) error {
	h, err := f.hd()
	if err != nil {
		return err
	}
	return h.Truncate(n)
}

func (f *File) Chmod(mode FileMode) error        { return m().Chmod(f.Name(), mode) }
func (f *File) Chown(uid, gid int) error         { return nil }
func (f *File) Chdir() error                     { return m().Chdir(f.Name()) }
func (f *File) Fd() uintptr                      { return uintptr(1000 + f.std) }
func (f *File) SetDeadline(time.Time) error      { return nil }
func (f *File) SetReadDeadline(time.Time) error  { return nil }
func (f *File) SetWriteDeadline(time.Time) error { return nil }
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	h, err := f.hd()
	if err != nil {
		return nil, err
	}
	return h.ReadDirN(n)
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func flags(flag int) int {
	r := 0
	switch flag & (O_RDONLY | O_WRONLY | O_RDWR) {
	case O_RDONLY:
		r = simfs.ORead
	case O_WRONLY:
		r = simfs.OWrite
	case O_RDWR:
		r = simfs.ORead | simfs.OWrite
	}
	if flag&O_CREATE != 0 {
		r |= simfs.OCreate
	}
	if flag&O_EXCL != 0 {
		r |= simfs.OExcl
	}
	if flag&O_TRUNC != 0 {
		r |= simfs.OTrunc
	}
	if flag&O_APPEND != 0 {
		r |= simfs.OAppend
	}
	return r
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := m().Open(name, flags(flag), perm)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return &File{std: 3}
	case 1:
		return &File{std: 1}
	case 2:
		return &File{std: 2}
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 8192)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(m().TempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	p := m().TempName(dir, pattern)
	return p, m().Mkdir(p)
}

func TempDir() string                            { return "/tmp" }
func Mkdir(name string, _ FileMode) error        { return m().Mkdir(name) }
func MkdirAll(name string, _ FileMode) error     { return m().MkdirAll(name) }
func Remove(name string) error                   { return m().Remove(name) }
func RemoveAll(name string) error                { return m().RemoveAll(name) }
func Rename(a, b string) error                   { return m().Rename(a, b) }
func Truncate(name string, n int64) error        { return m().Truncate(name, n) }
func Stat(name string) (FileInfo, error)         { return m().Stat(name, true) }
func Lstat(name string) (FileInfo, error)        { return m().Stat(name, false) }
func ReadDir(name string) ([]DirEntry, error)    { return m().ReadDir(name) }
func Chmod(name string, mode FileMode) error     { return m().Chmod(name, mode) }
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Symlink(a, b string) error                  { return m().Symlink(a, b) }
func Readlink(a string) (string, error)          { return m().Readlink(a) }
func Chdir(d string) error                       { return m().Chdir(d) }
func Getwd() (string, error)                     { return m().Cwd, nil }
func Getpid() int                                { return 2 + int(rt.Mix(m().Rand, 6)%30000) }
func Getppid() int                               { return 1 }
func Getuid() int                                { return 1000 }
func Getgid() int                                { return 1000 }
func Hostname() (string, error)                  { return fmt.Sprintf("sim%x", rt.Mix(m().Rand, 7)>>48), nil }
func Executable() (string, error)                { return "/sim/bin/" + path.Base(Args[0]), nil }
func UserHomeDir() (string, error)               { return "/root", nil }
func UserCacheDir() (string, error)              { return "/root/.cache", nil }
func UserConfigDir() (string, error)             { return "/root/.config", nil }
func SameFile(a, b FileInfo) bool                { return simfs.Same(a, b) }

func Link(a, b string) error {
	data, err := ReadFile(a)
	if err != nil {
		return err
	}
	f, err := OpenFile(b, O_WRONLY|O_CREATE|O_EXCL, 0o644)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(data)
	return err
}

func CopyFS(string, fs.FS) error { return errors.ErrUnsupported }

// Exit ends the simulated process.
func Exit(code int) { rt.Die("exit", code) }

func LookupEnv(k string) (string, bool) {
	if simfs.M == nil {
		return "", false
	}
	for i := len(m().Env) - 1; i >= 0; i-- {
		if v, ok := strings.CutPrefix(m().Env[i], k+"="); ok {
			return v, true
		}
	}
	// SIM_ENV stands for an environment full of variables that nothing should care
	// about.  Variables that Go tools document to change what they do are left out.
	for _, e := range m().Env {
		seed, ok := strings.CutPrefix(e, "SIM_ENV=")
		if !ok || strings.HasPrefix(k, "GO") || strings.HasPrefix(k, "CGO") || k == "TMPDIR" || k == "PWD" || k == "PATH" || k == "HOME" {
			continue
		}
		h := uint64(14695981039346656037)
		for _, c := range seed + "=" + k {
			h = (h ^ uint64(c)) * 1099511628211
		}
		if h = rt.Mix(h, 11); h&1 == 0 {
			return fmt.Sprintf("v%x", h>>40), true
		}
	}
	return "", false
}
func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func Setenv(k, v string) error {
	m().Env = append(m().Env, k+"="+v)
	return nil
}
func Unsetenv(k string) error {
	var out []string
	for _, e := range m().Env {
		if !strings.HasPrefix(e, k+"=") {
			out = append(out, e)
		}
	}
	m().Env = out
	return nil
}
func Clearenv() { m().Env = nil }
func Environ() []string {
	if simfs.M == nil {
		return nil
	}
	return append([]string(nil), m().Env...)
}
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

// DirFS gives the simulated tree below dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) { return ReadFile(path.Join(string(d), name)) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	return ReadDir(path.Join(string(d), name))
}
func (d dirFS) Stat(name string) (fs.FileInfo, error) { return Stat(path.Join(string(d), name)) }

func Pipe() (*File, *File, error) { return nil, nil, syscall.ENOSYS }
