// Package simfs is the simulated machine: an in-memory file system, standard
// streams, environment and argument vector, with fault injection on every
// operation. Only state held here survives a simulated crash.
package simfs

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// Node is a file or directory.
type Node struct {
	Dir  bool
	Data []byte
	Mode fs.FileMode
	Link string // symlink target, if a symlink
	Kids map[string]bool
	Gen  int // bumped by every mutation
}

// FS is a tree of nodes by absolute, cleaned path.
type FS struct {
	Nodes map[string]*Node
}

// New returns a file system with only the root directory.
func New() *FS {
	f := &FS{Nodes: map[string]*Node{}}
	f.Nodes["/"] = &Node{Dir: true, Mode: 0o755 | fs.ModeDir, Kids: map[string]bool{}}
	return f
}

// Clone copies the tree (file contents are shared until written).
func (f *FS) Clone() *FS {
	g := &FS{Nodes: make(map[string]*Node, len(f.Nodes))}
	for p, n := range f.Nodes {
		c := *n
		if n.Kids != nil {
			c.Kids = make(map[string]bool, len(n.Kids))
			for k := range n.Kids {
				c.Kids[k] = true
			}
		}
		c.Data = n.Data[:len(n.Data):len(n.Data)]
		g.Nodes[p] = &c
	}
	return g
}

// Put creates a file (and its parents) directly, without the simulated machine.
func (f *FS) Put(p string, data []byte) {
	p = path.Clean(p)
	f.MkParents(path.Dir(p))
	f.Nodes[p] = &Node{Data: data, Mode: 0o644}
	f.Nodes[path.Dir(p)].Kids[path.Base(p)] = true
}

// Del removes a file or tree directly.
func (f *FS) Del(p string) {
	p = path.Clean(p)
	for q := range f.Nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(f.Nodes, q)
		}
	}
	if d := f.Nodes[path.Dir(p)]; d != nil {
		delete(d.Kids, path.Base(p))
	}
}

// MkParents creates a directory chain directly.
func (f *FS) MkParents(p string) {
	if _, ok := f.Nodes[p]; ok {
		return
	}
	f.MkParents(path.Dir(p))
	f.Nodes[p] = &Node{Dir: true, Mode: 0o755 | fs.ModeDir, Kids: map[string]bool{}}
	f.Nodes[path.Dir(p)].Kids[path.Base(p)] = true
}

// Get returns the content of a file.
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.Nodes[path.Clean(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Files returns the regular files below prefix, sorted.
func (f *FS) Files(prefix string) []string {
	var out []string
	for p, n := range f.Nodes {
		if !n.Dir && (strings.HasPrefix(p, prefix+"/") || p == prefix) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Fault is one injected fault. It fires at the Nth (0-based) operation of kind
// Op on Path ("*" for any path); at all of them if Nth is negative.
type Fault struct {
	Op   string `json:"op"` // open, create, read, write, close, stat, mkdir, readdir, createtemp, remove, rename, golist, ...
	Path string `json:"path"`
	Nth  int    `json:"nth"`
	Err  string `json:"err,omitempty"`  // EIO, ENOSPC, EACCES, EMFILE, ... or "crash"
	Part int    `json:"part,omitempty"` // write/read: bytes transferred before the fault, in 1/1000 of the request
	Late bool   `json:"late,omitempty"` // crash after the operation took effect, instead of before
	// Sticky faults keep firing for every later operation of the same kind on
	// any path (a disk that stays full).
	Sticky bool `json:"sticky,omitempty"`
}

// Inject is what another process did to the file system, to be applied just
// before the operation number At (1-based) of this one.
type Inject struct {
	At    int               `json:"at"`
	Files map[string][]byte `json:"files,omitempty"` // content; nil: removed
	Fresh []string          `json:"fresh,omitempty"` // of those: names that refer to another file than before
	Dirs  []string          `json:"dirs,omitempty"`
}

// Apply makes the changes.
func (in *Inject) Apply(f *FS) {
	for _, d := range in.Dirs {
		f.MkParents(d)
	}
	for _, p := range in.Fresh {
		f.Del(p)
	}
	for p, b := range in.Files {
		if b == nil {
			f.Del(p)
		} else if n := f.Nodes[p]; n != nil && !n.Dir {
			n.Data = b[:len(b):len(b)]
			n.Gen++
		} else {
			f.Put(p, b[:len(b):len(b)])
		}
	}
}

func (m *Machine) inject() {
	for i := range m.Injects {
		if in := &m.Injects[i]; in.At == m.steps {
			in.Apply(m.FS)
		}
	}
}

// Op is one operation the simulated process performed.
type Op struct {
	Kind string
	Path string
	Nth  int // occurrence of (Kind, Path)
	Size int
	Err  string
	Mut  bool
}

func (o Op) String() string {
	s := fmt.Sprintf("%s %s #%d", o.Kind, o.Path, o.Nth)
	if o.Size > 0 {
		s += fmt.Sprintf(" size=%d", o.Size)
	}
	if o.Err != "" {
		s += " -> " + o.Err
	}
	return s
}

// Machine is the environment of one simulated process.
type Machine struct {
	FS     *FS
	Cwd    string
	Args   []string
	Env    []string
	Stdout []byte
	Stderr []byte
	Stdin  []byte

	Faults     []Fault
	Injects    []Inject
	StopAt     int    // if positive: crash just before this operation (1-based)
	ShortReads uint64 // if non-zero: seed for legal short reads

	Ops    []Op
	Fired  []string // faults that actually fired, in order
	Rand   uint64   // decides the names of temporary files and the process ID
	NoLog  bool     // do not record ops (race builds)
	seen   map[string]int
	frozen bool
	fds    int
	tmp    int
	MaxFDs int // most files open at once
	// GoCmd emulates running the go command.
	GoCmd func(m *Machine, dir string, args []string) (stdout, stderr string, exit int)
	srand uint64
	steps int
}

// M is the machine of the running simulation.
var M *Machine

// Begin installs m.
func Begin(m *Machine) {
	m.seen = map[string]int{}
	m.frozen = false
	M = m
	rt.OnDeath = []func(string){func(string) { m.freeze() }}
}

func (m *Machine) freeze() { m.frozen = true }

// End uninstalls the machine.
func End() { M = nil }

// Errno maps a name to an error number.
func Errno(name string) syscall.Errno {
	switch name {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "ENOENT":
		return syscall.ENOENT
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	case "EPIPE":
		return syscall.EPIPE
	case "EINTR":
		return syscall.EINTR
	case "ENOTDIR":
		return syscall.ENOTDIR
	case "EISDIR":
		return syscall.EISDIR
	case "EEXIST":
		return syscall.EEXIST
	case "ENOTEMPTY":
		return syscall.ENOTEMPTY
	case "EBADF":
		return syscall.EBADF
	case "EINVAL":
		return syscall.EINVAL
	case "ENOMEM":
		return syscall.ENOMEM
	case "ESTALE":
		return syscall.ESTALE
	}
	panic("simfs: unknown errno " + name)
}

var errDead = errors.New("simulated process is dead")

const maxOps = 200000

// op accounts for an operation and returns the fault that fires at it, if any.
// A crash "before" ends the process here.
func (m *Machine) op(kind, p string, size int, mut bool) (*Fault, *Op) {
	rt.Y(0)
	if m.frozen {
		return nil, nil
	}
	if m.NoLog {
		for i := range m.Faults {
			if f := &m.Faults[i]; f.Nth < 0 && f.Op == kind && f.Path == p {
				return f, &Op{}
			}
		}
		return nil, nil
	}
	m.steps++
	if m.steps > maxOps {
		rt.Die("steps", 2)
	}
	m.inject()
	if m.steps == m.StopAt {
		rt.Die("crash", 137)
	}
	key := kind + " " + p
	n := m.seen[key]
	m.seen[key] = n + 1
	g := m.seen[kind+" *"]
	m.seen[kind+" *"] = g + 1
	m.Ops = append(m.Ops, Op{Kind: kind, Path: p, Nth: n, Size: size, Mut: mut})
	o := &m.Ops[len(m.Ops)-1]
	for i := range m.Faults {
		f := &m.Faults[i]
		if f.Op != kind {
			continue
		}
		hit := f.Path == p && (f.Nth == n || f.Nth < 0) || f.Path == "*" && f.Nth == g
		if f.Sticky && !hit {
			hit = f.Path == "*" && g > f.Nth
		}
		if !hit {
			continue
		}
		m.Fired = append(m.Fired, f.Err+":"+kind)
		o.Err = f.Err
		if f.Err == "crash" && !f.Late && f.Part == 0 {
			rt.Die("crash", 137)
		}
		return f, o
	}
	return nil, o
}

// late ends the process after an operation took effect.
func late(f *Fault) {
	if f != nil && f.Err == "crash" {
		rt.Die("crash", 137)
	}
}

func isErr(f *Fault) bool { return f != nil && f.Err != "crash" && f.Err != "short" }

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// Abs makes p absolute against the simulated working directory.
func (m *Machine) Abs(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(m.Cwd, p)
}

func (m *Machine) resolve(p string) string {
	p = m.Abs(p)
	// follow symlinks in every component (bounded)
	for i := 0; i < 16; i++ {
		q, changed := m.resolve1(p)
		if !changed {
			return q
		}
		p = q
	}
	return p
}

func (m *Machine) resolve1(p string) (string, bool) {
	parts := strings.Split(p, "/")
	cur := ""
	for i, part := range parts {
		if part == "" {
			continue
		}
		cur += "/" + part
		n := m.FS.Nodes[cur]
		if n != nil && n.Link != "" {
			t := n.Link
			if !path.IsAbs(t) {
				t = path.Join(path.Dir(cur), t)
			}
			return path.Join(append([]string{t}, parts[i+1:]...)...), true
		}
	}
	return p, false
}

// lookup returns the node or the errno a real lookup would give.
func (m *Machine) lookup(p string) (*Node, error) {
	n := m.FS.Nodes[p]
	if n != nil {
		return n, nil
	}
	for d := path.Dir(p); d != "/"; d = path.Dir(d) {
		if x := m.FS.Nodes[d]; x != nil {
			if !x.Dir {
				return nil, syscall.ENOTDIR
			}
			break
		}
	}
	return nil, syscall.ENOENT
}

// Handle is an open file.
type Handle struct {
	m      *Machine
	name   string // as given
	path   string
	node   *Node
	off    int64
	rd, wr bool
	app    bool
	closed bool
	std    int // 1 stdout, 2 stderr, 3 stdin
	dirPos []string
	dirAt  int
}

// Std returns a handle on a standard stream.
func Std(m *Machine, which int) *Handle {
	name := map[int]string{1: "/dev/stdout", 2: "/dev/stderr", 3: "/dev/stdin"}[which]
	return &Handle{m: m, name: name, path: name, std: which, rd: which == 3, wr: which != 3}
}

// Open flags.
const (
	ORead = 1 << iota
	OWrite
	OCreate
	OExcl
	OTrunc
	OAppend
)

// Open opens a file.
func (m *Machine) Open(name string, flags int, mode fs.FileMode) (*Handle, error) {
	p := m.resolve(name)
	kind := "open"
	if flags&OCreate != 0 {
		kind = "create"
	} else if flags&OWrite != 0 {
		kind = "openw"
	}
	f, o := m.op(kind, p, 0, flags&(OCreate|OTrunc) != 0)
	if m.frozen {
		return nil, perr("open", name, errDead)
	}
	if isErr(f) {
		return nil, perr("open", name, Errno(f.Err))
	}
	fail := func(e error) (*Handle, error) {
		if o != nil {
			o.Err = e.Error()
			o.Mut = false
		}
		return nil, perr("open", name, e)
	}
	if name == "" {
		return fail(syscall.ENOENT)
	}
	n, err := m.lookup(p)
	if err != nil {
		if flags&OCreate == 0 || err != syscall.ENOENT {
			return fail(err)
		}
		d, derr := m.lookup(path.Dir(p))
		if derr != nil {
			return fail(derr)
		}
		if !d.Dir {
			return fail(syscall.ENOTDIR)
		}
		n = &Node{Mode: mode &^ 0o022}
		m.FS.Nodes[p] = n
		d.Kids[path.Base(p)] = true
	} else {
		if flags&OExcl != 0 && flags&OCreate != 0 {
			return fail(syscall.EEXIST)
		}
		if n.Dir && flags&OWrite != 0 {
			return fail(syscall.EISDIR)
		}
		if flags&OTrunc != 0 {
			n.Data = nil
			n.Gen++
		}
	}
	late(f)
	if !m.NoLog {
		m.fds++
		if m.fds > m.MaxFDs {
			m.MaxFDs = m.fds
		}
	}
	return &Handle{m: m, name: name, path: p, node: n, rd: flags&OWrite == 0 || flags&ORead != 0, wr: flags&OWrite != 0, app: flags&OAppend != 0}, nil
}

func (h *Handle) Name() string { return h.name }

func (h *Handle) dead() bool { return h.m.frozen }

// Read implements read(2).
func (h *Handle) Read(b []byte) (int, error) { return h.readAt(b, -1) }

// ReadAt implements pread(2).
func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) {
		k, err := h.readAt(b[n:], off+int64(n))
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (h *Handle) readAt(b []byte, off int64) (int, error) {
	m := h.m
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	f, _ := m.op("read", h.path, len(b), false)
	if m.frozen {
		return 0, perr("read", h.name, errDead)
	}
	if h.std != 0 {
		if h.std != 3 {
			return 0, perr("read", h.name, syscall.EBADF)
		}
		if len(m.Stdin) == 0 {
			return 0, io.EOF
		}
		n := copy(b, m.Stdin)
		m.Stdin = m.Stdin[n:]
		return n, nil
	}
	if !h.rd {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.node.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	pos := h.off
	if off >= 0 {
		pos = off
	}
	pos = min(pos, int64(len(h.node.Data))) // it may have been cut short since
	avail := int64(len(h.node.Data)) - pos
	want := int64(len(b))
	if want > avail {
		want = avail
	}
	if isErr(f) {
		// some bytes may have been transferred by earlier reads; this one fails
		return 0, perr("read", h.name, Errno(f.Err))
	}
	if m.ShortReads != 0 && want > 1 {
		m.srand = rt.Mix(m.ShortReads, m.srand, uint64(want))
		want = 1 + int64(m.srand%uint64(want))
	}
	copy(b[:want], h.node.Data[pos:pos+want])
	if off < 0 {
		h.off += want
	}
	late(f)
	if want == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return int(want), nil
}

// Write implements write(2) as os.File wraps it: it either writes everything or
// returns an error.
func (h *Handle) Write(b []byte) (int, error) { return h.writeAt(b, -1) }

// WriteAt implements pwrite(2).
func (h *Handle) WriteAt(b []byte, off int64) (int, error) { return h.writeAt(b, off) }

func (h *Handle) writeAt(b []byte, off int64) (int, error) {
	m := h.m
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	f, _ := m.op("write", h.path, len(b), h.std == 0)
	if m.frozen {
		return 0, perr("write", h.name, errDead)
	}
	n := len(b)
	if f != nil {
		n = len(b) * f.Part / 1000
		if f.Err == "crash" && f.Late {
			n = len(b)
		}
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	h.put(b[:n], off)
	late(f)
	if isErr(f) {
		return n, perr("write", h.name, Errno(f.Err))
	}
	return n, nil
}

func (h *Handle) put(b []byte, off int64) {
	switch h.std {
	case 1:
		h.m.Stdout = append(h.m.Stdout, b...)
		return
	case 2:
		h.m.Stderr = append(h.m.Stderr, b...)
		return
	}
	pos := h.off
	if off >= 0 {
		pos = off
	} else if h.app {
		pos = int64(len(h.node.Data))
	}
	end := pos + int64(len(b))
	size := int64(len(h.node.Data))
	if end > size {
		size = end
	}
	if pos == int64(len(h.node.Data)) {
		h.node.Data = append(h.node.Data, b...)
	} else {
		nd := make([]byte, size)
		copy(nd, h.node.Data)
		copy(nd[pos:], b)
		h.node.Data = nd
	}
	h.node.Gen++
	if off < 0 {
		h.off = end
	}
}

// Seek implements lseek(2).
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.closed {
		return 0, perr("seek", h.name, fs.ErrClosed)
	}
	switch whence {
	case 0:
		h.off = off
	case 1:
		h.off += off
	case 2:
		h.off = int64(len(h.node.Data)) + off
	}
	return h.off, nil
}

// Sync implements fsync(2).
func (h *Handle) Sync() error {
	f, _ := h.m.op("sync", h.path, 0, false)
	late(f)
	if isErr(f) {
		return perr("sync", h.name, Errno(f.Err))
	}
	return nil
}

// Close implements close(2).
func (h *Handle) Close() error {
	m := h.m
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	kind := "close"
	if h.wr {
		kind = "closew"
	}
	f, _ := m.op(kind, h.path, 0, false)
	h.closed = true
	if m.frozen {
		return nil
	}
	if !m.NoLog {
		m.fds--
	}
	late(f)
	if isErr(f) {
		// deferred write-back failed: buffered data may be gone
		if h.wr && h.std == 0 {
			n := len(h.node.Data) * f.Part / 1000
			h.node.Data = h.node.Data[:n:n]
			h.node.Gen++
		}
		return perr("close", h.name, Errno(f.Err))
	}
	return nil
}

// Truncate implements ftruncate(2).
func (h *Handle) Truncate(size int64) error { return h.m.truncNode(h.node, h.name, h.path, size) }

func (m *Machine) truncNode(n *Node, name, p string, size int64) error {
	f, _ := m.op("truncate", p, 0, true)
	if m.frozen {
		return perr("truncate", name, errDead)
	}
	if isErr(f) {
		return perr("truncate", name, Errno(f.Err))
	}
	nd := make([]byte, size)
	copy(nd, n.Data)
	n.Data = nd
	n.Gen++
	late(f)
	return nil
}

// Truncate implements truncate(2).
func (m *Machine) Truncate(name string, size int64) error {
	p := m.resolve(name)
	n, err := m.lookup(p)
	if err != nil {
		return perr("truncate", name, err)
	}
	return m.truncNode(n, name, p, size)
}

// Stat implements stat(2).
func (m *Machine) Stat(name string, follow bool) (fs.FileInfo, error) {
	p := m.Abs(name)
	if follow {
		p = m.resolve(name)
	} else {
		p = path.Join(m.resolve(path.Dir(p)), path.Base(p))
	}
	op := "stat"
	if !follow {
		op = "lstat"
	}
	f, o := m.op(op, p, 0, false)
	if m.frozen {
		return nil, perr(op, name, errDead)
	}
	if isErr(f) {
		return nil, perr(op, name, Errno(f.Err))
	}
	n, err := m.lookup(p)
	if err != nil {
		if o != nil {
			o.Err = err.Error()
		}
		return nil, perr(op, name, err)
	}
	late(f)
	return Info{name: path.Base(m.Abs(name)), n: n, size: int64(len(n.Data)), mode: n.Mode, gen: n.Gen}, nil
}

// Stat implements fstat(2).
func (h *Handle) Stat() (fs.FileInfo, error) {
	if h.std != 0 {
		return Info{name: path.Base(h.path), n: &Node{}, mode: 0o620 | fs.ModeNamedPipe}, nil
	}
	if h.closed {
		return nil, perr("stat", h.name, fs.ErrClosed)
	}
	return Info{name: path.Base(h.path), n: h.node, size: int64(len(h.node.Data)), mode: h.node.Mode, gen: h.node.Gen}, nil
}

// Info is a FileInfo.
type Info struct {
	name string
	n    *Node
	size int64
	mode fs.FileMode
	gen  int
}

func (i Info) Name() string { return i.name }
func (i Info) Size() int64  { return i.size }
func (i Info) Mode() fs.FileMode {
	if i.n.Link != "" {
		return i.mode | fs.ModeSymlink
	}
	return i.mode
}
func (i Info) ModTime() time.Time { return time.Unix(1700000000+int64(i.gen), 0).UTC() }
func (i Info) IsDir() bool        { return i.n.Dir }
func (i Info) Sys() any           { return nil }

// Same reports whether two infos describe the same file.
func Same(a, b fs.FileInfo) bool {
	x, ok1 := a.(Info)
	y, ok2 := b.(Info)
	return ok1 && ok2 && x.n == y.n
}

// DirEnt is a DirEntry.
type DirEnt struct{ i Info }

func (d DirEnt) Name() string               { return d.i.name }
func (d DirEnt) IsDir() bool                { return d.i.IsDir() }
func (d DirEnt) Type() fs.FileMode          { return d.i.Mode().Type() }
func (d DirEnt) Info() (fs.FileInfo, error) { return d.i, nil }
func (d DirEnt) String() string             { return fs.FormatDirEntry(d) }

// ReadDir implements os.ReadDir (sorted).
func (m *Machine) ReadDir(name string) ([]fs.DirEntry, error) {
	p := m.resolve(name)
	f, o := m.op("readdir", p, 0, false)
	if m.frozen {
		return nil, perr("open", name, errDead)
	}
	if isErr(f) {
		return nil, perr("open", name, Errno(f.Err))
	}
	n, err := m.lookup(p)
	if err == nil && !n.Dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		if o != nil {
			o.Err = err.Error()
		}
		return nil, perr("open", name, err)
	}
	late(f)
	return m.list(p, n), nil
}

func (m *Machine) list(p string, n *Node) []fs.DirEntry {
	names := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		names = append(names, k)
	}
	sort.Strings(names)
	out := make([]fs.DirEntry, 0, len(names))
	for _, k := range names {
		c := m.FS.Nodes[path.Join(p, k)]
		if c == nil {
			continue
		}
		out = append(out, DirEnt{Info{name: k, n: c, size: int64(len(c.Data)), mode: c.Mode, gen: c.Gen}})
	}
	return out
}

// ReadDirN implements File.ReadDir: directory order is unspecified, so it is
// decided by the plan.
func (h *Handle) ReadDirN(n int) ([]fs.DirEntry, error) {
	if h.dirPos == nil {
		m := map[string]bool{}
		for k := range h.node.Kids {
			m[k] = true
		}
		h.dirPos = rt.Order(0, m)
		if f, _ := h.m.op("readdir", h.path, 0, false); isErr(f) {
			return nil, perr("readdirent", h.name, Errno(f.Err))
		}
	}
	var out []fs.DirEntry
	for h.dirAt < len(h.dirPos) && (n <= 0 || len(out) < n) {
		k := h.dirPos[h.dirAt]
		h.dirAt++
		if c := h.m.FS.Nodes[path.Join(h.path, k)]; c != nil {
			out = append(out, DirEnt{Info{name: k, n: c, size: int64(len(c.Data)), mode: c.Mode, gen: c.Gen}})
		}
	}
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

// Mkdir implements mkdir(2).
func (m *Machine) Mkdir(name string) error {
	p := m.resolve(name)
	f, o := m.op("mkdir", p, 0, true)
	if m.frozen {
		return perr("mkdir", name, errDead)
	}
	if isErr(f) {
		return perr("mkdir", name, Errno(f.Err))
	}
	fail := func(e error) error {
		if o != nil {
			o.Err = e.Error()
			o.Mut = false
		}
		return perr("mkdir", name, e)
	}
	if _, err := m.lookup(p); err == nil {
		return fail(syscall.EEXIST)
	}
	d, err := m.lookup(path.Dir(p))
	if err != nil {
		return fail(err)
	}
	if !d.Dir {
		return fail(syscall.ENOTDIR)
	}
	m.FS.Nodes[p] = &Node{Dir: true, Mode: 0o755 | fs.ModeDir, Kids: map[string]bool{}}
	d.Kids[path.Base(p)] = true
	late(f)
	return nil
}

// MkdirAll implements os.MkdirAll.
func (m *Machine) MkdirAll(name string) error {
	p := m.resolve(name)
	f, o := m.op("mkdirall", p, 0, false)
	if m.frozen {
		return perr("mkdir", name, errDead)
	}
	if n, err := m.lookup(p); err == nil {
		if n.Dir {
			// os.MkdirAll only stats; a mkdir fault cannot hit it
			if isErr(f) && o != nil {
				o.Err = ""
				m.Fired = m.Fired[:len(m.Fired)-1]
			}
			return nil
		}
		if o != nil {
			o.Err = "ENOTDIR"
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if isErr(f) {
		return perr("mkdir", name, Errno(f.Err))
	}
	if o != nil {
		o.Mut = true
	}
	for d := p; d != "/"; d = path.Dir(d) {
		if x := m.FS.Nodes[d]; x != nil {
			if !x.Dir {
				return perr("mkdir", d, syscall.ENOTDIR)
			}
			break
		}
	}
	m.FS.MkParents(p)
	late(f)
	return nil
}

// Remove implements os.Remove.
func (m *Machine) Remove(name string) error {
	p := m.Abs(name)
	p = path.Join(m.resolve(path.Dir(p)), path.Base(p))
	f, o := m.op("remove", p, 0, true)
	if m.frozen {
		return perr("remove", name, errDead)
	}
	if isErr(f) {
		return perr("remove", name, Errno(f.Err))
	}
	fail := func(e error) error {
		if o != nil {
			o.Err = e.Error()
			o.Mut = false
		}
		return perr("remove", name, e)
	}
	n, err := m.lookup(p)
	if err != nil {
		return fail(err)
	}
	if n.Dir && len(n.Kids) > 0 {
		return fail(syscall.ENOTEMPTY)
	}
	delete(m.FS.Nodes, p)
	if d := m.FS.Nodes[path.Dir(p)]; d != nil {
		delete(d.Kids, path.Base(p))
	}
	late(f)
	return nil
}

// RemoveAll implements os.RemoveAll.
func (m *Machine) RemoveAll(name string) error {
	p := m.resolve(name)
	f, _ := m.op("removeall", p, 0, true)
	if m.frozen {
		return perr("unlinkat", name, errDead)
	}
	if isErr(f) {
		return perr("unlinkat", name, Errno(f.Err))
	}
	m.FS.Del(p)
	late(f)
	return nil
}

// Rename implements rename(2), atomically.
func (m *Machine) Rename(from, to string) error {
	p, q := m.resolve(from), m.resolve(to)
	f, o := m.op("rename", q, 0, true)
	lerr := func(e error) error {
		return &linkError{"rename", from, to, e}
	}
	if m.frozen {
		return lerr(errDead)
	}
	if isErr(f) {
		return lerr(Errno(f.Err))
	}
	n, err := m.lookup(p)
	if err != nil {
		if o != nil {
			o.Err = err.Error()
			o.Mut = false
		}
		return lerr(err)
	}
	d, err := m.lookup(path.Dir(q))
	if err != nil {
		return lerr(err)
	}
	if n.Dir {
		moved := map[string]*Node{}
		for k, v := range m.FS.Nodes {
			if k == p || strings.HasPrefix(k, p+"/") {
				moved[q+strings.TrimPrefix(k, p)] = v
			}
		}
		m.FS.Del(p)
		for k, v := range moved {
			m.FS.Nodes[k] = v
		}
	} else {
		if x := m.FS.Nodes[q]; x != nil && x.Dir {
			return lerr(syscall.EEXIST)
		}
		delete(m.FS.Nodes, p)
		if pd := m.FS.Nodes[path.Dir(p)]; pd != nil {
			delete(pd.Kids, path.Base(p))
		}
		m.FS.Nodes[q] = n
	}
	d.Kids[path.Base(q)] = true
	late(f)
	return nil
}

type linkError struct {
	op, a, b string
	err      error
}

func (e *linkError) Error() string { return e.op + " " + e.a + " " + e.b + ": " + e.err.Error() }
func (e *linkError) Unwrap() error { return e.err }

// Chmod implements chmod(2).
func (m *Machine) Chmod(name string, mode fs.FileMode) error {
	p := m.resolve(name)
	f, _ := m.op("chmod", p, 0, false)
	if m.frozen {
		return perr("chmod", name, errDead)
	}
	if isErr(f) {
		return perr("chmod", name, Errno(f.Err))
	}
	n, err := m.lookup(p)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = n.Mode&fs.ModeDir | mode.Perm()
	late(f)
	return nil
}

// Symlink implements symlink(2).
func (m *Machine) Symlink(target, name string) error {
	p := m.Abs(name)
	f, _ := m.op("symlink", p, 0, true)
	if isErr(f) {
		return &linkError{"symlink", target, name, Errno(f.Err)}
	}
	d, err := m.lookup(path.Dir(p))
	if err != nil {
		return &linkError{"symlink", target, name, err}
	}
	m.FS.Nodes[p] = &Node{Link: target, Mode: 0o777}
	d.Kids[path.Base(p)] = true
	late(f)
	return nil
}

// Readlink implements readlink(2).
func (m *Machine) Readlink(name string) (string, error) {
	n := m.FS.Nodes[m.Abs(name)]
	if n == nil || n.Link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.Link, nil
}

// TempName returns a fresh name for pattern in dir ("" for /tmp).
func (m *Machine) TempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		m.tmp++
		p := path.Join(dir, fmt.Sprintf("%s%09d%s", pre, (rt.Mix(m.Rand, 5)+uint64(m.tmp)*7919)%1000000007, suf))
		if m.FS.Nodes[m.Abs(p)] == nil {
			return p
		}
	}
}

// Chdir implements chdir(2).
func (m *Machine) Chdir(name string) error {
	p := m.resolve(name)
	n, err := m.lookup(p)
	if err == nil && !n.Dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return perr("chdir", name, err)
	}
	m.Cwd = p
	return nil
}

// Golist accounts for one run of the go command and returns an injected
// failure, if any.
func (m *Machine) Golist(what string) *Fault {
	f, _ := m.op("golist", what, 0, false)
	return f
}

// Frozen reports whether the process is dead.
func (m *Machine) Frozen() bool { return m.frozen }
