// Package vos is an in-memory file system with scripted faults that replaces os.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Fault makes the Nth (0-based) operation Op on Path fail.
type Fault struct {
	Path    string `json:"path"`
	Op      string `json:"op"` // open create stat read write close readfile
	Nth     int    `json:"nth"`
	Partial int    `json:"partial,omitempty"` // bytes transferred before the error
	Sticky  bool   `json:"sticky,omitempty"`  // all later ones fail as well
	EOF     bool   `json:"eof,omitempty"`     // read: premature end of file instead of an error
}

// ErrInjected is the injected error.
var ErrInjected = errors.New("injected fault: no space left or I/O error")

type node struct {
	data []byte
}

// sink collects text without the race detector watching.
type sink struct{ first, last *chunk }

type chunk struct {
	b    [512]byte
	n    int
	next *chunk
}

//go:norace
func (s *sink) write(p []byte) {
	for i := 0; i < len(p); i++ {
		if s.last == nil || s.last.n == len(s.last.b) {
			c := &chunk{}

			if s.last == nil {
				s.first = c
			} else {
				s.last.next = c
			}

			s.last = c
		}

		s.last.b[s.last.n] = p[i]
		s.last.n++
	}
}

//go:norace
func (s *sink) String() string {
	var b []byte
	for c := s.first; c != nil; c = c.next {
		b = append(b, c.b[:c.n]...)
	}

	return string(b)
}

// entry belongs to a path or to an operation on it. A list of entries instead of a map: the race detector watches
// maps on its own, threads that use the file system are not ordered by that.
type entry struct {
	key   string
	n     *node
	input bool
	count int
	next  *entry
}

// at returns the entry of the key.
//
//go:norace
func (f *FSys) at(k string) *entry {
	for e := f.list; e != nil; e = e.next {
		if e.key == k {
			return e
		}
	}

	f.list = &entry{key: k, next: f.list}

	return f.list
}

// FSys is the file system of one run.
type FSys struct {
	mu     sync.Mutex
	list   *entry
	faults []Fault
	// Chunk limits the number of bytes returned by the Nth read of an input, 0 for no limit.
	Chunk    func(path string, n int) int
	OnPass   func(path string, n int)
	stdout   sink
	stderr   sink
	Hits     int // faults that fired
	Log      []string
	LogOps   bool
	openFail int
	opened   *File // all, the last first
	inputs   int   // open for reading
	InPeak   int   // inputs open at once
	said     []string
}

// Current is the file system in use.
var Current = NewFS(nil)

// Args, Stdout, Stderr, Stdin replace the process ones.
var (
	Args   = []string{"flatjsonl"}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
	Stdin  = &File{name: "/dev/stdin", std: 3}
)

// NewFS makes a file system.
func NewFS(files map[string][]byte) *FSys {
	f := &FSys{}

	for k, v := range files {
		e := f.at(path.Clean(k))
		e.n, e.input = &node{data: v}, true
	}

	return f
}

// Link gives a file another name.
func (f *FSys) Link(old, name string) {
	o, e := f.at(path.Clean(old)), f.at(path.Clean(name))
	e.n, e.input = o.n, o.input
}

// SetFaults sets the fault script.
func (f *FSys) SetFaults(fl []Fault) { f.faults = fl }

// Out returns what was written to stdout.
func (f *FSys) Out() string { return f.stdout.String() }

// Err returns what was written to stderr.
func (f *FSys) Err() string { return f.stderr.String() }

// Said returns what the builtin print functions were given.
func (f *FSys) Said() []string { return f.said }

//go:norace
func bsay(m string) {
	f := Current
	f.lock()
	defer f.unlock()

	if !rt.Ended() {
		f.said = append(f.said, m)
	}
}

// Bprint replaces the builtin print.
func Bprint(a ...any) { bsay(fmt.Sprint(a...)) }

// Bprintln replaces the builtin println.
func Bprintln(a ...any) { bsay(strings.TrimSuffix(fmt.Sprintln(a...), "\n")) }

// Outputs returns all files that are not inputs.
func (f *FSys) Outputs() map[string][]byte {
	f.mu.Lock()
	defer f.mu.Unlock()

	res := map[string][]byte{}

	for e := f.list; e != nil; e = e.next {
		if e.n != nil && !e.input {
			res[e.key] = e.n.data
		}
	}

	return res
}

// All returns all files.
func (f *FSys) All() map[string][]byte {
	f.mu.Lock()
	defer f.mu.Unlock()

	res := map[string][]byte{}

	for e := f.list; e != nil; e = e.next {
		if e.n != nil {
			res[e.key] = e.n.data
		}
	}

	return res
}

// Counts returns operation counts, by "op path".
func (f *FSys) Counts() map[string]int {
	res := map[string]int{}

	for e := f.list; e != nil; e = e.next {
		if e.count > 0 {
			res[e.key] = e.count
		}
	}

	return res
}

//go:norace
func (f *FSys) lock() {
	rt.HideBegin()
	f.mu.Lock()
}

//go:norace
func (f *FSys) unlock() {
	f.mu.Unlock()
	rt.HideEnd()
}

// hit counts an operation and tells whether it must fail.
//
//go:norace
func (f *FSys) hit(op, p string) (Fault, bool) {
	if len(f.faults) == 0 && !f.LogOps {
		return Fault{}, false
	}

	e := f.at(op + " " + p)
	n := e.count
	e.count++

	for _, fl := range f.faults {
		if fl.Op == op && fl.Path == p && (fl.Nth == n || fl.Sticky && n > fl.Nth) {
			f.Hits++
			return fl, true
		}
	}

	return Fault{}, false
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// File replaces os.File.
type File struct {
	name   string
	n      *node
	pos    int
	std    int
	closed bool
	wr     bool
	rd     bool
	reads  int
	app    bool
	in     bool
	next   *File
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// OpenFile opens.
//
//go:norace
func OpenFile(name string, flag int, _ fs.FileMode) (*File, error) {
	f := Current
	p := path.Clean(name)

	f.lock()
	defer f.unlock()

	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}

	if _, ok := f.hit(op, p); ok {
		return nil, perr("open", name, ErrInjected)
	}

	if strings.HasPrefix(p, "/dev/full") {
		return nil, perr("open", name, ErrInjected)
	}

	e := f.at(p)
	if e.n == nil {
		if flag&os.O_CREATE == 0 || name == "" || strings.HasPrefix(p, "/nodir") {
			return nil, perr("open", name, fs.ErrNotExist)
		}

		if rt.Ended() && !rt.On() {
			return nil, perr("open", name, fs.ErrClosed)
		}

		e.n, e.input = &node{}, false
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, fs.ErrExist)
	}

	if flag&os.O_TRUNC != 0 {
		e.n.data = nil
		e.input = false
	}

	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	fl := &File{name: name, n: e.n, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
	fl.next, f.opened = f.opened, fl

	if e.input && !fl.wr {
		fl.in = true
		f.inputs++
		f.InPeak = max(f.InPeak, f.inputs)
	}

	return fl, nil
}

// Unclosed lists the files that are open.
//
//go:norace
func (f *FSys) Unclosed() (names []string) {
	f.lock()
	defer f.unlock()

	for fl := f.opened; fl != nil; fl = fl.next {
		if !fl.closed {
			names = append(names, fl.name)
		}
	}

	return names
}

// Name returns the name.
func (fl *File) Name() string { return fl.name }

// Fd is fake.
func (fl *File) Fd() uintptr { return uintptr(fl.std) }

// Sync syncs.
func (fl *File) Sync() error { return nil }

// Chmod does nothing.
func (fl *File) Chmod(fs.FileMode) error { return nil }

// Read reads.
//
//go:norace
func (fl *File) Read(p []byte) (int, error) {
	f := Current
	f.lock()
	n, err := fl.read(f, p)
	f.unlock()

	if n > 0 {
		rt.TouchWrite(p[:n])
	}

	return n, err
}

//go:norace
func (fl *File) read(f *FSys, p []byte) (int, error) {
	if fl.closed {
		return 0, perr("read", fl.name, fs.ErrClosed)
	}

	if fl.std != 0 || !fl.rd {
		return 0, io.EOF
	}

	if len(p) == 0 {
		return 0, nil
	}

	lim := len(p)

	if f.Chunk != nil {
		if c := f.Chunk(path.Clean(fl.name), fl.reads); c > 0 && c < lim {
			lim = c
		}
	}

	fl.reads++

	// A pass starts with the first read, files may be opened for other reasons.
	if fl.reads == 1 && f.OnPass != nil {
		e := f.at("#pass " + path.Clean(fl.name))
		e.count++
		f.OnPass(path.Clean(fl.name), e.count-1)
	}

	if ft, ok := f.hit("read", path.Clean(fl.name)); ok {
		n := 0

		if ft.Partial > 0 {
			l := ft.Partial
			if l > lim {
				l = lim
			}

			n = copy(p[:l], fl.n.data[min(fl.pos, len(fl.n.data)):])
			fl.pos += n
		}

		if ft.EOF {
			fl.pos = len(fl.n.data)

			return n, io.EOF
		}

		return n, perr("read", fl.name, ErrInjected)
	}

	if fl.pos >= len(fl.n.data) {
		return 0, io.EOF
	}

	n := copy(p[:lim], fl.n.data[fl.pos:])
	fl.pos += n

	return n, nil
}

// ReadAt reads at an offset.
func (fl *File) ReadAt(p []byte, off int64) (int, error) {
	if int(off) >= len(fl.n.data) {
		return 0, io.EOF
	}

	n := copy(p, fl.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// Write writes.
//
//go:norace
func (fl *File) Write(p []byte) (int, error) {
	rt.TouchRead(p)

	f := Current
	f.lock()
	defer f.unlock()

	if rt.Ended() {
		return len(p), nil
	}

	if fl.std != 0 {
		if _, ok := f.hit("write", fl.name); ok {
			return 0, perr("write", fl.name, ErrInjected)
		}

		switch fl.std {
		case 1:
			f.stdout.write(p)
		case 2:
			f.stderr.write(p)
		}

		return len(p), nil
	}

	if fl.closed {
		return 0, perr("write", fl.name, fs.ErrClosed)
	}

	if !fl.wr {
		return 0, perr("write", fl.name, fs.ErrPermission)
	}

	n := len(p)

	var err error

	if ft, ok := f.hit("write", path.Clean(fl.name)); ok {
		if ft.Partial < n {
			n = ft.Partial
		}

		err = perr("write", fl.name, ErrInjected)
	}

	if fl.app {
		fl.pos = len(fl.n.data)
	}

	if fl.pos == len(fl.n.data) {
		fl.n.data = append(fl.n.data, p[:n]...)
	} else {
		for len(fl.n.data) < fl.pos+n {
			fl.n.data = append(fl.n.data, 0)
		}

		copy(fl.n.data[fl.pos:], p[:n])
	}

	fl.pos += n

	return n, err
}

// WriteString writes.
func (fl *File) WriteString(s string) (int, error) { return fl.Write([]byte(s)) }

// Seek seeks.
func (fl *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		fl.pos = int(off)
	case io.SeekCurrent:
		fl.pos += int(off)
	case io.SeekEnd:
		fl.pos = len(fl.n.data) + int(off)
	}

	return int64(fl.pos), nil
}

// Truncate truncates.
func (fl *File) Truncate(n int64) error {
	for len(fl.n.data) < int(n) {
		fl.n.data = append(fl.n.data, 0)
	}

	fl.n.data = fl.n.data[:n]

	return nil
}

// Close closes.
//
//go:norace
func (fl *File) Close() error {
	if fl.std != 0 {
		return nil
	}

	f := Current
	f.lock()
	defer f.unlock()

	if fl.closed {
		return perr("close", fl.name, fs.ErrClosed)
	}

	fl.closed = true

	if fl.in {
		f.inputs--
	}

	if _, ok := f.hit("close", path.Clean(fl.name)); ok {
		return perr("close", fl.name, ErrInjected)
	}

	return nil
}

// Stat stats.
func (fl *File) Stat() (fs.FileInfo, error) { return Stat(fl.name) }

type info struct {
	name string
	size int64
	n    *node
}

// SameFile tells whether both describe the same file.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)

	return ok && ok2 && x.n == y.n
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

// Stat stats.
//
//go:norace
func Stat(name string) (fs.FileInfo, error) {
	f := Current
	f.lock()
	defer f.unlock()

	p := path.Clean(name)

	if _, ok := f.hit("stat", p); ok {
		return nil, perr("stat", name, ErrInjected)
	}

	n := f.at(p).n
	if n == nil || name == "" {
		return nil, perr("stat", name, fs.ErrNotExist)
	}

	return info{path.Base(p), int64(len(n.data)), n}, nil
}

// Lstat stats.
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

// ReadFile reads a file.
//
//go:norace
func ReadFile(name string) ([]byte, error) {
	f := Current
	f.lock()
	defer f.unlock()

	p := path.Clean(name)

	if _, ok := f.hit("readfile", p); ok {
		return nil, perr("read", name, ErrInjected)
	}

	n := f.at(p).n
	if n == nil || name == "" {
		return nil, perr("open", name, fs.ErrNotExist)
	}

	return append([]byte(nil), n.data...), nil
}

// WriteFile writes a file.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	fl, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}

	if _, err = fl.Write(data); err != nil {
		return err
	}

	return fl.Close()
}

// Remove removes.
//
//go:norace
func Remove(name string) error {
	f := Current
	f.lock()
	defer f.unlock()

	e := f.at(path.Clean(name))
	if e.n == nil {
		return perr("remove", name, fs.ErrNotExist)
	}

	e.n = nil

	return nil
}

// RemoveAll removes.
func RemoveAll(name string) error { _ = Remove(name); return nil }

// Rename renames.
//
//go:norace
func Rename(a, b string) error {
	f := Current
	f.lock()
	defer f.unlock()

	from, to := f.at(path.Clean(a)), f.at(path.Clean(b))
	if from.n == nil {
		return perr("rename", a, fs.ErrNotExist)
	}

	if _, bad := f.hit("rename", path.Clean(b)); bad {
		return perr("rename", a, ErrInjected)
	}

	n := from.n
	from.n = nil
	to.n, to.input = n, false

	return nil
}

// Mkdir makes nothing.
func Mkdir(string, fs.FileMode) error { return nil }

// MkdirAll makes nothing.
func MkdirAll(string, fs.FileMode) error { return nil }

// Chmod does nothing.
func Chmod(string, fs.FileMode) error { return nil }

// Truncate truncates.
func Truncate(name string, n int64) error {
	fl, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}

	return fl.Truncate(n)
}

// TempDir is fixed.
func TempDir() string { return "/tmp" }

var tempN int

// MkdirTemp makes a name.
func MkdirTemp(dir, pat string) (string, error) {
	tempN++
	return path.Join("/tmp", dir, strings.ReplaceAll(pat, "*", "")+strconv.Itoa(tempN)), nil
}

// CreateTemp makes a file.
func CreateTemp(dir, pat string) (*File, error) {
	tempN++
	if dir == "" {
		dir = "/tmp"
	}

	return Create(path.Join(dir, strings.ReplaceAll(pat, "*", "")+strconv.Itoa(tempN)))
}

// Exit exits.
func Exit(code int) { rt.Exit(code, "os.Exit") }

// List returns all paths.
func (f *FSys) List() []string {
	var l []string
	for e := f.list; e != nil; e = e.next {
		if e.n != nil {
			l = append(l, e.key)
		}
	}

	sort.Strings(l)

	return l
}
