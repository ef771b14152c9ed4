// Package verifos is a simulated file system with the part of package os that
// the storage module uses. The build overlay makes the storage module import
// it in place of os.
package verifos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
	O_APPEND = os.O_APPEND
)

var (
	ErrNotExist = os.ErrNotExist
	ErrExist    = os.ErrExist
	Stdin       = os.Stdin
	Stdout      = os.Stdout
	Stderr      = os.Stderr
	TempDir     = os.TempDir
	Getenv      = os.Getenv
	Chmod       = os.Chmod
	Create      = os.Create
	RemoveAll   = os.RemoveAll
)

// Action tells the file system what to do with an operation.
type Action struct {
	Err   error         // fail with this error
	Keep  int           // bytes of a write that reach the disk before the failure; -1 is all
	After bool          // the operation takes effect, then fails or crashes
	Crash bool          // the process dies here
	Delay time.Duration // the operation takes that long
}

// Op describes an operation.
type Op struct {
	Name string
	Path string
	Node uint32
	N    int // sequence number among mutating operations of this node
	All  int // sequence number among all operations of this node
	Size int
}

type inode struct {
	data  []byte
	mtime time.Time
	gen   int
}

// Hook is called before each operation.
var Hook func(op Op) Action

// CrashFn is called when an operation crashes its process. It does not return
// until the process is gone.
var CrashFn func(node uint32)

// Dead reports whether a node is dead.
var Dead func(node uint32) bool

// Mount maps the path prefixes to disks.
var (
	files  = map[string]*inode{}
	opSeq  = map[uint32]int{}
	mutSeq = map[uint32]int{}
	genSeq int
	// Written, if set, is called with everything that reaches the disk.
	Written func(path string, data []byte)
)

// Reset empties the disk.
func Reset() {
	files = map[string]*inode{}
	opSeq = map[uint32]int{}
	mutSeq = map[uint32]int{}
}

// Snapshot returns a copy of the files.
func Snapshot() map[string][]byte {
	m := map[string][]byte{}
	for k, v := range files {
		m[k] = append([]byte(nil), v.data...)
	}
	return m
}

// List returns the names of the files.
func List() []string {
	var l []string
	for k := range files {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// RawRemove removes a file behind everybody's back.
func RawRemove(name string) { delete(files, name) }

// RawWrite replaces a file behind everybody's back.
func RawWrite(name string, data []byte) {
	files[name] = &inode{data: append([]byte(nil), data...), mtime: time.Now()}
}

// RawRead returns the content of a file.
func RawRead(name string) ([]byte, bool) {
	i, ok := files[name]
	if !ok {
		return nil, false
	}
	return i.data, true
}

func gate() uint32 {
	node := runtime.VerifNode()
	if Dead != nil && Dead(node) {
		select {}
	}
	return node
}

func begin(name, path string, mut bool, size int) (Action, uint32) {
	node := gate()
	runtime.VerifYield()
	opSeq[node]++
	if mut {
		mutSeq[node]++
	}
	if Hook == nil {
		return Action{Keep: -1}, node
	}
	n := 0
	if mut {
		n = mutSeq[node]
	}
	a := Hook(Op{name, path, node, n, opSeq[node], size})
	if a.Delay > 0 {
		time.Sleep(a.Delay)
		gate()
	}
	if a.Crash && !a.After && name != "write" {
		CrashFn(node)
		select {}
	}
	return a, node
}

func end(a Action, node uint32) {
	if a.Crash {
		CrashFn(node)
		select {}
	}
	gate()
}

func pathErr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

// File is an open file.
type File struct {
	name   string
	ino    *inode
	off    int64
	flag   int
	closed bool
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	name = filepath.Clean(name)
	mut := flag&(O_CREATE|O_TRUNC) != 0
	opn := "open"
	if mut {
		opn = "create"
	}
	a, node := begin(opn, name, mut, 0)
	if a.Err != nil && !a.After {
		return nil, pathErr("open", name, a.Err)
	}
	ino := files[name]
	if ino == nil {
		if flag&O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		genSeq++
		ino = &inode{mtime: time.Now(), gen: genSeq}
		files[name] = ino
	} else if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
		return nil, pathErr("open", name, syscall.EEXIST)
	}
	if flag&O_TRUNC != 0 {
		ino.data = nil
		ino.mtime = time.Now()
	}
	if mut {
		end(a, node)
	}
	if a.Err != nil {
		return nil, pathErr("open", name, a.Err)
	}
	return &File{name: name, ino: ino, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

func (f *File) Name() string { return f.name }

func (f *File) Read(b []byte) (int, error) {
	a, _ := begin("read", f.name, false, len(b))
	if f.closed {
		return 0, pathErr("read", f.name, fs.ErrClosed)
	}
	if a.Err != nil {
		return 0, pathErr("read", f.name, a.Err)
	}
	if f.off >= int64(len(f.ino.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, errEOF
	}
	n := copy(b, f.ino.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	gate()
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.ino.data)) + off
	}
	if f.off < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	return f.off, nil
}

func (f *File) Write(b []byte) (int, error) {
	a, node := begin("write", f.name, true, len(b))
	if f.closed {
		return 0, pathErr("write", f.name, fs.ErrClosed)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, pathErr("write", f.name, syscall.EBADF)
	}
	n := len(b)
	if (a.Err != nil || a.Crash) && a.Keep >= 0 && a.Keep < n {
		n = a.Keep
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.ino.data))
	}
	for int64(len(f.ino.data)) < f.off+int64(n) {
		f.ino.data = append(f.ino.data, make([]byte, f.off+int64(n)-int64(len(f.ino.data)))...)
	}
	copy(f.ino.data[f.off:], b[:n])
	f.off += int64(n)
	f.ino.mtime = time.Now()
	if Written != nil {
		Written(f.name, b[:n])
	}
	end(a, node)
	if a.Err != nil {
		return n, pathErr("write", f.name, a.Err)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Sync() error { gate(); return nil }

func (f *File) Close() error {
	a, _ := begin("close", f.name, false, 0)
	if f.closed {
		return pathErr("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	if a.Err != nil {
		return pathErr("close", f.name, a.Err)
	}
	return nil
}

type info struct {
	name string
	ino  *inode
	dir  bool
}

func (i info) Name() string { return filepath.Base(i.name) }
func (i info) Size() int64 {
	if i.ino == nil {
		return 0
	}
	return int64(len(i.ino.data))
}
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o700
	}
	return 0o600
}
func (i info) ModTime() time.Time {
	if i.ino == nil {
		return time.Time{}
	}
	return i.ino.mtime
}
func (i info) IsDir() bool { return i.dir }
func (i info) Sys() any    { return nil }

func (f *File) Stat() (fs.FileInfo, error) { return info{f.name, f.ino, false}, nil }

func Stat(name string) (fs.FileInfo, error) {
	name = filepath.Clean(name)
	a, _ := begin("stat", name, false, 0)
	if a.Err != nil {
		return nil, pathErr("stat", name, a.Err)
	}
	if ino := files[name]; ino != nil {
		return info{name, ino, false}, nil
	}
	for k := range files {
		if strings.HasPrefix(k, name+"/") {
			return info{name, nil, true}, nil
		}
	}
	return nil, pathErr("stat", name, syscall.ENOENT)
}

func MkdirAll(path string, perm fs.FileMode) error {
	a, _ := begin("mkdir", path, false, 0)
	if a.Err != nil {
		return pathErr("mkdir", path, a.Err)
	}
	return nil
}

func Remove(name string) error {
	name = filepath.Clean(name)
	a, node := begin("remove", name, true, 0)
	if a.Err != nil && !a.After {
		return pathErr("remove", name, a.Err)
	}
	if files[name] == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	delete(files, name)
	end(a, node)
	if a.Err != nil {
		return pathErr("remove", name, a.Err)
	}
	return nil
}

func Rename(from, to string) error {
	from, to = filepath.Clean(from), filepath.Clean(to)
	a, node := begin("rename", to, true, 0)
	if a.Err != nil && !a.After {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: a.Err}
	}
	ino := files[from]
	if ino == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	delete(files, from)
	files[to] = ino
	end(a, node)
	if a.Err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: a.Err}
	}
	return nil
}

func Link(from, to string) error {
	from, to = filepath.Clean(from), filepath.Clean(to)
	a, node := begin("link", to, true, 0)
	if a.Err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: a.Err}
	}
	ino := files[from]
	if ino == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if files[to] != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	files[to] = ino
	end(a, node)
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	a, _ := begin("read", f.name, false, 0)
	if a.Err != nil {
		return nil, pathErr("read", f.name, a.Err)
	}
	return append([]byte(nil), f.ino.data...), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	if _, err := f.Write(data); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

// Glob is filepath.Glob on the simulated disk.
func Glob(pattern string) ([]string, error) {
	gate()
	var m []string
	for _, k := range List() {
		if ok, err := filepath.Match(pattern, k); err != nil {
			return nil, err
		} else if ok {
			m = append(m, k)
		}
	}
	return m, nil
}

var errEOF = errorEOF()

func errorEOF() error { return io.EOF }

// IsNotExist mirrors os.IsNotExist.
func IsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }
