// Package verifosx is package os for the proxy's own code: the same, except that
// files below /simdisk are on the simulated disk.
package verifosx

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/c2FmZQ/storage/verifos"
)

const (
	O_RDONLY          = os.O_RDONLY
	O_WRONLY          = os.O_WRONLY
	O_RDWR            = os.O_RDWR
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	SEEK_SET          = os.SEEK_SET
	SEEK_CUR          = os.SEEK_CUR
	SEEK_END          = os.SEEK_END
	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	ModeDir           = os.ModeDir
	ModeAppend        = os.ModeAppend
	ModeExclusive     = os.ModeExclusive
	ModeTemporary     = os.ModeTemporary
	ModeSymlink       = os.ModeSymlink
	ModeDevice        = os.ModeDevice
	ModeNamedPipe     = os.ModeNamedPipe
	ModeSocket        = os.ModeSocket
	ModeSetuid        = os.ModeSetuid
	ModeSetgid        = os.ModeSetgid
	ModeCharDevice    = os.ModeCharDevice
	ModeSticky        = os.ModeSticky
	ModeIrregular     = os.ModeIrregular
	ModeType          = os.ModeType
	ModePerm          = os.ModePerm
	DevNull           = os.DevNull
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	Stdin               = os.Stdin
	Stdout              = os.Stdout
	Stderr              = os.Stderr
	Interrupt           = os.Interrupt
	Kill                = os.Kill
	Args                = os.Args
	ErrProcessDone      = os.ErrProcessDone
	Chdir               = os.Chdir
	Chown               = os.Chown
	Chtimes             = os.Chtimes
	Clearenv            = os.Clearenv
	CopyFS              = os.CopyFS
	DirFS               = os.DirFS
	Environ             = os.Environ
	Executable          = os.Executable
	Exit                = os.Exit
	Expand              = os.Expand
	ExpandEnv           = os.ExpandEnv
	Getegid             = os.Getegid
	Getenv              = os.Getenv
	Geteuid             = os.Geteuid
	Getgid              = os.Getgid
	Getgroups           = os.Getgroups
	Getpagesize         = os.Getpagesize
	Getpid              = os.Getpid
	Getppid             = os.Getppid
	Getuid              = os.Getuid
	Getwd               = os.Getwd
	Hostname            = os.Hostname
	IsExist             = os.IsExist
	IsNotExist          = os.IsNotExist
	IsPathSeparator     = os.IsPathSeparator
	IsPermission        = os.IsPermission
	IsTimeout           = os.IsTimeout
	Lchown              = os.Lchown
	LookupEnv           = os.LookupEnv
	MkdirTemp           = os.MkdirTemp
	NewSyscallError     = os.NewSyscallError
	Readlink            = os.Readlink
	SameFile            = os.SameFile
	Setenv              = os.Setenv
	Symlink             = os.Symlink
	TempDir             = os.TempDir
	Unsetenv            = os.Unsetenv
	UserCacheDir        = os.UserCacheDir
	UserConfigDir       = os.UserConfigDir
	UserHomeDir         = os.UserHomeDir
	FindProcess         = os.FindProcess
	StartProcess        = os.StartProcess
	OpenRoot            = os.OpenRoot
)

type (
	DirEntry     = os.DirEntry
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	LinkError    = os.LinkError
	PathError    = os.PathError
	ProcAttr     = os.ProcAttr
	Process      = os.Process
	ProcessState = os.ProcessState
	Root         = os.Root
	Signal       = os.Signal
	SyscallError = os.SyscallError
)

// File is an open file, real or simulated.
type File struct {
	real *os.File
	sim  *verifos.File
}

func sim(name string) bool {
	return strings.HasPrefix(filepath.Clean(name), "/simdisk/")
}

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{real: f}, nil
}

func wrapSim(f *verifos.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{sim: f}, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if sim(name) {
		return wrapSim(verifos.OpenFile(name, flag, perm))
	}
	return wrap(os.OpenFile(name, flag, perm))
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

var tempSeq int

func CreateTemp(dir, pattern string) (*File, error) {
	if sim(dir) {
		tempSeq++
		a, b, _ := strings.Cut(pattern, "*")
		return OpenFile(filepath.Join(dir, a+strconv.Itoa(tempSeq)+b), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
	}
	return wrap(os.CreateTemp(dir, pattern))
}

func NewFile(fd uintptr, name string) *File { return &File{real: os.NewFile(fd, name)} }

func Pipe() (r, w *File, err error) {
	a, b, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{real: a}, &File{real: b}, nil
}

func ReadFile(name string) ([]byte, error) {
	if sim(name) {
		return verifos.ReadFile(name)
	}
	return os.ReadFile(name)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	if sim(name) {
		return verifos.Stat(name)
	}
	return os.Stat(name)
}

func Lstat(name string) (fs.FileInfo, error) {
	if sim(name) {
		return verifos.Stat(name)
	}
	return os.Lstat(name)
}

func Mkdir(name string, perm fs.FileMode) error {
	if sim(name) {
		return verifos.MkdirAll(name, perm)
	}
	return os.Mkdir(name, perm)
}

func MkdirAll(name string, perm fs.FileMode) error {
	if sim(name) {
		return verifos.MkdirAll(name, perm)
	}
	return os.MkdirAll(name, perm)
}

func Remove(name string) error {
	if sim(name) {
		return verifos.Remove(name)
	}
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if sim(name) {
		for _, f := range verifos.List() {
			if f == name || strings.HasPrefix(f, name+"/") {
				verifos.Remove(f)
			}
		}
		return nil
	}
	return os.RemoveAll(name)
}

func Rename(from, to string) error {
	if sim(from) || sim(to) {
		return verifos.Rename(from, to)
	}
	return os.Rename(from, to)
}

func Link(from, to string) error {
	if sim(from) || sim(to) {
		return verifos.Link(from, to)
	}
	return os.Link(from, to)
}

func Chmod(name string, mode fs.FileMode) error {
	if sim(name) {
		_, err := verifos.Stat(name)
		return err
	}
	return os.Chmod(name, mode)
}

func Truncate(name string, size int64) error {
	if sim(name) {
		return &os.PathError{Op: "truncate", Path: name, Err: os.ErrInvalid}
	}
	return os.Truncate(name, size)
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	if sim(name) {
		var out []fs.DirEntry
		for _, f := range verifos.List() {
			if filepath.Dir(f) == filepath.Clean(name) {
				if fi, err := verifos.Stat(f); err == nil {
					out = append(out, fs.FileInfoToDirEntry(fi))
				}
			}
		}
		return out, nil
	}
	return os.ReadDir(name)
}

func (f *File) any() interface {
	io.ReadWriteSeeker
	io.Closer
	io.StringWriter
	Name() string
	Sync() error
	Stat() (fs.FileInfo, error)
} {
	if f.sim != nil {
		return f.sim
	}
	return f.real
}

func (f *File) Read(b []byte) (int, error)                { return f.any().Read(b) }
func (f *File) Write(b []byte) (int, error)               { return f.any().Write(b) }
func (f *File) WriteString(s string) (int, error)         { return f.any().WriteString(s) }
func (f *File) Seek(off int64, whence int) (int64, error) { return f.any().Seek(off, whence) }
func (f *File) Close() error                              { return f.any().Close() }
func (f *File) Name() string                              { return f.any().Name() }
func (f *File) Sync() error                               { return f.any().Sync() }
func (f *File) Stat() (fs.FileInfo, error)                { return f.any().Stat() }

func (f *File) Chmod(mode fs.FileMode) error {
	if f.sim != nil {
		return nil
	}
	return f.real.Chmod(mode)
}

func (f *File) Fd() uintptr {
	if f.sim != nil {
		return ^uintptr(0)
	}
	return f.real.Fd()
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if f.sim != nil {
		return nil, os.ErrInvalid
	}
	return f.real.Readdir(n)
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.sim != nil {
		return nil, os.ErrInvalid
	}
	return f.real.ReadDir(n)
}

func (f *File) Truncate(size int64) error {
	if f.sim != nil {
		return os.ErrInvalid
	}
	return f.real.Truncate(size)
}
