// Package zzverifos stands in for package os in the storage libraries: it tells of every change of a file
// before it is made.
package zzverifos

import (
	"os"
	"sync"
)

// Types, constants and functions that change nothing.
type (
	FileMode     = os.FileMode
	FileInfo     = os.FileInfo
	SyscallError = os.SyscallError
	PathError    = os.PathError
	DirEntry     = os.DirEntry
	Signal       = os.Signal
)

// Flags.
const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC
	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
	ModePerm = os.ModePerm
)

// Values and functions.
var (
	ErrNotExist     = os.ErrNotExist
	ErrExist        = os.ErrExist
	ErrInvalid      = os.ErrInvalid
	ErrClosed       = os.ErrClosed
	ErrPermission   = os.ErrPermission
	Stderr          = os.Stderr
	Stdout          = os.Stdout
	IsNotExist      = os.IsNotExist
	IsExist         = os.IsExist
	Stat            = os.Stat
	Lstat           = os.Lstat
	ReadDir         = os.ReadDir
	ReadFile        = os.ReadFile
	Getpagesize     = os.Getpagesize
	NewSyscallError = os.NewSyscallError
	TempDir         = os.TempDir
	Getpid          = os.Getpid
	Exit            = os.Exit
)

var (
	mu   sync.Mutex
	hook func(op, name string)
)

// SetHook sets what is called before every change; nothing changes while it runs.
func SetHook(f func(op, name string)) {
	mu.Lock()
	hook = f
	mu.Unlock()
}

func begin(op, name string) func() {
	mu.Lock()
	if hook != nil {
		hook(op, name)
	}
	return mu.Unlock
}

// File tells of writes.
type File struct{ *os.File }

func wrap(f *os.File, err error) (*File, error) {
	if f == nil {
		return nil, err
	}
	return &File{f}, err
}

// Open opens for reading.
func Open(name string) (*File, error) { return wrap(os.Open(name)) }

// Create creates.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

// OpenFile opens.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&(O_CREATE|O_TRUNC) != 0 {
		if st, err := os.Stat(name); err != nil || flag&O_TRUNC != 0 && st.Size() > 0 {
			defer begin("create", name)()
		}
	}
	return wrap(os.OpenFile(name, flag, perm))
}

// Write writes.
func (f *File) Write(b []byte) (int, error) {
	defer begin("write", f.Name())()
	return f.File.Write(b)
}

// WriteString writes.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	defer begin("write", f.Name())()
	return f.File.WriteAt(b, off)
}

// Truncate truncates.
func (f *File) Truncate(n int64) error {
	defer begin("truncate", f.Name())()
	return f.File.Truncate(n)
}

// Truncate truncates.
func Truncate(name string, n int64) error {
	defer begin("truncate", name)()
	return os.Truncate(name, n)
}

// Rename renames.
func Rename(a, b string) error {
	defer begin("rename", a)()
	return os.Rename(a, b)
}

// Remove removes.
func Remove(name string) error {
	defer begin("remove", name)()
	return os.Remove(name)
}

// RemoveAll removes.
func RemoveAll(name string) error {
	defer begin("remove", name)()
	return os.RemoveAll(name)
}

// Mkdir makes a directory.
func Mkdir(name string, perm FileMode) error {
	defer begin("mkdir", name)()
	return os.Mkdir(name, perm)
}

// MkdirAll makes directories.
func MkdirAll(name string, perm FileMode) error {
	if _, err := os.Stat(name); err == nil {
		return nil
	}
	defer begin("mkdir", name)()
	return os.MkdirAll(name, perm)
}

// WriteFile writes a file.
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(b)
	return err
}
