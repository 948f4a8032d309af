// Package simos replaces package os in the instrumented repository. Everything not
// listed here is re-exported unchanged (gen.go, generated at build time).
package simos

import (
	"io/fs"
	"syscall"
	"time"

	"verifsim/rt"
)

type File = rt.File

var fallback = rt.NewFS(nil)

func cur() *rt.FS {
	if rt.S != nil {
		return rt.S.FS
	}
	return fallback
}

var (
	Stdin  = rt.NullFile("/dev/stdin")
	Stdout = rt.NullFile("/dev/stdout")
	Stderr = rt.NullFile("/dev/stderr")
)

func Getpid() int {
	if rt.S != nil {
		return 4000 + rt.S.Pid
	}
	return 4000
}
func Getppid() int              { return 1 }
func Hostname() (string, error) { return "simulated", nil }

func Open(name string) (*File, error) { return cur().Open(name, syscall.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return cur().Open(name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	return cur().Open(name, flag, perm)
}
func CreateTemp(dir, pattern string) (*File, error) {
	for i := 0; ; i++ {
		name, err := cur().TempName(dir, pattern)
		if err != nil {
			return nil, err
		}
		f, err := cur().Open(name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL, 0600)
		if err != nil && IsExist(err) && i < 10000 {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	name, err := cur().TempName(dir, pattern)
	if err != nil {
		return "", err
	}
	return name, cur().Mkdir(name, false, 0700)
}
func Stat(name string) (fs.FileInfo, error) {
	n, err := cur().Stat("stat", name)
	if err != nil {
		return nil, err
	}
	return rt.Info(name, n), nil
}
func Lstat(name string) (fs.FileInfo, error) {
	n, err := cur().Stat("lstat", name)
	if err != nil {
		return nil, err
	}
	return rt.Info(name, n), nil
}
func Mkdir(name string, perm fs.FileMode) error    { return cur().Mkdir(name, false, perm) }
func MkdirAll(name string, perm fs.FileMode) error { return cur().Mkdir(name, true, perm) }
func Remove(name string) error                     { return cur().Remove(name) }
func RemoveAll(name string) error                  { return cur().RemoveAll(name) }
func Rename(a, b string) error                     { return cur().Rename(a, b) }
func TempDir() string                              { return "/tmp" }
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 4096)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if n == 0 && err.Error() == "EOF" {
				return out, nil
			}
			return out, err
		}
	}
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, syscall.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func Chmod(name string, mode fs.FileMode) error {
	_, err := cur().Stat("chmod", name)
	if err == nil {
		cur().Chmod(name, mode)
	}
	return err
}
func Chown(name string, uid, gid int) error {
	_, err := cur().Stat("chown", name)
	return err
}
func Chtimes(name string, atime, mtime time.Time) error {
	_, err := cur().Stat("chtimes", name)
	return err
}
func Symlink(a, b string) error { return &fs.PathError{Op: "symlink", Path: b, Err: syscall.ENOSYS} }
func Link(a, b string) error    { return &fs.PathError{Op: "link", Path: b, Err: syscall.ENOSYS} }
func Readlink(name string) (string, error) {
	return "", &fs.PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Getwd() (string, error)          { return "/", nil }
func Chdir(string) error              { return syscall.ENOSYS }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Environ() []string               { return nil }
func UserCacheDir() (string, error)   { return "/home/.cache", nil }
func UserHomeDir() (string, error)    { return "/home", nil }
func SameFile(a, b fs.FileInfo) bool  { return a == b }

// Exit ends the simulated process.
func Exit(code int) { panic("os.Exit called") }
