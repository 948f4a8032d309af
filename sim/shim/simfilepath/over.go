// Package simfilepath replaces the parts of path/filepath that look at the disk.
package simfilepath

import (
	"io/fs"
	"os"
	real "path/filepath"
	"strings"

	"verifsim/shim/simos"
)

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Lstat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}

func Abs(p string) (string, error) { return real.Join("/", p), nil }

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := simos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	if dir = real.Clean(dir); dir == pattern {
		return nil, real.ErrBadPattern
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var r []string
	for _, d := range dirs {
		es, err := simos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, err := real.Match(file, e.Name()); err != nil {
				return r, err
			} else if ok {
				r = append(r, real.Join(d, e.Name()))
			}
		}
	}
	return r, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(real.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn func(path string, info os.FileInfo, err error) error) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, i, err)
	})
}
