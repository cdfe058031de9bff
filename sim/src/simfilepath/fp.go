// Package simfilepath replaces path/filepath in simulated code: functions that
// look at the file system use the simulated one.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"sigs.k8s.io/controller-tools/verifsim/simfs"
	"sigs.k8s.io/controller-tools/verifsim/simos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(simfs.M.Cwd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := simos.Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := simos.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var info fs.FileInfo
		if d != nil {
			info, _ = d.Info()
		}
		return fn(p, info, err)
	})
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	abs, _ := Abs(pattern)
	rel := !filepath.IsAbs(pattern)
	var out []string
	for p := range simfs.M.FS.Nodes {
		if ok, _ := filepath.Match(abs, p); ok {
			if rel {
				p, _ = filepath.Rel(simfs.M.Cwd, p)
			}
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out, nil
}
