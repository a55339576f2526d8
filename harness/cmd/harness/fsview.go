package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing/fstest"

	"github.com/bodgit/sevenzip"
	"verif/h"
	"verif/sz"
)

func init() { commands["fsview"] = fsViewCmd }

type fsEntry struct {
	N   []int
	Dir bool
	Bs  bool
}

type fsChild struct {
	P     []int
	First int
	Dir   bool
	Dup   bool
}

type fsCase struct {
	Entries []fsEntry
	All     []fsChild
	Dirs    []struct {
		P []int
		C []fsChild
	}
}

// Ordinary elements, in the order of their bytes.  Each row has them arranged
// in another way around the separator, which is '/'.
var fsElems = [][]string{
	{"a", "b", "c"},
	{"a", "a!", "a0"},
	{"A-", "A-B", "a"},
	{"...", "x y", "ü"},
	{"0", "00", "日本"},
	{"a.b", "a.b.c", "aé"},
	{"..a", "a..", "a...b"},
}

func fsName(n []int, el []string, sep string) string {
	var t []string

	for _, x := range n {
		switch x {
		case 0:
			t = append(t, "")
		case -1:
			t = append(t, ".")
		case -2:
			t = append(t, "..")
		default:
			t = append(t, el[x-1])
		}
	}

	return strings.Join(t, sep)
}

func fsPath(p []int, el []string) string {
	if len(p) == 0 {
		return "."
	}

	return fsName(p, el, "/")
}

func fsViewCmd(c *Ctx) {
	h.Cases(c.Args, func(n int, line []byte) error {
		var cs fsCase
		if err := json.Unmarshal(line, &cs); err != nil {
			h.Die("%v", err)
		}

		return fsCheck(&cs, n+int(c.Seed))
	})
}

func isPathError(err, cause error, op, name string) bool {
	var pe *fs.PathError

	return errors.As(err, &pe) && errors.Is(err, cause) && pe.Op == op && pe.Path == name
}

//nolint:cyclop,funlen,gocognit,gocyclo
func fsCheck(cs *fsCase, n int) error {
	el := fsElems[n%len(fsElems)]

	var (
		w        sz.Archive
		contents [][]byte
		streamed [][]byte
		sub      []sz.Sub
	)

	for i, e := range cs.Entries {
		sep := "/"
		if e.Bs {
			sep = `\`
		}

		f := sz.File{Name: fsName(e.N, el, sep)}

		content := []byte(fmt.Sprintf("content %d of %d", i, n))

		switch {
		case e.Dir:
			f.Empty = true
			content = nil
		case (n+i)%5 == 0:
			f.Empty, f.EmptyFile = true, true
			content = nil
		default:
			streamed = append(streamed, content)
			sub = append(sub, sz.Sub{Size: uint64(len(content)), CRC: sz.CRC(content)})
		}

		t := uint64(130000000000000000) + uint64(i)*864000000000 + uint64(n)
		f.MTime = &t

		w.Files = append(w.Files, f)
		contents = append(contents, content)
	}

	if len(streamed) > 0 {
		all := bytes.Join(streamed, nil)
		f := sz.Single(sz.Copy, nil, all, len(all))
		f.Subs = sub
		w.Folders = []sz.Folder{f}
	}

	b := w.Bytes()

	r, err := sevenzip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return fmt.Errorf("opening the archive: %w", err)
	}

	known := map[string]bool{".": true}

	// Below a file that doubles as a directory there is more than is listed.
	for _, x := range cs.All {
		known[fsPath(x.P, el)] = true
	}

	anyDup := false
	reach := map[string]bool{".": true} // what a walk can come by

	listable := map[string]bool{}

	for _, d := range cs.Dirs {
		ok := true
		for _, x := range d.C {
			ok = ok && !x.Dup
		}

		listable[fsPath(d.P, el)] = ok
	}

	for _, d := range cs.Dirs {
		dir := fsPath(d.P, el)

		// the directory itself
		f, err := r.Open(dir)
		if err != nil {
			return fmt.Errorf("opening directory %q: %w", dir, err)
		}

		rd, ok := f.(fs.ReadDirFile)
		if !ok {
			return fmt.Errorf("%q is not a directory", dir)
		}

		list, err := rd.ReadDir(-1)

		if !listable[dir] {
			anyDup = true

			if err == nil {
				return fmt.Errorf("directory %q lists an ambiguous element without an error", dir)
			}
		} else {
			if err != nil {
				return fmt.Errorf("listing %q: %w", dir, err)
			}

			if len(list) != len(d.C) {
				return fmt.Errorf("directory %q lists %v instead of %v", dir, entryNames(list), childNames(d.C, el))
			}
		}

		_ = f.Close()

		for i, x := range d.C {
			name := fsPath(x.P, el)
			known[name] = true
			elem := el[x.P[len(x.P)-1]-1]

			of, err := r.Open(name)
			if err != nil {
				return fmt.Errorf("opening %q: %w", name, err)
			}

			ofi, operr := of.Stat()
			_, isDir := of.(fs.ReadDirFile)

			if isDir != x.Dir {
				return fmt.Errorf("%q opens as directory: %v", name, isDir)
			}

			if !x.Dir {
				want := contents[x.First-1]

				got, err := io.ReadAll(of)
				if err != nil || !bytes.Equal(got, want) {
					return fmt.Errorf("content of %q is %q (%v) instead of %q", name, got, err, want) //nolint:errorlint
				}
			}

			_ = of.Close()

			sfi, serr := fs.Stat(r, name)

			if x.Dup {
				if x.Dir && operr == nil || serr == nil && x.Dir {
					return fmt.Errorf("ambiguous directory %q can be described", name)
				}

				continue
			}

			if operr != nil || serr != nil {
				return fmt.Errorf("Stat of %q: %v, %v", name, operr, serr) //nolint:errorlint
			}

			infos := []fs.FileInfo{ofi, sfi}

			if listable[dir] {
				e := list[i]
				if e.Name() != elem || e.IsDir() != x.Dir {
					return fmt.Errorf("directory %q lists %q (directory: %v) instead of %q (%v)", dir, e.Name(), e.IsDir(), elem, x.Dir)
				}

				fi, err := e.Info()
				if err != nil {
					return fmt.Errorf("Info of %q: %w", name, err)
				}

				if e.Type() != fi.Mode().Type() {
					return fmt.Errorf("type of %q is %v in its directory, mode is %v", name, e.Type(), fi.Mode())
				}

				infos = append(infos, fi)
			}

			for _, fi := range infos {
				size := int64(0)
				if !x.Dir {
					size = int64(len(contents[x.First-1]))
				}

				if fi.Name() != elem || fi.IsDir() != x.Dir || fi.Mode().IsDir() != x.Dir || (!x.Dir && fi.Size() != size) ||
					fi.Size() != infos[0].Size() || fi.Mode() != infos[0].Mode() || !fi.ModTime().Equal(infos[0].ModTime()) {
					return fmt.Errorf("information of %q: %q, %v, %d, %v, and %q, %v, %d, %v", name, fi.Name(), fi.Mode(), fi.Size(),
						fi.ModTime(), infos[0].Name(), infos[0].Mode(), infos[0].Size(), infos[0].ModTime())
				}
			}
		}
	}

	for _, x := range cs.All {
		name := fsPath(x.P, el)

		f, err := r.Open(name)
		if err != nil {
			return fmt.Errorf("opening %q: %w", name, err)
		}

		if _, ok := f.(fs.ReadDirFile); ok != x.Dir {
			return fmt.Errorf("%q opens as directory: %v", name, ok)
		}

		_ = f.Close()
	}

	// every other path
	var others func(p []int) error

	others = func(p []int) error {
		if len(p) > 0 {
			name := fsPath(p, el)
			if !known[name] {
				if _, err := r.Open(name); !isPathError(err, fs.ErrNotExist, "open", name) {
					return fmt.Errorf("opening %q, which is not there: %v", name, err) //nolint:errorlint
				}
			}

			for _, bad := range []string{"/" + name, name + "/", "./" + name, name + "/.", "../" + name, name + "//" + name, name + "/.."} {
				if _, err := r.Open(bad); !isPathError(err, fs.ErrInvalid, "open", bad) {
					return fmt.Errorf("opening %q, which is no valid path: %v", bad, err) //nolint:errorlint
				}
			}
		}

		if len(p) == 3 {
			return nil
		}

		for x := range el {
			if err := others(append(append([]int(nil), p...), x+1)); err != nil {
				return err
			}
		}

		return nil
	}

	if n%4 == 0 {
		if err := others(nil); err != nil {
			return err
		}
	}

	for _, bad := range []string{"", "/", "..", "./"} {
		if _, err := r.Open(bad); !isPathError(err, fs.ErrInvalid, "open", bad) {
			return fmt.Errorf("opening %q, which is no valid path: %v", bad, err) //nolint:errorlint
		}
	}

	// what a walk comes by
	var mark func(dir string)

	mark = func(dir string) {
		if !listable[dir] {
			return
		}

		for _, d := range cs.Dirs {
			if fsPath(d.P, el) == dir {
				for _, x := range d.C {
					name := fsPath(x.P, el)
					reach[name] = true

					if x.Dir {
						mark(name)
					}
				}
			}
		}
	}
	mark(".")

	steps := 0
	seen := map[string]int{}

	_ = fs.WalkDir(r, ".", func(p string, _ fs.DirEntry, err error) error {
		steps++
		if steps > 10000 {
			return errors.New("endless")
		}

		if err == nil {
			seen[p]++
		}

		return nil
	})

	if steps > 10000 {
		return errors.New("a walk does not end")
	}

	for p := range reach {
		if seen[p] != 1 {
			return fmt.Errorf("a walk comes by %q %d times", p, seen[p])
		}
	}

	for p := range seen {
		if !reach[p] {
			return fmt.Errorf("a walk comes by %q", p)
		}
	}

	if !anyDup && n%8 == 0 {
		var want []string

		for p := range reach {
			if p != "." {
				want = append(want, p)
			}
		}

		if err := fstest.TestFS(r, want...); err != nil {
			return fmt.Errorf("fstest: %w", err)
		}
	}

	return nil
}

func entryNames(l []fs.DirEntry) (out []string) {
	for _, e := range l {
		out = append(out, e.Name())
	}

	return out
}

func childNames(l []fsChild, el []string) (out []string) {
	for _, e := range l {
		out = append(out, el[e.P[len(e.P)-1]-1])
	}

	return out
}
