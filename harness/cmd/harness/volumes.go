package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
)

func init() { commands["volumes"] = volumesCmd }

type volumesCase struct {
	C struct {
		Sizes  []int
		States []string
		Named  string
		Sound  bool
	}
	Opens, Left bool
	Seen        []int
	Names       []string
}

func volumesCmd(c *Ctx) {
	rounds := 1
	if !h.Env.Quick() {
		rounds = 25
	}

	for i := 0; i < rounds; i++ {
		h.Cases(c.Args, func(n int, line []byte) error {
			var cs volumesCase
			if err := json.Unmarshal(line, &cs); err != nil {
				h.Die("%v", err)
			}

			rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(n*rounds+i))) //nolint:gosec

			if cs.Names != nil {
				return volumesMany(cs.Names, rng)
			}

			return volumesCheck(&cs, rng)
		})
	}
}

// volumesDir is a directory with the volumes of one case.
func volumesDir() (string, func()) {
	dir := h.Scratch()

	return dir, func() {
		if err := os.RemoveAll(dir); err != nil {
			h.Die("%v", err)
		}
	}
}

// held returns the files of dir that this process has open.
func held(dir string) []string {
	links, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		h.Die("%v", err)
	}

	var out []string

	for _, l := range links {
		if t, err := os.Readlink("/proc/self/fd/" + l.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			out = append(out, t)
		}
	}

	return out
}

func write(name string, b []byte) {
	if err := os.WriteFile(name, b, 0o600); err != nil {
		h.Die("%v", err)
	}
}

// volumesArchive returns an archive for splitting.
func volumesArchive(rng *rand.Rand) *integrityArchive {
	kind := &integrityCase{}
	kind.A.Enc = []string{"plain", "plain", "copy", "packed"}[rng.Intn(4)]
	kind.A.Digest = true
	kind.A.Gap = rng.Intn(2) == 0

	return integrityBuild(kind, rng)
}

// volumesOpen opens name and compares what it opens with the volumes expected.
func volumesOpen(name, dir string, want []string, ia *integrityArchive) error {
	var (
		r   *sevenzip.ReadCloser
		err error
	)

	if !strings.Contains(ia.what, "aes") && len(want)%2 == 0 {
		r, err = sevenzip.OpenReader(name)
	} else {
		r, err = sevenzip.OpenReaderWithPassword(name, enc.Password)
	}

	if err != nil {
		return errors.Join(fmt.Errorf("opening failed: %w", err), volumesHeld(dir))
	}

	if v := r.Volumes(); !slices.Equal(v, want) {
		return fmt.Errorf("the volumes are %q, not %q", short(v), short(want))
	}

	if n := len(held(dir)); n != len(want) {
		return fmt.Errorf("%d files are open, not %d", n, len(want))
	}

	if l := listing(&r.Reader); l != ia.list {
		return fmt.Errorf("the listing is\n%sinstead of\n%s", l, ia.list)
	}

	if err := ia.read(&r.Reader); err != nil {
		return err
	}

	if err := r.Close(); err != nil {
		return fmt.Errorf("closing failed: %w", err)
	}

	return volumesHeld(dir)
}

func volumesHeld(dir string) error {
	if l := held(dir); len(l) > 0 {
		return fmt.Errorf("left open: %q", short(l))
	}

	return nil
}

func short(v []string) []string {
	if len(v) > 6 {
		return append(slices.Clone(v[:5]), fmt.Sprintf("... %d in all", len(v)))
	}

	return v
}

//nolint:cyclop,funlen,gocognit,gocyclo,maintidx
func volumesCheck(cs *volumesCase, rng *rand.Rand) error {
	ia := volumesArchive(rng)
	data := slices.Clone(ia.data)

	if !cs.C.Sound {
		switch rng.Intn(3) {
		case 0:
			data[rng.Intn(6)] ^= 1
		case 1:
			data[8+rng.Intn(24)] ^= 0x10
		case 2:
			data[len(data)-1-rng.Intn(3)] ^= 0x80
		}
	}

	// The model's units are pieces between these offsets.
	size, units := 0, 0
	for _, n := range cs.C.Sizes {
		units += n
	}

	size = 4
	if units == 5 {
		size = 3
	}

	interesting := []int{1, 5, 6, 7, 8, 12, 20, 28, 31, 32, 33, len(data) - 1, len(data) - 2}
	for _, g := range ia.regions {
		interesting = append(interesting, g[0]-1, g[0], g[0]+1, g[1])
	}

	off := map[int]bool{}

	for len(off) < size-1 {
		o := 1 + rng.Intn(len(data)-1)
		if rng.Intn(3) > 0 {
			o = interesting[rng.Intn(len(interesting))]
		}

		if o > 0 && o < len(data) {
			off[o] = true
		}
	}

	offs := []int{0, len(data)}
	for o := range off {
		offs = append(offs, o)
	}

	slices.Sort(offs)

	end := len(data)

	for n := size; n < units; n++ {
		t := pattern(1+rng.Intn(50), 3)
		if rng.Intn(3) == 0 && cs.Opens { // otherwise it would be found
			t = slices.Clone(ia.data)
		}

		data = append(data, t...)
		offs = append(offs, len(data))
	}

	dir, done := volumesDir()
	defer done()

	base := filepath.Join(dir, []string{"x", "x.7z", "archive with spaces.7z", "%d", "%s.001", "a.001", ".hidden", "日本語"}[rng.Intn(8)])
	if rng.Intn(4) == 0 {
		base = filepath.Join(dir, "sub.001", filepath.Base(base))

		if err := os.Mkdir(filepath.Dir(base), 0o700); err != nil {
			h.Die("%v", err)
		}
	}

	numbered := func(n int) string { return fmt.Sprintf("%s.%03d", base, n) }
	first := numbered(1)
	others := numbered

	if cs.C.Named == "alone" {
		switch rng.Intn(6) {
		case 0:
			first = base + ".002"
			others = func(n int) string { return numbered(n + 1) }
		case 1:
			first = base + ".7z"
		case 2:
			first = base + "001"
		case 3:
			first = base + ".001.7z"
		case 4:
			first = base + ".0001"
		case 5:
			first = base + ".01"
			others = func(n int) string { return fmt.Sprintf("%s.%02d", base, n) }
		}
	}

	var (
		sees []byte
		want []string
		unit int
		what []string
	)

	for i, n := range cs.C.Sizes {
		name := first
		if i > 0 {
			name = others(i + 1)
		}

		part := data[offs[unit]:offs[unit+n]]

		switch cs.C.States[i] {
		case "ok":
			write(name, part)
		case "short":
			most := len(part)
			if offs[unit] < end { // lose what matters
				most = min(most, end-offs[unit])
			}

			part = part[:rng.Intn(most)]
			write(name, part)
		case "missing":
		case "loop":
			if err := os.Symlink(filepath.Base(name), name); err != nil {
				h.Die("%v", err)
			}
		case "directory":
			if err := os.Mkdir(name, 0o700); err != nil {
				h.Die("%v", err)
			}
		}

		unit += n
		what = append(what, fmt.Sprintf("%s %d %s", filepath.Base(name), len(part), cs.C.States[i]))

		if slices.Contains(cs.Seen, i+1) {
			want = append(want, name)
			sees = append(sees, part...)
		}
	}

	// Beyond a gap, and what only looks like a volume.
	for _, n := range []string{fmt.Sprintf("%s.%03d", base, len(cs.C.Sizes)+2), base + ".2", base + ".0002", base} {
		if _, err := os.Lstat(n); err != nil && rng.Intn(2) == 0 {
			write(n, pattern(40, 5))
		}
	}

	where := fmt.Sprintf("volumes %q, %s", what, ia.what)
	given := first

	if cs.C.Named == "first" && rng.Intn(3) == 0 {
		given = []string{filepath.Dir(first) + "/./" + filepath.Base(first), filepath.Dir(first) + "//" + filepath.Base(first)}[rng.Intn(2)]
	}

	switch {
	case cs.Left || !cs.Opens && cs.C.Sound && !slices.Contains(cs.C.States, "loop") && bytes.HasPrefix(sees, ia.data):
		// It does not matter, or the bytes happen to be the same.
		r, err := sevenzip.OpenReaderWithPassword(given, enc.Password)
		if err == nil {
			err = r.Close()
			if err != nil {
				return fmt.Errorf("closing failed: %w (%s)", err, where)
			}
		}
	case cs.Opens:
		if err := volumesOpenUnclean(given, dir, want, ia); err != nil {
			return fmt.Errorf("%w (%s)", err, where)
		}
	default:
		r, err := sevenzip.OpenReaderWithPassword(given, enc.Password)
		if err == nil {
			err = ia.read(&r.Reader)
			if err == nil {
				return fmt.Errorf("opened and read (%s)", where)
			}

			if err := r.Close(); err != nil {
				return fmt.Errorf("closing failed: %w (%s)", err, where)
			}
		}
	}

	if err := volumesHeld(dir); err != nil {
		return fmt.Errorf("%w (%s)", err, where)
	}

	return nil
}

// volumesOpenUnclean is volumesOpen that does not mind how the names of the
// volumes are written.
func volumesOpenUnclean(given, dir string, want []string, ia *integrityArchive) error {
	r, err := sevenzip.OpenReaderWithPassword(given, enc.Password)
	if err != nil {
		return fmt.Errorf("opening failed: %w", err)
	}

	got := r.Volumes()
	if err := r.Close(); err != nil {
		return fmt.Errorf("closing failed: %w", err)
	}

	if len(got) != len(want) {
		return fmt.Errorf("the volumes are %q, not %q", got, want)
	}

	for i := range got {
		if filepath.Clean(got[i]) != filepath.Clean(want[i]) {
			return fmt.Errorf("the volumes are %q, not %q", got, want)
		}
	}

	return volumesOpen(given, dir, got, ia)
}

// volumesMany cuts archives in two at every place, and into many volumes.
func volumesMany(names []string, rng *rand.Rand) error {
	for _, count := range []int{9, 10, 11, 99, 100, 101, len(names)} {
		if err := volumesCount(names[:count], rng); err != nil {
			return fmt.Errorf("%w (%d volumes)", err, count)
		}
	}

	ia := volumesArchive(rng)

	for cut := 0; cut <= len(ia.data); cut++ {
		dir, done := volumesDir()
		first, second := filepath.Join(dir, "x."+names[0]), filepath.Join(dir, "x."+names[1])

		write(first, ia.data[:cut])
		write(second, ia.data[cut:])

		err := volumesOpen(first, dir, []string{first, second}, ia)

		h.Env.Count("opens", 1)
		done()

		if err != nil {
			return fmt.Errorf("%w (cut at %d of %d)", err, cut, len(ia.data))
		}
	}

	return nil
}

func volumesCount(names []string, rng *rand.Rand) error {
	ia := volumesArchive(rng)

	dir, done := volumesDir()
	defer done()

	at := 0

	var want []string

	for i, n := range names {
		left := len(names) - i
		size := (len(ia.data) - at) / left

		if rng.Intn(2) == 0 && size > 0 {
			size = rng.Intn(size)
		}

		if left == 1 {
			size = len(ia.data) - at
		}

		name := filepath.Join(dir, "x.7z."+n)
		write(name, ia.data[at:at+size])
		want = append(want, name)
		at += size
	}

	h.Env.Count("opens", 1)

	return volumesOpen(want[0], dir, want, ia)
}
