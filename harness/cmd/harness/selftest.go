package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/bodgit/sevenzip"
	"verif/enc"
	"verif/h"
	"verif/sz"
)

func init() { commands["selftest"] = selftest }

// selftest checks the harness's own encoders against the code.
func selftest(c *Ctx) {
	for _, name := range enc.Chains {
		for _, n := range []int{0, 1, 5, 1000, 70000} {
			content := pattern(n, 0)
			if name == "ppmd" {
				content = enc.PPMDContent
			}

			a := sz.Archive{Folders: []sz.Folder{enc.Chain(name, content)}, Files: []sz.File{{Name: "a"}}}
			a.Folders[0].Subs = []sz.Sub{{Size: uint64(len(content)), CRC: sz.CRC(content)}}
			b := a.Bytes()

			r, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), enc.Password)
			if err != nil {
				h.Env.Fail(name, fmt.Sprint(name, n, err), nil)
				continue
			}

			rc, err := r.File[0].Open()
			if err != nil {
				h.Env.Fail(name, fmt.Sprint(name, n, " open ", err), nil)
				continue
			}

			got, err := io.ReadAll(rc)
			if err != nil || !bytes.Equal(got, content) {
				h.Env.Fail(name, fmt.Sprint(name, " ", n, " read ", len(got), " ", err), nil)
			}
			rc.Close()
		}
	}
}
