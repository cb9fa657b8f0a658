package main

import (
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"path/filepath"
)

// treeHash: names, types, modes, sizes and contents below dir.
func treeHash(dir string) string {
	h := sha256.New()
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(h, "ERR %s\n", p)
			return nil
		}
		fmt.Fprintf(h, "%q %v %d\n", p, info.Mode(), info.ModTime().UnixNano())
		if info.Mode().IsRegular() {
			f, err := os.Open(p)
			if err == nil {
				io.Copy(h, f)
				f.Close()
			}
		}
		return nil
	})
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}
