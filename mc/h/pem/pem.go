// Package pem has certificates for the harnesses: a CA, a server and a client certificate it signed, and another CA.
package pem

import (
	"embed"
	"os"
	"path/filepath"
)

//go:embed *.crt *.key
var files embed.FS

var dir string

// Dir is a directory with the files; it belongs to this process.
func Dir() string {
	if dir != "" {
		return dir
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	d, err := os.MkdirTemp(filepath.Dir(exe), "pem")
	if err != nil {
		panic(err)
	}
	es, _ := files.ReadDir(".")
	for _, e := range es {
		b, _ := files.ReadFile(e.Name())
		if err := os.WriteFile(filepath.Join(d, e.Name()), b, 0o600); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(filepath.Join(d, "garbage"), []byte("garbage"), 0o600); err != nil {
		panic(err)
	}
	dir = d
	return d
}

// Path is the path of one of the files.
func Path(name string) string { return filepath.Join(Dir(), name) }

// Clean removes the directory.
func Clean() {
	if dir != "" {
		os.RemoveAll(dir)
	}
}
