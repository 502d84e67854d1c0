// Package driver is the common part of the Go drivers: command input, JSON output, storages.
package driver

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/heremaps/flatdata/flatdata-go/flatdata"
)

// Out collects an answer
type Out struct {
	strings.Builder
}

// Raw writes text
func (o *Out) Raw(s string) { o.WriteString(s) }

// Num writes a number or flag
func (o *Out) Num(v interface{}) {
	switch b := v.(type) {
	case bool:
		if b {
			o.Raw("1")
		} else {
			o.Raw("0")
		}
	default:
		fmt.Fprintf(o, "%d", v)
	}
}

// Str writes a string
func (o *Out) Str(s string) {
	b, _ := json.Marshal(s)
	o.Write(b)
}

// Hex writes bytes
func (o *Out) Hex(b []byte) { o.Raw("\"" + hex.EncodeToString(b) + "\"") }

// JSON checks that a text is JSON and passes it on
func (o *Out) JSON(s string) {
	if json.Valid([]byte(s)) {
		o.Raw(s)
	} else {
		o.Raw("{\"invalid json\":")
		o.Str(s)
		o.Raw("}")
	}
}

// Text writes what a function gives
func Text(f func() string, o *Out) {
	defer func() {
		if r := recover(); r != nil {
			o.Raw("{\"panic\":")
			o.Str(fmt.Sprint(r))
			o.Raw("}")
		}
	}()
	o.JSON(f())
}

// Const writes the type and value of a constant
func Const(v interface{}, o *Out) {
	fmt.Fprintf(o, "[\"%T\",%d]", v, v)
}

// Slices lists (first, last, step) of slices of a vector
func Slices(n int) [][3]int {
	if n == 0 {
		return nil
	}
	return [][3]int{{0, n - 1, 1}, {0, n - 1, 2}, {n / 2, n - 1, 1}, {0, n / 2, 3}}
}

// Storage makes a storage of the files in a directory
func Storage(kind, dir, name string) flatdata.ResourceStorage {
	if kind == "file" {
		return flatdata.NewFileResourceStorage(filepath.Join(dir, name+".archive"))
	}
	s := &flatdata.InMemoryResourceStorage{
		Descriptors: map[string]flatdata.MemoryDescriptor{}, Schemas: map[string]string{}}
	list, _ := ioutil.ReadDir(dir)
	for _, f := range list {
		if f.IsDir() {
			continue
		}
		b, err := ioutil.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			panic(err)
		}
		if strings.HasSuffix(f.Name(), ".schema") {
			s.Schemas[strings.TrimSuffix(f.Name(), ".schema")] = string(b)
		} else {
			s.Descriptors[f.Name()] = &flatdata.TestMemoryDescriptor{Array: b[:len(b):len(b)]}
		}
	}
	return s
}

// Handler answers one command
type Handler func(args []string, o *Out)

func guarded(h Handler, args []string) string {
	o := &Out{}
	failed := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				failed = fmt.Sprint(r)
			}
		}()
		h(args, o)
	}()
	if failed != "" {
		o = &Out{}
		o.Raw("{\"panic\":")
		o.Str(failed)
		o.Raw("}")
	}
	return o.String()
}

// Run reads commands from the standard input
func Run(commands map[string]Handler) {
	log.SetOutput(ioutil.Discard)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		args := strings.Fields(line)
		h, ok := commands[args[0]]
		if !ok {
			fmt.Fprintln(os.Stderr, "DRIVER: unknown command", args[0])
			os.Exit(77)
		}
		out.WriteString(guarded(h, args[1:]) + "\n")
		out.Flush()
	}
}
