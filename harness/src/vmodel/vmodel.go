// Package vmodel holds Go models that the symbolic executor runs in place of library functions
// that talk to the operating system or use reflection. Natively nothing here is called.
package vmodel

import (
	"flag"
	"archive/zip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"sync"
	"strconv"
	"strings"

	"vsym"
)

// quiet reports whether what is written to w is lost: to no writer, or to the standard ones unless
// the harness put a file there.
func quiet(w io.Writer) bool {
	if w == nil {
		return true
	}
	f, ok := w.(*os.File)
	return ok && handles[f] == nil
}

//gosym:replace fmt.Printf
func Printf(format string, a ...any) (int, error) {
	if handles[os.Stdout] == nil {
		return 0, nil
	}
	return Write(os.Stdout, []byte(fmt.Sprintf(format, a...)))
}

//gosym:replace fmt.Println
func Println(a ...any) (int, error) {
	if handles[os.Stdout] == nil {
		return 0, nil
	}
	return Write(os.Stdout, []byte(fmt.Sprintln(a...)))
}

//gosym:replace fmt.Print
func Print(a ...any) (int, error) {
	if handles[os.Stdout] == nil {
		return 0, nil
	}
	return Write(os.Stdout, []byte(fmt.Sprint(a...)))
}

//gosym:replace fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	if quiet(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

//gosym:replace fmt.Fprint
func Fprint(w io.Writer, a ...any) (int, error) {
	if quiet(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprint(a...)))
}

//gosym:replace fmt.Fprintln
func Fprintln(w io.Writer, a ...any) (int, error) {
	if quiet(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintln(a...)))
}

type errT struct{ s string }

func (e *errT) Error() string { return e.s }

//gosym:replace fmt.Errorf
func Errorf(format string, a ...any) error { return &errT{fmt.Sprintf(format, a...)} }

// --- files ---

type vfile struct {
	name string
	data []byte
	pos  int
	wr   bool
	shut bool
}

type entry struct {
	name string
	data []byte
}

var files []*entry
var handles = map[*os.File]*vfile{}

var ErrNoFile error = &errT{"no such file"}

func find(name string) *entry {
	for _, e := range files {
		if e.name == name {
			return e
		}
	}
	return nil
}

//gosym:replace vsym.PutFile
func PutFile(name, content string) {
	e := find(name)
	if e == nil {
		e = &entry{name: name}
		files = append(files, e)
	}
	e.data = []byte(content)
}

//gosym:replace vsym.GetFile
func GetFile(name string) (string, bool) {
	e := find(name)
	if e == nil {
		return "", false
	}
	return string(e.data), true
}

//gosym:replace vsym.TempDir
func TempDir() string { return "/vtmp/" }

//gosym:replace archive/zip.OpenReader
func OpenReader(name string) (*zip.ReadCloser, error) { return nil, ErrNoFile }

// what flag prints about a wrong command line

//gosym:replace flag.PrintDefaults
func PrintDefaults() {}

//gosym:replace (*flag.FlagSet).PrintDefaults
func SetPrintDefaults(*flag.FlagSet) {}

//gosym:replace os.Open
func Open(name string) (*os.File, error) {
	e := find(name)
	if e == nil {
		return nil, ErrNoFile
	}
	f := new(os.File)
	handles[f] = &vfile{name: name, data: e.data}
	return f, nil
}

//gosym:replace os.Create
func Create(name string) (*os.File, error) {
	if name == "" {
		return nil, ErrNoFile
	}
	PutFile(name, "")
	f := new(os.File)
	handles[f] = &vfile{name: name, wr: true}
	return f, nil
}

//gosym:replace (*os.File).Read
func Read(f *os.File, b []byte) (int, error) {
	v := handles[f]
	if v == nil || v.shut {
		return 0, ErrNoFile
	}
	if v.pos >= len(v.data) {
		return 0, io.EOF
	}
	n := copy(b, v.data[v.pos:])
	v.pos += n
	return n, nil
}

//gosym:replace (*os.File).Write
func Write(f *os.File, b []byte) (int, error) {
	v := handles[f]
	if v == nil {
		return len(b), nil
	}
	if v.shut || !v.wr {
		return 0, ErrNoFile
	}
	e := find(v.name)
	e.data = append(e.data, b...)
	return len(b), nil
}

//gosym:replace (*os.File).WriteString
func WriteString(f *os.File, s string) (int, error) { return Write(f, []byte(s)) }

//gosym:replace (*os.File).Close
func Close(f *os.File) error {
	v := handles[f]
	if v == nil || v.shut {
		return ErrNoFile
	}
	v.shut = true
	return nil
}

//gosym:replace (*os.File).Sync
func Sync(f *os.File) error { return nil }

// --- json, for what the commands write and read ---

var encoders = map[*json.Encoder]io.Writer{}

//gosym:replace encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = w
	return e
}

//gosym:replace (*encoding/json.Encoder).Encode
func Encode(e *json.Encoder, v any) error {
	m, ok := v.(map[string][]string)
	if !ok {
		if vsym.JSON == nil {
			panic("gosym: json of another type")
		}
		_, err := encoders[e].Write([]byte(vsym.JSON(v) + "\n"))
		return err
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := "{"
	for i, k := range keys {
		if i > 0 {
			s += ","
		}
		s += strconv.Quote(k) + ":["
		for j, x := range m[k] {
			if j > 0 {
				s += ","
			}
			s += strconv.Quote(x)
		}
		s += "]"
	}
	_, err := encoders[e].Write([]byte(s + "}\n"))
	return err
}

// text reads a quoted text without escapes.
func text(s string) (string, string, bool) {
	if s == "" || s[0] != '"' {
		return "", s, false
	}
	i := strings.IndexByte(s[1:], '"')
	if i < 0 || strings.IndexByte(s[1:1+i], '\\') >= 0 {
		return "", s, false
	}
	return s[1 : 1+i], strings.TrimLeft(s[2+i:], " \n"), true
}

//gosym:replace encoding/json.Unmarshal
func Unmarshal(b []byte, v any) error {
	s := strings.TrimSpace(string(b))
	bad := &errT{"json"}
	next := func(c string) bool {
		if !strings.HasPrefix(s, c) {
			return false
		}
		s = strings.TrimLeft(s[1:], " \n")
		return true
	}
	if !next("{") {
		return bad
	}
	for !next("}") {
		k, rest, ok := text(s)
		if !ok {
			return bad
		}
		s = rest
		if !next(":") {
			return bad
		}
		switch m := v.(type) {
		case *map[string][]string:
			if !next("[") {
				return bad
			}
			list := []string{}
			for !next("]") {
				x, rest, ok := text(s)
				if !ok {
					return bad
				}
				s = rest
				list = append(list, x)
				next(",")
			}
			(*m)[k] = list
		case *map[string]float64:
			i := strings.IndexAny(s, ",}")
			if i < 0 {
				return bad
			}
			f, err := strconv.ParseFloat(strings.TrimSpace(s[:i]), 64)
			if err != nil {
				return bad
			}
			s = s[i:]
			(*m)[k] = f
		default:
			panic("gosym: json of another type")
		}
		next(",")
	}
	return nil
}

// --- sync ---

// --- sort.Slice without reflection is not needed by the code under test ---

//gosym:replace sort.Strings
func SortStrings(a []string) { sort.Sort(sort.StringSlice(a)) }

//gosym:replace sort.Ints
func SortInts(a []int) { sort.Sort(sort.IntSlice(a)) }

//gosym:replace sort.Float64s
func SortFloats(a []float64) { sort.Sort(sort.Float64Slice(a)) }

var _ = strings.Join

// PoolGet never reuses anything.
//
//gosym:replace (*sync.Pool).Get
func PoolGet(p *sync.Pool) any {
	if p.New == nil {
		return nil
	}
	return p.New()
}

//gosym:replace (*sync.Pool).Put
func PoolPut(p *sync.Pool, x any) {}
