// Package hmain runs the repository's commands inside a harness.
package hmain

import (
	"flag"
	"os"
	"strings"

	"vsym"
)

// Run runs a command with arguments and returns what it printed.
func Run(main func(), args ...string) string {
	out := vsym.TempDir() + "stdout"
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	std, argv := os.Stdout, os.Args
	os.Stdout = f
	os.Args = append([]string{"cmd"}, args...)
	flag.CommandLine = flag.NewFlagSet("cmd", flag.PanicOnError)
	main()
	os.Stdout, os.Args = std, argv
	f.Close()
	s, _ := vsym.GetFile(out)
	return s
}

// Line is the rest of the line of a text that starts with a prefix, and whether there is one.
func Line(text, prefix string) (string, bool) {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, prefix) {
			return l[len(prefix):], true
		}
	}
	return "", false
}

// Table splits a tsv into rows of fields; a missing final newline shows as an extra field "?".
func Table(text string) [][]string {
	var out [][]string
	for text != "" {
		l, rest, ok := strings.Cut(text, "\n")
		row := strings.Split(l, "\t")
		if !ok {
			row = append(row, "?")
		}
		out = append(out, row)
		text = rest
	}
	return out
}
