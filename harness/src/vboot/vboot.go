// Package vboot sets what the operating system hands to a process. The executor initialises it
// before the packages that read it.
package vboot

import "os"

func init() { os.Args = []string{"cmd"} }
