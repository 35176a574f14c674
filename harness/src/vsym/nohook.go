//go:build gosym

package vsym

func installHook() {}
