//go:build sched

package main

import "github.com/vanclief/finmod/verifhook"

func init() {
	setHook = func(f func(), b func() bool) bool { verifhook.F, verifhook.B = f, b; return true }
	hookHasGo = verifhook.HasGo
}
