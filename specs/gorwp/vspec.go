package gorwp

// Specification vocabulary (see /verif/DESIGN.md). The verifier interprets these functions; natively they are inert.
func vAssume(c bool)                                          {}
func vAssert(label string, c bool)                            {}
func vRequire(label string, c bool)                           {}
func vReach(label string)                                     {}
func vAnyBool(name string) bool                               { return false }
func vAnyInt(name string) int                                 { return 0 }
func vAnyString(name string) string                           { return "" }
func vForall(lo, hi int, f func(i int) bool) bool             { return true }
func vUnchanged(label string)                                 {}
func vSeqEq[T any](a, b []T) bool                             { return true }
func vDeepEq(a, b any) bool                                   { return true }
func vChan[T any](recv func() (T, bool), send func(T)) chan T { return nil }
func vClosed(ch any) bool                                     { return false }
func vStop()                                                  {}
func vPark()                                                  {}
func vGos() int                                               { return 0 }
func vGo(i int)                                               {}

func vNever() {}
