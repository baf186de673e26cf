package ibeam_lib_monogfx

// Specification vocabulary (see /verif/DESIGN.md). The verifier interprets these functions; natively they are inert.
func vAssume(c bool)               {}
func vAssert(label string, c bool) {}
func vRequire(label string, c bool) {}
func vReach(label string)          {}
func vAbstract(b []byte)           {}
func vAnyBool(name string) bool    { return false }
func vAnyInt(name string) int      { return 0 }
func vAnyByte(name string) byte    { return 0 }

func vInvariant(fn string, inv any) {}

func vImp(a, b bool) bool { return !a || b }

func vUFBool(name, except string, args ...any) bool { return false }
func vUFInt(name, except string, args ...any) int   { return 0 }

func vReadsOnly(label, fields, allowed, entries string) {}
