package topology

// Specification vocabulary (see /verif/DESIGN.md). The verifier interprets these functions; natively they are inert.
func vAssume(c bool)                             {}
func vAssert(label string, c bool)               {}
func vRequire(label string, c bool)              {}
func vReach(label string)                        {}
func vAbstract(b []byte)                         {}
func vAnyBool(name string) bool                  { return false }
func vAnyInt(name string) int                    { return 0 }
func vAnyString(name string) string              { return "" }
func vStrClass(s string, class string)           {}
func vInvariant(fn string, inv any)              {}
func vForall(lo, hi int, f func(i int) bool) bool { return true }
func vUnchanged(label string)                    {}

func vImp(a, b bool) bool { return !a || b }

func vSeqEq[T any](a, b []T) bool { return true }

func vJSONRoundTrips(label string, v any) {}
func vIsJSONOf(s string, v any) bool      { return true }
