package rawpanellib


// Specification vocabulary (see /verif/DESIGN.md). The verifier interprets these functions; natively they are inert.
func vAssume(c bool)                             {}
func vAssert(label string, c bool)               {}
func vRequire(label string, c bool)              {}
func vReach(label string)                        {}
func vAbstract(b []byte)                         {}
func vAnyBool(name string) bool                  { return false }
func vAnyInt(name string) int                    { return 0 }
func vAnyString(name string) string              { return "" }
func vStrClass(s string, class string)           {}
func vInvariant(fn string, inv any)              {}
func vForall(lo, hi int, f func(i int) bool) bool { return true }
func vUnchanged(label string)                    {}

func vImp(a, b bool) bool { return !a || b }

func vSeqEq[T any](a, b []T) bool { return true }

func vJSONRoundTrips(label string, v any) {}
func vIsJSONOf(s string, v any) bool      { return true }

// vImplode: the fields joined by sep, trailing empty fields left out
func vImplode(fields []string, sep string) string {
	n := len(fields)
	for n > 0 && fields[n-1] == "" {
		n--
	}
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += fields[i]
	}
	return s
}

// vSquash: the non-white-space characters, in order
func vSquash(s string) string { return "" }

func vUFBool(name, except string, args ...any) bool { return false }
func vUFInt(name, except string, args ...any) int   { return 0 }

func vReadsOnly(label, fields, allowed, entries string) {}

// vDeepEq: the same messages (nil and empty lists alike, as proto.Equal)
func vDeepEq(a, b any) bool { return true }

func vChan[T any](recv func() (T, bool), send func(T)) chan T { return nil }
func vClosed(ch any) bool                                     { return false }
func vStop()                                                  {}
func vPark()                                                  {}
func vGos() int                                               { return 0 }
func vGo(i int)                                               {}

func vNever() {}
