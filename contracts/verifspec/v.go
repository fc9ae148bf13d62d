// Package verifspec holds the specification primitives contracts are written with. It is injected as an
// overlay; goverif gives the functions their meaning, the bodies here are never executed.
package verifspec

import (
	"os"
	"path/filepath"
)

// Requires states a precondition of the function under contract.
func Requires(cond bool) {}

// Spec gives the function's effect and result as a specification program: the real body must agree with it
// on the error outcome and, when it does not fail, on every result and every location of the final state.
func Spec(f any) {}

// Ensures gives a postcondition: f takes the results and is evaluated in the final state.
func Ensures(f any) {}

// Repeatable: what is written depends on nothing but the arguments and the state they reach.
func Repeatable() {}

// Total marks that agreement is required on failing runs too.
func Total() {}

// Opaque: callers see the results as an unspecified function of the arguments (plus the Ensures); checked together
// with the Spec: the results depend on nothing but the arguments and no state changes.
func Opaque() {}

// Step: the function is checked against its Spec, but callers see its effect as an unspecified function of the
// arguments and the state (plus the Ensures).
func Step() {}

// Summary: like Step, with the footprint (what is read, changed and written) taken from the Spec run on arbitrary
// arguments.
func Summary() {}

// Decreases gives the measure of a recursive function: calls back into the recursion have a smaller one.
func Decreases(measure int) {}

// Known gives the first result of an opaque contract in the case cond (an obligation of the contract).
func Known[T any](cond bool, result T) {}

// OnlySafety: no functional contract (the body is checked for safety under Requires); callers inline.
func OnlySafety() {}

// Trusted: the contract is assumed, not proved.
func Trusted(reason string) {}

// Assert is an obligation (in lemmas and specs).
func Assert(cond bool, name string) {}

// Assume adds an assumption (listed in the evidence).
func Assume(cond bool, why string) {}

// Out is the text written to w so far.
func Out(w any) string { return "" }

// Failed reports whether a write to w has failed so far.
func Failed(w any) bool { return false }

// Emit appends text to w (specification of a write).
func Emit(w any, text string) {}

// Sturdy: w is a writer that accepts whatever it is given (failures, if any, are reported by its owner later).
func Sturdy(w any) bool { return false }

// All / Some quantify over every value of T.
func All[T any](f func(T) bool) bool  { return false }
func Some[T any](f func(T) bool) bool { return false }

func Implies(a, b bool) bool { return !a || b }

// Any returns an arbitrary value of T.
func Any[T any]() T { var x T; return x }

// Uninterp is an uninterpreted function of its arguments.
func Uninterp[T any](name string, args ...any) T { var x T; return x }

// Fail makes the specification program fail (returns a non-nil error).
func Fail() error { return nil }

// Lines returns the lines a reader delivers and its final error.
func Lines(r any) []string     { return nil }
func ReadFails(r any) bool     { return false }
func Inv(f any)                {}
func Eq[T any](a, b T) bool    { return false }
func SameState() bool          { return false }
func Dom[K comparable, V any](m map[K]V, k K) bool { return false }

// FileLines are the lines a bufio.Scanner delivers for the file at path.
func FileLines(path string) []string { return nil }

// ZZWalk is the contract assumed for filepath.Walk: a fixed sequence of entries per root is presented to fn in
// order, until fn returns an error.
func ZZWalk(root string, fn filepath.WalkFunc) error {
	n := Uninterp[int]("i!walk.n", root)
	for i := 0; i < n; i++ {
		err := fn(Uninterp[string]("walk.path", root, i), Uninterp[os.FileInfo]("walk.info", root, i), Uninterp[error]("walk.err", root, i))
		if err != nil {
			return err
		}
	}
	return nil
}
