package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&Check{
		ID: "C01", Title: "Numbers are values: arithmetic never changes an existing number",
		Explain: "Every call that writes a big number in place (math/big methods with a receiver that they set, and the repository's own in-place methods) is enumerated over the SSA form of all packages. The written object must be owned: every value it may denote is a fresh allocation, or the result of a function all of whose returns are fresh or deep-copied; ownership of a parameter becomes a requirement on every caller (call graph by class hierarchy), ownership of a field or element is decided over all stores of that field class, and an object already captured by another value must not be written again.",
		Assume:  []string{"library functions write only the arguments listed in the analyzer's table (math/big receivers, sort, append)", "no unsafe pointers or reflection writes (none occur)"},
		Run:     func(w *World, r *Report) { runOwn(w, r, func(e Event) bool { return e.Need == NeedNum }) },
	})
	register(&Check{
		ID: "C02", Title: "Evaluation never modifies an existing expression, definition or rule",
		Explain: "Every structural write (store into parts or into a slice of expressions, assignment of the parts field, append that may write a shared backing array, sort, swap, setters) is enumerated over the SSA form of all packages. The written expression or slice must be owned by the writer: created or copied there, or required of, and checked at, every caller; a value that has been captured by a result, definition, map or field must not be written afterwards.",
		Assume:  []string{"library functions write only the arguments listed in the analyzer's table", "cache fields (hashes, evaluation marks) are not structure; they are the subject of C03"},
		Run:     func(w *World, r *Report) { runOwn(w, r, func(e Event) bool { return e.Need != NeedNum }) },
	})
}

func runOwn(w *World, r *Report, keep func(Event) bool) {
	o := NewOwn(w)
	evs, finds, props, _ := o.Check(keep, func(f *ssa.Function) string { return "" })
	r.count("in_place_modifications", len(evs))
	r.count("requirements_checked_at_callers", props)
	memo := map[retainKey]bool{}
	for _, e := range append(append([]Event{}, evs...), o.callEvents...) {
		if c1, root := o.captureReuse(e.Fn, e.Instr, e.Target, memo); c1 != nil {
			r.bad("no-modify-after-capture", fname(e.Fn)+"|"+e.What, w.At(e.Instr), "%s: the object created as %s is already part of another value (captured at %s) and becomes part of a value again after this modification", e.What, root.Name(), w.At(c1))
		}
	}
	badAt := map[ssa.Instruction]bool{}
	for _, f := range finds {
		badAt[f.Event.Instr] = true
		r.bad("modifies-only-own", fname(f.Fn)+"|"+f.Event.What, w.At(f.Instr), "%s in %s: %s", f.Event.What, fname(f.Event.Fn), f.Reason)
	}
	for _, e := range evs {
		if !badAt[e.Instr] {
			r.ok("modifies-only-own", fname(e.Fn)+"|"+e.What, w.At(e.Instr), "every object the modified value may denote is created or copied here, or required of every caller")
		}
	}
}
