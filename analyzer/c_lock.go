package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14", Title: "Locks are released, never taken twice, and not held while evaluating", Run: checkLocks,
		Explain: "Follows every mutex, every lock of a definition and every operation of the concurrent map (which locks inside) through all functions: what is held at each point of each path, what each call may take, directly or through others, and what it leaves held. On every path a lock must be released before the function ends (or the function is one that takes it for its caller), no call made while a lock is held may take a lock of the same kind, evaluate or print an expression, call a function that is not known, or wait for a channel or other goroutines, and no two kinds of locks may be taken in both orders. Every goroutine that is waited for must be counted before it starts, say that it is done on every path, and be waited for.",
		Assume:  []string{"Two locks reached through the same global variable, the same field of a type, or the concurrent map are of one kind: holding one may block on the other."}})
}

// lockSum is what a call of a function does with locks.
type lockSum struct {
	takes    map[string]string // kinds it may take, with where
	leaves   map[string]int    // kinds held when it returns, or released (-1)
	evals    string            // calls something unknown, or waits
	analysed bool
}

type lockAn struct {
	w    *World
	r    *Report
	sums map[*ssa.Function]*lockSum
	// order: kind -> kind taken while it is held -> where
	order map[string]map[string]string
}

const mapKind = "the concurrent map"

// lockKind names the lock a value denotes.
func lockKind(v ssa.Value) string {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x.Pkg.Pkg.Name() + "." + x.Name()
		case *ssa.FieldAddr:
			n := namedOf(deref(x.X.Type()))
			if n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "concurrent-map") {
				return mapKind
			}
			if n != nil {
				return n.Obj().Name() + "." + faName(x)
			}
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return "a local lock"
		case *ssa.FreeVar:
			return "the captured " + x.Name()
		case *ssa.Parameter:
			return types.TypeString(x.Type(), shortQual)
		case *ssa.Call:
			if n := namedOf(deref(x.Type())); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "concurrent-map") {
				return mapKind
			}
			return types.TypeString(x.Type(), shortQual)
		default:
			return types.TypeString(v.Type(), shortQual)
		}
	}
	return "a lock"
}

// lockOp: +1 takes, -1 releases, 0 neither.
func lockOp(c *ssa.CallCommon) (int, string) {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" {
		return 0, ""
	}
	args := callArgs2(c)
	if len(args) == 0 {
		return 0, ""
	}
	recv := namedOf(deref(args[0].Type()))
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		if n := namedOf(deref(sig.Recv().Type())); n != nil {
			recv = n
		}
	}
	if recv == nil {
		return 0, ""
	}
	switch recv.Obj().Name() {
	case "Mutex", "RWMutex", "Locker":
	default:
		return 0, ""
	}
	switch o.Name() {
	case "Lock", "RLock":
		return 1, lockKind(args[0])
	case "Unlock", "RUnlock":
		return -1, lockKind(args[0])
	}
	return 0, ""
}

func callArgs2(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// callLocks is what a call takes, leaves and waits for.
func (l *lockAn) callLocks(call ssa.CallInstruction) *lockSum {
	c := call.Common()
	out := &lockSum{takes: map[string]string{}, leaves: map[string]int{}}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return out
	}
	if d, k := lockOp(c); d != 0 {
		if d > 0 {
			out.takes[k] = l.w.At(call)
		}
		out.leaves[k] = d
		return out
	}
	fs := l.w.Callees(call)
	known := false
	for _, f := range fs {
		if !l.w.inScope[f] {
			continue
		}
		known = true
		s := l.sums[f]
		if s == nil {
			continue
		}
		for k, v := range s.takes {
			out.takes[k] = v
		}
		for k, v := range s.leaves {
			out.leaves[k] = v
		}
		if s.evals != "" {
			out.evals = s.evals
		}
	}
	if known {
		return out
	}
	o := calleeObj(c)
	switch {
	case o == nil:
		out.evals = "calls a function value at " + l.w.At(call)
	case o.Pkg() == nil:
	case strings.HasSuffix(o.Pkg().Path(), "concurrent-map"):
		switch o.Name() {
		case "New", "GetShard":
		default:
			out.takes[mapKind] = l.w.At(call)
		}
	case o.Pkg().Path() == "sync" && o.Name() == "Wait":
		out.evals = "waits for goroutines at " + l.w.At(call)
	case o.Pkg().Path() == "sync" && o.Name() == "Do":
		out.evals = "runs a function at " + l.w.At(call)
	}
	return out
}

type heldSet map[string]int

func (h heldSet) clone() heldSet {
	o := heldSet{}
	for k, v := range h {
		if v != 0 {
			o[k] = v
		}
	}
	return o
}

func (h heldSet) String() string {
	var s []string
	for k, v := range h {
		if v > 0 {
			s = append(s, k)
		} else if v < 0 {
			s = append(s, "released "+k)
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// run follows one function; with report it states the obligations.
func (l *lockAn) run(f *ssa.Function, report bool) bool {
	s := l.sums[f]
	changed := false
	take := func(k, where string) {
		if _, ok := s.takes[k]; !ok {
			s.takes[k] = where
			changed = true
		}
	}
	eval := func(what string) {
		if s.evals == "" {
			s.evals = what
			changed = true
		}
	}
	type item struct {
		b   *ssa.BasicBlock
		h   heldSet
		def heldSet
	}
	seen := map[string]bool{}
	var exits []heldSet
	work := []item{{f.Blocks[0], heldSet{}, heldSet{}}}
	var obliged, failed bool
	bad := func(in ssa.Instruction, what string, a ...interface{}) {
		if report && !failed {
			failed = true
			l.r.bad("lock", fname(f)+"|lock", l.w.At(in), what, a...)
		}
	}
	var lastExit ssa.Instruction
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		key := it.b.String() + "|" + it.h.String() + "|" + it.def.String()
		if seen[key] || len(seen) > 4000 {
			continue
		}
		seen[key] = true
		h, def := it.h.clone(), it.def.clone()
		for _, in := range it.b.Instrs {
			switch x := in.(type) {
			case *ssa.Defer:
				c := l.callLocks(x)
				for k, d := range c.leaves {
					def[k] += d
				}
				// A deferred closure releases what it releases.
				for k, w := range c.takes {
					take(k, w)
				}
				if c.evals != "" {
					eval(c.evals)
				}
			case *ssa.Go:
				// runs by itself
			case *ssa.Call:
				c := l.callLocks(x)
				for k, w := range c.takes {
					take(k, w)
					for hk, n := range h {
						if n <= 0 {
							continue
						}
						if hk == k {
							bad(in, "takes %s, which is already held (taken again at %s)", k, w)
						} else if report {
							if l.order[hk] == nil {
								l.order[hk] = map[string]string{}
							}
							l.order[hk][k] = l.w.At(in)
						}
					}
				}
				if c.evals != "" {
					eval(c.evals)
					for hk, n := range h {
						if n > 0 {
							bad(in, "while %s is held, a call %s", hk, c.evals)
						}
					}
				}
				for k, d := range c.leaves {
					h[k] += d
					obliged = true
					if h[k] < 0 && d < 0 && def[k] != 0 {
						bad(in, "releases %s twice", k)
					}
				}
			case *ssa.Send, *ssa.Select:
				for hk, n := range h {
					if n > 0 {
						bad(in, "while %s is held, waits for a channel", hk)
					}
				}
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					for hk, n := range h {
						if n > 0 {
							bad(in, "while %s is held, waits for a channel", hk)
						}
					}
				}
			case *ssa.RunDefers:
				for k, d := range def {
					h[k] += d
				}
				def = heldSet{}
			case *ssa.Return:
				exits = append(exits, h.clone())
				lastExit = in
			case *ssa.Panic:
				for k, d := range def {
					h[k] += d
				}
				for hk, n := range h {
					if n > 0 {
						bad(in, "panics while %s is held", hk)
					}
				}
			}
		}
		for _, sc := range it.b.Succs {
			work = append(work, item{sc, h, def})
		}
	}
	if len(exits) > 0 {
		first := exits[0]
		for _, e := range exits[1:] {
			if e.String() != first.String() {
				bad(lastExit, "some paths end with other locks held than others: %q and %q", e.String(), first.String())
			}
		}
		for k, v := range first {
			if v > 1 {
				bad(lastExit, "takes %s more than once", k)
				v = 1
			}
			if v < -1 {
				v = -1
			}
			if s.leaves[k] != v {
				s.leaves[k] = v
				changed = true
			}
		}
	}
	if report && obliged {
		l.r.count("functions with locks", 1)
		if !failed {
			l.r.ok("lock", fname(f)+"|lock", l.w.Pos(f.Pos()), "leaves: %s", heldSet(s.leaves).String())
		}
	}
	return changed
}

func checkLocks(w *World, r *Report) {
	l := &lockAn{w: w, r: r, sums: map[*ssa.Function]*lockSum{}, order: map[string]map[string]string{}}
	for _, f := range w.Funcs {
		l.sums[f] = &lockSum{takes: map[string]string{}, leaves: map[string]int{}}
	}
	for i, changed := 0, true; changed && i < 50; i++ {
		changed = false
		for _, f := range w.Funcs {
			if l.run(f, false) {
				changed = true
			}
		}
	}
	for _, f := range w.Funcs {
		r.count("functions", 1)
		l.run(f, true)
		// A function that takes a lock for its caller may only be one that is
		// called as such: with a counterpart that releases it.
		for k, v := range l.sums[f].leaves {
			if v <= 0 {
				continue
			}
			found := false
			for g, s := range l.sums {
				if s.leaves[k] < 0 && g != f && (g.Signature.Recv() == nil) == (f.Signature.Recv() == nil) && f.Parent() == nil {
					found = true
				}
			}
			r.check("release", fname(f)+"|"+k, w.Pos(f.Pos()), found, "ends with "+k+" held, and nothing releases it")
		}
	}
	for a, m := range l.order {
		for b, where := range m {
			other := l.order[b][a]
			r.check("order", a+"|"+b, where, other == "" || a == b, b+" is taken while "+a+" is held, and the other way round at "+other)
		}
	}
	l.waitGroups()
	r.atLeast("functions", 600)
	r.atLeast("goroutines", 1)
}

func wgCall(c *ssa.CallCommon, name string) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" || o.Name() != name {
		return false
	}
	sig, ok := o.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return false
	}
	n := namedOf(deref(sig.Recv().Type()))
	return n != nil && n.Obj().Name() == "WaitGroup"
}

func wgUse(f *ssa.Function, name string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && wgCall(c.Common(), name) {
			out = append(out, c)
		}
	})
	return out
}

// waitGroups: goroutines that are waited for.
func (l *lockAn) waitGroups() {
	for _, f := range l.w.Funcs {
		if !coreFunc(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			l.r.count("goroutines", 1)
			cons := fname(f) + "|go"
			var fs []*ssa.Function
			for _, x := range l.w.Callees(g) {
				if l.w.inScope[x] {
					fs = append(fs, x)
				}
			}
			if len(fs) == 0 {
				l.r.bad("goroutine", cons, l.w.At(in), "starts a function that is not known")
				return
			}
			adds, waits := wgUse(f, "Add"), wgUse(f, "Wait")
			for _, x := range fs {
				dones := wgUse(x, "Done")
				if len(dones) == 0 && len(adds) == 0 && len(waits) == 0 {
					l.r.ok("goroutine", cons, l.w.At(in), "not waited for")
					continue
				}
				added := false
				for _, a := range adds {
					c := a.Common()
					n, isC := constInt(c.Args[len(c.Args)-1])
					if dominatesInstr(a, in) && (!isC || n == 1 || n > 1) {
						added = true
						// one for each goroutine: in the same loop
						if isC && n == 1 && !sameLoop(a.Block(), in.Block()) {
							added = false
						}
					}
				}
				l.r.check("counted", cons, l.w.At(in), added, "the goroutine is not counted before it starts")
				l.r.check("done", cons, l.w.At(in), doneOnce(x), "the goroutine does not say that it is done exactly once on every path, also when it panics")
				waited := len(waits) > 0
				if waited {
					// every way from the start to the end passes the wait
					if ret := reachFrom(in.Block(), instrIndex(in)+1, func(i ssa.Instruction) int {
						if c, ok := i.(ssa.CallInstruction); ok && wgCall(c.Common(), "Wait") {
							return -1
						}
						if _, ok := i.(*ssa.Return); ok {
							return 1
						}
						return 0
					}); ret != nil {
						waited = false
					}
					for _, wt := range waits {
						if _, isDefer := wt.(*ssa.Defer); isDefer && dominatesInstr(wt, in) {
							waited = false // the result is returned before
						}
					}
				}
				l.r.check("waited", cons, l.w.At(in), waited, "the function can end before the goroutine it started")
				// What the goroutine makes is used after the wait only.
			}
		})
	}
}

func sameLoop(a, b *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	inLoop := func(x, y *ssa.BasicBlock) bool { // y reaches x
		return reachFrom(y, 0, func(i ssa.Instruction) int {
			if i.Block() == x && len(x.Instrs) > 0 {
				return 1
			}
			return 0
		}) != nil
	}
	// both on a common cycle, or neither on one
	return inLoop(a, b) || !onCycle(b)
}

func onCycle(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b || reachFrom(s, 0, func(i ssa.Instruction) int {
			if i.Block() == b {
				return 1
			}
			return 0
		}) != nil {
			return true
		}
	}
	return false
}

// doneOnce: Done is deferred before anything else can happen, or is the last
// call on every path of a function that makes no other calls.
func doneOnce(f *ssa.Function) bool {
	var defers, others []ssa.CallInstruction
	calls := 0
	instrs(f, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if wgCall(c.Common(), "Done") {
			if _, isD := in.(*ssa.Defer); isD {
				defers = append(defers, c)
			} else {
				others = append(others, c)
			}
			return
		}
		calls++
	})
	// A deferred closure that says so.
	instrs(f, func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok {
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				if ds := wgUse(g, "Done"); len(ds) == 1 && ds[0].Block() == g.Blocks[0] {
					defers = append(defers, d)
					calls--
				}
			}
		}
	})
	if len(defers) == 1 && len(others) == 0 {
		d := defers[0]
		if d.Block() != f.Blocks[0] {
			return false
		}
		for _, in := range f.Blocks[0].Instrs {
			if in == d {
				return true
			}
			if _, ok := in.(*ssa.Call); ok {
				return false
			}
		}
	}
	return false
}
