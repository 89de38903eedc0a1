package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04", Title: "Identity hashes cover kind and whole content unambiguously", Explain: "Hash of every kind is interpreted on a symbolic value of that kind; the bytes written into the hash object are collected as a sequence of pieces (constant bytes, fixed-width encodings, variable-length encodings of a named component). Rules: the sequence starts with a constant of the kind that no other kind uses; every component of the content occurs exactly once, in an encoding that determines it; a variable-length piece that is not last is preceded by its length; nothing that is not content is hashed. IsSameQ is interpreted on every pair of kinds.",
		Assume: []string{"math/big GobEncode, Text and String determine the number", "hash/fnv and encoding/binary behave as documented"},
		Run:    checkHash})
}

// A hashed byte string is a sequence of pieces.
type hpiece struct {
	fixed int    // number of bytes, or 0 for a variable-length encoding
	key   string // what is encoded
	c     []byte // known bytes
	inj   bool   // the encoding determines what it encodes
}

func (p hpiece) String() string {
	if p.c != nil {
		return fmt.Sprintf("bytes%v", p.c)
	}
	if p.fixed > 0 {
		return fmt.Sprintf("%d bytes of %s", p.fixed, p.key)
	}
	return "encoding of " + p.key
}

type hashRun struct {
	ai     *AI
	writes map[string][]hpiece // hash object -> pieces
	bytes  map[string]hpiece   // byte storage written by PutUint64
	err    string
	seeds  string
}

// describe the bytes of a slice or string value.
func (h *hashRun) describe(st *aState, v aVal) []hpiece {
	e, ok := v.single()
	if !ok {
		h.err = "hashes bytes that are not determined: " + v.String()
		return nil
	}
	switch e.Kind {
	case aNil:
		return nil
	case aConst:
		if e.C.Kind() == constant.String {
			return []hpiece{{fixed: len(constant.StringVal(e.C)), c: []byte(constant.StringVal(e.C)), inj: true}}
		}
	case aSlice:
		if cat, ok := h.ai.Cats[e.Key]; ok {
			return append(h.describe(st, one(cat[0])), h.describe(st, one(cat[1]))...)
		}
		if p, ok := h.bytes[h.bkey(st, e.Base)]; ok && e.Lo == 0 && e.N == p.fixed {
			return []hpiece{p}
		}
		if e.N >= 0 {
			var c []byte
			for i := 0; i < e.N; i++ {
				b, ok := aiLoad(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), types.Typ[types.Uint8]).integer()
				if !ok {
					h.err = "hashes a byte that is not determined"
					return nil
				}
				c = append(c, byte(b))
			}
			return []hpiece{{fixed: e.N, c: c, inj: true}}
		}
		return []hpiece{{key: e.Key, inj: injective(e.Key)}}
	case aSym:
		return []hpiece{{key: e.Key, inj: injective(e.Key)}}
	}
	h.err = "hashes bytes that are not determined: " + v.String()
	return nil
}

// the version of a reused buffer
func (h *hashRun) bkey(st *aState, base string) string {
	if v, ok := st.mem["$buf:"+base].str(); ok {
		return v
	}
	return ""
}

// injective: the encoding determines the value (kind known).
func injective(k string) bool {
	k = strings.TrimSuffix(k, "#")
	for strings.HasPrefix(k, "conv<[]byte>(") || strings.HasPrefix(k, "conv<[]uint8>(") || strings.HasPrefix(k, "conv<string>(") {
		k = strings.TrimSuffix(k[strings.Index(k, "(")+1:], ")")
	}
	switch {
	case strings.HasPrefix(k, "Int.GobEncode("), strings.HasPrefix(k, "Int.Text("), strings.HasPrefix(k, "Int.String("), strings.HasPrefix(k, "Int.MarshalText("),
		strings.HasPrefix(k, "Float.GobEncode("):
		return true
	}
	return !strings.ContainsAny(k, "(") // the text itself
}

func (h *hashRun) hook(ai *AI, fr *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	c := call.Common()
	var name string
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if callee != nil {
		name = callee.Name()
		switch callee.RelString(nil) {
		case "hash/fnv.New64a", "hash/fnv.New64", "hash/fnv.New128a":
			n := fr.freshName(call.(ssa.Value)) + "_fnv"
			st.mem["$fnv:"+n] = aStr("")
			return []aVal{one(aElem{Kind: aAddr, Key: n})}, true
		}
		if strings.HasPrefix(callee.RelString(nil), "(encoding/binary.littleEndian).") || strings.HasPrefix(callee.RelString(nil), "(encoding/binary.bigEndian).") {
			switch name {
			case "PutUint64", "PutUint32":
				w := 8
				if name == "PutUint32" {
					w = 4
				}
				b, ok := args[1].single()
				if !ok || b.Kind != aSlice || b.Lo != 0 {
					h.err = "encodes a number into unknown bytes"
					return nil, true
				}
				k := fmt.Sprintf("buf%d", len(h.bytes))
				v := args[2]
				h.bytes[k] = hpiece{fixed: w, key: "u64(" + v.key() + ")", inj: w == 8}
				if n, ok := v.integer(); ok {
					h.bytes[k] = hpiece{fixed: w, key: fmt.Sprintf("u64(%d)", n), inj: true}
				}
				st.mem["$buf:"+b.Base] = aStr(k)
				return nil, true
			case "AppendUint64":
				b, _ := args[1].single()
				k := fmt.Sprintf("buf%d", len(h.bytes))
				h.bytes[k] = hpiece{fixed: 8, key: "u64(" + args[2].key() + ")", inj: true}
				n := fr.freshName(call.(ssa.Value)) + "_u64"
				st.mem["$buf:"+n] = aStr(k)
				piece := aElem{Kind: aSlice, Key: n, Base: n, N: 8}
				if ai.Cats == nil {
					ai.Cats = map[string][2]aElem{}
				}
				ai.Cats["cat:"+n] = [2]aElem{b, piece}
				return []aVal{one(aElem{Kind: aSlice, Key: "cat:" + n, Base: "cat:" + n, N: -1})}, true
			}
		}
		if callee.RelString(nil) == "io.WriteString" {
			name = "Write"
		}
	}
	if len(args) == 0 {
		return nil, false
	}
	e, ok := args[0].single()
	if !ok {
		return nil, false
	}
	if _, isFnv := st.mem["$fnv:"+e.Key]; isFnv {
		switch name {
		case "Write", "WriteString":
			ps := h.describe(st, args[1])
			log, _ := st.mem["$fnv:"+e.Key].str()
			for _, p := range ps {
				id := fmt.Sprintf("p%d", len(h.writes["all"]))
				h.writes["all"] = append(h.writes["all"], p)
				log += id + ","
			}
			st.mem["$fnv:"+e.Key] = aStr(log)
			return []aVal{aTop, aNilV}, true
		case "Sum64":
			log, ok := st.mem["$fnv:"+e.Key].str()
			if !ok {
				h.err = "the hashed bytes depend on the path taken: " + st.mem["$fnv:"+e.Key].String()
				return []aVal{aTop}, true
			}
			return []aVal{aSymV("fnv<" + log + ">")}, true
		case "Reset":
			st.mem["$fnv:"+e.Key] = aStr("")
			return nil, true
		}
		h.err = "unknown operation " + name + " on a hash"
		return tops(c.Signature().Results().Len()), true
	}
	// the hash of a part
	if name == "Hash" && c.Signature().Results().Len() == 1 && len(args) == 1 && e.Key != "x" {
		return []aVal{aSymV("H:" + e.Key)}, true
	}
	return nil, false
}

// run Hash on the abstract object x of a kind.
func runHash(w *World, k atomKind, reim []atomKind, nparts int) ([]hpiece, string) {
	fn := w.Fn(pkgAtoms, string(k)+".Hash")
	ai := NewAI(w)
	ai.LoopBound = nparts + 4
	mem := aMem{}
	var v aVal
	if k == kExpr {
		var parts []aVal
		for i := 0; i < nparts; i++ {
			parts = append(parts, w.mkAtom(mem, fmt.Sprintf("q%d", i), kSymb))
		}
		v = w.mkExpr(mem, "x", parts...)
	} else {
		v = w.mkAtom(mem, "x", k, reim...)
		numRegister(ai, mem)
	}
	// no hash is cached
	st := w.Type(pkgAtoms, string(k)).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			mem["x."+st.Field(i).Name()] = aInt(0)
		}
	}
	h := &hashRun{ai: ai, writes: map[string][]hpiece{}, bytes: map[string]hpiece{}}
	ai.Hook = h.hook
	res, m := ai.Run(fn, []aVal{v}, mem)
	if h.err != "" {
		return nil, h.err
	}
	if len(res) != 1 {
		return nil, "no result " + ai.giveUps()
	}
	e, ok := res[0].single()
	if !ok || !strings.HasPrefix(e.Key, "fnv<") {
		return nil, fmt.Sprintf("the hash is %v, not a digest of the content %s", res[0], ai.giveUps())
	}
	// what is cached must be what is returned
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			f := m["x."+st.Field(i).Name()]
			if c, ok := f.integer(); ok && c == 0 {
				continue
			}
			if f.key() != e.Key {
				return nil, fmt.Sprintf("the value cached in %s is not the hash returned", st.Field(i).Name())
			}
		}
	}
	var out []hpiece
	for _, id := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(e.Key, "fnv<"), ">"), ",") {
		if id == "" {
			continue
		}
		var n int
		fmt.Sscanf(id, "p%d", &n)
		out = append(out, h.writes["all"][n])
	}
	// merge adjacent known bytes
	var mrg []hpiece
	for _, p := range out {
		if n := len(mrg); n > 0 && mrg[n-1].c != nil && p.c != nil {
			mrg[n-1].c = append(append([]byte{}, mrg[n-1].c...), p.c...)
			mrg[n-1].fixed += p.fixed
			continue
		}
		mrg = append(mrg, p)
	}
	return mrg, ""
}

// contentKeys: what must be determined by the hashed bytes of a kind.
func contentKeys(k atomKind, n int) []string {
	switch k {
	case kInt, kFlt:
		return []string{"num:x"}
	case kRat:
		return []string{"num:xn", "num:xd"}
	case kCplx:
		return []string{"H:xre", "H:xim"}
	case kStr, kSymb:
		return []string{"xs"}
	}
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, fmt.Sprintf("H:q%d", i))
	}
	return o
}

func checkHash(w *World, r *Report) {
	seeds := map[string]string{}
	check := func(k atomKind, reim []atomKind, n int) {
		fn := w.Fn(pkgAtoms, string(k)+".Hash")
		where := w.Pos(fn.Pos())
		key := string(k)
		if k == kExpr {
			key = fmt.Sprintf("%s of %d parts", k, n)
		}
		ps, err := runHash(w, k, reim, n)
		r.count("hash_runs", 1)
		if err != "" {
			r.bad("hash-covers-content", key, where, "%s", err)
			return
		}
		var descr []string
		for _, p := range ps {
			descr = append(descr, p.String())
		}
		text := strings.Join(descr, " ++ ")
		if len(ps) == 0 || ps[0].c == nil || len(ps[0].c) < 8 {
			r.bad("hash-tagged-by-kind", key, where, "the hashed bytes (%s) do not begin with a constant of at least 8 bytes that names the kind", text)
			return
		}
		tag := string(ps[0].c[:8])
		if o, dup := seeds[tag]; dup && o != string(k) {
			r.bad("hash-tagged-by-kind", key, where, "the kind constant is also used for %s", o)
			return
		}
		seeds[tag] = string(k)
		// contents in order, each exactly once, unambiguous
		var want = contentKeys(k, n)
		var got []string
		for i, p := range ps[1:] {
			if p.c != nil {
				continue
			}
			if !p.inj {
				r.bad("hash-covers-content", key, where, "%s does not determine the content", p)
				return
			}
			content := ""
			for _, wk := range want {
				if hasWord(p.key, wk) && !strings.Contains(p.key, "len(") {
					content = wk
				}
			}
			if content == "" {
				if p.fixed > 0 && strings.Contains(p.key, "len(") {
					continue // a length prefix
				}
				r.bad("hash-covers-content", key, where, "%s is hashed, which is not part of the value: equal values could hash differently", p)
				return
			}
			got = append(got, content)
			if p.fixed == 0 && i+2 < len(ps) {
				// variable length and not last: its length must be hashed before
				ok := false
				for _, q := range ps[:i+1] {
					if q.fixed > 0 && q.c == nil && strings.Contains(q.key, "len(") && strings.Contains(q.key, strings.TrimSuffix(p.key, "#")) {
						ok = true
					}
				}
				if !ok {
					r.bad("hash-unambiguous", key, where, "%s has variable length and is followed by more bytes, so that different values hash the same bytes (%s)", p, text)
					return
				}
			}
		}
		sort.Strings(want)
		g := append([]string{}, got...)
		sort.Strings(g)
		if strings.Join(want, ",") != strings.Join(g, ",") {
			r.bad("hash-covers-content", key, where, "the hash covers %v, the content is %v", got, want)
			return
		}
		r.ok("hash-covers-content", key, where, "hashes a kind constant and every part of the content, unambiguously: %.200s", text)
	}
	for _, k := range []atomKind{kInt, kRat, kFlt, kStr, kSymb} {
		check(k, nil, 0)
	}
	check(kCplx, []atomKind{kInt, kRat}, 0)
	for _, n := range []int{1, 2, 3, 5, 8, 20, 40, 66} {
		check(kExpr, nil, n)
	}
	r.count("kind_constants", len(seeds))
	checkSameQ(w, r)
	r.atLeast("hash_runs", 14)
	r.atLeast("kind_constants", 7)
}

// hasWord: s mentions the symbol w.
func hasWord(s, w string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], w)
		if j < 0 {
			return false
		}
		j += i
		end := j + len(w)
		isW := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
		if (j == 0 || !isW(s[j-1])) && (end == len(s) || !isW(s[end])) {
			return true
		}
		i = j + 1
	}
}

// checkSameQ: IsSameQ is hash equality, except that reals agree within one unit
// in the last place.
func checkSameQ(w *World, r *Report) {
	fn := w.Fn(pkgAtoms, "IsSameQ")
	where := w.Pos(fn.Pos())
	bad := false
	for _, ka := range allKinds {
		for _, kb := range allKinds {
			if ka == kFlt && kb == kFlt {
				continue
			}
			ai := NewAI(w)
			mem := aMem{}
			mk := func(n string, k atomKind) aVal {
				if k == kExpr {
					return w.mkExpr(mem, n, w.mkAtom(mem, n+"h", kSymb))
				}
				return w.mkAtom(mem, n, k)
			}
			ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
				if n := calleeName(call, callee); n == "Hash" && len(args) == 1 {
					if e, ok := args[0].single(); ok {
						return []aVal{aSymV("H:" + e.Key)}, true
					}
				}
				return nil, false
			}
			va, vb := mk("a", ka), mk("b", kb)
			res, _ := ai.Run(fn, []aVal{va, vb}, mem)
			r.count("same_kind_pairs", 1)
			got := "none"
			if len(res) == 1 {
				got = res[0].key()
			}
			// a decided "different" for different kinds is as good
			if got == "(H:a==H:b)" || got == "false" && ka != kb {
				continue
			}
			bad = true
			r.bad("same-by-hash", string(ka)+","+string(kb), where, "IsSameQ of %s and %s is %s, expected equality of their hashes %s", ka, kb, got, ai.giveUps())
		}
	}
	fl := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 3.5, 1e300, -1e300, 1e-300, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64}
	for _, x := range append([]float64{}, fl...) {
		for i, d := 0, x; i < 3; i++ {
			d = math.Nextafter(d, math.Inf(1))
			fl = append(fl, d)
		}
		fl = append(fl, x*2, x*1.0000001)
	}
	for _, x := range fl {
		for _, y := range fl {
			ai := NewAI(w)
			mem := aMem{}
			va, vb := w.mkAtom(mem, "a", kFlt), w.mkAtom(mem, "b", kFlt)
			fc := func(f float64) aVal {
				c := constant.ToFloat(constant.MakeFloat64(f))
				k := "f" + c.ExactString()
				if f == 0 && math.Signbit(f) {
					k = "f-0"
				}
				return one(aElem{Kind: aConst, Key: k, C: c})
			}
			ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
				if callee != nil && callee.RelString(nil) == "(*math/big.Float).Float64" {
					if e, ok := args[0].single(); ok {
						if strings.HasPrefix(e.Key, "a") {
							return []aVal{fc(x), aInt(0)}, true
						}
						return []aVal{fc(y), aInt(0)}, true
					}
				}
				if n := calleeName(call, callee); n == "Hash" && len(args) == 1 {
					if e, ok := args[0].single(); ok {
						return []aVal{aSymV("H:" + e.Key)}, true
					}
				}
				return nil, false
			}
			res, _ := ai.Run(fn, []aVal{va, vb}, mem)
			r.count("real_pairs", 1)
			bx, by := int64(math.Float64bits(x)), int64(math.Float64bits(y))
			want := x == y || (math.Signbit(x) == math.Signbit(y) && bx-by <= 1 && by-bx <= 1)
			got, ok := false, false
			if len(res) == 1 {
				got, ok = res[0].boolean()
			}
			if !ok || got != want {
				if !bad {
					r.bad("reals-same-within-one-ulp", fmt.Sprintf("%v,%v", x, y), where, "IsSameQ of the reals %v and %v is %v, expected %v %s", x, y, res, want, ai.giveUps())
				}
				bad = true
			}
		}
	}
	if !bad {
		r.ok("same-by-hash", "IsSameQ", where, "for every pair of kinds sameness is equality of the hashes; two reals are the same exactly if they are equal or adjacent as 64-bit floats")
	}
}

func calleeName(call ssa.CallInstruction, callee *ssa.Function) string {
	if call.Common().IsInvoke() {
		return call.Common().Method.Name()
	}
	if callee != nil {
		return callee.Name()
	}
	return ""
}
