package main

// C01: what the content digests bind (spec/Layout.tla, spec/Merkle.tla).

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"sync"
)

type layT struct {
	Alg string `json:"alg"`
	L   int    `json:"l"`
	C   int    `json:"c"`
	Com int    `json:"com"`
}

type layOp struct {
	T   string `json:"t"`
	Sec string `json:"sec"`
	P   int    `json:"p"`
	Q   int    `json:"q"`
	N   int    `json:"n"`
}

type layCase struct {
	Lay layT   `json:"lay"`
	Op  layOp  `json:"op"`
	Res string `json:"res"`
}

// buildSized: a signed archive whose parts have exactly these sizes.
func buildSized(l layT) *built {
	const maxCom = 60000
	k := 1 + l.C/(50+maxCom)
	var local, cd bytes.Buffer
	bulk := l.L - k*(30+4)
	if bulk < 0 {
		fatal("layout %v: no room", l)
	}
	rest := l.C - k*50
	if rest < 0 {
		fatal("layout %v: no room in the directory", l)
	}
	for i := 0; i < k; i++ {
		n := 0
		if i == 0 {
			n = bulk
		}
		off := local.Len()
		name := fmt.Sprintf("f%03d", i)
		common := le(uint16(20), uint16(0), uint16(0), uint16(0), uint16(0x5421), uint32(0), uint32(n), uint32(n), uint16(4), uint16(0))
		local.Write(le(uint32(0x04034b50)))
		local.Write(common)
		local.WriteString(name)
		local.Write(content(fmt.Sprintf("n:%d:L", n)))
		com := rest
		if i < k-1 && com > maxCom {
			com = maxCom
		}
		rest -= com
		cd.Write(le(uint32(0x02014b50), uint16(20)))
		cd.Write(common)
		cd.Write(le(uint16(com), uint16(0), uint16(0), uint32(0), uint32(off)))
		cd.WriteString(name)
		cd.Write(content(fmt.Sprintf("n:%d:C%d", com, i)))
	}
	if local.Len() != l.L || cd.Len() != l.C {
		fatal("layout %v: made %d %d", l, local.Len(), cd.Len())
	}
	sg := map[string][]string{"c256": {"ec256"}, "c512": {"ec512"}, "verity": {"vec"}}[l.Alg]
	var signers []Signer
	if l.Alg == "multi" {
		for _, a := range []string{"ec256", "ec512", "vec"} {
			signers = append(signers, validSigner(a, "ecA", 0, 0))
		}
	} else {
		signers = []Signer{validSigner(sg[0], "ecA", 0, 0)}
	}
	a := &Apk{Zip: Zip{"none", "none", "ok", false, "none"}, Sb: SB{St: "ok", Dmg: "none", Pairs: []Pair{
		{ID: "pad", Fr: "ok", Signers: []Signer{}, Data: "padding"}, {ID: "v2", Fr: "ok", Signers: signers}}}}
	b := &built{apk: a, dcache: map[string][]byte{}, blocks: map[string][]byte{}, roles: map[string][2]int{}}
	b.assemble(local.Bytes(), cd.Bytes(), k, content(fmt.Sprintf("n:%d:E", l.Com)))
	return b
}

// tamper does to the bytes what Apply of Layout.tla does to the symbolic file.
func (b *built) tamper(op layOp) []byte {
	cat := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
	sec := map[string][]byte{"local": b.before, "cd": b.cd, "eocd": cat(b.eocd)}
	sb := b.data[b.sbOff:b.sbEnd]
	s, p, q, n := sec[op.Sec], op.P, op.Q, op.N
	size := len(b.cd)
	flipEocd := -1
	switch op.T {
	case "none":
	case "flip":
		if op.Sec == "eocd" {
			flipEocd = p
		} else {
			s = cat(s)
			s[p] ^= 0x10
			sec[op.Sec] = s
		}
	case "del":
		sec[op.Sec] = cat(s[:p], s[p+n:])
	case "ins":
		sec[op.Sec] = cat(s[:p], make([]byte, n), s[p:])
	case "exch":
		sec[op.Sec] = cat(s[:p], s[q:q+n], s[p+n:q], s[p:p+n], s[q+n:])
	case "shift":
		l := len(b.before) - n
		sec["local"], sec["cd"] = b.before[:l], cat(b.before[l:], b.cd)
		size += n
	case "unshift":
		sec["local"], sec["cd"] = cat(b.before, b.cd[:n]), b.cd[n:]
		size -= n
	case "comgrow":
		e := cat(b.eocd, make([]byte, n))
		binary.LittleEndian.PutUint16(e[20:], uint16(len(e)-22))
		sec["eocd"] = e
	case "block": // the first pair is padding: its value starts after sizes and id
		sb = cat(sb)
		sb[8+12+50] ^= 1
	case "growblock":
		ln := binary.LittleEndian.Uint64(sb[8:]) + uint64(n)
		total := uint64(len(sb)-8) + uint64(n)
		sb = cat(le(total), le(ln), sb[16:20], make([]byte, n), sb[20:len(sb)-24], le(total), sb[len(sb)-16:])
	default:
		fatal("layout: op %q", op.T)
	}
	e := sec["eocd"]
	binary.LittleEndian.PutUint32(e[12:], uint32(size))
	binary.LittleEndian.PutUint32(e[16:], uint32(len(sec["local"])+len(sb)))
	if flipEocd >= 0 {
		e[flipEocd] ^= 0x10
	}
	return cat(sec["local"], sb, sec["cd"], e)
}

func (c layCase) run(b *built) string {
	tb := *b
	tb.data = b.tamper(c.Op)
	res := observe(&tb, "block", 24, 27).Res
	if res == "notfound" {
		res = "rej"
	}
	return res
}

func layoutEngine(r *report, prop, tier string, seed int) {
	maxLen, sym := 6, "{0, 1}"
	if tier == "thorough" {
		maxLen, sym = 9, "{0, 1}"
	}
	st := runTLC("Merkle", fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Pg = 2\nCONSTANT Fan = 2\nCONSTANT MaxLen = %d\nCONSTANT Sym = %s\nINVARIANT Binds\nCHECK_DEADLOCK FALSE\n", maxLen, sym), seed, nil, nil, func(string) {})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct

	groups := map[layT][]layCase{}
	st = runTLC("Layout", fmt.Sprintf("SPECIFICATION Spec\nCONSTANT Tier = %q\nINVARIANT Holds\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", tier), seed, nil, nil, func(s string) {
		var c layCase
		if err := json.Unmarshal([]byte(s), &c); err != nil {
			fatal("layout case: %v: %.200s", err, s)
		}
		groups[c.Lay] = append(groups[c.Lay], c)
	})
	r.spec.Generated += st.Generated
	r.spec.Distinct += st.Distinct
	var lays []layT
	for l := range groups {
		lays = append(lays, l)
	}
	sort.Slice(lays, func(i, j int) bool { return fmt.Sprint(lays[i]) < fmt.Sprint(lays[j]) })
	debug.SetGCPercent(50)
	for _, l := range lays {
		b := buildSized(l)
		cs := groups[l]
		var mu sync.Mutex
		parallel(len(cs), func(i int) {
			c := cs[i]
			got := c.run(b)
			mu.Lock()
			defer mu.Unlock()
			r.calls++
			r.notes["layout_"+got]++
			if got != c.Res {
				r.viol = append(r.viol, violation{Prop: prop, Engine: "layout", What: fmt.Sprintf("content digest of %+v after %+v: specified %s, got %s", l, c.Op, c.Res, got), Extra: c})
			} else if c.Res == "acc" || c.Op.T == "exch" {
				if len(r.samples) < 8 {
					r.samples = append(r.samples, c)
				}
			}
		})
	}
	r.note("layouts", len(lays))
}

func init() {
	engines["C01"] = layoutEngine
	replayers["layout"] = func(v violation) string {
		var c layCase
		j, _ := json.Marshal(v.Extra)
		if err := json.Unmarshal(j, &c); err != nil {
			fatal("%v", err)
		}
		if got := c.run(buildSized(c.Lay)); got != c.Res {
			return fmt.Sprintf("specified %s, got %s", c.Res, got)
		}
		return ""
	}
}
