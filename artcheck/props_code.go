package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type flagSpec struct {
	typ   string
	flags map[string]int // name -> bit
}

func numbered(prefix string, n int) map[string]int {
	m := map[string]int{}
	for i := 1; i <= n; i++ {
		m[fmt.Sprintf("%s%d", prefix, i)] = i - 1
	}
	return m
}

var flagSpecs = []flagSpec{
	{"GoodInput", map[string]int{"Receive": 2, "Disabled": 3, "Text": 4, "SIP": 5, "Test": 6, "Data": 7}},
	{"GoodOutput", map[string]int{"ACN": 0, "LTP": 1, "Output": 2, "Merging": 3, "Text": 4, "SIP": 5, "Test": 6, "Data": 7}},
	{"Status1", map[string]int{"UBEA": 0, "RDM": 1, "BootROM": 2}},
	{"Status2", map[string]int{"Browser": 0, "DHCP": 1, "DHCPCapable": 2, "Port15": 3, "Switch": 4, "Squawk": 5}},
	{"SwMacro", numbered("Macro", 8)},
	{"SwRemote", numbered("Remote", 8)},
	{"TalkToMe", map[string]int{"ReplyOnChange": 1, "Diagnostics": 2, "DiagUnicast": 3, "VLC": 4}},
	{"PortType", map[string]int{"Input": 6, "Output": 7}},
}

type multiSpec struct {
	typ, name string
	lo, hi    int // bits [lo,hi)
	vals      map[string]int64
}

var multiSpecs = []multiSpec{
	{"Status1", "PortAddr", 4, 6, map[string]int64{"unknown": 0, "front": 1, "net": 2, "unused": 3}},
	{"Status1", "Indicator", 6, 8, map[string]int64{"unknown": 0, "locate": 1, "mute": 2, "normal": 3}},
	{"PortType", "Type", 0, 5, map[string]int64{"DMX512": 0, "MIDI": 1, "Avab": 2, "Colortran CMX": 3, "ADB 62.5": 4, "Art-Net": 5}},
}

// callMethod interprets a method of a code type on v.
func callMethod(r *Rep, x *Exec, s *State, typ, name string, args ...Value) (*ssa.Function, []Out) {
	fn := lookupFn(r.p.code, typ+"."+name)
	if fn == nil {
		return nil, nil
	}
	x.entry = typ + "." + name
	return fn, x.runFn(s, fn, args, nil, nil)
}

func propC08(r *Rep) {
	r.desc = "Every flag setter and getter is interpreted on a register of eight independent unknown bits: the result of a setter must be bit for bit the register with exactly that bit forced (bit provenance), a getter must return exactly that bit in both cases. For multi-valued fields every documented name must replace exactly the field's bits and read back as that name; an unknown name must leave every bit outside the field alone, and a code without a name must not read as a documented one."
	x := r.p.newExec()
	sym := func() (*State, *Int) {
		return x.entryState(), intAtom(atomNamed("v", 8, false))
	}
	for _, fs := range flagSpecs {
		for _, name := range sortedKeys(fs.flags) {
			bit := fs.flags[name]
			for _, on := range []bool{false, true} {
				s, v := sym()
				fn, outs := callMethod(r, x, s, fs.typ, "With"+name, v, cBool(on))
				if !r.check("setter", fn != nil && len(outs) > 0, "packet/code "+fs.typ, "no setter With%s", name) {
					continue
				}
				want := append([]Bit(nil), v.vec()...)
				want[bit] = bit0
				if on {
					want[bit] = bit1
				}
				for _, o := range outs {
					iv, _ := o.res.(*Int)
					r.check("setter", !o.pan && iv != nil && eqInts(o.s, iv, &Int{w: 8, bits: want}), r.fnPos(fn), "%s.With%s(%v) does not change exactly bit %d", fs.typ, name, on, bit)
				}
				s, v = sym()
				s.setBit(v.lin.t[0].a, bit, on)
				fn, outs = callMethod(r, x, s, fs.typ, name, v)
				if !r.check("getter", fn != nil && len(outs) > 0, "packet/code "+fs.typ, "no getter %s", name) {
					continue
				}
				for _, o := range outs {
					c, _ := o.res.(*Cond)
					r.check("getter", !o.pan && c != nil && o.s.decide(c) == b2i(on), r.fnPos(fn), "%s.%s does not report bit %d", fs.typ, name, bit)
				}
			}
		}
	}
	for _, m := range multiSpecs {
		for _, name := range sortedKeys(m.vals) {
			val := m.vals[name]
			s, v := sym()
			fn, outs := callMethod(r, x, s, m.typ, "With"+m.name, v, strLit(name))
			if !r.check("field setter", fn != nil && len(outs) > 0, "packet/code "+m.typ, "no setter With%s", m.name) {
				continue
			}
			want := append([]Bit(nil), v.vec()...)
			for k := m.lo; k < m.hi; k++ {
				want[k] = bit0
				if val>>uint(k-m.lo)&1 == 1 {
					want[k] = bit1
				}
			}
			for _, o := range outs {
				iv, _ := o.res.(*Int)
				r.check("field setter", !o.pan && iv != nil && eqInts(o.s, iv, &Int{w: 8, bits: want}), r.fnPos(fn), "%s.With%s(%q) does not set exactly bits %d to %d to %d", m.typ, m.name, name, m.lo, m.hi-1, val)
			}
			s, v = sym()
			for k := m.lo; k < m.hi; k++ {
				s.setBit(v.lin.t[0].a, k, val>>uint(k-m.lo)&1 == 1)
			}
			fn, outs = callMethod(r, x, s, m.typ, m.name, v)
			if !r.check("field getter", fn != nil && len(outs) > 0, "packet/code "+m.typ, "no getter %s", m.name) {
				continue
			}
			for _, o := range outs {
				st, _ := o.res.(*Str)
				l, ok := "", false
				if st != nil {
					l, ok = st.lit()
				}
				r.check("field getter", !o.pan && ok && l == name, r.fnPos(fn), "%s.%s does not read %q back", m.typ, m.name, name)
			}
		}
	}
	for _, m := range multiSpecs {
		// whatever the name, no other bit changes
		s, v := sym()
		fn, outs := callMethod(r, x, s, m.typ, "With"+m.name, v, x.symVal(s, types.Typ[types.String], "name", nil, ""))
		if r.check("other names", fn != nil && len(outs) > 0, "packet/code "+m.typ, "no setter With%s", m.name) {
			for _, o := range outs {
				iv, _ := o.res.(*Int)
				ok := !o.pan && iv != nil
				for k := 0; ok && k < 8; k++ {
					if k < m.lo || k >= m.hi {
						ok = eqInts(o.s, fromBits(bitsOf(iv, k, k+1)), fromBits(bitsOf(v, k, k+1)))
					}
				}
				r.check("other names", ok, r.fnPos(fn), "%s.With%s changes a bit outside bits %d to %d", m.typ, m.name, m.lo, m.hi-1)
			}
		}
		// a code without a name reads as none of the documented names
		named := map[int64]bool{}
		for _, c := range m.vals {
			named[c] = true
		}
		for c := int64(0); c < 1<<uint(m.hi-m.lo); c++ {
			if named[c] {
				continue
			}
			s, v := sym()
			for k := m.lo; k < m.hi; k++ {
				s.setBit(v.lin.t[0].a, k, c>>uint(k-m.lo)&1 == 1)
			}
			fn, outs := callMethod(r, x, s, m.typ, m.name, v)
			for _, o := range outs {
				st, _ := o.res.(*Str)
				l, ok := "", false
				if st != nil {
					l, ok = st.lit()
				}
				_, doc := m.vals[l]
				r.check("undefined code", !o.pan && (!ok || !doc), r.fnPos(fn), "%s.%s reads the undefined code %d as %q", m.typ, m.name, c, l)
			}
		}
	}
	r.panics(x, "no panic")
	r.absorb(x)
	r.atLeast("setter", 180, "packet/code")
	r.atLeast("getter", 180, "packet/code")
	r.atLeast("field setter", 28, "packet/code")
	r.atLeast("field getter", 28, "packet/code")
}

// ---------------------------------------------------------------------------
// C09
// ---------------------------------------------------------------------------

var opCodes = map[string]int64{
	"OpPoll": 0x2000, "OpPollReply": 0x2100, "OpDiagData": 0x2300, "OpCommand": 0x2400, "OpOutput": 0x5000, "OpNzs": 0x5100, "OpSync": 0x5200,
	"OpAddress": 0x6000, "OpInput": 0x7000, "OpTodRequest": 0x8000, "OpTodData": 0x8100, "OpTodControl": 0x8200, "OpRdm": 0x8300, "OpRdmSub": 0x8400,
	"OpVideoSetup": 0xa010, "OpVideoPalette": 0xa020, "OpVideoData": 0xa040, "OpMacMaster": 0xf000, "OpMacSlave": 0xf100, "OpFirmwareMaster": 0xf200,
	"OpFirmwareReply": 0xf300, "OpFileTnMaster": 0xf400, "OpFileFnMaster": 0xf500, "OpFileFnReply": 0xf600, "OpIPProg": 0xf800, "OpIPProgReply": 0xf900,
	"OpMedia": 0x9000, "OpMediaPatch": 0x9100, "OpMediaControl": 0x9200, "OpMediaContrlReply": 0x9300, "OpTimeCode": 0x9700, "OpTimeSync": 0x9800,
	"OpTrigger": 0x9900, "OpDirectory": 0x9a00, "OpDirectoryReply": 0x9b00,
}

var styleCodes = map[string]int64{"StNode": 0, "StController": 1, "StMedia": 2, "StRoute": 3, "StBackup": 4, "StConfig": 5, "StVisual": 6}

var priorityCodes = map[string]int64{"DpAll": 0, "DpLow": 0x10, "DpMed": 0x40, "DpHigh": 0x80, "DpCritical": 0xe0, "DpVolatile": 0xf0}

var reportCodes = map[string]int64{
	"RcDebug": 0, "RcPowerOk": 1, "RcPowerFail": 2, "RcSocketWr1": 3, "RcParseFail": 4, "RcUDPFail": 5, "RcShNameOk": 6, "RcLoNameOk": 7, "RcDmxError": 8,
	"RcDmxUDPFull": 9, "RcDmxRxFull": 0xa, "RcSwitchErr": 0xb, "RcConfigErr": 0xc, "RcDmxShort": 0xd, "RcFirmwareFail": 0xe, "RcUserFail": 0xf, "RcFactoryRes": 0x10,
}

type codeSpec struct {
	typ   string
	w     int
	vals  map[string]int64
	strip string // prefix not part of the rendered name
	valid string // predicate
}

var codeSpecs = []codeSpec{
	{"OpCode", 16, opCodes, "", "ValidOp"},
	{"StyleCode", 8, styleCodes, "St", "ValidStyle"},
	{"PriorityCode", 8, priorityCodes, "", ""},
	{"NodeReportCode", 8, reportCodes, "", ""},
}

func propC09(r *Rep) {
	r.desc = "The text rendering of every type of package code is interpreted on an unknown value (no operation that can panic may be left undischarged), on each defined code (exact name) and on the set of all undefined codes (type name and number); the validity predicates are interpreted on each defined code and on the set of all others; the values of the constants are read from the type-checked program and compared with Art-Net 4."
	x := r.p.newExec()
	// totality of every rendering
	var names []string
	for n, m := range r.p.code.Members {
		if _, ok := m.(*ssa.Type); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		t := r.p.code.Type(n).Type()
		fn := lookupFn(r.p.code, n+".String")
		if fn == nil {
			continue
		}
		s := x.entryState()
		x.entry = n + ".String"
		outs := x.runFn(s, fn, []Value{x.symVal(s, t, "v:"+n, nil, "")}, nil, nil)
		r.check("rendering is total", len(outs) > 0, r.fnPos(fn), "no path returns")
		for _, o := range outs {
			r.check("rendering is total", !o.pan, r.fnPos(fn), "a path ends in a panic")
		}
	}
	r.panics(x, "no panic")
	for _, c := range codeSpecs {
		fn := lookupFn(r.p.code, c.typ+".String")
		if !r.check("rendering exists", fn != nil, "packet/code", "%s has no String method", c.typ) {
			continue
		}
		at := atomNamed("code:"+c.typ, c.w, false)
		for _, n := range sortedKeys(c.vals) {
			want := strings.TrimPrefix(n, c.strip)
			s := x.entryState()
			for _, o := range x.runFn(s, fn, []Value{mkInt(c.w, false, c.vals[n])}, nil, nil) {
				st, _ := o.res.(*Str)
				l, ok := "", false
				if st != nil {
					l, ok = st.lit()
				}
				r.check("name of defined code", !o.pan && ok && l == want, r.fnPos(fn), "%s(%#x) does not render as %q but %s", c.typ, c.vals[n], want, vkey(o.res))
			}
		}
		undefined := func() (*State, *Int) {
			s := x.entryState()
			v := intAtom(at)
			for _, n := range sortedKeys(c.vals) {
				s.assume(cmpConst(v, c.vals[n]), false)
			}
			return s, v
		}
		s, v := undefined()
		for _, o := range x.runFn(s, fn, []Value{v}, nil, nil) {
			st, _ := o.res.(*Str)
			ok := st != nil && len(st.parts) == 3 && st.parts[0].lit == c.typ+"(" && st.parts[2].lit == ")" && st.parts[1].nm == "%d:"+v.key()
			r.check("rendering of undefined codes", !o.pan && ok, r.fnPos(fn), "an undefined %s may render as %s", c.typ, vkey(o.res))
		}
		if c.valid == "" {
			continue
		}
		pf := lookupFn(r.p.code, c.valid)
		if !r.check("predicate exists", pf != nil, "packet/code", "no %s", c.valid) {
			continue
		}
		for _, n := range sortedKeys(c.vals) {
			s := x.entryState()
			for _, o := range x.runFn(s, pf, []Value{mkInt(c.w, false, c.vals[n])}, nil, nil) {
				b, _ := o.res.(*Cond)
				r.check("predicate", !o.pan && b != nil && o.s.decide(b) == 1, r.fnPos(pf), "%s rejects %s", c.valid, n)
			}
		}
		s, v = undefined()
		for _, o := range x.runFn(s, pf, []Value{v}, nil, nil) {
			b, _ := o.res.(*Cond)
			r.check("predicate", !o.pan && b != nil && o.s.decide(b) == 0, r.fnPos(pf), "%s accepts undefined codes", c.valid)
		}
	}
	// constants
	for _, c := range codeSpecs {
		known := map[int64]bool{}
		for _, n := range sortedKeys(c.vals) {
			known[c.vals[n]] = true
			k, _ := r.p.code.Pkg.Scope().Lookup(n).(*types.Const)
			ok := false
			var got int64
			if k != nil {
				got, ok = constant.Int64Val(constant.ToInt(k.Val()))
			}
			r.check("constant value", ok && got == c.vals[n], "packet/code", "%s is %#x, Art-Net 4 says %#x", n, got, c.vals[n])
		}
		// every further constant of the type is an alias of a known one
		for _, n := range r.p.code.Pkg.Scope().Names() {
			k, _ := r.p.code.Pkg.Scope().Lookup(n).(*types.Const)
			if k == nil {
				continue
			}
			if nt, ok := types.Unalias(k.Type()).(*types.Named); !ok || nt.Obj().Name() != c.typ {
				continue
			}
			got, _ := constant.Int64Val(constant.ToInt(k.Val()))
			r.check("constant value", known[got], "packet/code", "%s = %#x is not an Art-Net 4 code of that kind", n, got)
			if n == "OpDMX" {
				r.check("constant value", got == 0x5000, "packet/code", "OpDMX is %#x", got)
			}
		}
	}
	// protocol version
	if vf := lookupFn(r.p.ver, "Bytes"); r.check("protocol version", vf != nil, "version", "no Bytes") {
		s := x.entryState()
		for _, o := range x.runFn(s, vf, nil, nil, nil) {
			n, _ := o.res.(*Node)
			ok := n != nil
			if ok {
				el := types.Typ[types.Uint8]
				ok = eqConst(o.s, x.nodeInt(o.s, x.elem(o.s, n, lc(0), el)), 0) && eqConst(o.s, x.nodeInt(o.s, x.elem(o.s, n, lc(1), el)), 14)
			}
			r.check("protocol version", !o.pan && ok, r.fnPos(vf), "the protocol version is not 0, 14")
		}
	}
	r.panics(x, "no panic")
	r.absorb(x)
	r.atLeast("rendering is total", 24, "packet/code")
	r.atLeast("name of defined code", 60, "packet/code")
	r.atLeast("protocol version", 2, "version")
}
