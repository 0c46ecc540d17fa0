package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/z"
)

// the codec of the harness
func enc(b []byte, u uint32) []byte {
	for u >= 128 {
		b = append(b, byte(u)|128)
		u >>= 7
	}
	return append(b, byte(u))
}

type wire struct {
	c net.Conn
	r *rand.Rand
}

func (w *wire) num() uint32 {
	var u uint64
	var b [1]byte
	for s := uint(0); ; s += 7 {
		if _, e := io.ReadFull(w.c, b[:]); e != nil {
			panic(e)
		}
		u |= uint64(b[0]&127) << s
		if b[0] < 128 {
			if u > 0xffffffff || s > 28 {
				panic(failure{"a number of more than 32 bits is sent"})
			}
			return uint32(u)
		}
		if s > 35 {
			panic(failure{"a number without end is sent"})
		}
	}
}

// put writes b cut anywhere.
func (w *wire) put(b []byte) {
	for len(b) > 0 {
		n := len(b)
		switch w.r.Intn(3) {
		case 0:
			n = 1
		case 1:
			n = 1 + w.r.Intn(7)
		}
		if n > len(b) {
			n = len(b)
		}
		w.c.Write(b[:n])
		b = b[n:]
	}
}

var wireDir string

func wireAddr() string {
	if wireDir == "" {
		wireDir, _ = os.MkdirTemp("", "vhw")
	}
	return fmt.Sprintf("%s/s%d", wireDir, time.Now().UnixNano())
}

func rNum(r *rand.Rand) uint32 {
	switch r.Intn(6) {
	case 0:
		return uint32(1) << uint(r.Intn(32))
	case 1:
		return uint32(1)<<uint(r.Intn(32)) - 1
	case 2:
		return 0xfffffeff - uint32(r.Intn(3))
	case 3:
		return r.Uint32()
	default:
		return uint32(2 + r.Intn(300))
	}
}

func rLitNum(r *rand.Rand) uint32 {
	for {
		if u := rNum(r); u >= 2 && u < uint32(crisp.MinProto) {
			return u
		}
	}
}

// withServer runs f as the server of a connection to a real client.
func withServer(c *Case, f func(w *wire), g func(cl *crisp.Client)) {
	addr := wireAddr()
	ln, e := net.Listen("unix", addr)
	if e != nil {
		panic(skipCase{})
	}
	defer os.Remove(addr)
	defer ln.Close()
	r := rand.New(rand.NewSource(c.R.Int63()))
	var fail interface{}
	var wg sync.WaitGroup
	wg.Add(1)
	var conn net.Conn
	var mu sync.Mutex
	go func() {
		defer wg.Done()
		defer func() {
			if x := recover(); x != nil {
				fail = x
				if conn != nil {
					conn.Close()
				}
			}
		}()
		k, e := ln.Accept()
		if e != nil {
			return
		}
		mu.Lock()
		conn = k
		mu.Unlock()
		k.SetDeadline(time.Now().Add(20 * time.Second))
		f(&wire{k, r})
	}()
	var cfail interface{}
	func() {
		defer func() { cfail = recover() }()
		cl, e := crisp.Dial("@" + addr)
		if e != nil {
			c.FailIf("C19", "Dial: %v", e)
		}
		defer cl.Close()
		g(cl)
	}()
	mu.Lock()
	if conn != nil {
		if cfail != nil {
			conn.Close()
		}
	}
	mu.Unlock()
	wg.Wait()
	if conn != nil {
		conn.Close()
	}
	if x, ok := fail.(failure); ok {
		c.FailIf("C19", "%s", x.msg)
	}
	if cfail != nil {
		panic(cfail)
	}
	if fail != nil {
		c.FailIf("C19", "the client breaks the connection or does not send what it should: %v", fail)
	}
}

func hello(w *wire) {
	var b []byte
	for _, x := range []byte("CRISP") {
		b = enc(b, uint32(x))
	}
	w.put(enc(b, 1))
}

func expect(w *wire, u uint32, what string) {
	if g := w.num(); g != u {
		panic(failure{fmt.Sprintf("%s: %d arrives instead of %d", what, g, u)})
	}
}

func runWire(c *Case) {
	switch c.Num % 6 {
	case 0:
		runExts(c)
	case 1, 2:
		runClient(c)
	case 3:
		runOver(c)
	default:
		runServed(c)
	}
}

func runExts(c *Case) {
	r := c.R
	x := crisp.NewExts()
	type used struct{ i, n int }
	ops := map[crisp.ProtoPoint]string{}
	for p := crisp.Reset; p != 0; p++ {
		ops[p] = "the operation " + p.String()
	}
	type inst struct {
		i  int
		id uint16
		n  uint8
		op []crisp.ProtoPoint
	}
	var ins []inst
	for k := 1 + r.Intn(12); k > 0; k-- {
		id := uint16(r.Intn(1 << 16))
		n := uint8(r.Intn(60))
		switch r.Intn(5) {
		case 0:
			n = uint8(r.Intn(256))
		case 1:
			n = uint8(r.Intn(3))
		}
		i, e := x.Install(id, n)
		c.Logf("x.Install(%d, %d) // %d, %v", id, n, i, e)
		c.Hit()
		if e != nil {
			continue
		}
		q := inst{i: i, id: id, n: n}
		for o := uint32(0); o < uint32(n); o++ {
			p := x.Op(i, o)
			if p < crisp.MinProto {
				c.FailIf("C19", "operation %d of extension %d is %d, which is data", o, i, uint32(p))
			}
			if u, ok := ops[p]; ok {
				c.FailIf("C19", "operation %d of extension %d is %d, as is %s", o, i, uint32(p), u)
			}
			ops[p] = fmt.Sprintf("operation %d of extension %d", o, i)
			q.op = append(q.op, p)
		}
		ins = append(ins, q)
	}
	for _, q := range ins {
		if x.Id(q.i) != q.id {
			c.FailIf("C19", "extension %d has the id %d, not %d", q.i, x.Id(q.i), q.id)
		}
		for o, p := range q.op {
			if x.Op(q.i, uint32(o)) != p {
				c.FailIf("C19", "operation %d of extension %d changes", o, q.i)
			}
		}
	}
}

// runClient is a real client against the server of the harness.
func runClient(c *Case) {
	r := c.R
	type op struct {
		kind int
		a    []uint32
		b    []uint32
		bits []bool
		x    bool
	}
	var ops []op
	for k := 1 + r.Intn(8); k > 0; k-- {
		o := op{kind: r.Intn(8)}
		n := r.Intn(10)
		if r.Intn(6) == 0 {
			n = 200 + r.Intn(300)
		}
		for i := 0; i < n; i++ {
			o.a = append(o.a, rLitNum(r))
		}
		for i := r.Intn(10); i > 0; i-- {
			o.b = append(o.b, rLitNum(r))
		}
		nb := 32 * r.Intn(5)
		if r.Intn(8) == 0 {
			nb = 32 * r.Intn(60)
		}
		for i := 0; i < nb; i++ {
			o.bits = append(o.bits, r.Intn(2) == 0)
		}
		o.x = r.Intn(3) == 0
		if o.kind < 3 && n == 0 {
			continue // nothing is sent
		}
		if o.kind < 2 && len(ops) > 0 && ops[len(ops)-1].kind < 2 {
			continue // would be one addition with the one before
		}
		ops = append(ops, o)
	}
	ops = append(ops, op{kind: 5})
	block := func(bits []bool) []byte {
		b := enc(nil, uint32(len(bits)/32))
		for i := 0; i < len(bits); i += 32 {
			u := uint32(0)
			for j := 0; j < 32; j++ {
				if bits[i+j] {
					u |= 1 << uint(j)
				}
			}
			b = enc(b, u)
		}
		return b
	}
	list := func(us []uint32) []byte {
		var b []byte
		for _, u := range us {
			b = enc(b, u)
		}
		return enc(b, 0)
	}
	lits := func(us []uint32) []z.Lit {
		var ms []z.Lit
		for _, u := range us {
			ms = append(ms, z.Lit(u))
		}
		return ms
	}
	server := func(w *wire) {
		hello(w)
		for _, o := range ops {
			switch o.kind {
			case 0, 1:
				if len(o.a) > 0 {
					expect(w, uint32(crisp.Add), "add")
					for i, u := range o.a {
						expect(w, u, fmt.Sprintf("literal %d of an addition", i))
					}
					expect(w, 0, "end of clause")
					expect(w, uint32(crisp.End), "end of addition")
				}
			case 2:
				if len(o.a) > 0 {
					expect(w, uint32(crisp.Assume), "assume")
					for i, u := range o.a {
						expect(w, u, fmt.Sprintf("assumption %d", i))
					}
					expect(w, 0, "end of assumptions")
				}
			case 3, 4, 5:
				expect(w, uint32(crisp.Solve), "solve")
				w.put(enc(nil, uint32(crisp.Unknown)))
				expect(w, uint32(crisp.Continue), "continue")
				w.put(enc(nil, uint32(crisp.Sat)))
				if o.kind == 3 {
					expect(w, uint32(crisp.Model), "model")
					w.put(block(o.bits))
				}
				if o.kind == 4 {
					expect(w, uint32(crisp.ModelFor), "modelfor")
					for i, u := range o.a {
						expect(w, u, fmt.Sprintf("literal %d of a model request", i))
					}
					expect(w, 0, "end of a model request")
					w.put(block(o.bits))
				}
			default:
				expect(w, uint32(crisp.Solve), "solve")
				w.put(enc(nil, uint32(crisp.Unsat)))
				if o.kind == 6 {
					expect(w, uint32(crisp.Failed), "failed")
					w.put(list(o.a))
				} else {
					expect(w, uint32(crisp.FailedFor), "failedfor")
					for i, u := range o.a {
						expect(w, u, fmt.Sprintf("literal %d of a failed request", i))
					}
					expect(w, 0, "end of a failed request")
					w.put(list(o.b))
				}
			}
		}
	}
	client := func(cl *crisp.Client) {
		for _, o := range ops {
			c.Hit()
			switch o.kind {
			case 0, 1:
				if len(o.a) > 0 {
					for _, m := range lits(o.a) {
						if e := cl.Add(m); e != nil {
							c.FailIf("C19", "Add: %v", e)
						}
					}
					cl.Add(0)
					c.Logf("cl.Add of %v 0", o.a)
					// the next request ends the addition
				}
			case 2:
				c.Logf("cl.Assume(%v...)", o.a)
				if e := cl.Assume(lits(o.a)...); e != nil {
					c.FailIf("C19", "Assume: %v", e)
				}
			case 3, 4, 5:
				c.Logf("cl.Solve()")
				if v, e := cl.Solve(); v != 1 || e != nil {
					c.FailIf("C19", "Solve is %d, %v", v, e)
				}
				var dst []bool
				if o.x {
					dst = make([]bool, r.Intn(100))
					for i := range dst {
						dst[i] = r.Intn(2) == 0
					}
				}
				var vs []bool
				var e error
				if o.kind == 3 {
					vs, e = cl.Model(dst)
				} else if o.kind == 4 {
					vs, e = cl.ModelFor(dst, lits(o.a))
				} else {
					continue
				}
				if e != nil || len(vs) < len(o.bits)+1 {
					c.FailIf("C19", "a model of %d values arrives with length %d, %v", len(o.bits), len(vs), e)
				}
				for i, b := range o.bits {
					if vs[i+1] != b {
						c.FailIf("C19", "value %d of %d of a model (request %d) arrives as %v", i, len(o.bits), o.kind, vs[i+1])
					}
				}
				if o.kind == 3 {
					for i, b := range o.bits {
						if v, e := cl.Value(z.Var(i + 1).Pos()); v != b || e != nil {
							c.FailIf("C19", "Value(%d) is %v, %v", i+1, v, e)
						}
						if v, e := cl.Value(z.Var(i + 1).Neg()); v == b || e != nil {
							c.FailIf("C19", "Value(-%d) is %v, %v", i+1, v, e)
						}
					}
				}
			default:
				if v, e := cl.Solve(); v != -1 || e != nil {
					c.FailIf("C19", "Solve is %d, %v", v, e)
				}
				pre := []z.Lit{7, 9}[:r.Intn(3)]
				want := o.a
				var got []z.Lit
				var e error
				if o.kind == 6 {
					got, e = cl.Why(pre)
				} else {
					want = o.b
					got, e = cl.WhySelect(pre, lits(o.a))
				}
				c.Logf("cl.Solve(); cl.Why or WhySelect (%v)", o.a)
				if e != nil {
					c.FailIf("C19", "Why: %v", e)
				}
				if len(got) == len(want)+len(pre) {
					got = got[len(pre):]
				}
				if fmt.Sprint(got) != fmt.Sprint(lits(want)) && len(got)+len(want) > 0 {
					c.FailIf("C19", "a list of %d literals arrives as %v, not %v", len(want), got, want)
				}
			}
		}
	}
	withServer(c, server, client)
}

// runOver sends numbers of more than 32 bits.
func runOver(c *Case) {
	r := c.R
	n := r.Intn(4)
	var good []uint32
	var b []byte
	for i := 0; i < n; i++ {
		good = append(good, rLitNum(r))
		b = enc(b, good[i])
	}
	var bad []byte
	over := true
	switch r.Intn(5) {
	case 0:
		bad = []byte{0x80, 0x80, 0x80, 0x80, 0x10}
	case 1:
		bad = []byte{byte(r.Intn(128)) | 128, byte(r.Intn(128)) | 128, byte(r.Intn(128)) | 128, byte(r.Intn(128)) | 128, byte(0x10 + r.Intn(0x70))}
	case 2:
		bad = []byte{0x82, 0x80, 0x80, 0x80, 0x80, 1}
	case 3:
		bad = []byte{0x82, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1}
	default:
		// the largest literal still passes
		over = false
		good = append(good, uint32(crisp.MinProto)-1)
		bad = enc(nil, uint32(crisp.MinProto)-1)
	}
	b = append(b, bad...)
	b = enc(b, 0)
	c.Logf("the server sends the list % x", b)
	withServer(c, func(w *wire) {
		hello(w)
		expect(w, uint32(crisp.Solve), "solve")
		w.put(enc(nil, uint32(crisp.Unsat)))
		expect(w, uint32(crisp.Failed), "failed")
		w.put(b)
	}, func(cl *crisp.Client) {
		cl.Solve()
		got, e := cl.Why(nil)
		c.Hit()
		if over && e == nil {
			c.FailIf("C19", "a number of more than 32 bits is read as part of %v", got)
		}
		if !over && (e != nil || fmt.Sprint(got) != fmt.Sprint(toLits(good))) {
			c.FailIf("C19", "the list arrives as %v, %v", got, e)
		}
	})
}

func toLits(us []uint32) (ms []z.Lit) {
	for _, u := range us {
		ms = append(ms, z.Lit(u))
	}
	return
}

var served string

// runServed is a real client and a real server, with a proxy between them
// which cuts the stream anywhere.
func runServed(c *Case) {
	r := c.R
	if served == "" {
		log.SetOutput(io.Discard)
		a := wireAddr() + "real"
		s, e := crisp.NewServer("@" + a)
		if e != nil {
			panic(skipCase{})
		}
		go s.Serve()
		served = a
	}
	addr := wireAddr()
	ln, e := net.Listen("unix", addr)
	if e != nil {
		panic(skipCase{})
	}
	defer os.Remove(addr)
	defer ln.Close()
	seed := r.Int63()
	go func() {
		a, e := ln.Accept()
		if e != nil {
			return
		}
		b, e := net.Dial("unix", served)
		if e != nil {
			a.Close()
			return
		}
		pipe := func(from, to net.Conn, r *rand.Rand) {
			buf := make([]byte, 700)
			w := &wire{to, r}
			for {
				n, e := from.Read(buf[:1+r.Intn(len(buf))])
				w.put(buf[:n])
				if e != nil {
					from.Close()
					to.Close()
					return
				}
			}
		}
		go pipe(a, b, rand.New(rand.NewSource(seed)))
		pipe(b, a, rand.New(rand.NewSource(seed+1)))
	}()
	cl, e := crisp.Dial("@" + addr)
	if e != nil {
		c.FailIf("C19", "Dial: %v", e)
	}
	defer cl.Close()
	nv := 1 + r.Intn(12)
	gap := 1
	if r.Intn(3) == 0 {
		gap = 1 + r.Intn(40)
	}
	var cls [][]int
	mv := 0
	chk := func(e error, what string) {
		if e != nil {
			c.FailIf("C19", "%s: %v", what, e)
		}
	}
	for k := 1 + r.Intn(6); k > 0; k-- {
		for i := r.Intn(12); i > 0; i-- {
			var cl1 []int
			for j := 1 + r.Intn(3); j > 0; j-- {
				l := (1 + r.Intn(nv)) * gap
				if l > mv {
					mv = l
				}
				if r.Intn(2) == 0 {
					l = -l
				}
				cl1 = append(cl1, l)
				chk(cl.Add(lit(l)), "Add")
			}
			chk(cl.Add(0), "Add")
			cls = append(cls, cl1)
			c.Logf("add %v", cl1)
		}
		var as []int
		for i := r.Intn(4); i > 0 && mv > 0; i-- {
			l := 1 + r.Intn(mv)
			if r.Intn(2) == 0 {
				l = -l
			}
			as = append(as, l)
		}
		if len(as) > 0 {
			var ms []z.Lit
			for _, l := range as {
				ms = append(ms, lit(l))
			}
			chk(cl.Assume(ms...), "Assume")
			c.Logf("assume %v", as)
		}
		v, e := cl.Solve()
		chk(e, "Solve")
		c.Logf("solve: %d", v)
		c.Hit()
		sat := dpll(mv+1, cls, as)
		if sat != (v == 1) || v == 0 {
			c.FailIf("C19", "the remote solve of %v with %v is %d, satisfiable is %v", cls, as, v, sat)
		}
		if sat {
			var dst []bool
			if r.Intn(2) == 0 {
				dst = make([]bool, r.Intn(80))
			}
			var vs []bool
			switch r.Intn(3) {
			case 0:
				vs, e = cl.Model(dst)
				chk(e, "Model")
			case 1:
				var ms []z.Lit
				for i := 1; i <= mv; i++ {
					m := lit(i)
					if i%3 == 0 {
						m = m.Not()
					}
					ms = append(ms, m)
				}
				vs, e = cl.ModelFor(dst, ms)
				chk(e, "ModelFor")
				if len(vs) <= mv {
					c.FailIf("C19", "a model for %d literals has length %d", mv, len(vs))
				}
				for i := 3; i <= mv; i += 3 {
					vs[i] = !vs[i]
				}
			default:
				vs = make([]bool, mv+1)
				for i := 1; i <= mv; i++ {
					vs[i], e = cl.Value(lit(i))
					chk(e, "Value")
				}
			}
			val := func(l int) bool {
				if abs(l) >= len(vs) {
					c.FailIf("C19", "the model has length %d", len(vs))
				}
				return vs[abs(l)] == (l > 0)
			}
			for _, k := range cls {
				ok := false
				for _, l := range k {
					ok = ok || val(l)
				}
				if !ok {
					c.FailIf("C19", "the model arriving does not satisfy %v", k)
				}
			}
			for _, l := range as {
				if !val(l) {
					c.FailIf("C19", "the model arriving does not satisfy the assumption %d", l)
				}
			}
		} else {
			var ms []z.Lit
			if r.Intn(2) == 0 {
				ms, e = cl.Why(nil)
				chk(e, "Why")
			} else {
				var q []z.Lit
				for _, l := range as {
					q = append(q, lit(l))
				}
				ms, e = cl.WhySelect(nil, q)
				chk(e, "WhySelect")
			}
			var why []int
			for _, m := range ms {
				l := m.Dimacs()
				in := false
				for _, a := range as {
					in = in || a == l
				}
				if !in {
					c.FailIf("C19", "the failed literal %d was not assumed", l)
				}
				why = append(why, l)
			}
			if dpll(mv+1, cls, why) {
				c.FailIf("C19", "the failed literals %v arriving are no reason", why)
			}
		}
		if n, e := cl.GetExts(); r.Intn(2) == 0 && (n != 0 || e != nil) {
			c.FailIf("C19", "GetExts is %d, %v", n, e)
		}
		if r.Intn(6) == 0 {
			chk(cl.Reset(), "Reset")
			c.Logf("reset")
			cls, mv = nil, 0
		}
	}
}

func init() {
	checks["C19"] = &check{run: runWire, rule: "random numbers, lists and models through the real client against a server of the harness with its own codec, numbers of more than 32 bits, random extension installs, and random sessions of a real client with a real server through a proxy which cuts the stream anywhere."}
}
