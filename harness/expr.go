package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
)

// ---------------------------------------------------------------------------
// Reference evaluator and generator of constant expressions.
// ---------------------------------------------------------------------------

// RV is a reference value.
type RV struct {
	K    byte // i f b s t r l, 0 = evaluation must fail
	I    *big.Int
	F    float64
	B    bool
	S    string
	L, R int64
	Sec  int64
	Ns   int64
	List []RV
}

func (v RV) fits() bool { return v.K != 'i' || v.I.IsInt64() }

func rvInt(i int64) RV { return RV{K: 'i', I: big.NewInt(i)} }

var failRV = RV{}

// refEval evaluates integer and float expressions. env maps names to values.
func refEval(e *Expr, env map[string]RV) RV {
	switch e.K {
	case "int":
		return rvInt(e.I)
	case "id":
		if v, ok := env[e.S]; ok {
			return v
		}
		return failRV
	case "un":
		x := refEval(e.A[0], env)
		if x.K == 'f' {
			if e.S == "-" {
				x.F = -x.F
			}
			return x
		}
		if x.K != 'i' {
			return failRV
		}
		if e.S == "-" {
			return chk(new(big.Int).Neg(x.I))
		}
		return x
	case "list":
		v := RV{K: 'l'}
		for _, a := range e.A {
			x := refEval(a, env)
			if x.K == 0 {
				return failRV
			}
			v.List = append(v.List, x)
		}
		return v
	case "call":
		if len(e.A) != 1 {
			return failRV
		}
		x := refEval(e.A[0], env)
		switch e.S {
		case "bool":
			if x.K == 'i' {
				return RV{K: 'b', B: x.I.Sign() != 0}
			}
		case "ceil", "floor":
			if x.K == 'i' {
				return x
			}
			if x.K == 'f' {
				f := math.Floor(x.F)
				if e.S == "ceil" {
					f = math.Ceil(x.F)
				}
				b, _ := big.NewFloat(f).Int(nil)
				return chk(b)
			}
		case "log2", "log10":
			base := int64(2)
			if e.S == "log10" {
				base = 10
			}
			var f float64
			if x.K == 'i' {
				if x.I.Sign() <= 0 {
					return failRV
				}
				n := new(big.Int).Set(x.I)
				k := int64(0)
				m := new(big.Int)
				for {
					q, r := new(big.Int).QuoRem(n, big.NewInt(base), m)
					if r.Sign() != 0 {
						break
					}
					n = q
					k++
				}
				if n.Cmp(big.NewInt(1)) == 0 {
					return rvInt(k)
				}
				f, _ = new(big.Float).SetInt(x.I).Float64()
			} else if x.K == 'f' {
				f = x.F
				if f <= 0 {
					return failRV
				}
				for k := int64(0); k < 19; k++ {
					if f == math.Pow(float64(base), float64(k)) {
						return rvInt(k)
					}
				}
			} else {
				return failRV
			}
			return RV{K: 'f', F: math.Log(f) / math.Log(float64(base))}
		}
		return failRV
	case "bin":
		x, y := refEval(e.A[0], env), refEval(e.A[1], env)
		if x.K != 'i' || y.K != 'i' {
			return failRV
		}
		r := new(big.Int)
		switch e.S {
		case "+":
			return chk(r.Add(x.I, y.I))
		case "-":
			return chk(r.Sub(x.I, y.I))
		case "*":
			return chk(r.Mul(x.I, y.I))
		case "/":
			if y.I.Sign() == 0 {
				return failRV
			}
			q, m := new(big.Int).QuoRem(x.I, y.I, new(big.Int))
			if m.Sign() == 0 {
				return chk(q)
			}
			f, _ := new(big.Rat).SetFrac(x.I, y.I).Float64()
			return RV{K: 'f', F: f}
		case "%":
			if y.I.Sign() == 0 {
				return failRV
			}
			return chk(r.Rem(x.I, y.I))
		case "**":
			if !y.I.IsInt64() {
				return failRV
			}
			n := y.I.Int64()
			if n < 0 {
				if x.I.Sign() == 0 {
					return failRV
				}
				if x.I.IsInt64() && (x.I.Int64() == 1 || x.I.Int64() == -1) {
					if x.I.Int64() == 1 || n%2 == 0 {
						return rvInt(1)
					}
					return rvInt(-1)
				}
				f, _ := new(big.Float).SetInt(x.I).Float64()
				return RV{K: 'f', F: math.Pow(f, float64(n))}
			}
			if x.I.BitLen() > 1 && n > 64 {
				return failRV
			}
			if x.I.BitLen() <= 1 {
				// 0, 1, -1
				switch {
				case n == 0:
					return rvInt(1)
				case x.I.Sign() >= 0 || n%2 == 1:
					return chk(x.I)
				default:
					return rvInt(1)
				}
			}
			return chk(r.Exp(x.I, y.I, nil))
		case "<<":
			if y.I.Sign() < 0 {
				return failRV
			}
			if x.I.Sign() == 0 {
				return rvInt(0)
			}
			if y.I.Cmp(big.NewInt(64)) > 0 {
				return failRV
			}
			return chk(r.Lsh(x.I, uint(y.I.Int64())))
		case ">>":
			if y.I.Sign() < 0 {
				return failRV
			}
			if y.I.Cmp(big.NewInt(70)) > 0 {
				if x.I.Sign() < 0 {
					return rvInt(-1)
				}
				return rvInt(0)
			}
			return chk(r.Rsh(x.I, uint(y.I.Int64())))
		case ":":
			return RV{K: 'r', L: x.I.Int64(), R: y.I.Int64()}
		}
	case "text":
		return failRV // typed literals are handled by the generator
	}
	return failRV
}

func chk(b *big.Int) RV {
	if !b.IsInt64() {
		return failRV
	}
	return RV{K: 'i', I: b}
}

// EGen generates expressions.
type EGen struct {
	r   *rand.Rand
	env map[string]RV // visible integer names
	ids []string
}

func (g *EGen) lit() int64 {
	r := g.r
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 2
	case 3:
		return int64(1) << uint(r.Intn(63))
	case 4:
		return int64(1)<<uint(1+r.Intn(62)) - 1
	case 5:
		return r.Int63()
	case 6:
		return r.Int63n(1 << 20)
	default:
		return r.Int63n(40)
	}
}

// intExpr returns an expression that evaluates to an integer; its value is returned too.
func (g *EGen) intExpr(d int) (*Expr, *big.Int) {
	for try := 0; ; try++ {
		e := g.raw(d)
		v := refEval(e, g.env)
		if v.K == 'i' && okForExact(e, g.env) {
			return e, v.I
		}
		if try > 30 {
			d = 0
		}
	}
}

// okForExact rejects expressions whose value depends on unspecified behaviour:
// remainder with negative operands and logarithms of values that floating point cannot tell apart from powers.
func okForExact(e *Expr, env map[string]RV) bool {
	for _, a := range e.A {
		if !okForExact(a, env) {
			return false
		}
	}
	switch {
	case e.K == "bin" && e.S == "%":
		x, y := refEval(e.A[0], env), refEval(e.A[1], env)
		if x.K == 'i' && x.I.Sign() < 0 || y.K == 'i' && y.I.Sign() < 0 {
			return false
		}
	case e.K == "bin" && e.S == "/":
		x, y := refEval(e.A[0], env), refEval(e.A[1], env)
		if q := refEval(e, env); q.K == 'f' && x.K == 'i' && y.K == 'i' {
			if x.I.BitLen() > 40 || y.I.BitLen() > 40 {
				return false
			}
			// the distance from an integer must survive rounding
			if f := math.Abs(q.F - math.Round(q.F)); f < 1e-9*math.Max(1, math.Abs(q.F)) {
				return false
			}
		}
	case e.K == "bin" && e.S == "**":
		if v := refEval(e, env); v.K == 'f' && (v.F == 0 || math.Abs(v.F) < 1e-12) {
			return false
		}
	case e.K == "call" && (e.S == "log2" || e.S == "log10"):
		v := refEval(e, env)
		if v.K == 'f' {
			if f := math.Abs(v.F - math.Round(v.F)); f < 1e-9 {
				return false
			}
		}
	}
	return true
}

func (g *EGen) raw(d int) *Expr {
	r := g.r
	if d <= 0 || r.Intn(9) == 0 {
		if len(g.ids) > 0 && r.Intn(3) == 0 {
			return eID(g.ids[r.Intn(len(g.ids))])
		}
		return eInt(g.lit())
	}
	switch r.Intn(14) {
	case 0:
		return eUn(pick(r, "-", "+"), g.raw(d-1))
	case 1:
		return eCall(pick(r, "ceil", "floor"), g.flt(d-1))
	case 2:
		return eCall("log2", g.raw(d-1))
	case 3:
		if r.Intn(2) == 0 {
			return eCall("log10", eInt(pick(r, int64(1), 10, 100, 1000, 100000, 1000000000, 1000000000000000000)))
		}
		return eCall("log2", eInt(int64(1)<<uint(r.Intn(63))))
	case 4:
		return eBin("**", eInt(r.Int63n(12)), g.small(d-1))
	case 5:
		return eBin(pick(r, "<<", ">>"), g.raw(d-1), g.small(d-1))
	case 6:
		return eBin("%", g.raw(d-1), g.raw(d-1))
	case 7:
		return eBin("/", g.raw(d-1), g.raw(d-1))
	default:
		return eBin(pick(r, "+", "-", "*", "+", "-"), g.raw(d-1), g.raw(d-1))
	}
}

func (g *EGen) small(d int) *Expr {
	if d <= 0 || g.r.Intn(2) == 0 {
		return eInt(int64(g.r.Intn(20)))
	}
	return g.raw(d)
}

// flt returns an expression likely to be a float.
func (g *EGen) flt(d int) *Expr {
	r := g.r
	switch r.Intn(4) {
	case 3:
		return eUn(pick(r, "-", "+"), g.flt(d-1))
	case 0:
		return eCall(pick(r, "log2", "log10"), eInt(1+r.Int63n(1<<uint(1+r.Intn(38)))))
	case 1:
		return eBin("/", g.raw(d-1), eInt(1+r.Int63n(100)))
	default:
		return g.raw(d)
	}
}

// intExprFor builds an expression evaluating exactly to v.
func (g *EGen) intExprFor(v int64, d int) *Expr {
	r := g.r
	if d <= 0 || r.Intn(4) == 0 {
		for _, id := range g.ids {
			if x := g.env[id]; x.K == 'i' && x.I.IsInt64() && x.I.Int64() == v && r.Intn(2) == 0 {
				return eID(id)
			}
		}
		return eInt(v)
	}
	switch r.Intn(9) {
	case 0:
		k := r.Int63n(1000)
		return eBin("+", g.intExprFor(v-k, d-1), g.intExprFor(k, d-1))
	case 1:
		k := r.Int63n(1000)
		if v > math.MaxInt64-1000 {
			return eInt(v)
		}
		return eBin("-", g.intExprFor(v+k, d-1), g.intExprFor(k, d-1))
	case 2:
		for _, f := range []int64{7, 5, 3, 2} {
			if v%f == 0 {
				return eBin("*", g.intExprFor(v/f, d-1), g.intExprFor(f, d-1))
			}
		}
	case 3:
		if v > -1<<40 && v < 1<<40 {
			f := 1 + r.Int63n(50)
			return eBin("/", g.intExprFor(v*f, d-1), g.intExprFor(f, d-1))
		}
	case 4:
		if v >= 0 && v < 1<<40 {
			m := v + 1 + r.Int63n(50)
			return eBin("%", g.intExprFor(v+m*r.Int63n(9), d-1), g.intExprFor(m, d-1))
		}
	case 5:
		if v > 0 && v < 1<<40 {
			s := r.Int63n(8)
			return eBin(">>", g.intExprFor(v<<uint(s)+r.Int63n(int64(1)<<uint(s)), d-1), g.intExprFor(s, d-1))
		}
	case 6:
		if v >= 0 && v < 60 {
			return eCall("log2", g.pow2(v, d-1))
		}
		if v > 0 && v%2 == 0 {
			return eBin("<<", g.intExprFor(v/2, d-1), eInt(1))
		}
	case 7:
		if v > 1 && v < 1000000 {
			// ceil of a fraction just below
			m := 2 + r.Int63n(20)
			return eCall("ceil", eBin("/", g.intExprFor(v*m-1-r.Int63n(m-1), d-1), g.intExprFor(m, d-1)))
		}
	case 8:
		if v > 0 && v < 1000000 {
			m := 2 + r.Int63n(20)
			return eCall("floor", eBin("/", g.intExprFor(v*m+r.Int63n(m), d-1), g.intExprFor(m, d-1)))
		}
	}
	return eInt(v)
}

func (g *EGen) pow2(k int64, d int) *Expr {
	switch g.r.Intn(3) {
	case 0:
		return eBin("**", eInt(2), g.intExprFor(k, d-1))
	case 1:
		return eBin("<<", eInt(1), g.intExprFor(k, d-1))
	}
	return eInt(int64(1) << uint(k))
}

func exprString(e *Expr) string { return canonical().E(e) }

func sameFloat(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

func rvString(v RV) string {
	switch v.K {
	case 'i':
		return "integer " + v.I.String()
	case 'f':
		return fmt.Sprintf("float %v", v.F)
	case 'b':
		return fmt.Sprintf("bool %v", v.B)
	case 's':
		return fmt.Sprintf("string %q", v.S)
	case 'l':
		s := "list ["
		for _, x := range v.List {
			s += rvString(x) + " "
		}
		return s + "]"
	case 'r':
		return fmt.Sprintf("range %d:%d", v.L, v.R)
	}
	return "error"
}
