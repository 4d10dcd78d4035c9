package ai

import (
	"go/types"
	"math"
)

// eval computes an expression under an assignment of its atoms. Integers are int64 (uint64 when beyond it).
func eval(e *Expr, env map[*Expr]interface{}) (interface{}, bool) {
	if v, ok := env[e]; ok {
		return v, true
	}
	switch e.Op {
	case OConst:
		return e.C, true
	case OLin:
		s := e.L.C
		for _, t := range e.L.T {
			v, ok := eval(t.A, env)
			n, ok2 := v.(int64)
			if !ok || !ok2 {
				return nil, false
			}
			s += t.K * n
		}
		return s, true
	case OWrap, OConv:
		v, ok := eval(e.Args[0], env)
		if !ok {
			return nil, false
		}
		return convTo(v, e.T)
	case OBin:
		a, ok1 := eval(e.Args[0], env)
		b, ok2 := eval(e.Args[1], env)
		if !ok1 || !ok2 {
			return nil, false
		}
		return binop(e.Name, a, b, e.T)
	case OUn:
		a, ok := eval(e.Args[0], env)
		if !ok {
			return nil, false
		}
		n, ok := a.(int64)
		if !ok {
			return nil, false
		}
		switch e.Name {
		case "^":
			return convTo(^n, e.T)
		case "-":
			return convTo(-n, e.T)
		}
	case OLe, OEq0:
		v, ok := eval(e.Args[0], env)
		n, ok2 := v.(int64)
		if !ok || !ok2 {
			return nil, false
		}
		if e.Op == OLe {
			return n <= 0, true
		}
		return n == 0, true
	case OCmp:
		a, ok1 := eval(e.Args[0], env)
		b, ok2 := eval(e.Args[1], env)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch e.Name {
		case "==":
			return a == b, true
		}
		switch x := a.(type) {
		case float64:
			y, ok := b.(float64)
			if !ok {
				return nil, false
			}
			if e.Name == "<" {
				return x < y, true
			}
			return x <= y, true
		case string:
			y, ok := b.(string)
			if !ok {
				return nil, false
			}
			if e.Name == "<" {
				return x < y, true
			}
			return x <= y, true
		}
		return nil, false
	case ONot:
		v, ok := eval(e.Args[0], env)
		b, ok2 := v.(bool)
		if !ok || !ok2 {
			return nil, false
		}
		return !b, true
	case OBAnd, OBOr:
		a, ok1 := eval(e.Args[0], env)
		b, ok2 := eval(e.Args[1], env)
		x, _ := a.(bool)
		y, _ := b.(bool)
		if e.Op == OBAnd {
			if ok1 && !x || ok2 && !y {
				return false, true
			}
			return true, ok1 && ok2
		}
		if ok1 && x || ok2 && y {
			return true, true
		}
		return false, ok1 && ok2
	}
	return nil, false
}

// convTo converts a value to an integer or float type as Go does.
func convTo(v interface{}, t types.Type) (interface{}, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if b.Info()&types.IsFloat != 0 {
		switch x := v.(type) {
		case int64:
			if b.Kind() == types.Float32 {
				return float64(float32(x)), true
			}
			return float64(x), true
		case float64:
			if b.Kind() == types.Float32 {
				return float64(float32(x)), true
			}
			return x, true
		}
		return nil, false
	}
	if b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	var u uint64
	switch x := v.(type) {
	case int64:
		u = uint64(x)
	case uint64:
		u = x
	default:
		return nil, false
	}
	return fromBits(u, b), true
}

func fromBits(u uint64, b *types.Basic) interface{} {
	switch b.Kind() {
	case types.Int8:
		return int64(int8(u))
	case types.Int16:
		return int64(int16(u))
	case types.Int32:
		return int64(int32(u))
	case types.Uint8:
		return int64(uint8(u))
	case types.Uint16:
		return int64(uint16(u))
	case types.Uint32:
		return int64(uint32(u))
	case types.Uint, types.Uint64, types.Uintptr:
		if u > math.MaxInt64 {
			return u
		}
		return int64(u)
	}
	return int64(u)
}

func toBits(v interface{}) (uint64, bool) {
	switch x := v.(type) {
	case int64:
		return uint64(x), true
	case uint64:
		return x, true
	}
	return 0, false
}

// binop computes an integer or float operation at type t.
func binop(op string, a, b interface{}, t types.Type) (interface{}, bool) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if bt.Info()&types.IsFloat != 0 {
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch op {
		case "+":
			return x + y, true
		case "-":
			return x - y, true
		case "*":
			return x * y, true
		case "/":
			return x / y, true
		}
		return nil, false
	}
	if bt.Info()&types.IsString != 0 {
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 && op == "+" {
			return x + y, true
		}
		return nil, false
	}
	if bt.Info()&types.IsInteger == 0 {
		return nil, false
	}
	x, ok1 := toBits(a)
	y, ok2 := toBits(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	uns := bt.Info()&types.IsUnsigned != 0
	var r uint64
	switch op {
	case "+":
		r = x + y
	case "-":
		r = x - y
	case "*":
		r = x * y
	case "&":
		r = x & y
	case "|":
		r = x | y
	case "^":
		r = x ^ y
	case "&^":
		r = x &^ y
	case "<<":
		if y >= 64 {
			r = 0
		} else {
			r = x << y
		}
	case ">>":
		if uns {
			if y >= 64 {
				r = 0
			} else {
				r = x >> y
			}
		} else {
			if y >= 64 {
				y = 63
			}
			r = uint64(int64(x) >> y)
		}
	case "/", "%":
		if y == 0 {
			return nil, false
		}
		if uns {
			if op == "/" {
				r = x / y
			} else {
				r = x % y
			}
		} else {
			if int64(y) == -1 {
				if op == "/" {
					r = -x
				} else {
					r = 0
				}
			} else if op == "/" {
				r = uint64(int64(x) / int64(y))
			} else {
				r = uint64(int64(x) % int64(y))
			}
		}
	default:
		return nil, false
	}
	return fromBits(r, bt), true
}
