package spec

func step(name string) interface{} {
	switch AnyInt("kind of " + name) {
	case 0:
		return AnyString("key " + name)
	case 1:
		return AnyInt("index " + name)
	case 2:
		return AnyUint64("unsigned " + name)
	case 3:
		return AnyBool("neither " + name)
	}
	return nil
}

// SpecC11Set1: setting, one step
func SpecC11Set1() {
	v, c := AnyV("v"), AnyV("c")
	_, err := v.Set(c).At(step("0"))
	if err != nil {
		AssertUntouched("a failed set changes nothing")
	}
}

// SpecC11Set2: setting, two steps
func SpecC11Set2() {
	v, c := AnyV("v"), AnyV("c")
	_, err := v.Set(c).At(step("0"), step("1"))
	if err != nil {
		AssertUntouched("a failed set changes nothing")
	}
}

// SpecC11Set3: setting, three steps
func SpecC11Set3() {
	v, c := AnyV("v"), AnyV("c")
	p := AnyInt("i0")
	q := AnyString("k0")
	r := step("1")
	s := step("2")
	var err error
	if AnyBool("object") {
		_, err = v.Set(c).At(q, r, s)
	} else {
		_, err = v.Set(c).At(p, r, s)
	}
	if err != nil {
		AssertUntouched("a failed set changes nothing")
	}
}

// SpecC11SetSlice: the path given as a slice
func SpecC11SetSlice() {
	v, c := AnyV("v"), AnyV("c")
	var err error
	switch AnyInt("form") {
	case 0:
		_, err = v.Set(c).At([]interface{}{step("0"), step("1")})
	case 1:
		_, err = v.Set(c).At([]string{AnyString("k0"), AnyString("k1")})
	case 2:
		_, err = v.Set(c).At([]int{AnyInt("i0"), AnyInt("i1")}, step("1"))
	case 3:
		_, err = v.Set(c).At([]interface{}{})
	case 4:
		_, err = v.Set(c).At(step("0"), []string{AnyString("k0"), AnyString("k1")})
	}
	if err != nil {
		AssertUntouched("a failed set changes nothing")
	}
}

// SpecC11Insert1: inserting, one step
func SpecC11Insert1() {
	v, c := AnyV("v"), AnyV("c")
	var err error
	if AnyBool("after") {
		_, err = v.Insert(c).After(step("0"))
	} else {
		_, err = v.Insert(c).Before(step("0"))
	}
	if err != nil {
		AssertUntouched("a failed insertion changes nothing")
	}
}

// SpecC11Before2: inserting, two steps
func SpecC11Before2() {
	v, c := AnyV("v"), AnyV("c")
	_, err := v.Insert(c).Before(step("0"), step("1"))
	if err != nil {
		AssertUntouched("a failed insertion changes nothing")
	}
}

// SpecC11After2: inserting, two steps
func SpecC11After2() {
	v, c := AnyV("v"), AnyV("c")
	_, err := v.Insert(c).After(step("0"), step("1"))
	if err != nil {
		AssertUntouched("a failed insertion changes nothing")
	}
}

// SpecC11Insert3: inserting, three steps or a slice
func SpecC11Insert3() {
	v, c := AnyV("v"), AnyV("c")
	var err error
	switch AnyInt("form") {
	case 0:
		_, err = v.Insert(c).After(AnyString("k0"), AnyInt("i1"), step("2"))
	case 1:
		_, err = v.Insert(c).Before(AnyString("k0"), AnyString("k1"), step("2"))
	case 2:
		_, err = v.Insert(c).After([]interface{}{step("0"), step("1")})
	case 3:
		_, err = v.Insert(c).Before([]interface{}{step("0"), step("1")})
	case 4:
		_, err = v.Insert(c).Before([]int{AnyInt("i0"), AnyInt("i1")}, 1)
	}
	if err != nil {
		AssertUntouched("a failed insertion changes nothing")
	}
}

// SpecC11Append0: appending to the value itself
func SpecC11Append0() {
	v, c := AnyV("v"), AnyV("c")
	var err error
	if AnyBool("end") {
		_, err = v.Append(c).InTheEnd()
	} else {
		_, err = v.Append(c).InTheBeginning()
	}
	if err != nil {
		AssertUntouched("a failed append changes nothing")
	}
}

// SpecC11Append1: appending, one step
func SpecC11Append1() {
	v, c := AnyV("v"), AnyV("c")
	var err error
	if AnyBool("end") {
		_, err = v.Append(c).InTheEnd(step("0"))
	} else {
		_, err = v.Append(c).InTheBeginning(step("0"))
	}
	if err != nil {
		AssertUntouched("a failed append changes nothing")
	}
}

// SpecC11End2: appending, two steps
func SpecC11End2() {
	v, c := AnyV("v"), AnyV("c")
	_, err := v.Append(c).InTheEnd(step("0"), step("1"))
	if err != nil {
		AssertUntouched("a failed append changes nothing")
	}
}

// SpecC11Beginning2: appending, two steps
func SpecC11Beginning2() {
	v, c := AnyV("v"), AnyV("c")
	_, err := v.Append(c).InTheBeginning(step("0"), step("1"))
	if err != nil {
		AssertUntouched("a failed append changes nothing")
	}
}

// SpecC11Append3: appending, three steps or a slice
func SpecC11Append3() {
	v, c := AnyV("v"), AnyV("c")
	var err error
	switch AnyInt("form") {
	case 0:
		_, err = v.Append(c).InTheEnd(AnyString("k0"), AnyInt("i1"), step("2"))
	case 1:
		_, err = v.Append(c).InTheBeginning(AnyString("k0"), AnyString("k1"), step("2"))
	case 2:
		_, err = v.Append(c).InTheEnd([]interface{}{step("0"), step("1")})
	case 3:
		_, err = v.Append(c).InTheBeginning([]interface{}{step("0"), step("1")})
	case 4:
		_, err = v.Append(c).InTheEnd([]int{AnyInt("i0"), AnyInt("i1")}, 1)
	}
	if err != nil {
		AssertUntouched("a failed append changes nothing")
	}
}

// SpecC11Delete: deleting
func SpecC11Delete() {
	v := AnyV("v")
	var err error
	switch AnyInt("form") {
	case 0:
		err = v.Delete(step("0"))
	case 1:
		err = v.Delete(step("0"), step("1"))
	case 2:
		err = v.Delete(AnyString("k0"), step("1"), step("2"))
	case 3:
		err = v.Delete([]interface{}{step("0"), step("1")})
	case 4:
		err = v.Delete([]int{AnyInt("i0"), AnyInt("i1")}, 1)
	}
	if err != nil {
		AssertUntouched("a failed deletion changes nothing")
	}
}

// SpecC11DeleteCaseless: deleting regardless of case
func SpecC11DeleteCaseless() {
	v := AnyV("v")
	var err error
	if AnyBool("one") {
		err = v.Caseless().Delete(step("0"))
	} else {
		err = v.Caseless().Delete(step("0"), step("1"))
	}
	if err != nil {
		AssertUntouched("a failed deletion changes nothing")
	}
}

// SpecC11Unconvertible: the new value cannot be converted
func SpecC11Unconvertible() {
	v := AnyV("v")
	x := func() {}
	var err error
	switch AnyInt("operation") {
	case 0:
		_, err = v.Set(x).At(step("0"))
	case 1:
		_, err = v.Set(x).At(AnyString("k0"), step("1"))
	case 2:
		_, err = v.Insert(x).Before(step("0"))
	case 3:
		_, err = v.Insert(x).After(step("0"))
	case 4:
		_, err = v.Append(x).InTheEnd()
	case 5:
		_, err = v.Append(x).InTheBeginning()
	case 6:
		_, err = v.Append(x).InTheEnd(step("0"))
	case 7:
		_, err = v.Append(x).InTheBeginning(step("0"))
	case 8:
		v.At(step("0")).Set(x)
		AssertUntouched("an unconvertible value changes nothing")
		return
	default:
		return
	}
	Assert("an unconvertible value is refused", err != nil)
	AssertUntouched("an unconvertible value changes nothing")
}
