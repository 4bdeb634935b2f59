package transform

import "reflect"

//vc:pure (*regexp.Regexp).ReplaceAllString

//vc:target concat props=C08 safety=C03,C08 frame=C01,C08
func vcConcat(a, b interface{}, delimiter string) {
	v, err := concat(a, b, delimiter)
	sa, aok := a.(string)
	sb, bok := b.(string)
	switch {
	case a == nil && b == nil:
		vEnsures("C08: nothing joined with nothing is nothing", v == nil && err == nil)
	case a == nil:
		vEnsures("C08: a missing value is skipped", vSame(v, b) && err == nil)
	case b == nil:
		vEnsures("C08: a missing value is skipped", vSame(v, a) && err == nil)
	case aok && bok && (sa == "" || sb == ""):
		vEnsures("C08: the delimiter is only placed between two non-empty strings", vSame[interface{}](v, sa+sb) && err == nil)
	case aok && bok:
		vEnsures("C08: strings are joined with the delimiter", vSame[interface{}](v, sa+delimiter+sb) && err == nil)
	default:
		vEnsures("C08: only strings can be joined", v == nil && err != nil)
	}
	_ = reflect.TypeOf
}

//vc:target copyMap ret=specCopy props=C01,C07 safety=C03
func vcCopyMap(in map[string]interface{}) {
	out := copyMap(in)
	vEnsures("C01,C07: the copy has the entries of the original", vAllKeys(in, func(k string) bool {
		a, aok := in[k]
		b, bok := out[k]
		return aok == bok && vSame(a, b)
	}))
	vEnsures("C01: the copy is a new map", vFresh(out))
}

func specCopy(in map[string]interface{}) map[string]interface{} { return vCopyMap(in) }

//vc:inv copyMap
func invCopyMap(p_in, modOut map[string]interface{}) bool {
	return vAllKeys(modOut, func(k string) bool {
		a, aok := p_in[k]
		b, bok := modOut[k]
		return bok == (aok && vSeen(k)) && (!bok || a == b)
	})
}

//vc:target replaceIndex props=C14 safety=C03,C14
func vcReplaceIndex(path string) {
	v := replaceIndex(path)
	vEnsures("C14: the indexes of the path are replaced", v == indexRe.ReplaceAllString(path, "[*]"))
}
