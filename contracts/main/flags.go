package main

import "strings"

// specCut: the parts of a pair before and after its first equals sign
//
//vc:merge
func specKey(pair string) string {
	if !strings.Contains(pair, "=") {
		return pair
	}
	return strings.SplitN(pair, "=", 2)[0]
}

//vc:merge
func specVal(pair string) string {
	if !strings.Contains(pair, "=") {
		return ""
	}
	return strings.SplitN(pair, "=", 2)[1]
}

func specGood(pair string) bool { return strings.Contains(pair, "=") }

// specLast: the last of the first n pairs with this key, -1 if there is none
//
//vc:rec
func specLast(pairs []string, k string, n int) int {
	if n <= 0 {
		return -1
	}
	if specKey(pairs[n-1]) == k {
		return n - 1
	}
	return specLast(pairs, k, n-1)
}

func reqFlags(mf *mapFlags, value string) bool { return mf != nil && mf.kv != nil }

//vc:target (*mapFlags).Set opaque=strings.Split req=reqFlags props=C25 safety=C25 frame=C25
func vcSet(mf *mapFlags, value string) {
	vRequires(reqFlags(mf, value))
	before := vCopyMap(mf.kv)
	vModifies(mf.kv)
	err := mf.Set(value)
	pairs := strings.Split(value, ",")
	good := vAll(len(pairs), func(i int) bool { return specGood(pairs[i]) })
	vEnsures("C25: an error exactly if a pair has no equals sign", (err == nil) == good)
	if err != nil {
		return
	}
	vEnsures("C25: the given pairs are added, later ones override earlier ones and pairs given before are kept", vAllKeys(mf.kv, func(k string) bool {
		v, ok := mf.kv[k]
		i := specLast(pairs, k, len(pairs))
		if i < 0 {
			o, was := before[k]
			return ok == was && (!was || v == o)
		}
		return ok && i < len(pairs) && v == specVal(pairs[i])
	}))
}

//vc:inv (*mapFlags).Set
func invGood(p_value string, iter int) bool {
	pairs := strings.Split(p_value, ",")
	return iter <= len(pairs) && vAll(iter, func(i int) bool { return specGood(pairs[i]) })
}

//vc:inv (*mapFlags).Set
func invSet(p_value string, modKV, modoldKV map[string]string, iter int) bool {
	pairs := strings.Split(p_value, ",")
	return vAllKeys(modKV, func(k string) bool {
		v, ok := modKV[k]
		i := specLast(pairs, k, iter)
		if i < 0 {
			o, was := modoldKV[k]
			return ok == was && (!was || v == o)
		}
		return i < len(pairs) && ok && v == specVal(pairs[i])
	})
}
