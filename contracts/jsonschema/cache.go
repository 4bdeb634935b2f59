package jsonschema

import (
	"errors"
	"sync"

	"golang.org/x/sync/singleflight"
)

// cached is the content of a sync.Map whose keys are strings.
func cached(m *sync.Map) map[string]interface{} { return vUF[map[string]interface{}]("sync_map", m) }

//vc:stub (*sync.Map).Load
func stubMapLoad(m *sync.Map, key interface{}) (interface{}, bool) {
	k, ok := key.(string)
	if !ok {
		vUnsupported("sync.Map with other keys than strings")
	}
	v, in := cached(m)[k]
	return v, in
}

//vc:stub (*sync.Map).Store
func stubMapStore(m *sync.Map, key, value interface{}) {
	k, ok := key.(string)
	if !ok {
		vUnsupported("sync.Map with other keys than strings")
	}
	c := cached(m)
	vAssume(c != nil)
	c[k] = value
}

// callers which wait for each other share the result of one call
//
//vc:stub (*golang.org/x/sync/singleflight.Group).Do
func stubDo(g *singleflight.Group, key string, fn func() (interface{}, error)) (interface{}, error, bool) {
	v, err := fn()
	return v, err, false
}

// only values of the type of the cache are stored in it
func reqCache(c *Cache[*Schema], key string, val *Schema, fail bool) bool {
	v, in := cached(&c.data)[key]
	_, ok := v.(*Schema)
	return !in || ok
}

//vc:target (*Cache[*Schema]).Load props=C18 safety=C18 frame=C18 nonative
func vcCacheLoad(c *Cache[*Schema], key string, val *Schema, fail bool) {
	vRequires(c != nil)
	vRequires(reqCache(c, key, val, fail))
	m := cached(&c.data)
	before := vCopyMap(m)
	vModifies(m)
	calls := 0
	failure := errors.New("builder")
	got, err := c.Load(key, func() (*Schema, error) {
		calls++
		if fail {
			return val, failure
		}
		return val, nil
	})
	old, had := before[key]
	now, has := m[key]
	switch {
	case had:
		vEnsures("C18: a cached value is returned without building", calls == 0 && err == nil && got == old.(*Schema))
		vEnsures("C18: a cached value stays", has && vSame(now, old))
	case fail:
		vEnsures("C18: the error of the builder is returned without a value", calls == 1 && vSame(err, failure) && got == nil)
		vEnsures("C18: failures are not cached", !has)
	default:
		vEnsures("C18: the built value is returned", calls == 1 && err == nil && got == val)
		vEnsures("C18: the built value is stored under its key", has && vSame[interface{}](now, val))
	}
	vEnsures("C18: the other entries are unchanged", vAllKeys(before, func(k string) bool {
		o, was := before[k]
		n, is := m[k]
		return k == key || was == is && (!was || vSame(o, n))
	}))
}
