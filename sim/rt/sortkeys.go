package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// sortKeys brings map keys into a canonical order.
func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	rv := reflect.ValueOf(keys)
	switch rv.Type().Elem().Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return rv.Index(i).String() < rv.Index(j).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return rv.Index(i).Int() < rv.Index(j).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool { return rv.Index(i).Uint() < rv.Index(j).Uint() })
	default:
		strs := map[K]string{}
		for _, k := range keys {
			strs[k] = fmt.Sprintf("%T %v", any(k), any(k))
		}
		sort.SliceStable(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	}
}
