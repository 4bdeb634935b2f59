package transform

import (
	"html"
	"regexp"
	"strconv"
	"strings"
	"time"

	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
	"github.com/antchfx/xmlquery"
	"github.com/microcosm-cc/bluemonday"
)

//vc:pure github.com/GannettDigital/PaesslerAG_jsonpath.Get
//vc:pure (*regexp.Regexp).FindStringSubmatch;strings.Title;html.UnescapeString;strings.TrimSpace;strings.ReplaceAll;strings.ToLower;strings.ToUpper;strings.Split
//vc:pure github.com/microcosm-cc/bluemonday.NewPolicy;(*github.com/microcosm-cc/bluemonday.Policy).AddSpaceWhenStrippingTag;(*github.com/microcosm-cc/bluemonday.Policy).Sanitize
//vc:nondet time.Now
//vc:pure regexp.Compile;(*regexp.Regexp).String

// --- text

//vc:target (*changeCase).transform props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcChangeCase(c *changeCase, raw interface{}) {
	v, err := c.transform(raw)
	in, ok := raw.(string)
	to := c.args["to"]
	if !ok || to != "lower" && to != "upper" {
		vEnsures("C11: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	if to == "lower" {
		vEnsures("C11: the whole string in lower case", vSame[interface{}](v, strings.ToLower(in)) && err == nil)
	} else {
		vEnsures("C11: the whole string in upper case", vSame[interface{}](v, strings.ToUpper(in)) && err == nil)
	}
}

//vc:target (*replace).transform props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcReplace(r *replace, raw interface{}) {
	v, err := r.transform(raw)
	in, ok := raw.(string)
	if !ok || r.regex == nil {
		vEnsures("C11: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	vEnsures("C11: every match of the regular expression is substituted", vSame[interface{}](v, r.regex.ReplaceAllString(in, r.args["new"])) && err == nil)
}

//vc:target (*split).transform props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcSplit(s *split, raw interface{}) {
	v, err := s.transform(raw)
	in, ok := raw.(string)
	if !ok {
		vEnsures("C11: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	out, ok := v.([]interface{})
	vEnsures("C11: split returns a list", ok && err == nil)
	if in == "" {
		vEnsures("C11: nothing in an empty string", ok && out != nil && len(out) == 0)
		return
	}
	want := strings.Split(in, s.args["on"])
	vEnsures("C11: one entry for every part of the string", len(out) == len(want))
	vEnsures("C11: the parts of the string in order", len(out) == len(want) && vAll(len(want), func(i int) bool { return vSame[interface{}](out[i], want[i]) }))
}

//vc:inv (*split).transform
func invSplit(iter int, acc []interface{}, v_parts []string) bool {
	return len(acc) == iter && iter <= len(v_parts) && vAll(iter, func(i int) bool { return vSame[interface{}](acc[i], v_parts[i]) })
}

//vc:inv (*split).transform
func invSplitInPlace(iter int, v_out []interface{}, v_parts []string) bool {
	return len(v_out) == len(v_parts) && iter <= len(v_parts) && vAll(iter, func(i int) bool { return vSame[interface{}](v_out[i], v_parts[i]) })
}

//vc:target (*timeParse).transform props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcTimeParse(t *timeParse, raw interface{}) {
	v, err := t.transform(raw)
	in, ok := raw.(string)
	if !ok {
		vEnsures("C11: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	tm, perr := time.Parse(t.args["format"], in)
	if perr != nil {
		vEnsures("C11: an error for a time which cannot be parsed", v == nil && err != nil)
		return
	}
	vEnsures("C11: the time in the layout", vSame[interface{}](v, tm.Format(t.args["layout"])) && err == nil)
}

//vc:target (*toCamelCase).transform opaque=strings.Split props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcToCamelCase(c *toCamelCase, raw interface{}) {
	v, err := c.transform(raw)
	in, ok := raw.(string)
	if !ok {
		vEnsures("C11: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	parts := strings.Split(in, c.args["delimiter"])
	want := vSeq(len(parts), func(i int) string { return camelPart(parts, i) })
	vEnsures("C11: the first part in lower case, the others in title case", vSame[interface{}](v, strings.Join(want, "")) && err == nil)
}

func camelPart(parts []string, i int) string {
	if i == 0 {
		return strings.ToLower(parts[0])
	}
	return strings.Title(parts[i])
}

//vc:inv (*toCamelCase).transform
func invCamel(iter int, v_arr []string, p_raw interface{}, p_c *toCamelCase) bool {
	parts := strings.Split(p_raw.(string), p_c.args["delimiter"])
	return len(v_arr) == len(parts) && vAll(len(parts), func(i int) bool {
		return (i >= iter || v_arr[i] == camelPart(parts, i)) && (i < iter || v_arr[i] == parts[i])
	})
}

//vc:target (*removeHTML).transform props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcRemoveHTML(c *removeHTML, raw interface{}) {
	v, err := c.transform(raw)
	in, ok := raw.(string)
	if !ok {
		vEnsures("C11: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	clean := bluemonday.NewPolicy().AddSpaceWhenStrippingTag(true).Sanitize(in)
	vEnsures("C11: the text without markup and entities", vSame[interface{}](v, html.UnescapeString(strings.ReplaceAll(strings.TrimSpace(clean), "  ", " "))) && err == nil)
}

// --- numbers, booleans, selection

func num0(s string) int {
	if s == "" {
		return 0
	}
	n, _ := strconv.Atoi(s)
	return n
}

func numErr(s string) bool {
	_, err := strconv.Atoi(s)
	return s != "" && err != nil
}

// opReady: the operation is ready for use. Building a transformer establishes it, every evaluation relies on it.
//
//vc:ifacereq transform.transformOperation.transform
func opReady(op transformOperation) bool {
	d, ok := op.(*duration)
	return op != nil && (!ok || d != nil && d.re != nil)
}

// a string which is no integer yields zero, unless it is an integer out of range
//
//vc:extfacts strconv.Atoi
func factAtoi(s string, n int, err error) bool { return s != "" || n == 0 && err != nil }

//vc:target (*duration).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcDuration(c *duration, raw interface{}) {
	v, err := c.transform(raw)
	if a, ok := raw.([]interface{}); ok && len(a) == 1 {
		raw = a[0]
	}
	if raw == nil {
		vEnsures("C12: nothing lasts no time", vSame[interface{}](v, 0) && err == nil)
		return
	}
	in, ok := raw.(string)
	if !ok {
		vEnsures("C12: an error for a value which is not a string", v == nil && err != nil)
		return
	}
	m := c.re.FindStringSubmatch(in)
	if m == nil || len(m) != 4 || numErr(m[1]) || numErr(m[2]) || numErr(m[3]) {
		vEnsures("C12: an error for a string which is not a duration", v == nil && err != nil)
		return
	}
	vEnsures("C12: the seconds of hours, minutes and seconds", err == nil && vSame[interface{}](v, num0(m[3])+60*(num0(m[2])+60*num0(m[1]))))
}

//vc:target (*valueExists).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcValueExists(c *valueExists, raw interface{}) {
	v, err := c.transform(raw)
	if s, ok := raw.(string); ok {
		vEnsures("C12: whether the string is non-empty", vSame[interface{}](v, s != "") && err == nil)
		return
	}
	if n, ok := raw.([]*xmlquery.Node); ok {
		vEnsures("C12: whether there are nodes", vSame[interface{}](v, len(n) > 0) && err == nil)
		return
	}
	vEnsures("C12: an error for other values", v == nil && err != nil)
}

//vc:target (*inverse).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcInverse(c *inverse, raw interface{}) {
	v, err := c.transform(raw)
	b, ok := raw.(bool)
	if !ok {
		vEnsures("C12: an error for a value which is not a boolean", v == nil && err != nil)
		return
	}
	vEnsures("C12: the negated boolean", vSame[interface{}](v, !b) && err == nil)
}

// maxKey is the number an element is compared by.
func maxKey(item interface{}, by string) (float64, bool) {
	v, err := jsonpath.Get(by, item)
	if err != nil {
		return 0, false
	}
	if f, ok := v.(float64); ok {
		return f, true
	}
	if n, ok := v.(int); ok {
		return float64(n), true
	}
	return 0, false
}

//vc:merge
func maxNum(item interface{}, by string) float64 {
	f, _ := maxKey(item, by)
	return f
}

//vc:merge
func maxOK(item interface{}, by string) bool {
	_, ok := maxKey(item, by)
	return ok
}

// maxIndex is the index of the first greatest of the first n elements.
//
//vc:rec
func maxIndex(a []interface{}, by string, n int) int {
	if n <= 1 {
		return 0
	}
	m := maxIndex(a, by, n-1)
	if maxNum(a[n-1], by) > maxNum(a[m], by) {
		return n - 1
	}
	return m
}

//vc:target (*max).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcMax(m *max, in interface{}) {
	v, err := m.transform(in)
	a, ok := in.([]interface{})
	if !ok || len(a) == 0 {
		vEnsures("C12: an error unless there are elements", v == nil && err != nil)
		return
	}
	by, ret := strings.Replace(m.args["by"], "@", "$", 1), strings.Replace(m.args["return"], "@", "$", 1)
	if !vAll(len(a), func(i int) bool { return maxOK(a[i], by) }) {
		vEnsures("C12: an error if an element has no number to compare", v == nil && err != nil)
		return
	}
	want, werr := jsonpath.Get(ret, a[maxIndex(a, by, len(a))])
	vEnsures("C12: an error exactly if the field of the greatest element is missing", (err == nil) == (werr == nil))
	if err == nil {
		vEnsures("C12: the field of the first greatest element", vSame(v, want))
	}
}

//vc:inv (*max).transform
func invMaxOK(iter int, p_m *max, p_in interface{}) bool {
	a := p_in.([]interface{})
	by := strings.Replace(p_m.args["by"], "@", "$", 1)
	return iter <= len(a) && vAll(iter, func(i int) bool { return maxOK(a[i], by) })
}

//vc:inv (*max).transform
func invMaxRange(iter int, acc int) bool { return 0 <= acc && (acc < iter || acc == 0 && iter == 0) }

//vc:inv (*max).transform
func invMaxIndex(iter int, acc int, p_m *max, p_in interface{}) bool {
	a := p_in.([]interface{})
	by := strings.Replace(p_m.args["by"], "@", "$", 1)
	return acc == maxIndex(a, by, iter)
}

//vc:inv (*max).transform
func invMaxNum(iter int, acc float64, acc2 int, p_m *max, p_in interface{}) bool {
	a := p_in.([]interface{})
	by := strings.Replace(p_m.args["by"], "@", "$", 1)
	return iter == 0 || 0 <= acc2 && acc2 < len(a) && vSame(acc, maxNum(a[acc2], by))
}

//vc:target (*convertToFloat64).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcConvertToFloat64(c *convertToFloat64, raw interface{}) {
	v, err := c.transform(raw)
	if s, ok := raw.(string); ok {
		f, ferr := strconv.ParseFloat(s, 64)
		vEnsures("C12: the number the string spells", (err == nil) == (ferr == nil) && (err != nil || vSame[interface{}](v, f)))
		return
	}
	if n, ok := raw.(int); ok {
		vEnsures("C12: the value of the integer", vSame[interface{}](v, float64(n)) && err == nil)
		return
	}
	if f, ok := raw.(float64); ok {
		vEnsures("C12: the number itself", vSame[interface{}](v, f) && err == nil)
		return
	}
	vEnsures("C12: an error for other values", v == nil && err != nil)
}

//vc:target (*convertToInt64).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcConvertToInt64(c *convertToInt64, raw interface{}) {
	v, err := c.transform(raw)
	if s, ok := raw.(string); ok {
		n, nerr := strconv.ParseInt(s, 10, 64)
		vEnsures("C12: the integer the string spells", (err == nil) == (nerr == nil) && (err != nil || vSame[interface{}](v, n)))
		return
	}
	n, ok := specInt64(raw)
	if ok {
		vEnsures("C12: the value of the number as an integer", vSame[interface{}](v, n) && err == nil)
		return
	}
	vEnsures("C12: an error for other values", v == nil && err != nil)
}

func specInt64(raw interface{}) (int64, bool) {
	if n, ok := raw.(float32); ok {
		return int64(n), true
	}
	if n, ok := raw.(float64); ok {
		return int64(n), true
	}
	if n, ok := raw.(int); ok {
		return int64(n), true
	}
	if n, ok := raw.(int8); ok {
		return int64(n), true
	}
	if n, ok := raw.(int16); ok {
		return int64(n), true
	}
	if n, ok := raw.(int32); ok {
		return int64(n), true
	}
	if n, ok := raw.(int64); ok {
		return n, true
	}
	return 0, false
}

//vc:target (*convertToBool).transform props=C12 safety=C03,C12 frame=C01,C12 implements=transform.transformOperation.transform
func vcConvertToBool(c *convertToBool, raw interface{}) {
	v, err := c.transform(raw)
	if b, ok := raw.(bool); ok {
		vEnsures("C12: the boolean itself", vSame[interface{}](v, b) && err == nil)
		return
	}
	if s, ok := raw.(string); ok {
		b, berr := strconv.ParseBool(s)
		vEnsures("C12: the boolean the string spells", (err == nil) == (berr == nil) && (err != nil || vSame[interface{}](v, b)))
		return
	}
	if a, ok := raw.([]interface{}); ok {
		vEnsures("C12: whether the list is non-empty", vSame[interface{}](v, len(a) > 0) && err == nil)
		return
	}
	if f, ok := raw.(float64); ok {
		vEnsures("C12: whether the number is not zero", vSame[interface{}](v, !(f == 0)) && err == nil)
		return
	}
	if f, ok := raw.(float32); ok {
		vEnsures("C12: whether the number is not zero", vSame[interface{}](v, !(f == 0)) && err == nil)
		return
	}
	n, ok := specInt64(raw)
	if ok {
		vEnsures("C12: whether the number is not zero", vSame[interface{}](v, n != 0) && err == nil)
		return
	}
	vEnsures("C12: an error for other values", err != nil)
}

//vc:target (*currentTime).transform props=C11 safety=C03,C11 frame=C01,C11 implements=transform.transformOperation.transform
func vcCurrentTime(c *currentTime, raw interface{}) {
	v, err := c.transform(raw)
	_, ok := v.(string)
	vEnsures("C11: the present time as a string, whatever the input", ok && err == nil)
}

// --- definitions

func exactly1(args map[string]string, a string) bool {
	_, ok := args[a]
	return ok && len(args) == 1
}

func exactly2(args map[string]string, a, b string) bool {
	_, oka := args[a]
	_, okb := args[b]
	return oka && okb && len(args) == 2
}

//vc:target requiredArgs inline props=C13 safety=C03,C13
func vcRequiredArgs(required []string, args map[string]string) {
	err := requiredArgs(required, args)
	vEnsures("C13: an error unless exactly the required arguments are given", (err == nil) == (len(args) == len(required) && vAll(len(required), func(i int) bool { _, ok := args[required[i]]; return ok })))
}

//vc:inv requiredArgs
func invRequired(iter int, p_required []string, p_args map[string]string) bool {
	return vAll(iter, func(i int) bool { _, ok := p_args[p_required[i]]; return ok })
}

//vc:target (*changeCase).init props=C13 safety=C03,C13
func vcChangeCaseInit(c *changeCase, args map[string]string) {
	vModifies(c)
	err := c.init(args)
	vEnsures("C13: the case is the only argument, lower or upper", (err == nil) == (exactly1(args, "to") && (args["to"] == "lower" || args["to"] == "upper")))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(c.args, args))
}

//vc:target (*max).init props=C13 safety=C03,C13
func vcMaxInit(m *max, args map[string]string) {
	vModifies(m)
	err := m.init(args)
	vEnsures("C13: the arguments are by and return", (err == nil) == exactly2(args, "by", "return"))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(m.args, args))
}

//vc:target (*replace).init props=C13 safety=C03,C13
func vcReplaceInit(r *replace, args map[string]string) {
	vModifies(r)
	err := r.init(args)
	re, rerr := regexp.Compile(args["regex"])
	vEnsures("C13: the arguments are regex and new, the regular expression is valid", (err == nil) == (exactly2(args, "regex", "new") && rerr == nil))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(r.args, args) && vSame(r.regex.String(), re.String()))
}

//vc:target (*split).init props=C13 safety=C03,C13
func vcSplitInit(s *split, args map[string]string) {
	vModifies(s)
	err := s.init(args)
	vEnsures("C13: the only argument is on", (err == nil) == exactly1(args, "on"))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(s.args, args))
}

//vc:target (*timeParse).init props=C13 safety=C03,C13
func vcTimeParseInit(t *timeParse, args map[string]string) {
	vModifies(t)
	err := t.init(args)
	vEnsures("C13: the arguments are format and layout", (err == nil) == exactly2(args, "format", "layout"))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(t.args, args))
}

//vc:target (*currentTime).init props=C13 safety=C03,C13
func vcCurrentTimeInit(c *currentTime, args map[string]string) {
	vModifies(c)
	err := c.init(args)
	vEnsures("C13: the only argument is format", (err == nil) == exactly1(args, "format"))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(c.args, args))
}

//vc:target (*toCamelCase).init props=C13 safety=C03,C13
func vcToCamelCaseInit(c *toCamelCase, args map[string]string) {
	vModifies(c)
	err := c.init(args)
	vEnsures("C13: the only argument is delimiter", (err == nil) == exactly1(args, "delimiter"))
	vEnsures("C13: the arguments are used as written", err != nil || vSame(c.args, args))
}

//vc:target (*duration).init props=C13,C03 safety=C03,C13
func vcDurationInit(c *duration, args map[string]string) {
	vModifies(c)
	err := c.init(args)
	vEnsures("C03,C13: the operation is ready for use", err == nil && vSame(c.re, durationRe))
}
