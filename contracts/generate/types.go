package generate

import (
	"strings"
	"time"
)

// --- Avro times

//vc:pure (time.Time).UnixMilli;(time.Time).Unix;(time.Time).Nanosecond;(time.Time).UnixNano

// rounded down: the nanoseconds are those after the second
//
//vc:extfacts (time.Time).UnixMilli
func factUnixMilli(t time.Time, ms int64) bool {
	return ms == t.Unix()*1000+int64(t.Nanosecond()/1000000)
}

//vc:extfacts (time.Time).Nanosecond
func factNanosecond(t time.Time, n int) bool { return 0 <= n && n < 1000000000 }

// times whose milliseconds fit
func reqTime(t time.Time) bool {
	return -9223372036854774 <= t.Unix() && t.Unix() <= 9223372036854774
}

//vc:target AvroTime inline req=reqTime props=C22 safety=C22 frame=C22
func vcAvroTime(t time.Time) {
	got := AvroTime(t)
	vEnsures("C22: the milliseconds of the time, rounded down", got == t.Unix()*1000+int64(t.Nanosecond()/1000000))
}

func reqOptionalTime(t *time.Time) bool { return t == nil || reqTime(*t) }

//vc:target AvroOptionalTime inline req=reqOptionalTime props=C22 safety=C22 frame=C22
func vcAvroOptionalTime(t *time.Time) {
	got := AvroOptionalTime(t)
	if t == nil {
		vEnsures("C22: an absent time is 0", got == 0)
	} else {
		vEnsures("C22: a present time gives the number of a required one", got == t.Unix()*1000+int64(t.Nanosecond()/1000000))
	}
}

func reqTimes(times []time.Time) bool {
	return vAll(len(times), func(i int) bool { return reqTime(times[i]) })
}

func specMilli(t time.Time) int64 { return t.Unix()*1000 + int64(t.Nanosecond()/1000000) }

//vc:target AvroTimeSlice req=reqTimes props=C22 safety=C22 frame=C22
func vcAvroTimeSlice(times []time.Time) {
	got := AvroTimeSlice(times)
	vEnsures("C22: a list has one number for each time", len(got) == len(times))
	vEnsures("C22: a list is converted element by element", vAll(len(times), func(i int) bool { return got[i] == specMilli(times[i]) }))
}

//vc:inv AvroTimeSlice
func invTimes(p_times []time.Time, v_newTimes []int64, iter int) bool {
	return len(v_newTimes) == len(p_times) && vAll(iter, func(i int) bool { return v_newTimes[i] == specMilli(p_times[i]) })
}

//vc:inv AvroTimeSlice
func invTimesAppended(p_times []time.Time, acc []int64, iter int) bool {
	return len(acc) == iter && vAll(iter, func(i int) bool { return acc[i] == specMilli(p_times[i]) })
}

func reqOptionalTimes(times []*time.Time) bool {
	return vAll(len(times), func(i int) bool { return reqOptionalTime(times[i]) })
}

// specPresent: the number of present times among the first n, and the numbers themselves
//
//vc:rec specPresent
func specPresent(times []*time.Time, n int) int {
	if n <= 0 {
		return 0
	}
	if times[n-1] == nil {
		return specPresent(times, n-1)
	}
	return specPresent(times, n-1) + 1
}

//vc:target AvroOptionalTimeSlice req=reqOptionalTimes props=C22 safety=C22 frame=C22
func vcAvroOptionalTimeSlice(times []*time.Time) {
	got := AvroOptionalTimeSlice(times)
	vEnsures("C22: absent elements are left out, present ones kept", len(got) == specPresent(times, len(times)))
	vEnsures("C22: the present elements are converted in order", vAll(len(times), func(i int) bool {
		return times[i] == nil || got[specPresent(times, i)] == specMilli(*times[i])
	}))
}

//vc:inv AvroOptionalTimeSlice
func invOptionalTimes(p_times []*time.Time, acc []int64, iter int) bool {
	return len(acc) == specPresent(p_times, iter) && vAll(iter, func(i int) bool {
		return p_times[i] == nil || 0 <= specPresent(p_times, i) && specPresent(p_times, i) < len(acc) && acc[specPresent(p_times, i)] == specMilli(*p_times[i])
	})
}

// --- Go types

// specGoBase: the Go type without nullability and lists, and whether a pointer may be put before it
func specGoBase(ef *extractedField, required, pointers bool, nested map[string]*generatedStruct) (string, bool) {
	if ef.jsonType == "boolean" {
		return "bool", true
	}
	if ef.jsonType == "number" {
		return "float64", true
	}
	if ef.jsonType == "integer" {
		return "int64", true
	}
	if ef.jsonType == "string" {
		return "string", true
	}
	if ef.jsonType == "date-time" {
		if pointers && !required {
			return "*time.Time", false
		}
		return "time.Time", true
	}
	if ef.jsonType == "object" {
		if len(ef.fields) == 0 {
			return "map[string]string", true
		}
		return "struct", true
	}
	ns := nested[strings.TrimPrefix(ef.jsonType, "*")]
	if ns != nil && len(ns.fields) == 0 && !ns.array {
		if strings.HasPrefix(ef.jsonType, "*") {
			return "*map[string]string", false
		}
		return "map[string]string", true
	}
	return ef.jsonType, false
}

//vc:merge
func specGoType(ef *extractedField, required, pointers bool, nested map[string]*generatedStruct) string {
	t, simple := specGoBase(ef, required, pointers, nested)
	if simple && ef.nullable {
		t = "*" + t
	}
	if ef.array {
		t = "[]" + t
	}
	return t
}

func reqField(ef *extractedField, required, pointers bool, nested map[string]*generatedStruct) bool {
	return ef != nil
}

//vc:target (*extractedField).goType req=reqField props=C20 safety=C20 frame=C20
func vcGoType(ef *extractedField, required, pointers bool, nested map[string]*generatedStruct) {
	got := ef.goType(required, pointers, nested)
	vEnsures("C20: the Go type of the schema type, with a pointer for nullable fields and a slice for arrays", got == specGoType(ef, required, pointers, nested))
}

// --- GraphQL types

func specScalar(jsonType string) (string, bool) {
	switch jsonType {
	case "boolean":
		return "Boolean", true
	case "number":
		return "Float", true
	case "integer":
		return "Int", true
	case "string":
		return "String", true
	case "date-time":
		return "DateTime", true
	case "object":
		return "(", true
	}
	return "", false
}

//vc:merge
func specGraphqlBase(ef *gqlExtractedField, required, pointers bool) string {
	scalar, regular := specScalar(ef.jsonType)
	t := ef.jsonType
	if ef.target != "" {
		t, regular = ef.target, false
	} else if regular {
		t = scalar
	}
	if t == "DateTime" || ef.jsonType == "Any" {
		return t
	}
	if required || !pointers || regular && !ef.nullable {
		return t + "!"
	}
	return t
}

func reqGqlField(ef *gqlExtractedField, required, pointers bool) bool { return ef != nil }

//vc:target (*gqlExtractedField).graphqlType req=reqGqlField props=C21 safety=C21 frame=C21
func vcGraphqlType(ef *gqlExtractedField, required, pointers bool) {
	args, got := ef.graphqlType(required, pointers)
	if ef.jsonType == "graphql-hydration" {
		vEnsures("C21: a hydration field has its target type", got == ef.target)
		n := len(ef.arguments)
		if n == 0 {
			vEnsures("C21: no arguments, no argument list", args == "")
			return
		}
		lines := vSeq(n+2, func(i int) string {
			if i == 0 {
				return "("
			}
			if i == n+1 {
				return "  )"
			}
			return specArgument(ef.arguments[i-1])
		})
		vEnsures("C21: all arguments of a hydration field, in order", args == strings.Join(lines, "\n"))
		return
	}
	base := specGraphqlBase(ef, required, pointers)
	if !ef.array {
		vEnsures("C21: the type and nullability of a field", got == base)
		vEnsures("C21: only lists and hydration fields have arguments", args == "")
		return
	}
	if ef.arrayNullable || pointers && !required {
		vEnsures("C21: an optional or nullable list may be null", got == "["+base+"] @goField(forceResolver: true)")
	} else {
		vEnsures("C21: other lists are not null", got == "["+base+"]! @goField(forceResolver: true)")
	}
}

func specArgument(s string) string {
	if s == "" {
		return ""
	}
	return "    " + s
}

//vc:inv (*gqlExtractedField).graphqlType
func invArguments(p_ef *gqlExtractedField, acc []string, iter int) bool {
	return len(acc) == iter+1 && iter <= len(p_ef.arguments) && acc[0] == "(" && vAll(iter, func(i int) bool { return acc[i+1] == specArgument(p_ef.arguments[i]) })
}

//vc:target graphqlComment props=C21 safety=C21 frame=C21
func vcGraphqlComment(prefix, description string) {
	got := graphqlComment(prefix, description)
	lines := strings.Split(description, "\n")
	if len(lines) == 1 {
		vEnsures("C21: a description of one line", got == prefix+"\""+description+"\"\n")
		return
	}
	vEnsures("C21: a description of several lines", got == prefix+"\"\"\"\n"+specLines(prefix, lines, len(lines))+prefix+"\"\"\"\n")
}

// specLines: the first n lines, each on the prefix
//
//vc:rec specLines
func specLines(prefix string, lines []string, n int) string {
	if n <= 0 {
		return ""
	}
	if lines[n-1] == "" {
		return specLines(prefix, lines, n-1) + "\n"
	}
	return specLines(prefix, lines, n-1) + prefix + lines[n-1] + "\n"
}

//vc:inv graphqlComment
func invComment(p_prefix string, acc, init string, p_description string, iter int) bool {
	return acc == init+specLines(p_prefix, strings.Split(p_description, "\n"), iter)
}
