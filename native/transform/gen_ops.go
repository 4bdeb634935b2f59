package transform

import "fmt"

// eNewOp makes an operation for the reference.
func eNewOp(o eOp) transformOperation {
	var op transformOperation
	switch o.name {
	case "changeCase":
		op = &changeCase{}
	case "currentTime":
		op = &currentTime{}
	case "duration":
		op = &duration{}
	case "inverse":
		op = &inverse{}
	case "max":
		op = &max{}
	case "replace":
		op = &replace{}
	case "split":
		op = &split{}
	case "timeParse":
		op = &timeParse{}
	case "toCamelCase":
		op = &toCamelCase{}
	case "removeHTML":
		op = &removeHTML{}
	case "convertToFloat64":
		op = &convertToFloat64{}
	case "convertToInt64":
		op = &convertToInt64{}
	case "convertToBool":
		op = &convertToBool{}
	case "valueExists":
		op = &valueExists{}
	default:
		panic(fmt.Sprintf("no operation %q", o.name))
	}
	if err := op.init(o.args); err != nil {
		panic(vSkip{"operation does not initialise"})
	}
	return op
}

func init() {
	vGens["transform.transformOperation"] = func(g *vG) interface{} {
		s := &eSpecGen{vG: g}
		return eNewOp(s.op(nil))
	}
}
