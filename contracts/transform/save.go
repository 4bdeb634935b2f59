package transform

//vc:target saveInTree props=C07 safety=C03 frame=C01 nonative
func vcSaveField(tree map[string]interface{}, name string, value interface{}, probe string) {
	vRequires(tree != nil && simpleName(name))
	vModifies(tree)
	before := vCopyMap(tree)
	err := saveInTree(tree, "$."+name, value)
	want, has := before[probe]
	if probe == name && value != nil {
		want, has = value, true
	}
	got, hasGot := tree[probe]
	vEnsures("C07: a value is saved under the name of its field", err == nil && has == hasGot && vSame(got, want))
}
