package h

func prop(id string, scen, quick int, rule string, ks ...PK) {
	props[id] = &Prop{ID: id, Kinds: ks, Scen: scen, Quick: quick, Rule: rule}
}

func init() {
	for _, id := range []string{"C01", "C04", "C06", "C08", "C10", "C17", "C18", "C23", "C24", "C27"} {
		prop(id, 4, 6000, "", PK{"q", 1})
	}
	prop("C07", 4, 6000, "", PK{"q", 3}, PK{"pipe", 2})
	prop("C09", 4, 6000, "", PK{"q", 3}, PK{"pipe", 1})
	prop("C19", 4, 8000, "", PK{"q", 1}, PK{"many", 2})
	prop("C25", 4, 8000, "", PK{"q", 1}, PK{"many", 2})
	prop("C20", 4, 1000, "", PK{"q", 4}, PK{"mix", 4}, PK{"many", 1}, PK{"fan", 1}, PK{"agg", 1}, PK{"resp", 1}, PK{"throt", 1}, PK{"ckpt", 1}, PK{"repl", 1})
}
