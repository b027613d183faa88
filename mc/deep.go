package main

// deepQuick names the suites that are cheap enough at the bounds of the thorough tier to have them in a quick run as well
var deepQuick = map[string]bool{}

func deep(prop string, suites ...string) {
	for _, s := range suites {
		deepQuick[prop+"/"+s] = true
	}
}

func tierOf(prop, suite, tier string) string {
	if deepQuick[prop+"/"+suite] {
		return "thorough"
	}
	return tier
}

func boundsOf(p *Prop, s *Suite) string {
	if deepQuick[p.ID+"/"+s.Name] {
		return s.Bounds + " (quick runs use the thorough bounds)"
	}
	return s.Bounds
}

func init() {
	deep("C14", "classes", "long", "letters", "lengths", "values")
	deep("C18", "text", "pairs", "many")
	deep("C20", "mixed", "many", "dict", "dict-lists", "scale")
}
