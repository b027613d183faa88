package main

// set with -ldflags for the instrumented build and the build with the race detector
var instrBuild, raceBuild string

const (
	buildPlain = ""
	buildInstr = "instrumented"
	buildRace  = "race"
)

func thisBuild() string {
	switch {
	case instrBuild != "":
		return buildInstr
	case raceBuild != "":
		return buildRace
	}
	return buildPlain
}
