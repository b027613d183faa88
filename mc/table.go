package main

// table has every exported function of the packages under verification (filled by table_gen.go, which cmd/gentable
// writes from /repo for each run)
var table = map[string]map[string]any{}

// tableValues has their exported constants and variables
var tableValues = map[string]map[string]any{}

// dictStrings and dictInts are the literals of the sources
var dictStrings []string
var dictInts []int
