package main

import (
	"flag"
)

func main() {
	cmd := flag.String("cmd", "", "what to run")
	prop := flag.String("prop", "", "property")
	edges := flag.String("edges", "", "exported automaton")
	damage := flag.String("damage", "", "exported damage")
	schema := flag.String("schema", "", "exported schema")
	out := flag.String("out", ".", "output directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	flag.Parse()
	switch *cmd {
	case "reader-random":
		runReaderRandom(*prop, *out, *tier, *seed)
	case "roundtrip":
		runRoundTrip(*prop, *out, *tier, *seed)
	case "tree-rows":
		runTreeRows(*prop, *edges, *out, *tier, *seed)
	case "tree-random":
		runTreeRandom(*prop, *out, *tier, *seed)
	case "index-size":
		runIndexSize(*out, *tier, *seed)
	case "hilbert":
		runHilbert(*edges, *out, *tier, *seed)
	case "prop-rows":
		runPropRows(*prop, *edges, *out, *tier, *seed)
	case "prop-random":
		runPropRandom(*prop, *out, *tier, *seed)
	case "signature":
		runSignature(*edges, *out, *tier, *seed)
	case "boxes":
		runBoxes(*edges, *out, *tier, *seed)
	case "writer-auto":
		runWriterAuto(*prop, *edges, *out, *tier, *seed)
	case "reader-auto":
		runReaderAuto(*prop, *edges, *out, *tier, *seed)
	case "hostile-tree":
		runHostileTree(*edges, *out, *tier, *seed)
	case "hostile-file":
		runHostileFile(*edges, *damage, *out, *tier, *seed)
	case "accessors":
		runAccessors(*edges, *schema, *out, *tier, *seed)
	case "summary":
		runSummary(*edges, *schema, *out, *tier, *seed)
	case "header-text":
		runHeaderText(*edges, *schema, *out, *tier, *seed)
	case "huge":
		runHuge(*out, *tier, *seed)
	case "vast":
		runVast(*prop, *out, *tier, *seed)
	case "access":
		runAccess(*out, *tier, *seed)
	case "share":
		runShare(*edges, *out, *tier, *seed)
	case "parallel":
		runParallel(*out, *tier, *seed)
	case "none":
	default:
		die("unknown command %q", *cmd)
	}
}
