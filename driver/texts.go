package main

// Texts for the evidence files.

func ruleOf(p string) string {
	r := rules[p]
	if r == "" {
		r = rules[p[:1]]
	}
	return r + " Distinct: different hash over the run's parameters, operations, injected faults and results."
}

func stateMeasure(p string) string {
	if r, ok := measures[p]; ok {
		return r
	}
	return measures[p[:1]]
}

func stubsOf(p string) string {
	s := "goroutine scheduler, sync and atomic primitives, channels, entropy source, CPU count, clock and map iteration order are simulated"
	if x := stubs[p]; x != "" {
		s += "; " + x
	} else if x := stubs[p[:1]]; x != "" {
		s += "; " + x
	}
	return s
}

var rules = map[string]string{
	"S":   "An evaluation is one simulated stream with one to four objects; it is non-trivial when at least one object was transferred (S01) or at least one fault fired during a transfer (S02, S03).",
	"S04": "An evaluation is one simulated history of copies by one to three threads; it is non-trivial when objects were compared with their models.",
	"K":   "An evaluation is one simulated key generation (or bootstrapping) with its own schedule and CPU count; it is non-trivial when the generated key was judged completely.",
	"C":   "An evaluation is one simulated execution of two to four threads on copies of an object; it is non-trivial when the threads' results were compared with running alone or decrypted independently.",
	"C06": "An evaluation is one simulated set of parallel bootstrappings with its own schedule and CPU count; it is non-trivial when the results were compared with sequential bootstrapping.",
	"H":   "An evaluation is one simulated history of operations on an object and its copies; it is non-trivial when at least one operation was compared with a fresh object or decrypted independently.",
	"H05": "An evaluation is one simulated history in which at least one operation is abandoned; it is non-trivial when later operations were judged.",
	"R":   "An evaluation is one simulated history of randomised operations over a simulated entropy source; it is non-trivial when produced randomness was compared (R01, R03) or an entropy fault fired (R02).",
	"E":   "An evaluation is one simulated deployment or session; it is non-trivial when at least one result was compared with the reference model.",
}

var measures = map[string]string{
	"S":   "distinct tuples of (object type, shape class, stream behaviour or fault kind, position class)",
	"S04": "distinct tuples of (value type, operation, source is destination, objects owned)",
	"K":   "distinct tuples of (generator, CPU count, key shape, generator history)",
	"C":   "distinct tuples of (object kind, operation or pair of operations, number of threads, way of copying)",
	"H":   "distinct tuples of (object kind, operation, preceding operation, destination mode)",
	"R":   "distinct tuples of (producer, kind of fault or way of consumption, preceding producer)",
	"E":   "distinct tuples of (operation, form, destination, parameter class) answered",
}

var stubs = map[string]string{
	"S":   "readers and writers are simulated streams with drawn chunking and faults",
	"R":   "the system entropy source is a simulated stream that can fail, recover or answer in pieces",
	"H05": "the system entropy source is a simulated stream that can fail; callbacks are harness functions that panic",
	"E01": "network, disks, process lifetime and clients' and servers' request handling are harness code over the real library",
	"E02": "network, disks, process lifetime and the parties' and servers' request handling are harness code over the real library",
	"E03": "network, disks, process lifetime and clients' and servers' request handling are harness code over the real library",
	"E04": "the pool of shared objects and the worker programs are harness code over the real library",
	"E05": "the pool of shared objects and the worker programs are harness code over the real library",
	"E06": "the pool of shared objects and the worker programs are harness code over the real library",
}
