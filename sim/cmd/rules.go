package main

import "radosim/rt"

const rtRace = rt.RaceBuild

const gen = "Each run: materials, deliveries, faults, operations and schedule are drawn from splitmix64(seed, property, run number). "

var rules = map[string]string{
	"C01": gen + "One stream (valid 70%, damaged 20%, noise 10%) is parsed at once and then through 2-5 random legal deliveries. Non-trivial: some delivery needed more than one read.",
	"C02": gen + "One well-formed composite (random product, encoding, size class, precision, levels, cells) over 1-2 deliveries against the reference model. Non-trivial: more than one read.",
	"C03": gen + "As C02, metadata against the model, with a random local time zone. Non-trivial: more than one read.",
	"C04": gen + "One well-formed composite, 2-6 deliveries, each with a failure before the last byte, half of them within two bytes of a header or row end. Non-trivial: the failure was reached.",
	"C05": gen + "One damaged composite, damaged archive or noise, over one delivery, a quarter of them failing as well. Non-trivial: the parser read something.",
	"C06": gen + "1-4 composites from interrupted, damaged, complete parses or dummies; 60 coordinates, 20 projections, the unit and the image of a layer on each. Non-trivial: a parse was interrupted.",
	"C07": gen + "One well-formed composite, 2-6 deliveries where the source stays open and silent after the last byte, or fails permanently or once at a random byte. Non-trivial: more than one read.",
	"C08": gen + "One archive of 0-12 members in random order and structure over 1-2 deliveries. Non-trivial: more than one read.",
	"C09": gen + "One archive cut, failing, with altered stored bytes, or with a member cut short. Non-trivial: more than one read or altered bytes.",
	"C10": gen + "2-4 tasks parsing 1-3 streams each under a random schedule of statement-level switches, in a race-detecting build; same calls repeated alone afterwards. Non-trivial: more switches than tasks ending one after another.",
	"C11": gen + "2-4 tasks with 1-8 read operations each on 1-3 shared objects under a random schedule of statement-level switches, in a race-detecting build; same calls repeated alone afterwards. Non-trivial: as C10.",
	"C12": gen + "A history of 3-24 operations with all earlier results compared with their snapshots after every operation. Non-trivial: at least two results were alive.",
	"C14": gen + "One valid composite file and 2-6 runs of the program, most of them with failing opens, reads, writes or close, read-only or missing targets, or little memory; picture of an undisturbed run checked against the model. Non-trivial: a fault hit or the environment differed.",
	"C15": gen + "A valid, cut, damaged or absent input and 2-6 runs with failing opens and reads among other files, some with the input growing, cut or removed meanwhile or with missing arguments. Non-trivial: as C14.",
	"C16": gen + "One valid composite file and 2-6 runs killed at a random system call, inside a write, at a byte of the output, or around open, close and rename. Non-trivial: as C14.",
	"C17": gen + "One valid composite file and 2-6 runs with other names, former contents, time zones, clocks, random seeds, split and interrupted reads and writes. Non-trivial: as C14.",
	"C21": gen + "1-3 composites and 2-6 runs over one directory that keeps what each run leaves, two thirds of them failing or killed somewhere; every undisturbed run is compared with a run alone on a fresh disk. Non-trivial: an undisturbed run after a failed or killed one.",
	"C22": gen + "Two runs at the same time on one disk with a random schedule of their system calls, a third with one of them failing or killed, a sixth with the input being replaced meanwhile, some of them the same conversion twice; each compared with a run alone. Non-trivial: the two really alternated.",
	"C23": gen + "2-8 parses of 1-4 streams (valid, damaged, archives), a quarter of them failing, through reader objects the caller fills anew and uses again; each compared with the same delivery through a reader of its own. Non-trivial: a reader object was used again.",
	"C24": gen + "One composite damaged in one field or row so that it cannot be understood (18 kinds), 1-5 deliveries of it and of the undamaged one, a tenth failing; 1 in 60 an archive with such a member. Non-trivial: the damaged one was parsed.",
	"C13": gen + "One composite, 3/4 of them of an uncatalogued product, 2-6 deliveries, half of them failing. Non-trivial: more than one read.",
}
