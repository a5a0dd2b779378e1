#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
E="exploration"; M="model_checking"
T="exhaustive enumeration of the input space on the real code against a reference model"
N={
"H01":(E,T,"Complete over all 11,172 syllables and every letter triple in every mix of forms, and over chains x, x', x of related arguments; the reference is the canonical decomposition of x/text/unicode/norm."),
"H02":(E,T,"Complete over the cube of all runes that could matter (letters of every form, their neighbours and look-alikes), and over 19 million rune values in each position (thorough: all 2^32); triples of three unrelated runes outside that are not enumerated."),
"H03":(E,T,"Complete over 19 million rune values: all of Unicode and its surroundings, and boundary and letter low halves under all 65,536 high halves (thorough: all 2^32)."),
"H04":(E,T,"Complete over 19 million rune values: all of Unicode and its surroundings, and boundary and letter low halves under all 65,536 high halves (thorough: all 2^32), against ranges written from the Unicode charts."),
"H05":(E,T,"Complete over all exported constants and 19 million rune values (thorough: all 2^32); trusts the letter names of Unicode as generated by Python's unicodedata."),
"H06":(E,T,"Complete over 19 million rune values: all of Unicode and its surroundings, and boundary and letter low halves under all 65,536 high halves (thorough: all 2^32), against the decomposition written out by hand."),
"H07":(E,T,"Complete over 19 million rune values: all of Unicode and its surroundings, and boundary and letter low halves under all 65,536 high halves (thorough: all 2^32); the basic counts are the documented ones."),
"H08":(E,T,"Complete over every last rune, all words of two syllables, and all words up to a length over classes of characters, ill-formed ones included; lengths to 700 and around powers of two to 2^20; words beyond are covered by their last rune only."),
"J01":(E,T,"Complete over all runes in 12 contexts, all ordered pairs of ideographs, and all texts up to a length over classes; beyond that by runs, words and sizes to 2^20."),
"J02":(E,T,"Complete over all 27,496 ideographs in several contexts, in texts and in words. The expected readings are those of the pinned tree; those of KS X 1001 are confirmed independently by that standard's order."),
"C01":(E,T,"Complete over all inputs of up to three bytes (thorough: four), all class strings up to a length, all ordered pairs of characters as neighbours and all lengths up to a bound; sizes to 2^20; trusts the CP949 table of Python."),
"C02":(E,T,"Complete over all code points, all byte strings up to three (thorough: four) bytes, all class strings up to a length, all ordered pairs of characters as neighbours and all lengths up to a bound; sizes to 2^20; trusts the CP949 table of Python."),
"C03":(E,T,"Complete over all pairs and all representable characters, and over all class texts up to a length; trusts which pairs are assigned."),
"C04":(M,"stateless model checking of the real reader: every chunking and every departure of the environment up to a bound, each step compared with a model","Complete within the stated lengths and numbers of departures, and over all three-byte streams; larger inputs by source and buffer sizes around the powers of two to 2^20, periodic environments, and sources and consumers of every kind of the standard library."),
"C05":(M,"fault enumeration by stateless model checking of the real reader: every failure point, every chunking, each step compared with a model","Complete within the stated lengths and numbers of departures, and over all three-byte streams; larger inputs by every error position and sizes around the powers of two; 55 error values."),
"C06":(M,"stateless model checking of the real writer: every split into writes, each step compared with a model","Complete within the stated lengths, and over all three-byte texts; larger texts by sizes to 2^20 and sinks and producers of every kind of the standard library; assumes a sink that accepts everything or nothing."),
"C07":(M,"fault enumeration by stateless model checking of the real writer: every split and every set of failing sink calls up to a bound","Complete within the stated lengths and numbers of failures; larger writes by sizes and periodic failures; a sink that fails after accepting a part is out of scope."),
"C08":(M,"explicit-state exploration of the real transformer: every window, room and end flag from every position, each step compared with a model","Complete within the stated lengths and departures, and over all three-byte inputs and every character; large windows around the powers of two to 2^20; the model is the transformer contract of x/text."),
"C09":(M,"explicit-state exploration of the real transformer: every window, room and end flag from every position, each step compared with a model","Complete within the stated lengths and departures, and over all three-byte inputs and every character; large windows around the powers of two to 2^20; the model is the transformer contract of x/text."),
"C10":(M,"bounded exhaustive exploration of all entry points over all lengths up to a bound, several open at once, against a model","Complete over the lengths around the 4,096-byte buffers of x/text, and around the powers of two to 2^20, through all entry points, one value or many; trusts x/text v0.14.0 as released."),
}
X={
"X01":(M,"exhaustive enumeration of call histories on the real code, in processes of their own, each call compared with what it returns first in a fresh program","Complete over all histories up to the depth over the menu of calls, all ordered pairs in fresh processes, rows of thousands of calls, garbage collections between calls, one buffer for all arguments, large results kept, surroundings of a process, and dates and pauses of a clock that is set; state that needs another history or arguments outside the menu is out of reach."),
"X02":(M,"stateless model checking of an instrumented copy of the code: every schedule up to a preemption bound, with a race-detector run of the same pairs apart from it","Complete for the stated pairs, triples and preemption bounds under sequential consistency, with a point before every statement; code which spawns goroutines itself is explored at calls only. The race detector watches one free-running execution per pair."),
"X03":(M,"stateless model checking: every interleaving of the steps of open streams and calls, each stream compared with what it delivers alone","Complete over all pairs and triples of the menu of streams up to the stated numbers of steps, and over use at every step inside the source or sink of another stream, or after one has panicked, been lost or been collected."),
"X04":(M,"bounded exhaustive exploration of every entry point over runes, short inputs and class strings, and of the work done, counted in executed statements, over sizes","Complete within the stated bounds; growth is decided for about 1,000 patterns of input up to the stated sizes through 33 entry points, by counting and not by the clock."),
"X05":(M,"exhaustive enumeration of long histories on the real code, one or two uses in turn from a menu, in processes of their own, with the memory in use monitored","Complete over the menu of uses, the pairs and the sizes stated; growth is decided by a run 16 times longer than the one it was seen in, so what is full some day is no violation, and growth below 128 KiB over the first rows is not seen."),
"X06":(M,"bounded exhaustive exploration of every entry point in processes whose system calls, output and settings are monitored","Complete within the stated bounds; effects are system calls outside a list the Go runtime needs, bytes on the standard streams, and changes of the settings that are compared; what package initialisation does is only seen if it prints."),
}
N.update(X)
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,
 "setup_cmd":"./setup.sh",
 "checks":[{"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":"evidence/%s.json"%i,
   "technique":N[i][1],"level":N[i][0],"level_note":N[i][2]} for i in ids if i in N],
 "not_applicable":[{"property":i,"reason":"under construction"} for i in ids if i not in N],
 "notes":"No hooks in /repo: checks drive its public interface, or an instrumented copy made on every run."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False); open("/verif/MANIFEST.json","a").write("\n")
