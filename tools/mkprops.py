#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the wording is here)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

HG="hangul.go"; JM="jamo.go"; CT="constant.go"; ST="stroke.go"
PB="encoding/cp949/public.go"; CP="encoding/cp949/cp949.go"; EN="encoding/cp949/encoding.go"
LF="encoding/cp949/lookup_from.go"; LT="encoding/cp949/lookup_to.go"
HJ="hanja/hanja.go"; HT="hanja/table.go"

p("H01","Split and Join are exact inverses on every Hangul syllable",
  "For every one of the 11,172 precomposed syllables U+AC00..U+D7A3, Split gives exactly the conjoining letters of its Unicode canonical decomposition (tail 0 when there is none), SplitCompat gives the same letters in compatibility form, and Join of either triple gives the syllable back. Conversely, for every lead, medial and optional tail, Join gives a syllable that Split takes apart into exactly that triple, and different triples give different syllables.",
  ["inputs"],"all 11,172 syllables, all 19*21*28 letter triples, each letter in conjoining or compatibility form",
  "the tests split 6 syllables and join 4; a wrong row, column or boundary syllable anywhere else passes",
  [HG,CT,JM],[("arithmetic composition and decomposition",HG+": Join, Split, SplitCompat"),("index ranges",JM+": leadIdx, medialIdx, tailIdx")],
  ["hangul.Split","hangul.SplitCompat","hangul.Join"])
p("H02","Join composes only real letters and never silently drops one",
  "For any three runes, Join returns a syllable exactly when the first is a letter that can lead a syllable, the second a vowel letter, and the third either 0 or a letter that can close a syllable, each either in compatibility form or in the conjoining form of its own position; the syllable is then the one made of those letters. For every other triple, including a third rune that is no possible tail, the result is U+FFFD.",
  ["inputs"],"every triple over the letter blocks and their neighbourhoods, and every 32-bit rune in each position",
  "the tests only join four valid triples; no invalid rune is ever passed, so acceptance of garbage is invisible",
  [HG,JM],[("rejecting unknown letters with U+FFFD",HG+": Join"),("compatibility to conjoining lookup",JM+": Lead, Medial, Tail")],
  ["hangul.Join"])
p("H03","A rune that is not a precomposed syllable has no syllable parts",
  "For every rune outside U+AC00..U+D7A3 - ASCII, other scripts, lone letters, surrogates, negative or out-of-range values - Split and SplitCompat return 0, 0, 0.",
  ["inputs"],"all 2^32 rune values outside the syllable block",
  "the tests never pass a non-syllable to Split; the result there is untested arithmetic",
  [HG],[("domain of the decomposition",HG+": Split, SplitCompat")],
  ["hangul.Split","hangul.SplitCompat"])
p("H04","Letter and Hangul predicates classify every rune exactly",
  "IsLead, IsMedial and IsTail hold exactly on U+1100..U+1112, U+1161..U+1175 and U+11A8..U+11C2; IsJaeum holds exactly on leads, tails and compatibility consonants U+3131..U+314E; IsMoeum exactly on medials and compatibility vowels U+314F..U+3163. IsHangul holds exactly on precomposed syllables U+AC00..U+D7A3 and on runes that are jaeum or moeum.",
  ["inputs"],"all 2^32 rune values",
  "no test calls these predicates; five constants are checked",
  [JM,HG,CT],[("range tests",JM+": IsLead, IsMedial, IsTail, IsJaeum, IsMoeum"),("union of classes",HG+": IsHangul")],
  ["hangul.IsLead","hangul.IsMedial","hangul.IsTail","hangul.IsJaeum","hangul.IsMoeum","hangul.IsHangul"])
p("H05","Letter constants and form conversions denote the right Unicode letter",
  "Every exported letter constant is the code point of the Unicode letter it is documented as, CompatJamo maps each modern letter in lead, medial, tail or compatibility form to its compatibility form, and Lead, Medial and Tail map each compatibility letter that exists in that form to it and leave a letter already in that form as it is. Every other rune maps to 0, and converting a letter to lead, medial or tail form and back with CompatJamo returns the same compatibility letter.",
  ["inputs"],"all 119 exported constants and all 2^32 rune values for each conversion",
  "the tests convert four runes and check five constants; a crossed pair of table rows elsewhere passes",
  [CT,JM],[("iota blocks",CT),("form tables",JM+": toCompatJamo, toLead, toTail, CompatJamo, Lead, Medial, Tail")],
  ["hangul.CompatJamo","hangul.Lead","hangul.Medial","hangul.Tail","exported constants"])
p("H06","Compound letters split fully into the basic letters they are built of",
  "SplitMultiElement succeeds exactly on the compound letters (in any form: double and cluster consonants, and the vowels AE, YAE, E, YE, WA, WAE, OE, WEO, WE, WI, YI) and returns their building letters in compatibility form, in writing order. No returned building letter can itself be split further, and for every other rune the result is nil and false.",
  ["inputs"],"all 2^32 rune values, and closure of the decomposition under itself",
  "two letters are tested; a wrong or only partly split entry for any other compound passes",
  [JM],[("decomposition table",JM+": multiElements, SplitMultiElement")],
  ["hangul.SplitMultiElement"])
p("H07","Stroke counts are complete and additive",
  "The stroke count of a syllable is the sum of the counts of its lead, medial and tail, the count of a compound letter is the sum of the counts of its building letters, and a letter has the same count in every form. Each basic letter has its fixed count (G N ZS EU I: 1; D S K A EO O U: 2; L M J T H YA YEO YO YU: 3; B C P: 4), so every letter and syllable counts at least 1, and every other rune counts 0.",
  ["inputs"],"all 2^32 rune values",
  "nine runes are counted by the tests; additivity over 11,172 syllables and zero elsewhere are never checked",
  [ST,JM,HG],[("per letter counts and summation",ST+": strokes, Stroke")],
  ["hangul.Stroke"])
p("H08","Postposition choice follows the final consonant of any word",
  "For every string, LastConsonant returns the conjoining tail of the last rune if that is a precomposed syllable with a tail, and 0 if the string is empty or its last rune is a tailless syllable, another script, punctuation, a compatibility letter or an ill-formed byte; EndsWithConsonant is true exactly when LastConsonant is not 0. AppendPostposition returns the word unchanged followed by exactly one of the two given particles: the first when the word ends in a final consonant, the second otherwise, except that a word ending in the tail L takes the second when the first is exactly \"\uc73c\ub85c\".",
  ["inputs"],"every last rune of the whole rune range, every word up to a bounded length over a class-covering alphabet including ill-formed UTF-8, every particle pair of a class-covering set (a lone conjoining tail as last rune is left open)",
  "the tests use a dozen well-formed Hangul words; words ending in anything else are never tried",
  [HG],[("last rune selection and particle choice",HG+": LastConsonant, EndsWithConsonant, AppendPostposition")],
  ["hangul.LastConsonant","hangul.EndsWithConsonant","hangul.AppendPostposition"])
p("J01","Hanja conversion works rune by rune and touches nothing else",
  "For every well-formed text, Convert replaces each rune for which IsHanja holds by exactly one precomposed Hangul syllable that depends on that rune alone, and leaves every other rune and the order unchanged; so converting a concatenation is concatenating the conversions, and converting twice changes nothing more. IsHanja holds exactly on the CJK unified ideographs U+3400..U+4DB5, U+4E00..U+9FA5 and U+FA0E, FA0F, FA11, FA13, FA14, FA1F, FA21, FA23, FA24, FA27, FA28, FA29.",
  ["inputs"],"all runes; all texts up to a bounded length over a class-covering alphabet; every position and length of long texts",
  "one sentence with nine Hanja is tested; neighbours, surrogate-plane runes, long texts and the other 27,487 ideographs are not",
  [HJ,HT],[("table lookup per rune",HJ+": Convert, IsHanja"),("reading table",HT)],
  ["hanja.Convert","hanja.IsHanja"])
p("J02","Every supported Hanja converts to its Korean reading",
  "Each of the 27,496 supported ideographs converts to its own established Korean reading, the same one whether converted alone or inside a text. In particular the ideographs of KS X 1001, which that standard arranges in the order of their readings, convert to readings that respect that order, apart from ideographs the standard lists under several readings or that have a customary second reading.",
  ["inputs"],"all 27,496 ideographs; all 4,620 ideographs of KS X 1001 in code order",
  "nine readings are tested; a single wrong, swapped or shifted row of the 27,496 passes",
  [HT,HJ],[("reading table",HT)],["hanja.Convert"])
p("C01","One-shot decoding of CP949 matches the standard for every input",
  "From decodes any byte string left to right: a byte below 0x80 is that ASCII character, and a byte from 0x80 up takes the following byte with it and becomes the character the CP949 standard assigns to the pair, or U+FFFD when it assigns none. Every well-formed position is decoded independently of its neighbours and of the total length, and the result is always valid UTF-8. If the input ends after the first byte of a pair, From returns no data and ErrCP949UnexpectedStream.",
  ["inputs"],"all byte strings of up to 3 bytes (thorough: 4), all bounded strings over a class alphabet, all pairs at every offset class of long inputs",
  "two dozen lines of text and one truncated byte are decoded; most of the 17,048 pairs, all invalid pairs and mixed inputs are never seen, and the table test checks order only",
  [PB,CP,LF],[("two-byte scanner with binary search",CP+": translateFromCp949.Translate"),("decode table",LF)],["cp949.From"])
p("C02","One-shot encoding to CP949 matches the standard for every input",
  "To never fails and encodes any byte string left to right: ASCII is unchanged, each character CP949 can represent becomes exactly its two bytes, and each other character - including every one beyond U+FFFF and U+FFFD itself - becomes exactly one '?'. Each byte that is not part of a well-formed UTF-8 character, including a truncated character at the end, becomes one '?', and neighbouring characters are unaffected.",
  ["inputs"],"all runes, all byte strings of up to 3 bytes (thorough: 4), all bounded strings over a class alphabet, long inputs",
  "a few lines of representable text are encoded; no unrepresentable or ill-formed input is ever encoded",
  [PB,CP,LT],[("rune scanner with binary search",CP+": translateToCp949.Translate"),("encode table",LT)],["cp949.To"])
p("C03","CP949 round trips lose nothing in either direction",
  "Decoding is a one-to-one map between the 17,048 assigned CP949 pairs and their characters: encoding the decoded form of any valid CP949 byte string gives the same bytes, and decoding the encoded form of any text of ASCII and representable characters gives the same text. All 11,172 Hangul syllables are representable.",
  ["inputs"],"all assigned pairs and all representable runes, alone, and in all ordered pairs over a class alphabet, through the one-shot functions, the streaming types and the encoding type",
  "the tests check each direction separately on the same few lines",
  [PB,CP,LF,LT,EN],[("the two tables hold the same relation",LF+", "+LT)],["cp949.From","cp949.To","cp949.NewReader","cp949.NewWriter","cp949.CP949Encoding"])
p("C04","Streaming decode gives the one-shot result under any chunking",
  "Whatever way the source hands out its bytes - split anywhere, also inside a two-byte character, with end of file together with the last bytes or after them, with reads that return nothing - and whatever buffer sizes the caller reads with, including zero and one, the bytes read from the streaming reader, joined together, are exactly the one-shot decoding of the source bytes, followed by io.EOF. Each Read fills at most the caller's buffer, and an empty buffer or an empty source read loses nothing.",
  ["inputs","histories"],"all sources over a class alphabet up to a bounded length, times all ways of splitting them, times all caller buffer sequences of a menu, plus streams across internal buffer boundaries",
  "no test uses the streaming reader at all",
  [PB,CP],[("carry over of the incomplete pair and of undelivered output",PB+": cp949Reader.Read")],["cp949.NewReader"],
  [("rdata","source bytes not yet converted",PB),("cdata","converted bytes not yet delivered",PB),("err","final error of the source",PB)])
p("C05","Streaming decode reports how the stream ended and keeps what came before",
  "When the source fails with an error at any point, alone or together with data, the reader first delivers the decoding of every complete character received, and then returns exactly that error, on this and all later reads. When the source ends inside a two-byte character, the reader delivers everything before it and then returns ErrCP949UnexpectedStream and not a clean io.EOF. The reader never asks the source for more while it still holds an undelivered complete character, and never again after the source returned an error.",
  ["inputs","fault_sequences","histories"],"every source of a class alphabet up to a bounded length, an error injected at every byte position in both styles, every chunking and buffer size of the menu",
  "no test injects a source error or truncates a stream",
  [PB],[("sticky source error, drained after pending data",PB+": cp949Reader.Read")],["cp949.NewReader"],
  [("err","final error of the source",PB),("rdata","source bytes not yet converted",PB)])
p("C06","Streaming encode gives the one-shot result under any split into writes",
  "However a text is split into Write calls - also inside a multi-byte character, with empty writes in between - after every Write the sink has received exactly the CP949 encoding of all complete characters written so far, and the unfinished rest is encoded once it is completed or shown to be ill-formed. Each successful Write reports the full length of its argument and does not keep or change the caller's slice.",
  ["inputs","histories"],"all texts over a class alphabet of tokens (ASCII, 2/3/4-byte, unrepresentable, ill-formed) up to a bounded length times all ways of splitting them into writes, plus long texts across buffer sizes",
  "no test uses the streaming writer at all",
  [PB,CP],[("carry over of the unfinished character",PB+": cp949Writer.Write")],["cp949.NewWriter"],
  [("buf","bytes of an unfinished character from earlier writes",PB)])
p("C07","A failing sink never makes streaming encode lose or repeat text",
  "When the sink fails a call without accepting anything, Write returns that very error and 0, and behaves as if it had not been called: the caller can repeat the same Write, and the sink finally holds exactly the encoding of the text, nothing lost and nothing twice. A Write reports success only if no sink call failed.",
  ["fault_sequences","histories"],"all texts of a token alphabet, all splits, and all subsets of up to a bounded number of failing sink calls",
  "no test has a failing sink",
  [PB],[("error return and pending bytes on failure",PB+": cp949Writer.Write")],["cp949.NewWriter"],
  [("buf","bytes of an unfinished character from earlier writes",PB)])
p("C08","The CP949 decoder obeys the transformer contract in any buffer",
  "For every destination size, source window and end-of-input flag, a decoder step never panics, consumes and produces only whole characters that fit, writes nothing but the bytes it reports, and reports that the destination is too short or the source incomplete exactly when that is so. Resuming after either report with more room or more data, in any sequence, yields in total exactly the one-shot decoding; a pair truncated at the end of input gives ErrCP949UnexpectedStream after everything before it.",
  ["inputs","histories"],"all inputs over a class alphabet up to a bounded length, times all destination sizes and all source windows at every step",
  "the tests decode four short texts through 4096-byte buffers, so neither buffer limit is ever reached",
  [EN],[("decoder step",EN+": cp949Decoder.Transform")],["cp949.NewCP949Encoding().NewDecoder()"])
p("C09","The CP949 encoder obeys the transformer contract in any buffer",
  "For every destination size, source window and end-of-input flag, an encoder step never panics, consumes and produces only whole characters that fit, writes nothing but the bytes it reports, and reports that the destination is too short or the source incomplete exactly when that is so. Resuming after either report with more room or more data, in any sequence, yields in total exactly the one-shot encoding, including '?' for what cannot be represented.",
  ["inputs","histories"],"all inputs over a class alphabet up to a bounded length, times all destination sizes and all source windows at every step",
  "the tests encode four short texts in one write each, so neither buffer limit is ever reached",
  [EN],[("encoder step",EN+": cp949Encoder.Transform")],["cp949.NewCP949Encoding().NewEncoder()"])
p("C10","The encoding type works on text of any length through every entry point",
  "For texts of any length, shorter or longer than any internal buffer and with characters straddling its boundary, the Bytes, String, Reader and Writer entry points of the CP949 encoding's decoder and encoder all give exactly the one-shot result, and report a truncated input as ErrCP949UnexpectedStream. Several decoders and encoders obtained from one encoding value do not affect one another.",
  ["inputs","histories"],"all lengths and alignments around every multiple of the 4096-byte buffers, all chunkings of a menu",
  "the longest test text is under 700 bytes, far below the buffer size",
  [EN],[("transformers handed to the text library",EN+": NewDecoder, NewEncoder, Transform")],["Decoder.Bytes","Decoder.String","Decoder.Reader","Encoder.Bytes","Encoder.String","Encoder.Writer"])
p("X01","Calls have no memory: results depend on arguments alone",
  "In any sequence of calls on the three packages, each call returns what it returns when made first in a fresh program; it does not change its arguments, and a result already returned is never changed by a later call. A caller may overwrite or use again any slice it passed in or got back without affecting any other result, earlier or later.",
  ["histories","inputs"],"all call sequences up to a bounded depth over a menu of calls covering every exported function, with and without overwriting arguments and results in between",
  "every test makes its call on fresh data and never looks at an earlier result again or writes to it",
  [JM,HG,ST,HJ,CP,PB,EN],[("fresh output per call",CP+": fromCp949, toCp949"),("read-only tables",JM+", "+HT+", "+LF+", "+LT)],["all exported functions"])
p("X02","Concurrent use from several goroutines is safe",
  "Any exported function may be called from several goroutines at once, and separate readers, writers, decoders and encoders may be used at once, also when obtained from one shared encoding value: in every interleaving each call gives the result it gives when run alone, with no data race, deadlock or crash.",
  ["schedules"],"all statement-level interleavings of 2 goroutines up to a preemption bound (and 3 goroutines at a lower one), over colliding operation pairs, with first use of package state included; plus race detection over the same bodies",
  "all tests are single-threaded",
  [JM,HG,ST,HJ,HT,CP,PB,EN],[("no shared mutable state",CP+": fromCp949, toCp949"),("read-only tables",JM+", "+HT+", "+LF+", "+LT)],["all exported functions"])
p("X03","Open streams are independent of each other and of one-shot calls",
  "When several streaming readers, writers, decoders and encoders are open at once, in whatever order their operations and one-shot calls are interleaved, each stream delivers exactly what it would deliver if it were alone, including its pending half characters and its errors. The same holds when the package is used from inside the source or sink of an open stream, and after a source or sink has panicked.",
  ["histories"],"all interleavings at call granularity of two or three open streams of every kind, with sources that split characters",
  "no test has two streams open",
  [PB,CP,EN],[("state per stream value",PB+": cp949Reader, cp949Writer")],["cp949.NewReader","cp949.NewWriter","Decoder","Encoder"])
p("X04","No input makes any call panic, hang or blow up",
  "Every exported function and every stream operation returns for every argument - any 32-bit rune value, any byte or string content, nil or empty or long - without panicking and after work at most proportional to the input. The output is never larger than 3 bytes per input byte, and streams make progress or return an error.",
  ["inputs","fault_sequences"],"all 2^32 runes for rune functions, all byte strings of up to 3 bytes, all bounded strings over a class alphabet, and long periodic inputs of every class, for every entry point",
  "tests pass only well-formed short inputs",
  [HG,JM,ST,HJ,CP,PB,EN],[("bounds checks and loop progress",CP+": Translate, ensureCap, appendRune; "+PB+": Read, Write")],["all exported functions"])
p("X05","Memory in use does not grow with the time a program runs",
  "What the three packages keep in memory between calls stays bounded: it does not grow with the number of calls made, with the number of different arguments, with the number of readers, writers, decoders and encoders opened and finished, failed or abandoned, or with the amount of text that one open stream has handled; and no goroutine is left behind by a call or by a stream.",
  ["histories","inputs"],"all ways of using the packages from a menu (every exported function, every way a stream ends or goes on), alone and two in turn, with arguments of several sizes, repeated tens of thousands of times",
  "no test calls anything more than a few dozen times, or looks at memory",
  [HG,JM,ST,HJ,CP,PB,EN],[("nothing kept between calls",CP+": fromCp949, toCp949; "+PB+": From, To; "+HJ+": Convert"),("buffers of a stream used again",PB+": Read, Write")],["all exported functions"])
p("X06","Calls have no effect but their results",
  "Apart from calling the sources and sinks they were given, calls and stream operations do nothing to the world outside: they print and log nothing, open or change no file, start no program, use no network, change no environment variable, setting of the runtime or variable of another package, and never end the process, whatever their arguments and whatever errors sources and sinks return.",
  ["inputs","fault_sequences"],"all runes, all byte strings of up to three bytes, all bounded strings over a class alphabet, all pairs of calls and ways of using streams from a menu, long inputs, and failing sources and sinks with every error of a menu",
  "no test looks at anything but results",
  [HG,JM,ST,HJ,CP,PB,EN],[("conversion without effects",CP+": Translate; "+PB+": From, To, Read, Write; "+HJ+": Convert; "+HG+": Join, Split")],["all exported functions"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
