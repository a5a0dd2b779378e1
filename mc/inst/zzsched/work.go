package zzsched

// Calls of the standard library that look at many bytes: the same, with the
// bytes looked at added to the work.

import (
	"bytes"
	"strings"
	"unicode/utf8"
)

func seen(i, n int) int {
	if i < 0 {
		W(n)
	} else {
		W(i)
	}
	return i
}

func alike(a, b []byte) {
	if Counting {
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		W(n)
	}
}

func Bytes_Index(a, b []byte) int           { return seen(bytes.Index(a, b), len(a)) }
func Bytes_IndexByte(a []byte, b byte) int  { return seen(bytes.IndexByte(a, b), len(a)) }
func Bytes_IndexRune(a []byte, b rune) int  { return seen(bytes.IndexRune(a, b), len(a)) }
func Bytes_IndexAny(a []byte, b string) int { return seen(bytes.IndexAny(a, b), len(a)) }
func Bytes_Contains(a, b []byte) bool       { return Bytes_Index(a, b) >= 0 }
func Bytes_Count(a, b []byte) int           { W(len(a)); return bytes.Count(a, b) }
func Bytes_LastIndex(a, b []byte) int       { W(len(a)); return bytes.LastIndex(a, b) }
func Bytes_LastIndexByte(a []byte, b byte) int {
	i := bytes.LastIndexByte(a, b)
	W(len(a) - 1 - i)
	return i
}
func Bytes_Equal(a, b []byte) bool {
	if len(a) == len(b) {
		alike(a, b)
	}
	return bytes.Equal(a, b)
}
func Bytes_Compare(a, b []byte) int    { alike(a, b); return bytes.Compare(a, b) }
func Bytes_HasPrefix(a, b []byte) bool { alike(a, b); return bytes.HasPrefix(a, b) }
func Bytes_IndexFunc(a []byte, f func(rune) bool) int {
	return seen(bytes.IndexFunc(a, f), len(a))
}

func Strings_Index(a, b string) int              { return seen(strings.Index(a, b), len(a)) }
func Strings_IndexByte(a string, b byte) int     { return seen(strings.IndexByte(a, b), len(a)) }
func Strings_IndexRune(a string, b rune) int     { return seen(strings.IndexRune(a, b), len(a)) }
func Strings_IndexAny(a, b string) int           { return seen(strings.IndexAny(a, b), len(a)) }
func Strings_Contains(a, b string) bool          { return Strings_Index(a, b) >= 0 }
func Strings_ContainsRune(a string, b rune) bool { return Strings_IndexRune(a, b) >= 0 }
func Strings_ContainsAny(a, b string) bool       { return Strings_IndexAny(a, b) >= 0 }
func Strings_Count(a, b string) int              { W(len(a)); return strings.Count(a, b) }
func Strings_LastIndex(a, b string) int          { W(len(a)); return strings.LastIndex(a, b) }
func Strings_IndexFunc(a string, f func(rune) bool) int {
	return seen(strings.IndexFunc(a, f), len(a))
}

func Utf8_RuneCount(a []byte) int         { W(4 * len(a)); return utf8.RuneCount(a) }
func Utf8_RuneCountInString(a string) int { W(4 * len(a)); return utf8.RuneCountInString(a) }
func Utf8_Valid(a []byte) bool {
	ok := utf8.Valid(a)
	if ok {
		W(len(a))
	} else if Counting {
		n := 0
		for n < len(a) {
			r, s := utf8.DecodeRune(a[n:])
			if r == utf8.RuneError && s == 1 {
				break
			}
			n += s
		}
		W(n)
	}
	return ok
}
func Utf8_ValidString(a string) bool {
	ok := utf8.ValidString(a)
	if ok {
		W(len(a))
	} else if Counting {
		for i, r := range a {
			if r == utf8.RuneError {
				if _, s := utf8.DecodeRuneInString(a[i:]); s == 1 {
					W(i)
					break
				}
			}
		}
	}
	return ok
}
