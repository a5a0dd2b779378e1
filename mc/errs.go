package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strconv"
	"strings"
	"syscall"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
)

// netErr looks like an error worth another try.
type netErr struct{ what string }

func (e *netErr) Error() string   { return e.what }
func (e *netErr) Timeout() bool   { return true }
func (e *netErr) Temporary() bool { return true }

// likeEOF says of itself that it is io.EOF, and is not.
type likeEOF struct{}

func (likeEOF) Error() string        { return "EOF" }
func (likeEOF) Is(target error) bool { return target == io.EOF }

// valErr is an error by value, like syscall.Errno.
type valErr int

func (e valErr) Error() string { return fmt.Sprintf("error %d", int(e)) }

// listErr cannot be compared: == of two of them panics.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, "; ") }

// multiErr cannot either, and wraps what it has, here nothing.
type multiErr []error

func (e multiErr) Error() string   { return fmt.Sprint(len(e), " errors") }
func (e multiErr) Unwrap() []error { return e }

// nilErr is an error though its pointer is nil.
type nilErr struct{ what string }

func (e *nilErr) Error() string {
	if e == nil {
		return "nothing known"
	}
	return e.what
}

// sameErr is a == b for errors of all kinds.
func sameErr(a, b error) bool {
	switch x := a.(type) {
	case listErr:
		y, ok := b.(listErr)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case multiErr:
		y, ok := b.(multiErr)
		return ok && len(x) == len(y)
	}
	return a == b
}

// streamErrs are the errors a source or a sink may fail with, by name. They
// are all passed on as they are; only a plain io.EOF of a source is an end.
var streamErrs = []struct {
	name string
	err  error
}{
	{"errSource", errSource},
	{"errSink", errSink},
	{"io.EOF", io.EOF},
	{"io.ErrUnexpectedEOF", io.ErrUnexpectedEOF},
	{"io.ErrNoProgress", io.ErrNoProgress},
	{"io.ErrShortBuffer", io.ErrShortBuffer},
	{"io.ErrShortWrite", io.ErrShortWrite},
	{"io.ErrClosedPipe", io.ErrClosedPipe},
	{"cp949.ErrCP949UnexpectedStream", cp949.ErrCP949UnexpectedStream},
	{"transform.ErrShortSrc", transform.ErrShortSrc},
	{"transform.ErrShortDst", transform.ErrShortDst},
	{"transform.ErrEndOfSpan", transform.ErrEndOfSpan},
	{"bufio.ErrBufferFull", bufio.ErrBufferFull},
	{"wrapped io.EOF", fmt.Errorf("read: %w", io.EOF)},
	{"wrapped io.ErrUnexpectedEOF", fmt.Errorf("read: %w", io.ErrUnexpectedEOF)},
	{"wrapped ErrCP949UnexpectedStream", fmt.Errorf("read: %w", cp949.ErrCP949UnexpectedStream)},
	{"wrapped transform.ErrShortSrc", fmt.Errorf("read: %w", transform.ErrShortSrc)},
	{"an error that Is io.EOF", likeEOF{}},
	{"another error saying EOF", errors.New("EOF")},
	{"a temporary error", &netErr{"try again"}},
	{"context.Canceled", context.Canceled},
	{"os.ErrDeadlineExceeded", os.ErrDeadlineExceeded},
	{"a path error", &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}},
	{"syscall.EINTR", syscall.EINTR},
	{"syscall.EAGAIN", syscall.EAGAIN},
	{"error 0 by value", valErr(0)},
	{"syscall.EPIPE", syscall.EPIPE},
	{"syscall.ENOSPC", syscall.ENOSPC},
	{"syscall.ECONNRESET", syscall.ECONNRESET},
	{"syscall.EBADF", syscall.EBADF},
	{"syscall.ETIMEDOUT", syscall.ETIMEDOUT},
	{"syscall error 0", syscall.Errno(0)},
	{"a path error of EPIPE", &fs.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}},
	{"a path error of EAGAIN", &fs.PathError{Op: "read", Path: "|0", Err: syscall.EAGAIN}},
	{"a path error of io.EOF", &fs.PathError{Op: "read", Path: "x", Err: io.EOF}},
	{"a system call error", os.NewSyscallError("write", syscall.EPIPE)},
	{"os.ErrClosed", os.ErrClosed},
	{"os.ErrNotExist", os.ErrNotExist},
	{"os.ErrPermission", os.ErrPermission},
	{"os.ErrInvalid", os.ErrInvalid},
	{"os.ErrProcessDone", os.ErrProcessDone},
	{"errors.ErrUnsupported", errors.ErrUnsupported},
	{"context.DeadlineExceeded", context.DeadlineExceeded},
	{"bufio.ErrTooLong", bufio.ErrTooLong},
	{"bufio.ErrNegativeCount", bufio.ErrNegativeCount},
	{"bufio.ErrFinalToken", bufio.ErrFinalToken},
	{"bytes.ErrTooLarge", bytes.ErrTooLarge},
	{"encoding.ErrInvalidUTF8", encoding.ErrInvalidUTF8},
	{"strconv.ErrRange", strconv.ErrRange},
	{"wrapped io.ErrNoProgress", fmt.Errorf("read: %w", io.ErrNoProgress)},
	{"wrapped io.ErrClosedPipe", fmt.Errorf("write: %w", io.ErrClosedPipe)},
	{"wrapped transform.ErrShortDst", fmt.Errorf("write: %w", transform.ErrShortDst)},
	{"wrapped twice", fmt.Errorf("a: %w", fmt.Errorf("b: %w", io.EOF))},
	{"an error without text", errors.New("")},
	{"joined with io.EOF", errors.Join(errSource, io.EOF)},
	{"an error that cannot be compared", listErr{"a", "b"}},
	{"another error that cannot be compared", listErr{"EOF"}},
	{"a nil pointer", (*nilErr)(nil)},
	{"an error without parts", multiErr(nil)},
}

func streamErrName(err error) string {
	for _, e := range streamErrs {
		if sameErr(e.err, err) {
			return e.name
		}
	}
	return fmt.Sprint(err)
}

func streamErr(name string, def error) error {
	for _, e := range streamErrs {
		if e.name == name {
			return e.err
		}
	}
	return def
}

// allErrs are all of them but those given.
func allErrs(but ...error) (l []error) {
next:
	for _, e := range streamErrs {
		for _, b := range but {
			if e.err == b {
				continue next
			}
		}
		l = append(l, e.err)
	}
	return
}
