package hlib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
)

// An error that says it is temporary, and one that cannot be compared.
type tempErr struct{ timeout bool }

func (e *tempErr) Error() string   { return "temporary failure" }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return e.timeout }

type listErr []string

func (e listErr) Error() string { return "listed" }
func (e listErr) Is(t error) bool {
	_, ok := t.(listErr)
	return ok
}

type valueErr struct{ n int }

func (e valueErr) Error() string { return "" }

// Errs are failures of every kind that a connection may report. None is
// anything to be taken for granted, waited out or kept quiet about.
func Errs() []error {
	op := func(e error) error { return &net.OpError{Op: "x", Net: "tcp", Err: e} }
	sys := func(e error) error { return op(os.NewSyscallError("x", e)) }
	return []error{
		errors.New("some failure"),
		&tempErr{true}, &tempErr{false}, op(&tempErr{true}),
		os.ErrDeadlineExceeded, op(os.ErrDeadlineExceeded), context.DeadlineExceeded, context.Canceled,
		io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed,
		syscall.EAGAIN, sys(syscall.EAGAIN), syscall.EINTR, sys(syscall.EINTR), sys(syscall.ECONNRESET),
		sys(syscall.ECONNABORTED), sys(syscall.EPIPE), sys(syscall.EMFILE), sys(syscall.ENOBUFS),
		op(errors.New("use of closed network connection")), op(net.UnknownNetworkError("n")),
		fmt.Errorf("wrapped: %w", io.EOF), errors.Join(errors.New("joined"), io.ErrUnexpectedEOF),
		listErr{"a"}, valueErr{1}, errors.New(""), errors.New("EOF"), errors.New("unexpected EOF"),
		io.ErrUnexpectedEOF, net.ErrClosed, op(net.ErrClosed),
	}
}

// AllErrs are Errs and the plain end of a file.
func AllErrs() []error { return append(Errs(), io.EOF) }

// Accepting are those of Errs that do not say that a listener was closed.
func Accepting() []error { return Errs()[:len(Errs())-2] }

// IsEOF tells whether e is exactly the end of a file.
func IsEOF(e error) bool {
	if _, ok := e.(listErr); ok {
		return false // cannot be compared
	}
	return e == io.EOF
}
