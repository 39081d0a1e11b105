// Package errors stands in for github.com/pkg/errors (not in this sandbox):
// the functions generate-osm uses, with the behaviour of version 0.9.1.
package errors

import stderrors "errors"

type withMessage struct {
	cause error
	msg   string
}

func (w *withMessage) Error() string { return w.msg + ": " + w.cause.Error() }
func (w *withMessage) Cause() error  { return w.cause }
func (w *withMessage) Unwrap() error { return w.cause }

type withStack struct{ error }

func (w *withStack) Cause() error  { return w.error }
func (w *withStack) Unwrap() error { return w.error }

type fundamental struct{ msg string }

func (f *fundamental) Error() string { return f.msg }

func New(message string) error { return &fundamental{message} }

func Wrap(err error, message string) error {
	if err == nil {
		return nil
	}
	return &withStack{&withMessage{err, message}}
}

func WithMessage(err error, message string) error {
	if err == nil {
		return nil
	}
	return &withMessage{err, message}
}

func Cause(err error) error {
	type causer interface{ Cause() error }
	for err != nil {
		c, ok := err.(causer)
		if !ok {
			break
		}
		err = c.Cause()
	}
	return err
}

func Is(err, target error) bool             { return stderrors.Is(err, target) }
func As(err error, target interface{}) bool { return stderrors.As(err, target) }
func Unwrap(err error) error                { return stderrors.Unwrap(err) }
