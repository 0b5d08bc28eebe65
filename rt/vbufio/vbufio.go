// Package vbufio replaces the writer of bufio: every operation on a writer is visible to the
// scheduler, so that writes of several threads to one file are interleaved.
package vbufio

import (
	"bufio"
	"io"
	"unsafe"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Writer replaces bufio.Writer.
type Writer struct {
	*bufio.Writer
}

// NewWriter makes a writer.
func NewWriter(w io.Writer) *Writer { return &Writer{bufio.NewWriter(w)} }

// NewWriterSize makes a writer.
func NewWriterSize(w io.Writer, n int) *Writer { return &Writer{bufio.NewWriterSize(w, n)} }

func (w *Writer) pt() { rt.Point(unsafe.Pointer(w), 0, rt.KWrite, nil) }

// Write writes.
func (w *Writer) Write(p []byte) (int, error) {
	w.pt()
	return w.Writer.Write(p)
}

// WriteString writes.
func (w *Writer) WriteString(s string) (int, error) {
	w.pt()
	return w.Writer.WriteString(s)
}

// WriteByte writes.
func (w *Writer) WriteByte(c byte) error {
	w.pt()
	return w.Writer.WriteByte(c)
}

// WriteRune writes.
func (w *Writer) WriteRune(r rune) (int, error) {
	w.pt()
	return w.Writer.WriteRune(r)
}

// Flush flushes.
func (w *Writer) Flush() error {
	w.pt()
	return w.Writer.Flush()
}
