// Package vcsv replaces the writer of encoding/csv: every operation on a writer is visible to the
// scheduler, so that writes of several threads to one table are interleaved.
package vcsv

import (
	"encoding/csv"
	"io"
	"unsafe"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Writer replaces csv.Writer.
type Writer struct {
	*csv.Writer
}

// NewWriter makes a writer.
func NewWriter(w io.Writer) *Writer { return &Writer{csv.NewWriter(w)} }

func (w *Writer) pt() bool { return rt.Point(unsafe.Pointer(w), 0, rt.KWrite, nil) }

// Write writes a record.
func (w *Writer) Write(record []string) error {
	w.pt()
	return w.Writer.Write(record)
}

// WriteAll writes records.
func (w *Writer) WriteAll(records [][]string) error {
	w.pt()
	return w.Writer.WriteAll(records)
}

// Flush flushes.
func (w *Writer) Flush() {
	w.pt()
	w.Writer.Flush()
}
