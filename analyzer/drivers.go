package main

// The drivers of composition mode: source that is type-checked together with
// the repository and analysed, never run.

const driverPkg = "zzverif"

func driverSource(mod string) string {
	return `package zzverif

import (
	"` + mod + `/pkg/col"
	"github.com/weaviate/sroar"
)

func wrote(err error)                               {}
func more()                                         {}
func fresh(w *col.Writer, err error)                {}
func part(items int)                                {}
func opened(err error)                              {}
func count(n uint64)                                {}
func index(r *col.Reader)                           {}
func bitmap(b *sroar.Bitmap, err error)             {}
func again(b *sroar.Bitmap, err error)              {}
func got(ids []uint64, values []int64, err error)   {}

func version(n uint32)                              {}
func kind(n uint32)                                 {}
func varint(is bool)                                {}
func delta(is bool)                                 {}

// Opened: what an opened file reports.
func Opened(path string) {
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	version(r.Version())
	kind(r.EncodingType())
	varint(r.IsVarIntEncoded())
	delta(r.IsDeltaEncoded())
	count(r.BlockCount())
	index(r)
}

// Fresh: the state of a new writer.
func Fresh(path string, enc, size uint32) {
	w, err := col.NewWriter(path, col.WithEncoding(enc), col.WithBlockSize(size))
	fresh(w, err)
}

// Step: one more block.
func Step(w *col.Writer, ids []uint64, values []int64) {
	err := w.WriteBlock(ids, values)
	wrote(err)
}

// RoundTrip: a block written completely, among others, is read back.
func RoundTrip(w *col.Writer, path string, block uint64, ids []uint64, values []int64) {
	err := w.WriteBlock(ids, values)
	wrote(err)
	if err != nil {
		return
	}
	more()
	if w.FinalizeAndClose() != nil {
		return
	}
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	count(r.BlockCount())
	i, v, err := r.GetPairs(block)
	got(i, v, err)
}

// Index: a block written completely, among others, and the index that a reader
// builds.
func Index(w *col.Writer, path string, block uint64, ids []uint64, values []int64) {
	err := w.WriteBlock(ids, values)
	wrote(err)
	if err != nil {
		return
	}
	more()
	if w.FinalizeAndClose() != nil {
		return
	}
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	index(r)
}

// IndexPrefix: the same for a block that takes only part of the items.
func IndexPrefix(w *col.Writer, path string, block uint64, ids []uint64, values []int64) {
	full, ok := w.WriteBlock(ids, values).(*col.BlockFullError)
	if !ok {
		return
	}
	part(full.ItemsWritten)
	more()
	if w.FinalizeAndClose() != nil {
		return
	}
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	index(r)
}

// IDs: the ID bitmap of a finished file, asked for twice.
func IDs(w *col.Writer, path string, cached bool, ids []uint64, values []int64) {
	err := w.WriteBlock(ids, values)
	if err != nil {
		return
	}
	more()
	if w.FinalizeAndClose() != nil {
		return
	}
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	if cached {
		r.EnableGlobalIDBitmapCaching()
	}
	b, err := r.GetGlobalIDBitmap()
	bitmap(b, err)
	if err != nil {
		return
	}
	b, err = r.GetGlobalIDBitmap()
	again(b, err)
}

// Empty: a file without blocks.
func Empty(path string, kind, size uint32) {
	w, err := col.NewWriter(path, col.WithEncoding(kind), col.WithBlockSize(size))
	fresh(w, err)
	if err != nil {
		return
	}
	if w.FinalizeAndClose() != nil {
		return
	}
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	count(r.BlockCount())
	b, err := r.GetGlobalIDBitmap()
	bitmap(b, err)
}

// Prefix: a block that takes only part of the items is read back.
func Prefix(w *col.Writer, path string, block uint64, ids []uint64, values []int64) {
	full, ok := w.WriteBlock(ids, values).(*col.BlockFullError)
	if !ok {
		return
	}
	part(full.ItemsWritten)
	more()
	if w.FinalizeAndClose() != nil {
		return
	}
	r, err := col.NewReader(path)
	opened(err)
	if err != nil {
		return
	}
	count(r.BlockCount())
	i, v, err := r.GetPairs(block)
	got(i, v, err)
}
`
}
