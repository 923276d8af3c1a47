package col

// Demonstrations of the defects of the pinned tree that were repaired by the
// "fix:" commits.  Run with
//   cd /repo && go test -overlay /verif/findings/overlay.json -run TestDefect ./pkg/col
// Every test fails on the pinned commit and passes on the repaired tree.

import (
	"encoding/binary"
	"errors"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"testing"

	"github.com/weaviate/sroar"
)

func dpath(t *testing.T) string { return filepath.Join(t.TempDir(), "x.col") }

func dwrite(t *testing.T, p string, enc uint32, ids []uint64, vals []int64) error {
	w, err := NewWriter(p, WithEncoding(enc))
	if err != nil {
		return err
	}
	if err := w.WriteBlock(ids, vals); err != nil {
		w.Close()
		return err
	}
	return w.FinalizeAndClose()
}

func TestDefectRoundTripAllEncodings(t *testing.T) {
	ids := []uint64{3, 7, 8, 1 << 40, math.MaxUint64}
	vals := []int64{-5, 1000, math.MinInt64, math.MaxInt64, 0}
	for enc := uint32(0); enc <= 7; enc++ {
		p := dpath(t)
		if err := dwrite(t, p, enc, ids, vals); err != nil {
			t.Errorf("enc %d: write: %v", enc, err)
			continue
		}
		r, err := NewReader(p)
		if err != nil {
			t.Fatal(err)
		}
		gi, gv, err := r.GetPairs(0)
		if err != nil || !reflect.DeepEqual(gi, ids) || !reflect.DeepEqual(gv, vals) {
			t.Errorf("enc %d: got %v %v %v", enc, gi, gv, err)
		}
		r.Close()
	}
}

func TestDefectMinInt64Stat(t *testing.T) {
	p := dpath(t)
	if err := dwrite(t, p, EncodingRaw, []uint64{1, 2}, []int64{math.MinInt64, -1}); err != nil {
		t.Fatal(err)
	}
	r, _ := NewReader(p)
	defer r.Close()
	if m := r.Aggregate().Min; m != math.MinInt64 {
		t.Errorf("cached min = %d", m)
	}
}

func TestDefectEmptySelection(t *testing.T) {
	p := dpath(t)
	if err := dwrite(t, p, EncodingRaw, []uint64{0, 10}, []int64{5, 6}); err != nil {
		t.Fatal(err)
	}
	r, _ := NewReader(p)
	defer r.Close()
	f := sroar.NewBitmap()
	f.Set(5)
	if got := r.AggregateWithOptions(AggregateOptions{Filter: f}); got != (AggregateResult{}) {
		t.Errorf("filtered: %+v", got)
	}
	e := dpath(t)
	w, _ := NewWriter(e)
	w.FinalizeAndClose()
	r2, _ := NewReader(e)
	defer r2.Close()
	if got := r2.Aggregate(); got != (AggregateResult{}) {
		t.Errorf("empty file: %+v", got)
	}
}

// A file whose last block is cut short must not read as zeros or as made-up pairs.
func TestDefectShortSections(t *testing.T) {
	for _, enc := range []uint32{EncodingRaw, EncodingVarInt} {
		p := dpath(t)
		ids := []uint64{100, 200, 300}
		if err := dwrite(t, p, enc, ids, []int64{1, 2, 3}); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(p)
		// claim one byte (varint) or one word (raw) less of ID section
		off := 64 + 64 + 4
		sz := binary.LittleEndian.Uint32(b[off:])
		if enc == EncodingRaw {
			sz -= 8
		} else {
			sz -= 2
		}
		binary.LittleEndian.PutUint32(b[off:], sz)
		os.WriteFile(p, b, 0o644)
		r, err := NewReader(p)
		if err != nil {
			t.Fatal(err)
		}
		gi, _, err := r.GetPairs(0)
		if err == nil {
			t.Errorf("enc %d: short ID section accepted: %v", enc, gi)
		}
		r.Close()
	}
}

func TestDefectReadPastEOF(t *testing.T) {
	p := dpath(t)
	if err := dwrite(t, p, EncodingRaw, []uint64{1}, []int64{1}); err != nil {
		t.Fatal(err)
	}
	r, _ := NewReader(p)
	defer r.Close()
	if b, err := r.readBytesAt(r.fileSize-4, 100); err == nil {
		t.Errorf("read past EOF returned %d bytes and no error", len(b))
	}
}

func dcorrupt(t *testing.T, edit func([]byte) []byte) (err error) {
	p := dpath(t)
	w, _ := NewWriter(p)
	w.WriteBlock([]uint64{1, 2}, []int64{1, 2})
	w.WriteBlock([]uint64{3, 4}, []int64{3, 4})
	if err := w.FinalizeAndClose(); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(p)
	os.WriteFile(p, edit(b), 0o644)
	defer func() {
		if x := recover(); x != nil {
			t.Errorf("panic: %v", x)
		}
	}()
	r, err := NewReader(p)
	if err != nil {
		return err
	}
	defer r.Close()
	if _, _, err := r.GetPairs(0); err != nil {
		return err
	}
	if r.BlockCount() != uint64(len(r.blockIndex)) {
		return errors.New("BlockCount disagrees with the index") // reported below
	}
	_, err = r.GetGlobalIDBitmap()
	return err
}

func TestDefectCorruptFiles(t *testing.T) {
	entry := func(b []byte) int { return len(b) - 24 - 2*56 }
	cases := map[string]func([]byte) []byte{
		"block size 0":      func(b []byte) []byte { binary.LittleEndian.PutUint32(b[entry(b)+8:], 0); return b },
		"block size 70":     func(b []byte) []byte { binary.LittleEndian.PutUint32(b[entry(b)+8:], 70); return b },
		"header blocks 1e9": func(b []byte) []byte { binary.LittleEndian.PutUint64(b[16:], 1000000000); return b },
		"bitmap size odd": func(b []byte) []byte {
			o := binary.LittleEndian.Uint64(b[44:])
			binary.LittleEndian.PutUint32(b[o:], 7)
			return b
		},
		"encoding 77":    func(b []byte) []byte { binary.LittleEndian.PutUint32(b[32:], 77); return b },
		"compression 1":  func(b []byte) []byte { binary.LittleEndian.PutUint32(b[28:], 1); return b },
		"column type 10": func(b []byte) []byte { binary.LittleEndian.PutUint32(b[12:], 10); return b },
	}
	for name, edit := range cases {
		t.Run(name, func(t *testing.T) {
			err := dcorrupt(t, edit)
			if err == nil || err.Error() == "BlockCount disagrees with the index" {
				t.Errorf("not rejected: %v", err)
			}
		})
	}
}

func TestDefectFailedBlockLeavesNoTrace(t *testing.T) {
	p := dpath(t)
	w, _ := NewWriter(p)
	real := w.file
	ro, _ := os.Open(p) // a handle on which every write fails
	w.file = ro
	if err := w.WriteBlock([]uint64{42}, []int64{1}); err == nil {
		t.Fatal("write should fail")
	}
	w.file = real
	if err := w.WriteBlock([]uint64{7}, []int64{1}); err != nil {
		t.Fatal(err)
	}
	if err := w.FinalizeAndClose(); err != nil {
		t.Fatalf("finalize: %v", err)
	}
	r, _ := NewReader(p)
	defer r.Close()
	bm, err := r.GetGlobalIDBitmap()
	if err != nil || bm.Contains(42) || !bm.Contains(7) {
		t.Errorf("bitmap %v %v", bm.ToArray(), err)
	}
}

func TestDefectConcurrentBitmapCache(t *testing.T) { // needs -race
	p := dpath(t)
	if err := dwrite(t, p, EncodingRaw, []uint64{1}, []int64{1}); err != nil {
		t.Fatal(err)
	}
	r, _ := NewReader(p)
	defer r.Close()
	r.EnableGlobalIDBitmapCaching()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); r.GetGlobalIDBitmap() }()
	}
	wg.Wait()
}

func TestDefectSimpleWriterOrder(t *testing.T) {
	p := dpath(t)
	w, _ := NewSimpleWriter(p)
	w.Write([]uint64{10, 20}, []int64{1, 2})
	w.Write([]uint64{5, 15}, []int64{3, 4})
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	r, _ := NewReader(p)
	defer r.Close()
	ids, vals, _ := r.GetPairs(0)
	if !reflect.DeepEqual(ids, []uint64{5, 10, 15, 20}) || !reflect.DeepEqual(vals, []int64{3, 1, 4, 2}) {
		t.Errorf("block not in ID order: %v %v", ids, vals)
	}
}

func TestDefectFinalizeErrorClosesFile(t *testing.T) {
	p := dpath(t)
	w, _ := NewWriter(p)
	w.file.Close()
	ro, _ := os.Open(p)
	w.file = ro
	if err := w.FinalizeAndClose(); err == nil {
		t.Fatal("finalize should fail")
	}
	if err := ro.Close(); !errors.Is(err, os.ErrClosed) {
		t.Errorf("file left open after FinalizeAndClose failed")
	}
}
