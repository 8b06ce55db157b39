package recdb

import (
	"bytes"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"reflect"
	"sync"
	"testing"
)

func TestD_CreateWritesTheFile(t *testing.T) {
	b := &bytes.Buffer{}
	NewProtocol(NewLikeProtocol()).Create(b)
	if b.Len() != len(prefix)+headerSize {
		t.Fatalf("Create wrote %d bytes", b.Len())
	}
}

func two() *helpers.FileBuffer {
	b := append(mockLikeRecDbHeaderBytes(false, 2), mockLikeRecDbEntryBytes(false)...)
	return helpers.NewFileBuffer(append(b, mockLikeRecDbEntryBytes(false)...))
}

func TestD_SetPreviousHitsTheRightEntry(t *testing.T) {
	f := two()
	it, _ := NewIterator(f, NewProtocol(NewLikeProtocol()))
	it.Next()
	e := mockLikeRecDbEntry(false)
	e.Data.(*domain.Profile).UserID = 43
	if err := it.SetPrevious(e); err != nil {
		t.Fatal(err)
	}
	it.Rewind()
	a, _ := it.Next()
	b, _ := it.Next()
	if a.Data.(*domain.Profile).UserID != 43 || b.Data.(*domain.Profile).UserID != 42 {
		t.Fatalf("wrong entry rewritten: %v %v", a.Data, b.Data)
	}
}

func TestD_OversizedEntryIsRejected(t *testing.T) {
	f := two()
	it, _ := NewIterator(f, NewProtocol(NewLikeProtocol()))
	it.Next()
	e := mockLikeRecDbEntry(false)
	e.Data.(*domain.Profile).Likes = make([]uint64, 20)
	before := append([]byte{}, f.Bytes()...)
	if err := it.SetPrevious(e); err == nil || !bytes.Equal(before, f.Bytes()) {
		t.Fatalf("err=%v, changed=%v", err, !bytes.Equal(before, f.Bytes()))
	}
}

func TestD_TinyCapacity(t *testing.T) {
	data := mockLikeRecDbEntryBytes(false)[5:]
	for c := uint32(0); c < 5; c++ {
		if _, err := NewLikeProtocol().ReadEntryData(&Entry{Capacity: c}, bytes.NewReader(data)); err == nil {
			t.Fatalf("capacity %d accepted", c)
		}
	}
}

func TestD_HugeCountDoesNotAllocate(t *testing.T) {
	data := []byte{0, 0, 0, 0, 0, 0, 0, 42, 0x08, 0, 0, 0}
	n := testing.AllocsPerRun(1, func() {
		NewLikeProtocol().ReadEntryData(&Entry{Capacity: 50}, bytes.NewReader(data))
	})
	r := testing.Benchmark(func(b *testing.B) {
		b.ReportAllocs()
		for i := 0; i < b.N; i++ {
			NewLikeProtocol().ReadEntryData(&Entry{Capacity: 50}, bytes.NewReader(data))
		}
	})
	if r.AllocedBytesPerOp() > 1<<20 {
		t.Fatalf("%d bytes allocated for a 50 byte entry (%v allocs)", r.AllocedBytesPerOp(), n)
	}
}

func TestD_NilDataIsAnError(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	if _, err := NewLikeProtocol().WriteEntryData(&Entry{Capacity: 50}, &bytes.Buffer{}); err == nil {
		t.Fatal("no error")
	}
}

func TestD_ConcurrentReadersDoNotRace(t *testing.T) { // with -race
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); helpers.SkipReading(10, bytes.NewReader(make([]byte, 10))) }()
	}
	wg.Wait()
}

var _ = reflect.DeepEqual
