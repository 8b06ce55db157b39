package delta

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

// faultFile wraps an *os.File; failSeek/failWrite/failRead make the n-th such call fail.
type faultFile struct {
	File                          *os.File
	failSeek, failWrite, failRead int
	closed                        int
}

func hit(n *int) bool {
	if *n > 0 {
		*n--
		return *n == 0
	}
	return false
}
func (f *faultFile) Seek(o int64, w int) (int64, error) {
	if hit(&f.failSeek) {
		return 0, errors.New("seek fault")
	}
	return f.File.Seek(o, w)
}
func (f *faultFile) Write(b []byte) (int, error) {
	if hit(&f.failWrite) {
		n, _ := f.File.Write(b[:len(b)/2])
		return n, errors.New("write fault")
	}
	return f.File.Write(b)
}
func (f *faultFile) Read(b []byte) (int, error) {
	if hit(&f.failRead) {
		return 0, errors.New("read fault")
	}
	return f.File.Read(b)
}
func (f *faultFile) Truncate(n int64) error { return f.File.Truncate(n) }
func (f *faultFile) Close() error           { f.closed++; return f.File.Close() }

func tmp(t *testing.T) *faultFile {
	f, err := os.OpenFile(filepath.Join(t.TempDir(), "x.delta"), os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		t.Fatal(err)
	}
	return &faultFile{File: f}
}

func TestD_GetSeesFlushedOps(t *testing.T) {
	s, _ := NewStorageFactory().Open(helpers.NewFileBuffer(nil))
	s.Add(domain.DeltaOpAdd, 7, 1)
	s.Flush()
	s.Add(domain.DeltaOpAdd, 7, 2)
	if op, ok := s.Get(7, 1); !ok || op != domain.DeltaOpAdd {
		t.Fatalf("flushed op hidden by an unflushed op of the same user: %v %v", op, ok)
	}
}

func TestD_FlushSeekErrorSwallowed(t *testing.T) {
	f := tmp(t)
	s, _ := NewStorageFactory().Open(f)
	s.Add(domain.DeltaOpAdd, 7, 1)
	f.failSeek = 1
	if err := s.Flush(); err == nil {
		t.Fatal("Flush reported success although the seek failed")
	}
}

func TestD_OpenMaybeRecoverEmpty(t *testing.T) {
	if _, err := NewStorageFactory().OpenMaybeRecover(tmp(t)); err != nil {
		t.Fatalf("empty file: %v", err)
	}
}

func TestD_OpenMaybeRecoverTornCreation(t *testing.T) {
	f := tmp(t)
	f.File.Write(prefix[:])
	f.File.Seek(0, io.SeekStart)
	if _, err := NewStorageFactory().OpenMaybeRecover(f); err != nil {
		t.Fatalf("torn file: %v", err)
	}
}

func TestD_RecoverFromAnyPosition(t *testing.T) {
	f := tmp(t)
	f.File.Write(append(makeTestHeaderData(true, 1), makeTestEntryData('+', 7, 13)...))
	NewStorageFactory().Recover(f)
	if st, _ := f.File.Stat(); st.Size() != int64(len(prefix)+headerSize+entrySize) {
		t.Fatalf("valid entry dropped, size %d", st.Size())
	}
}

func TestD_RecoverKeepsLockUntilDone(t *testing.T) {
	f := tmp(t)
	f.File.Write(append(append(makeTestHeaderData(true, 2), makeTestEntryData('+', 7, 13)...), 1, 2, 3))
	f.File.Seek(0, io.SeekStart)
	f.failWrite = 1 // the copy back stops half way, as in a crash
	if err := NewStorageFactory().Recover(f); err == nil {
		t.Fatal("no error")
	}
	b, _ := os.ReadFile(f.File.Name())
	if b[lockedOffset] == 0 {
		t.Fatal("half-recovered file is marked clean")
	}
}

func TestD_RecoverReadFaultIsNotCorruption(t *testing.T) {
	f := tmp(t)
	f.File.Write(append(append(makeTestHeaderData(true, 2), makeTestEntryData('+', 7, 13)...), makeTestEntryData('+', 7, 14)...))
	f.File.Seek(0, io.SeekStart)
	f.failRead = 6 // inside the entries
	NewStorageFactory().Recover(f)
	if st, _ := f.File.Stat(); st.Size() != int64(len(prefix)+headerSize+2*entrySize) {
		t.Fatalf("valid entries destroyed after a transient read error, size %d", st.Size())
	}
}

func TestD_RecoverZeroFilledTail(t *testing.T) {
	f := tmp(t)
	f.File.Write(append(append(makeTestHeaderData(true, 2), makeTestEntryData('+', 7, 13)...), make([]byte, 3*entrySize)...))
	f.File.Seek(0, io.SeekStart)
	NewStorageFactory().Recover(f)
	if st, _ := f.File.Stat(); st.Size() != int64(len(prefix)+headerSize+entrySize) {
		t.Fatalf("zero-filled garbage kept as entries, size %d", st.Size())
	}
}

func TestD_FailedFlushCanBeRetried(t *testing.T) {
	f := tmp(t)
	s, _ := NewStorageFactory().Open(f)
	s.Add(domain.DeltaOpAdd, 7, 1)
	f.failWrite = 2 // the entries' write
	if s.Flush() == nil {
		t.Fatal("no fault")
	}
	if err := s.Close(); err != nil {
		t.Fatal(err)
	}
	g, _ := os.OpenFile(f.File.Name(), os.O_RDWR, 0)
	s, err := NewStorageFactory().Open(g)
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := s.Get(7, 1); !ok {
		t.Fatal("entry lost after a failed and retried flush")
	}
}

func TestD_CloseReleasesFileOnError(t *testing.T) {
	f := tmp(t)
	s, _ := NewStorageFactory().Open(f)
	f.failWrite = 1
	if s.Close() == nil {
		t.Fatal("no fault")
	}
	if f.closed == 0 {
		t.Fatal("file handle leaked")
	}
}
