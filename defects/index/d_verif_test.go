package index

import (
	"errors"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"testing"
)

type faultFile struct {
	*os.File
	failWrite int
}

func (f *faultFile) Write(b []byte) (int, error) {
	if f.failWrite > 0 {
		f.failWrite--
		if f.failWrite == 0 {
			return 0, errors.New("write fault")
		}
	}
	return f.File.Write(b)
}

func tmp(t *testing.T) *faultFile {
	f, err := os.OpenFile(filepath.Join(t.TempDir(), "x.index"), os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		t.Fatal(err)
	}
	return &faultFile{File: f}
}

func TestD_CloseUnlocksLast(t *testing.T) {
	f := tmp(t)
	s, _ := NewStorageFactory().Open(f, f)
	s.Put(1, 2)
	f.failWrite = 2 // the entries' write
	if s.Close() == nil {
		t.Fatal("no fault")
	}
	b, _ := os.ReadFile(f.Name())
	if b[lockedOffset] == 0 {
		t.Fatal("file without its entries is marked clean")
	}
}

func TestD_LockedFileIsReportedCorrupted(t *testing.T) {
	f := tmp(t)
	NewStorageFactory().Open(f, nil) // left locked, as after a crash
	_, err := NewStorageFactory().Open(f, nil)
	if err == nil || !errors.Is(err, domain.NewCorruptedFileError()) {
		t.Fatalf("got %v", err)
	}
}
