package shard

import (
	"context"
	"net"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"testing"
	"time"
)

func TestD_ListenErrorEndsRun(t *testing.T) {
	l, err := net.Listen("tcp", "localhost:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	app := NewApplication(&ApplicationDto{
		Config:    &Config{"localhost", l.Addr().(*net.TCPAddr).Port},
		NsService: domain.NewNamespaceService(context.Background(), nil, nil),
	})
	done := make(chan error, 1)
	go func() { done <- app.Run() }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("Run does not return although the server cannot listen")
	}
}

type likeF struct{ domain.LikeStorageFactory }
type likeS struct{}

func (likeS) Close() error                         { return nil }
func (likeS) ProcessActions([]domain.Action) error { return nil }
func (likeF) OpenMaybeRecover(domain.RandomAccessFile, domain.DeltaStorage, domain.IndexStorage) (domain.LikeStorage, error) {
	return likeS{}, nil
}

func TestD_NamespaceStartsAfterCrash(t *testing.T) {
	dir := t.TempDir() + "/"
	os.WriteFile(filepath.Join(dir, ".index"), []byte("RECIDX\x01\x01\x00\x00\x00\x00"), 0644) // locked: crashed
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{BasePath: dir,
		DeltaStorageFactory: delta.NewStorageFactory(), IndexStorageFactory: index.NewStorageFactory(), LikeStorageFactory: likeF{}})
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
}
