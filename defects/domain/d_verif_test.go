package domain

import (
	"context"
	"io"
	"math"
	"os"
	"path/filepath"
	"recengine/internal/domain/valueobjects"
	"strings"
	"sync"
	"testing"
	"time"
)

func name(s string) valueobjects.NamespaceName { n, _ := valueobjects.ParseNamespaceName(s); return n }
func svc(t *testing.T) (*NamespaceService, string) {
	d := t.TempDir()
	t.Setenv("REC_PATH", d)
	return NewNamespaceService(context.Background(), nil, nil), d
}
func req(s string) *NamespaceCreateRequest {
	return &NamespaceCreateRequest{Name: name(s), Type: valueobjects.MakeLikeNamespaceType()}
}

func TestD_SimilarityOfEmptyProfiles(t *testing.T) {
	v := NewProfile(1).ComputeSimilarity(*NewProfile(2), 1)
	if math.IsNaN(float64(v)) {
		t.Fatal("NaN")
	}
}

func TestD_UpdateReturns(t *testing.T) {
	s, _ := svc(t)
	s.CreateNamespace(req("a"))
	done := make(chan bool)
	go func() { s.UpdateNamespace(name("a"), &NamespaceUpdateRequest{Name: name("b")}); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Second):
		t.Fatal("UpdateNamespace never returns")
	}
}

func TestD_UpdateKeepsDefaultLimit(t *testing.T) {
	ns := NewLikeNamespace(&LikeNamespaceDto{})
	ns.SetMaxSimilarProfiles(0)
	if ns.GetMaxSimilarProfiles() == 0 {
		t.Fatal("limit 0")
	}
}

func TestD_BasePathReachesNamespace(t *testing.T) {
	s, d := svc(t)
	ns, _ := s.CreateNamespace(req("a"))
	if !strings.HasPrefix(ns.(*likeNamespace).basePath, d) {
		t.Fatalf("basePath %q", ns.(*likeNamespace).basePath)
	}
}

func TestD_ConcurrentCreates(t *testing.T) {
	s, _ := svc(t)
	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		n := "n" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		wg.Add(1)
		go func() { defer wg.Done(); s.CreateNamespace(req(n)) }()
	}
	wg.Wait()
	if n := len(s.GetNamespaces()); n != 50 {
		t.Fatalf("%d of 50 namespaces registered", n)
	}
}

func TestD_FailedCreateLeavesNoTrace(t *testing.T) {
	s, d := svc(t)
	os.RemoveAll(d)
	if _, err := s.CreateNamespace(req("a")); err == nil {
		t.Fatal("no fault")
	}
	if s.GetNamespaceByName(name("a")) != nil {
		t.Fatal("a namespace whose creation failed is registered")
	}
}

func TestD_LoadIsAllOrNothing(t *testing.T) {
	s, d := svc(t)
	os.WriteFile(filepath.Join(d, "namespaces.json"), []byte("[{}]"), 0644)
	s.LoadNamespaces()
	for _, ns := range s.GetNamespaces() {
		if ns == nil {
			t.Fatal("nil namespace registered: Start will panic")
		}
	}
}

type failingNs struct{ Namespace }

func (failingNs) Start(context.Context) error { return context.Canceled }

func TestD_StartReportsFailure(t *testing.T) {
	s, _ := svc(t)
	s.namespaces = append(s.namespaces, failingNs{})
	if s.Start(context.Background()) == nil {
		t.Fatal("error of Namespace.Start dropped")
	}
}

// Stub storages.
type stub struct {
	DeltaStorage
	IndexStorage
	name string
	log  *[]string
	mu   *sync.Mutex
}
type dS struct{ stub }
type iS struct{ stub }
type lS struct{ stub }

func (s stub) Close() error { s.mu.Lock(); *s.log = append(*s.log, s.name); s.mu.Unlock(); return nil }
func (s lS) ProcessActions(as []Action) error {
	for _, a := range as {
		a.Error <- nil
	}
	return nil
}

type dsW struct {
	stub
}

func (dsW) Flush() error                                 { return nil }
func (dsW) GetUserCount() int                            { return 0 }
func (dsW) GetTotalItemCount() int                       { return 0 }
func (dsW) GetFileSize() uint64                          { return 0 }
func (dsW) Get(user uint64, item uint64) (DeltaOp, bool) { return 0, false }
func (dsW) Add(op DeltaOp, user uint64, item uint64)     {}

type isW struct{ stub }

func (isW) Get(id uint64) (uint64, bool) { return 0, false }
func (isW) Put(id, index uint64) error   { return nil }
func (isW) Remove(id uint64) error       { return nil }

type fac struct {
	log *[]string
	mu  *sync.Mutex
}
type dF struct {
	DeltaStorageFactory
	fac
}
type iF struct {
	IndexStorageFactory
	fac
}
type lF struct {
	LikeStorageFactory
	fac
}

func (f dF) OpenMaybeRecover(file RandomAccessFile) (DeltaStorage, error) {
	return dsW{stub{name: "delta", log: f.log, mu: f.mu}}, nil
}
func (f iF) Open(file io.ReadWriteSeeker, c io.Closer) (IndexStorage, error) {
	return isW{stub{name: "index", log: f.log, mu: f.mu}}, nil
}
func (f lF) OpenMaybeRecover(file RandomAccessFile, d DeltaStorage, i IndexStorage) (LikeStorage, error) {
	return lS{stub{name: "like", log: f.log, mu: f.mu}}, nil
}

func running(t *testing.T) (*likeNamespace, context.CancelFunc, func() []string) {
	var log []string
	var mu sync.Mutex
	f := fac{&log, &mu}
	ns := NewLikeNamespace(&LikeNamespaceDto{
		Name: name("a"), BasePath: t.TempDir() + "/",
		DeltaStorageFactory: dF{nil, f}, IndexStorageFactory: iF{nil, f}, LikeStorageFactory: lF{nil, f},
	})
	ctx, cancel := context.WithCancel(context.Background())
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	return ns, cancel, func() []string { mu.Lock(); defer mu.Unlock(); return append([]string{}, log...) }
}

func TestD_CancelClosesStorages(t *testing.T) {
	_, cancel, log := running(t)
	cancel()
	time.Sleep(200 * time.Millisecond)
	if len(log()) != 3 {
		t.Fatalf("closed after cancellation: %v", log())
	}
}

func TestD_LikeStorageClosedBeforeItsDependencies(t *testing.T) {
	ns, cancel, log := running(t)
	defer cancel()
	ns.Stop()
	time.Sleep(200 * time.Millisecond)
	if l := log(); len(l) != 3 || l[0] != "like" {
		t.Fatalf("close order %v", l)
	}
}

func TestD_RequestAfterStop(t *testing.T) {
	ns, cancel, _ := running(t)
	defer cancel()
	ns.Stop()
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	done := make(chan error, 1)
	go func() {
		defer func() { recover() }()
		done <- ns.Like(1, 2)
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("stopped namespace accepted a request")
		}
	case <-time.After(time.Second):
		t.Fatal("request hangs or panics after stop")
	}
}
