from seedlib import mk
H='hamt/hamt.go'; F='file/unixfile.go'
HEAD='''
package hamt

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

var _ = errors.New
var _ = mdag.NewRawNode
var _ sync.Mutex
var _ = runtime.NumGoroutine
var _ = strings.Contains
var _ cid.Cid
var _ = time.Second

// tree stores a directory of n entries and returns its root, not loaded.
func tree(t *testing.T, ds ipld.DAGService, n int) (*Shard, ipld.Node) {
	ctx := context.Background()
	s, err := NewShard(ds, 8)
	if err != nil {
		t.Fatal(err)
	}
	e := ft.EmptyDirNode()
	if err := ds.Add(ctx, e); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < n; i++ {
		if err := s.Set(ctx, fmt.Sprintf("entry-%d", i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	return s, nd
}

// within runs f and fails if it takes too long.
func within(t *testing.T, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s did not end", what)
	}
}

// idle waits until no goroutine runs a function whose name contains s.
func idle(s string) bool {
	for i := 0; i < 100; i++ {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), s) {
			return true
		}
		time.Sleep(30 * time.Millisecond)
	}
	return false
}
'''
LATE='''
// service fails the second batch at once and delivers the other ones late.
type service struct {
	ipld.DAGService
	mu sync.Mutex
	n  int
}

func (s *service) GetMany(ctx context.Context, cids []cid.Cid) <-chan *ipld.NodeOption {
	if len(cids) == 0 {
		return s.DAGService.GetMany(ctx, cids)
	}
	s.mu.Lock()
	s.n++
	n := s.n
	s.mu.Unlock()
	if n == 1 {
		return s.DAGService.GetMany(ctx, cids)
	}
	out := make(chan *ipld.NodeOption, len(cids))
	go func() {
		defer close(out)
		if n == 2 {
			time.Sleep(100 * time.Millisecond)
			out <- &ipld.NodeOption{Err: errors.New("lost")}
			return
		}
		time.Sleep(600 * time.Millisecond)
		for _, c := range cids {
			nd, err := s.DAGService.Get(context.Background(), c)
			out <- &ipld.NodeOption{Node: nd, Err: err}
		}
	}()
	return out
}

func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	_, nd := tree(t, ds, 2000)
	s, err := NewHamtFromDag(&service{DAGService: ds}, nd)
	if err != nil {
		t.Fatal(err)
	}
	within(t, 20*time.Second, "EnumLinks", func() {
		if _, err := s.EnumLinks(context.Background()); err == nil {
			t.Error("a failed enumeration succeeded")
		}
	})
}
'''
mk("C16-workerctx","C16",[(H,'''					nextShard, err := NewHamtFromDag(dserv, optNode.Node)
					if err != nil {
						return err
					}

					nextChildren, err := nextShard.walkChildren(processShardValues)
					if err != nil {
						return err
					}

					select {
					case out <- nextChildren:
					case <-errGrpCtx.Done():
						return nil
					}
''','''					nextShard, err := NewHamtFromDag(dserv, optNode.Node)
					if err != nil {
						return err
					}

					nextChildren, err := nextShard.walkChildren(processShardValues)
					if err != nil {
						return err
					}

					select {
					case out <- nextChildren:
					case <-ctx.Done():
						return nil
					}
''')],"hamt",HEAD+LATE,"one batch of shards fails to be fetched while another worker still receives a shard of its own batch afterwards",
"the second worker waits for the dispatcher, which has ended with the first failure, so the enumeration never ends")
mk("C16-errhard","C16",[(H,'''	select {
	case linkResults <- r:
	case <-ctx.Done():
	}
''','''	if r.Err != nil {
		// the last thing the consumer must hear of
		linkResults <- r
		return
	}
	select {
	case linkResults <- r:
	case <-ctx.Done():
	}
''')],"hamt",HEAD+'''
type failing struct{ ipld.DAGService }

func (failing) GetMany(ctx context.Context, cids []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, 1)
	if len(cids) > 0 {
		out <- &ipld.NodeOption{Err: errors.New("lost")}
	}
	close(out)
	return out
}

func TestDemo(t *testing.T) {
	_, nd := tree(t, mdtest.Mock(), 2000)
	s, err := NewHamtFromDag(failing{mdtest.Mock()}, nd)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	_ = s.EnumLinksAsync(ctx) // the consumer goes away without reading
	time.Sleep(200 * time.Millisecond)
	cancel()
	if !idle("EnumLinksAsync") {
		t.Fatal("the enumeration goes on after its context was cancelled")
	}
}
''',"a shard cannot be fetched and the consumer cancels without reading the error","the goroutine of EnumLinksAsync stays blocked for ever: its send of the error is not ended by cancellation")
mk("C16-sharedlink","C16",[(H,'''				formattedLink := &ipld.Link{
					Name: nextShard.key,
					Size: nextShard.val.Size,
					Cid:  nextShard.val.Cid,
				}
				if err''','''				formattedLink := nextShard.val
				formattedLink.Name = nextShard.key
				if err''')],"hamt",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	s, _ := tree(t, ds, 300)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			links, err := s.EnumLinks(context.Background())
			if err != nil || len(links) != 300 {
				t.Error(len(links), err)
			}
		}()
	}
	wg.Wait()
}
''',"two enumerations of one directory with loaded entries run at the same time (race detector)","the workers write the link kept in the directory without any lock: a data race","-race")
mk("C16-dispctx","C16",[(H,'''	grp, errGrpCtx := errgroup.WithContext(ctx)
''','''	var grp errgroup.Group
	errGrpCtx, stop := context.WithCancel(ctx)
	defer stop()
''')],"hamt",HEAD+LATE.replace("time.Sleep(600 * time.Millisecond)","time.Sleep(time.Millisecond)"),"a batch of shards cannot be fetched while no context is cancelled","a worker that fails does not cancel the others any more, so the dispatcher waits for ever for the batch to be reported")
mk("C16-errch","C16",[(F,'''	errCh := make(chan error, 1)
''','''	errCh := make(chan error)
''')],"file",'''
package unixfile

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"testing"
	"time"

	files "github.com/ipfs/go-ipfs-files"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	ds := mdtest.Mock()
	dir := uio.NewDirectory(ds)
	for i := 0; i < 20; i++ {
		if err := dir.AddChild(ctx, fmt.Sprint(i), ft.EmptyDirNode()); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := dir.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	f, err := NewUnixfsFile(ctx, ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	it := f.(files.Directory).Entries() // abandoned
	time.Sleep(100 * time.Millisecond)
	cancel()
	for i := 0; ; i++ {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), "ufsDirectory).Entries") {
			break
		}
		if i == 100 {
			t.Fatal("the goroutine of the iterator goes on after its context was cancelled")
		}
		time.Sleep(30 * time.Millisecond)
	}
	_ = it
}
''',"an iterator that is not read to its end, whose context is cancelled","the goroutine feeding the iterator blocks for ever on handing over its final error")
