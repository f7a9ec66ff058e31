from seedlib import mk
HEAD='''
package %s

import (
	"context"
	"fmt"
	"sync"
	"testing"
%s
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
)

var _ = fmt.Sprint
var _ = mdag.NewRawNode

// service keeps the contexts it was given, and obeys them.
type service struct {
	ipld.DAGService
	mu   sync.Mutex
	seen []context.Context
}

func (s *service) note(ctx context.Context) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, ctx)
	return ctx.Err()
}

func (s *service) Add(ctx context.Context, nd ipld.Node) error {
	if err := s.note(ctx); err != nil {
		return err
	}
	return s.DAGService.Add(ctx, nd)
}

func (s *service) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if err := s.note(ctx); err != nil {
		return nil, err
	}
	return s.DAGService.Get(ctx, c)
}

func (s *service) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	if err := s.note(ctx); err != nil {
		out := make(chan *ipld.NodeOption, 1)
		out <- &ipld.NodeOption{Err: err}
		close(out)
		return out
	}
	return s.DAGService.GetMany(ctx, cs)
}
'''
mk("C22-swapctx","C22",[('hamt/hamt.go','''	err := ds.dserv.Add(ctx, node)
	if err != nil {
		return nil, err
	}

	lnk, err''','''	// the entry is kept even if the caller gives up on the insertion
	err := ds.dserv.Add(context.TODO(), node)
	if err != nil {
		return nil, err
	}

	lnk, err''')],"hamt",(HEAD % ("hamt","")) + '''
func TestDemo(t *testing.T) {
	ds := &service{DAGService: mdtest.Mock()}
	s, err := NewShard(ds, 16)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	nd := mdag.NewRawNode([]byte("x"))
	if err := s.Set(ctx, "a", nd); err == nil {
		t.Fatal("the entry was stored although the context had ended")
	}
	if _, err := ds.DAGService.Get(context.Background(), nd.Cid()); err == nil {
		t.Fatal("the entry was stored")
	}
}
''',"an insertion under a context that has ended","the node is stored although the caller cancelled")
mk("C22-enumkeep","C22",[('hamt/hamt.go','''		defer close(linkResults)
		defer cancel()

		err := parallelShardWalk''','''		defer close(linkResults)

		err := parallelShardWalk'''),('hamt/hamt.go','''		if err != nil {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
	}()''','''		if err != nil {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
			cancel()
		}
	}()''')],"hamt",(HEAD % ("hamt",'\t"runtime"\n\t"strings"\n\t"time"\n')) + '''
// probe is a context of another kind: the standard library watches it with a
// goroutine for every context derived and not yet released.
type probe struct {
	context.Context
	done chan struct{}
}

func (p *probe) Done() <-chan struct{} { return p.done }

func watched() bool {
	b := make([]byte, 1<<20)
	return strings.Contains(string(b[:runtime.Stack(b, true)]), "context.(*cancelCtx).propagateCancel")
}

func TestDemo(t *testing.T) {
	ds := &service{DAGService: mdtest.Mock()}
	s, err := NewShard(ds, 8)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		if err := s.Set(context.Background(), fmt.Sprint("entry", i), mdag.NewRawNode([]byte("x"))); err != nil {
			t.Fatal(err)
		}
	}
	n := 0
	for r := range s.EnumLinksAsync(&probe{context.Background(), make(chan struct{})}) {
		if r.Err != nil {
			t.Fatal(r.Err)
		}
		n++
	}
	if n != 20 {
		t.Fatal(n)
	}
	for i := 0; watched(); i++ {
		if i == 300 {
			t.Fatal("the context derived for the enumeration was not released")
		}
		time.Sleep(10 * time.Millisecond)
	}
}
''',"an enumeration that ends without an error","the context derived for it is never released")
mk("C22-writeto","C22",[('io/dagreader.go','''	// Use the internal reader's context to fetch the child node promises
	// (see `ipld.NavigableIPLDNode.FetchChild` for details).
	dr.dagWalker.SetContext(dr.ctx)

	// If there was a partially read buffer from the last visited
	// node read it before visiting a new one.
	if dr.currentNodeData != nil {
		n, err''','''	// If there was a partially read buffer from the last visited
	// node read it before visiting a new one.
	if dr.currentNodeData != nil {
		n, err''')],"io",(HEAD % ("io","\t\"bytes\"\n\n\tft \"github.com/ipfs/go-unixfs\"\n")) + '''
func TestDemo(t *testing.T) {
	bg := context.Background()
	ds := mdtest.Mock()
	root := new(mdag.ProtoNode)
	fs := ft.NewFSNode(ft.TFile)
	var all []byte
	for i := 0; i < 40; i++ {
		p := bytes.Repeat([]byte{byte(i)}, 10)
		all = append(all, p...)
		leaf := mdag.NewRawNode(p)
		if err := ds.Add(bg, leaf); err != nil {
			t.Fatal(err)
		}
		if err := root.AddNodeLink("", leaf); err != nil {
			t.Fatal(err)
		}
		fs.AddBlockSize(10)
	}
	b, err := fs.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	root.SetData(b)
	r, err := NewDagReader(bg, root, ds)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	if _, err := r.CtxReadFull(ctx, make([]byte, 15)); err != nil {
		t.Fatal(err)
	}
	cancel() // that read is over
	var out bytes.Buffer
	if _, err := r.WriteTo(&out); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out.Bytes(), all[15:]) {
		t.Fatal("wrong bytes")
	}
}
''',"a reader used with CtxReadFull under a context that ends, then WriteTo","WriteTo goes on under the context of the earlier read and fails")
mk("C22-iterctx","C22",[('file/unixfile.go','''	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)''','''	// the file may outlive the iterator
	it.curFile, it.err = NewUnixfsFile(context.Background(), it.dserv, nd)''')],"file",(HEAD % ("unixfile","\t\"bytes\"\n\t\"io\"\n\n\tfiles \"github.com/ipfs/go-ipfs-files\"\n\tft \"github.com/ipfs/go-unixfs\"\n")) + '''
func TestDemo(t *testing.T) {
	bg := context.Background()
	ds := &service{DAGService: mdtest.Mock()}
	root := new(mdag.ProtoNode)
	fs := ft.NewFSNode(ft.TFile)
	for i := 0; i < 40; i++ {
		leaf := mdag.NewRawNode(bytes.Repeat([]byte{byte(i)}, 10))
		if err := ds.Add(bg, leaf); err != nil {
			t.Fatal(err)
		}
		if err := root.AddNodeLink("", leaf); err != nil {
			t.Fatal(err)
		}
		fs.AddBlockSize(10)
	}
	b, err := fs.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	root.SetData(b)
	if err := ds.Add(bg, root); err != nil {
		t.Fatal(err)
	}
	dir := ft.EmptyDirNode()
	if err := dir.AddNodeLink("f", root); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	f, err := NewUnixfsFile(ctx, ds, dir)
	if err != nil {
		t.Fatal(err)
	}
	it := f.(files.Directory).Entries()
	if !it.Next() {
		t.Fatal(it.Err())
	}
	file := it.Node().(files.File)
	cancel()
	if _, err := io.ReadAll(file); err == nil {
		t.Fatal("the file is read although the context has ended")
	}
}
''',"a file taken from a directory iterator, read after the context has ended","the file is opened under a context of its own, so cancelling does not stop reading it")
