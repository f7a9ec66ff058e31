from seedlib import mk
F='file/unixfile.go'
HEAD='''
package unixfile

import (
	"context"
	"fmt"
	"testing"
	"time"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
	hamt "github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"
)

var _ = fmt.Sprint
var _ = time.Second
var _ cid.Cid
var _ = mdag.NewRawNode
var _ = ft.TSymlink
var _ files.Node
var _ = hamt.NewShard
var _ = uio.NewDirectory
var _ ipld.Node
'''
mk("C27-lasterr","C27",[(F,'''			if !ok {
				it.files = nil
			}
''','''			if !ok {
				// the channels are closed together
				it.files, it.errCh = nil, nil
			}
''')],"file",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 8)
	if err != nil {
		t.Fatal(err)
	}
	e := mdag.NewRawNode([]byte("x"))
	if err := ds.Add(ctx, e); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100; i++ {
		if err := s.Set(ctx, fmt.Sprintf("entry-%d", i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	ls := nd.Links()
	for i := len(ls) - 1; i >= 0; i-- { // the last sub-shard is gone
		if len(ls[i].Name) == 1 {
			if err := ds.Remove(ctx, ls[i].Cid); err != nil {
				t.Fatal(err)
			}
			break
		}
	}
	v, err := NewUnixfsFile(ctx, ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		it := v.(files.Directory).Entries()
		n := 0
		for it.Next() {
			n++
		}
		if it.Err() == nil && n != 100 {
			t.Fatalf("%d of 100 entries, and no error", n)
		}
	}
}
''',"a failing enumeration whose channels are both ready when Next looks at them","Next takes the end of the entries for the end of the enumeration and drops its error")
mk("C27-cleanlink","C27",[(F,'''files.NewLinkFile(string(fsn.Data()), nil)''','''files.NewLinkFile(path.Clean(string(fsn.Data())), nil)'''),(F,'''	"errors"
''','''	"errors"
	"path"
''')],"file",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	for _, target := range []string{"a", "a/b", "../c/", "a/../b", "./x", ""} {
		data, err := ft.SymlinkData(target)
		if err != nil {
			t.Fatal(err)
		}
		v, err := NewUnixfsFile(ctx, ds, mdag.NodeWithData(data))
		if err != nil {
			t.Fatal(err)
		}
		if l := v.(*files.Symlink); l.Target != target {
			t.Fatalf("target %q instead of %q", l.Target, target)
		}
	}
}
''',"a symlink whose target is not in its shortest form","the view gives another target than the stored one")
mk("C27-skipunknown","C27",[(F,'''	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)
	return it.err == nil
''','''	it.curFile, it.err = NewUnixfsFile(it.ctx, it.dserv, nd)
	if it.err == ft.ErrUnrecognizedType {
		it.err = nil // nothing a file tree could show
		return it.Next()
	}
	return it.err == nil
''')],"file",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	d := uio.NewDirectory(ds)
	m := ft.NewFSNode(ft.TMetadata)
	data, err := m.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	odd := mdag.NodeWithData(append([]byte{}, append([]byte{8, 6}, data[2:]...)...))
	good := mdag.NewRawNode([]byte("x"))
	for name, nd := range map[string]ipld.Node{"a": good, "b": odd, "c": good} {
		if err := ds.Add(ctx, nd); err != nil {
			t.Fatal(err)
		}
		if err := d.AddChild(ctx, name, nd); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	v, err := NewUnixfsFile(ctx, ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	it := v.(files.Directory).Entries()
	n := 0
	for it.Next() {
		n++
	}
	if it.Err() == nil && n != 3 {
		t.Fatalf("%d of 3 entries, and no error", n)
	}
}
''',"an entry of an unknown UnixFS type","the iterator leaves it out without an error")
mk("C27-lastentry","C27",[(F,'''			case <-d.ctx.Done():
				return d.ctx.Err()
			}
			return nil
''','''			case <-d.ctx.Done():
				// the next call reports it
			}
			return nil
''')],"file",HEAD+'''
// offline ignores the context: everything is at hand.
type offline struct {
	ipld.DAGService
}

func (s offline) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	return s.DAGService.Get(context.Background(), c)
}

func TestDemo(t *testing.T) {
	ds := offline{mdtest.Mock()}
	ctx, cancel := context.WithCancel(context.Background())
	d := uio.NewDirectory(ds)
	e := mdag.NewRawNode([]byte("x"))
	if err := ds.Add(ctx, e); err != nil {
		t.Fatal(err)
	}
	const n = prefetchFiles + 1
	for i := 0; i < n; i++ {
		if err := d.AddChild(ctx, fmt.Sprint(i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	v, err := NewUnixfsFile(ctx, ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	it := v.(files.Directory).Entries()
	time.Sleep(300 * time.Millisecond) // the producer waits with the last entry
	cancel()
	time.Sleep(300 * time.Millisecond)
	got := 0
	for it.Next() {
		got++
	}
	if it.Err() == nil && got != n {
		t.Fatalf("%d of %d entries, and no error", got, n)
	}
}
''',"a context cancelled while the producer waits with the last entry","the entry is missing and no error is reported")
