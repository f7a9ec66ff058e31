from seedlib import mk
mk("C37-padonce","C37",[("hamt/hamt.go","func makeShard(ds","// padding is the length of the hex prefix of link names.\nvar padding [8]int\n\nfunc makeShard(ds"),
 ("hamt/hamt.go",'''	maxpadding := fmt.Sprintf("%X", size-1)
''','''	pad := &padding[lg2s/3]
	if *pad == 0 {
		*pad = len(fmt.Sprintf("%X", size-1))
	}
'''),
 ("hamt/hamt.go",'''		prefixPadStr: fmt.Sprintf("%%0%dX", len(maxpadding)),
		maxpadlen:    len(maxpadding),
''','''		prefixPadStr: fmt.Sprintf("%%0%dX", *pad),
		maxpadlen:    *pad,
''')],"hamt",'''
package hamt

import (
	"context"
	"testing"

	ft "github.com/ipfs/go-unixfs"
	mdtest "github.com/ipfs/go-merkledag/test"
)

func node(t *testing.T, width int) string {
	ds := mdtest.Mock()
	s, err := NewShard(ds, width)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Set(context.Background(), "name", ft.EmptyDirNode()); err != nil {
		t.Fatal(err)
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	return nd.Links()[0].Name
}

// A shard of one width does not change how shards of another are written.
func TestDemo(t *testing.T) {
	node(t, 16)
	if n := node(t, 32); len(n) != len("name")+2 {
		t.Fatalf("a shard of width 32 has the link %q", n)
	}
}
''',"shards of widths 8 or 16 and 32 (whose prefixes differ in length), made in one process: the second kind gets the prefix length of the first","the prefix length is kept in a package variable set by the first shard made, so that a shard made earlier decides how a later one is written")
mk("C37-switchoff","C37",[("io/directory.go",'''			basicDir, err := hamtDir.switchToBasic(ctx)
			if err != nil {
				return err
			}
			err = basicDir.AddChild(ctx, name, nd)
''','''			// No switching back while the entries are moved.
			size := HAMTShardingSize
			HAMTShardingSize = 0
			basicDir, err := hamtDir.switchToBasic(ctx)
			if err != nil {
				return err
			}
			HAMTShardingSize = size
			err = basicDir.AddChild(ctx, name, nd)
''')],"io",'''
package io

import (
	"context"
	"fmt"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

// failing refuses gets after a number of them.
type failing struct {
	ipld.DAGService
	left int
}

func (f *failing) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	f.left--
	if f.left < 0 {
		return nil, fmt.Errorf("no more")
	}
	return f.DAGService.Get(ctx, c)
}

func (f *failing) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs))
	for _, c := range cs {
		nd, err := f.Get(ctx, c)
		out <- &ipld.NodeOption{Node: nd, Err: err}
	}
	close(out)
	return out
}

// A directory whose conversion fails leaves other directories as they were.
func TestDemo(t *testing.T) {
	ctx := context.Background()
	old := HAMTShardingSize
	defer func() { HAMTShardingSize = old }()
	HAMTShardingSize = 300
	for left := 0; left < 120; left++ {
		ds := &failing{mdtest.Mock(), 1 << 30}
		dir := NewDirectory(ds)
		child, big := ft.EmptyDirNode(), ft.EmptyDirNode()
		big.SetCidBuilder(mdag.V1CidPrefix())
		if err := ds.AddMany(ctx, []ipld.Node{child, big}); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 200; i++ {
			if err := dir.AddChild(ctx, fmt.Sprintf("entry-%d", i), big); err != nil {
				t.Fatal(err)
			}
		}
		nd, err := dir.GetNode()
		if err != nil {
			t.Fatal(err)
		}
		HAMTShardingSize = 1 << 20
		ds2 := &failing{ds.DAGService, 1 << 30}
		if err := ds.Add(ctx, nd); err != nil {
			t.Fatal(err)
		}
		dir, err = NewDirectoryFromNode(ds2, nd)
		if err != nil {
			t.Fatal(err)
		}
		ds2.left = left
		_ = dir.AddChild(ctx, "entry-0", child)
		if HAMTShardingSize != 1<<20 {
			t.Fatalf("after %d gets: directories are sharded from %d on", left, HAMTShardingSize)
		}
		HAMTShardingSize = 300
	}
}
''',"a sharded directory about to turn basic whose conversion fails part way (a missing block, a cancelled context)","the failed conversion leaves automatic sharding off for every directory of the process")
mk("C37-sparebuf","C37",[("mod/dagmodifier.go","// Write continues writing to the dag at the current offset\n","// spare is a write buffer to use again.\nvar spare *bytes.Buffer\n\n// Write continues writing to the dag at the current offset\n"),
 ("mod/dagmodifier.go",'''		dm.wrBuf = new(bytes.Buffer)
''','''		dm.wrBuf = spare
		if dm.wrBuf == nil {
			dm.wrBuf = new(bytes.Buffer)
		}
		dm.wrBuf.Reset()
'''),
 ("mod/dagmodifier.go",'''	dm.wrBuf = nil

	return nil
''','''	spare = dm.wrBuf
	dm.wrBuf = nil

	return nil
''')],"mod",'''
package mod

import (
	"bytes"
	"context"
	"io"
	"testing"

	testu "github.com/ipfs/go-unixfs/test"
)

func modifier(t *testing.T, data []byte) *DagModifier {
	ds := testu.GetDAGServ()
	nd := testu.GetNode(t, ds, data, testu.UseProtoBufLeaves)
	dm, err := NewDagModifier(context.Background(), nd, ds, testu.SizeSplitterGen(512))
	if err != nil {
		t.Fatal(err)
	}
	return dm
}

// Two files written to at the same time keep their own bytes.
func TestDemo(t *testing.T) {
	first := modifier(t, []byte("----"))
	if _, err := first.Write([]byte("a")); err != nil {
		t.Fatal(err)
	}
	if err := first.Sync(); err != nil {
		t.Fatal(err)
	}
	second := modifier(t, []byte("----"))
	if _, err := first.Write([]byte("bb")); err != nil {
		t.Fatal(err)
	}
	if _, err := second.Write([]byte("c")); err != nil {
		t.Fatal(err)
	}
	if _, err := first.Seek(0, io.SeekStart); err != nil {
		t.Fatal(err)
	}
	out, err := io.ReadAll(first)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out, []byte("abb-")) {
		t.Fatalf("the first file reads %q", out)
	}
}
''',"two modifiers with pending writes at the same time, after one of them was synced","both write into one recycled buffer, so that the bytes pending for one file end up in the other")
