from seedlib import mk
M="mod/dagmodifier.go"
S="hamt/hamt.go"
D="io/directory.go"
mk("C07-forklate","C07",[(S,"		child.builder = ds.builder\n",""),(S,'''		// Replace this leaf node with the new Shard node.
''','''		// The new sub-shard is hashed the way its parent is.
		child.builder = ds.builder

		// Replace this leaf node with the new Shard node.
''')],"hamt",'''
package hamt

import (
	"context"
	"fmt"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func check(t *testing.T, ds ipld.DAGService, nd ipld.Node) {
	if nd.Cid().Version() != 1 {
		t.Fatalf("block %s has another CID version", nd.Cid())
	}
	for _, l := range nd.Links() {
		if len(l.Name) != 1 {
			continue
		}
		c, err := ds.Get(context.Background(), l.Cid)
		if err != nil {
			t.Fatal(err)
		}
		check(t, ds, c)
	}
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	s, err := NewShard(ds, 8)
	if err != nil {
		t.Fatal(err)
	}
	s.SetCidBuilder(cid.V1Builder{Codec: cid.DagProtobuf, MhType: 0x12})
	e := ft.EmptyDirNode()
	e.SetCidBuilder(cid.V1Builder{Codec: cid.DagProtobuf, MhType: 0x12})
	if err := ds.Add(ctx, e); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 400; i++ {
		if err := s.Set(ctx, fmt.Sprintf("entry %d", i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	check(t, ds, nd)
}
''',"two names agreeing in more than one level of their hashes, so that a new sub-shard gets a sub-shard of its own before it has its builder","the nested sub-shard is stored with the default CID builder (CIDv0) inside a directory configured for another")
mk("C07-switchlate","C07",[(D,"	shard.SetCidBuilder(d.node.CidBuilder())\n	hamtDir.shard = shard\n","	hamtDir.shard = shard\n"),(D,'''	return hamtDir, nil
}

// SetCidBuilder implements''','''	hamtDir.SetCidBuilder(d.node.CidBuilder())
	return hamtDir, nil
}

// SetCidBuilder implements''')],"io",'''
package io

import (
	"context"
	"fmt"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func check(t *testing.T, ds ipld.DAGService, nd ipld.Node) {
	if nd.Cid().Version() != 1 {
		t.Fatalf("block %s has another CID version", nd.Cid())
	}
	for _, l := range nd.Links() {
		c, err := ds.Get(context.Background(), l.Cid)
		if err != nil {
			t.Fatal(err)
		}
		check(t, ds, c)
	}
}

func TestDemo(t *testing.T) {
	defer func(o int) { HAMTShardingSize = o }(HAMTShardingSize)
	HAMTShardingSize = 6000
	ctx := context.Background()
	ds := mdtest.Mock()
	d := NewDirectory(ds)
	b := cid.V1Builder{Codec: cid.DagProtobuf, MhType: 0x12}
	d.SetCidBuilder(b)
	e := ft.EmptyDirNode()
	e.SetCidBuilder(b)
	if err := ds.Add(ctx, e); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300; i++ {
		if err := d.AddChild(ctx, fmt.Sprintf("entry %d", i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	check(t, ds, nd)
}
''',"a directory with a CID builder of its own turning into a HAMT whose entries already collide at the switch","the sub-shards made while the entries are moved get the default CID builder")
mk("C07-truncleaf","C07",[(M,'''			nd.SetData(ft.WrapData(fsn.Data()[:size]))
			return nd, nil
''','''			return mdag.NodeWithData(ft.WrapData(fsn.Data()[:size])), nil
''')],"mod",'''
package mod

import (
	"bytes"
	"context"
	"testing"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	mdtest "github.com/ipfs/go-merkledag/test"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	for _, size := range []int64{5, 13, 27, 34} {
		ds := mdtest.Mock()
		p := h.DagBuilderParams{Dagserv: ds, Maxlinks: 10, CidBuilder: cid.V1Builder{Codec: cid.DagProtobuf, MhType: 0x12}}
		data := bytes.Repeat([]byte("abcde"), 8)
		db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(data), 10))
		if err != nil {
			t.Fatal(err)
		}
		nd, err := balanced.Layout(db)
		if err != nil {
			t.Fatal(err)
		}
		dm, err := NewDagModifier(ctx, nd, ds, chunker.DefaultSplitter)
		if err != nil {
			t.Fatal(err)
		}
		if err := dm.Truncate(size); err != nil {
			t.Fatalf("truncate to %d: %s", size, err)
		}
		out, err := dm.GetNode()
		if err != nil {
			t.Fatal(err)
		}
		for _, l := range out.Links() {
			if l.Cid.Version() != 1 {
				t.Fatalf("leaf %s of the truncated file has lost the file's CID version", l.Cid)
			}
		}
	}
}
''',"truncating within a leaf that is no raw node, in a file with a CID builder of its own","the cut leaf is made with the default CID builder")
