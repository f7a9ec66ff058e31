from seedlib import mk
H='hamt/hamt.go'; U='unixfs.go'; R='io/dagreader.go'; DB='importer/helpers/dagbuilder.go'; T='importer/trickle/trickledag.go'; Q='io/resolve.go'
mk("C10-hugeskip","C10",[(R,"left -= int64(childSize)","left -= int64(uint32(childSize))")],"io",'''
package io

import (
	"context"
	"io"
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	testu "github.com/ipfs/go-unixfs/test"
)

// A seek over a child of 4 GiB lands where it says.
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := testu.GetDAGServ()
	leaf := mdag.NodeWithData(ft.WrapData([]byte("0123456789")))
	if err := ds.Add(ctx, leaf); err != nil {
		t.Fatal(err)
	}
	fsn := ft.NewFSNode(ft.TFile)
	fsn.AddBlockSize(1 << 32) // never fetched
	fsn.AddBlockSize(10)
	b, err := fsn.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	root := mdag.NodeWithData(b)
	for i := 0; i < 2; i++ {
		if err := root.AddNodeLink("", leaf); err != nil {
			t.Fatal(err)
		}
	}
	r, err := NewDagReader(ctx, root, ds)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.Seek(1<<32+3, io.SeekStart); err != nil {
		t.Fatal(err)
	}
	rest, err := io.ReadAll(r)
	if err != nil || string(rest) != "3456789" {
		t.Fatalf("%q, %v", rest, err)
	}
}
''',"a file with a sub-tree of 4 GiB or more in front of the target","the size skipped is cut to 32 bits, so that the seek passes over the child that holds the target")
mk("C12-dropload","C12",[(H,"	lnk := s.link(sliceIndex)\n	lnkLinkType","	lnk := s.link(sliceIndex)\n	s.set(nil, sliceIndex) // filled in below\n	lnkLinkType")],"hamt",'''
package hamt

import (
	"context"
	"errors"
	"fmt"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

type flaky struct {
	ipld.DAGService
	down bool
}

func (f *flaky) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if f.down {
		return nil, errors.New("down")
	}
	return f.DAGService.Get(ctx, c)
}

// A failed fetch of a sub-shard leaves the shard as it was.
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := &flaky{DAGService: mdtest.Mock()}
	s, err := NewShard(ds, 8)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		if err := s.Set(ctx, fmt.Sprint("entry ", i), ft.EmptyDirNode()); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	s, err = NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	ds.down = true
	if _, err := s.Find(ctx, "entry 1"); err == nil {
		t.Skip("the entry is not in a sub-shard")
	}
	ds.down = false
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if _, err := s.Find(ctx, "entry 1"); err != nil {
		t.Fatal(err)
	}
	again, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	if !again.Cid().Equals(nd.Cid()) {
		t.Fatal("the shard changed")
	}
}
''',"a fetch of a sub-shard that fails, and a later use of the same shard","the stored link is dropped before the sub-shard is there, so that a position holds neither a link nor a child")
mk("C05-cutshort","C05",[(DB,"	if db.recvdErr == io.EOF {","	if db.recvdErr == io.EOF || db.recvdErr == io.ErrUnexpectedEOF {")],"importer/balanced",'''
package balanced

import (
	"io"
	"testing"

	mdtest "github.com/ipfs/go-merkledag/test"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

// broken delivers some chunks and then a broken connection.
type broken struct{ n int }

func (b *broken) Reader() io.Reader { return nil }
func (b *broken) NextBytes() ([]byte, error) {
	b.n++
	if b.n > 3 {
		return nil, io.ErrUnexpectedEOF
	}
	return []byte("chunk"), nil
}

// A source that fails fails the import.
func TestDemo(t *testing.T) {
	p := h.DagBuilderParams{Dagserv: mdtest.Mock(), Maxlinks: 4}
	db, err := p.New(&broken{})
	if err != nil {
		t.Fatal(err)
	}
	if nd, err := Layout(db); err == nil {
		t.Fatalf("part of the input was imported as %s", nd.Cid())
	}
}
''',"a source that ends with io.ErrUnexpectedEOF, as an HTTP body cut short does","the import of a truncated source succeeds with the part read so far")
mk("C11-fanoutwrap","C11",[(H,"	size := int(fsn.Fanout())\n","	size := int(uint16(fsn.Fanout()))\n")],"hamt",'''
package hamt

import (
	"testing"

	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

// A table width over 1024 is refused.
func TestDemo(t *testing.T) {
	for _, width := range []uint64{256, 2048, 1<<16 + 256, 1<<32 + 256, 1<<63 + 8} {
		data, err := ft.HAMTShardData(nil, width, HashMurmur3)
		if err != nil {
			t.Fatal(err)
		}
		_, err = NewHamtFromDag(mdtest.Mock(), dag.NodeWithData(data))
		if (err == nil) != (width == 256) {
			t.Fatalf("width %d: %v", width, err)
		}
	}
}
''',"a stored shard with a width over 65535 whose low 16 bits are a valid width","the width is cut to 16 bits before it is judged, so that a malformed shard is accepted")
mk("C09-dirleaf","C09",[(U,"		default:\n			return nil, fmt.Errorf(\"found %s node","		case pb.Data_Directory:\n			return nil, nil // nothing to read in it\n		default:\n			return nil, fmt.Errorf(\"found %s node")],"io",'''
package io

import (
	"context"
	"io"
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	testu "github.com/ipfs/go-unixfs/test"
)

// A directory inside a file is an error, not content.
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := testu.GetDAGServ()
	leaf := mdag.NodeWithData(ft.WrapData([]byte("abc")))
	dir := ft.EmptyDirNode()
	fsn := ft.NewFSNode(ft.TFile)
	fsn.AddBlockSize(3)
	fsn.AddBlockSize(0)
	b, err := fsn.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	root := mdag.NodeWithData(b)
	for _, c := range []*mdag.ProtoNode{leaf, dir} {
		if err := ds.Add(ctx, c); err != nil {
			t.Fatal(err)
		}
		if err := root.AddNodeLink("", c); err != nil {
			t.Fatal(err)
		}
	}
	r, err := NewDagReader(ctx, root, ds)
	if err != nil {
		t.Fatal(err)
	}
	if data, err := io.ReadAll(r); err == nil {
		t.Fatalf("read %q", data)
	}
}
''',"a file DAG with a directory node among its leaves","the directory is read as empty content instead of being an error")
mk("C25-leafprefix","C25",[(T,'	if p.Prefix != nil {\n		prefix','	if p.Prefix != nil && len(n.Links()) > 0 {\n		prefix')],"importer/trickle",'''
package trickle

import (
	"bytes"
	"context"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

// Leaves with another CID format are not accepted.
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	v1 := mdag.V1CidPrefix()
	p := h.DagBuilderParams{Dagserv: ds, Maxlinks: 4, CidBuilder: v1}
	db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader([]byte("abcdefgh")), 4))
	if err != nil {
		t.Fatal(err)
	}
	nd, err := Layout(db)
	if err != nil {
		t.Fatal(err)
	}
	verify := func() error {
		return VerifyTrickleDagStructure(nd, VerifyParams{Getter: ds, Direct: 4, LayerRepeat: 4, Prefix: &v1})
	}
	if err := verify(); err != nil {
		t.Fatal(err)
	}
	// the same leaves, as version 0
	root := nd.(*mdag.ProtoNode)
	for i, l := range root.Links() {
		c, err := l.GetNode(context.Background(), ds)
		if err != nil {
			t.Fatal(err)
		}
		leaf := c.Copy().(*mdag.ProtoNode)
		leaf.SetCidBuilder(mdag.V0CidPrefix())
		if err := ds.Add(context.Background(), leaf); err != nil {
			t.Fatal(err)
		}
		links := root.Links()
		links[i].Cid = leaf.Cid()
		root.SetLinks(links)
	}
	root = root.Copy().(*mdag.ProtoNode)
	root.SetCidBuilder(v1)
	nd = root
	if verify() == nil {
		t.Fatal("leaves of another CID version are accepted")
	}
}
''',"a trickle DAG whose leaves have another CID version or hash than configured","the CID format of leaves is not checked")
mk("C04-removelast","C04",[(U,"	n.UpdateFilesize(-int64(n.format.Blocksizes[i]))\n	n.format.Blocksizes = append(n.format.Blocksizes[:i], n.format.Blocksizes[i+1:]...)\n","	sizes := n.format.Blocksizes\n	n.format.Blocksizes = append(sizes[:i], sizes[i+1:]...)\n	n.UpdateFilesize(-int64(sizes[i]))\n")],".",'''
package unixfs

import "testing"

// Removing a child takes its own size away.
func TestDemo(t *testing.T) {
	n := NewFSNode(TFile)
	n.AddBlockSize(5)
	n.AddBlockSize(7)
	n.AddBlockSize(11)
	n.RemoveBlockSize(0)
	if n.FileSize() != 18 || n.NumChildren() != 2 {
		t.Fatalf("%d bytes in %d children", n.FileSize(), n.NumChildren())
	}
}
''',"removal of a child that is not the last one and whose size differs from the next one's","the sizes are shifted in place before the removed one is read, so that the next child's size is taken away")
