from seedlib import mk
T="importer/trickle/trickledag.go"
mk("C04-stale","C04",[(T,"	// Get depth of this 'tree'\n	depth, repeatNumber := trickleDepthInfo(fsn, db.Maxlinks())\n	if depth == 0 {\n		// If direct blocks not filled...\n		if err := db.FillNodeLayer(fsn); err != nil {\n			return nil, 0, err","	size := fsn.FileSize()\n	// Get depth of this 'tree'\n	depth, repeatNumber := trickleDepthInfo(fsn, db.Maxlinks())\n	if depth == 0 {\n		// If direct blocks not filled...\n		if err := db.FillNodeLayer(fsn); err != nil {\n			return nil, 0, err"),
(T,"	if depth == maxDepth {\n		return fsn, fsn.FileSize(), nil","	if depth == maxDepth {\n		return fsn, size, nil")],"importer/trickle",'''
package trickle

import (
	"bytes"
	"context"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

func size(t *testing.T, ds ipld.DAGService, nd ipld.Node) uint64 {
	fsn, err := ft.ExtractFSNode(nd)
	if err != nil {
		t.Fatal(err)
	}
	sum := uint64(len(fsn.Data()))
	for i, l := range nd.Links() {
		c, err := l.GetNode(context.Background(), ds)
		if err != nil {
			t.Fatal(err)
		}
		n := size(t, ds, c)
		if n != fsn.BlockSize(i) {
			t.Fatalf("child %d holds %d bytes, recorded as %d", i, n, fsn.BlockSize(i))
		}
		sum += n
	}
	if sum != fsn.FileSize() {
		t.Fatalf("%d bytes declared as %d", sum, fsn.FileSize())
	}
	return sum
}

func TestDemo(t *testing.T) {
	for first := 1; first < 60; first++ {
		ds := mdtest.Mock()
		p := h.DagBuilderParams{Dagserv: ds, Maxlinks: 4}
		mk := func(n int) *h.DagBuilderHelper {
			db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(make([]byte, n*10)), 10))
			if err != nil {
				t.Fatal(err)
			}
			return db
		}
		nd, err := Layout(mk(first))
		if err != nil {
			t.Fatal(err)
		}
		size(t, ds, nd)
		for i := 0; i < 5; i++ {
			nd, err = Append(context.Background(), nd.(*dag.ProtoNode), mk(3))
			if err != nil {
				t.Fatal(err)
			}
			if err := ds.Add(context.Background(), nd); err != nil {
				t.Fatal(err)
			}
			if size(t, ds, nd) != uint64(first+3*(i+1))*10 {
				t.Fatal("wrong size")
			}
		}
	}
}
''',"appending to a file whose last subtree has an incomplete row of leaves","a node declares another size than its contents have")
H="importer/helpers/dagbuilder.go"
mk("C05-trunc","C05",[(H,"	if db.recvdErr == io.EOF {","	if db.recvdErr == io.EOF || db.recvdErr == io.ErrUnexpectedEOF {")],"importer/balanced",'''
package balanced

import (
	"io"
	"testing"

	mdtest "github.com/ipfs/go-merkledag/test"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

type cut struct{ n int }

func (c *cut) Reader() io.Reader { return nil }
func (c *cut) NextBytes() ([]byte, error) {
	if c.n == 0 {
		return nil, io.ErrUnexpectedEOF
	}
	c.n--
	return []byte("chunk"), nil
}

func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		p := h.DagBuilderParams{Dagserv: mdtest.Mock(), Maxlinks: 3}
		db, err := p.New(&cut{n})
		if err != nil {
			t.Fatal(err)
		}
		if _, err := Layout(db); err != io.ErrUnexpectedEOF {
			t.Fatalf("source cut after %d chunks: import returned %v", n, err)
		}
	}
}
''',"a source that ends early and says so","the part read so far is returned as the whole file")
