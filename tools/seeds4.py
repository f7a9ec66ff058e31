from seedlib import mk
H="importer/helpers/dagbuilder.go"
B="importer/balanced/builder.go"
T="importer/trickle/trickledag.go"
mk("C06-rawlimit","C06",[(H,'''	if len(data) > BlockSizeLimit {
		return nil, ErrSizeLimitExceeded
	}

''',""),(H,"	// Encapsulate the data in UnixFS node (instead of a raw node).\n","	if len(data) > BlockSizeLimit {\n		return nil, ErrSizeLimitExceeded\n	}\n\n	// Encapsulate the data in UnixFS node (instead of a raw node).\n")],"importer/helpers",'''
package helpers_test

import (
	"bytes"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	mdtest "github.com/ipfs/go-merkledag/test"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

func TestDemo(t *testing.T) {
	for _, raw := range []bool{false, true} {
		p := h.DagBuilderParams{Dagserv: mdtest.Mock(), Maxlinks: 4, RawLeaves: raw}
		n := h.BlockSizeLimit + 1
		db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(make([]byte, 2*n)), int64(n)))
		if err != nil {
			t.Fatal(err)
		}
		if _, err := balanced.Layout(db); err != h.ErrSizeLimitExceeded {
			t.Fatalf("raw=%v: %v", raw, err)
		}
	}
}
''',"a chunk longer than the block size limit, imported with raw leaves","the size limit check moves below the raw-leaf branch: raw leaves of any size are built")
mk("C06-newroot","C06",[(B,'''	for node.NumChildren() < db.Maxlinks() && !db.Done() {
''','''	room := db.Maxlinks()
	if depth > 2 {
		room -= node.NumChildren() / 2
	}
	for ; room > 0 && !db.Done(); room-- {
		if depth <= 2 && node.NumChildren() >= db.Maxlinks() {
			break
		}
''')],"importer/balanced",'''
package balanced

import (
	"bytes"
	"context"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdtest "github.com/ipfs/go-merkledag/test"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

func widest(t *testing.T, ds ipld.DAGService, nd ipld.Node) int {
	w := len(nd.Links())
	for _, l := range nd.Links() {
		c, err := l.GetNode(context.Background(), ds)
		if err != nil {
			t.Fatal(err)
		}
		if x := widest(t, ds, c); x > w {
			w = x
		}
	}
	return w
}

func TestDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		ds := mdtest.Mock()
		p := h.DagBuilderParams{Dagserv: ds, Maxlinks: 4}
		data := make([]byte, n*10)
		for i := range data {
			data[i] = byte(i / 10)
		}
		db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(data), 10))
		if err != nil {
			t.Fatal(err)
		}
		nd, err := Layout(db)
		if err != nil {
			t.Fatal(err)
		}
		if w := widest(t, ds, nd); w > 4 {
			t.Fatalf("%d chunks: a node has %d links", n, w)
		}
	}
}
''',"a file needing three or more levels below the root (more than fan-out squared chunks)","the room left in a node that already holds the old root is computed wrongly for deep trees: the node gets one link too many")
mk("C35-resume","C35",[(T,'''	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
		return nil, 0, err
	}

	// if appendFillLastChild completed a partly filled depth, our depth is
	// now increased by one
	if repeatNumber != 0 {
		depth++
	}
''','''	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
		return nil, 0, err
	}

	// our depth is now increased by one
	depth++
''')],"importer/trickle",'''
package trickle

import (
	"bytes"
	"context"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	mdtest "github.com/ipfs/go-merkledag/test"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

const fan = 1

func TestDemo(t *testing.T) {
	for first := 600; first < 680; first++ {
		for _, more := range []int{1, 7, 60, 200} {
			ds := mdtest.Mock()
			p := h.DagBuilderParams{Dagserv: ds, Maxlinks: fan}
			mk := func(n int) *h.DagBuilderHelper {
				db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(make([]byte, n)), 1))
				if err != nil {
					t.Fatal(err)
				}
				return db
			}
			nd, err := Layout(mk(first))
			if err != nil {
				t.Fatal(err)
			}
			nd, err = Append(context.Background(), nd, mk(more))
			if err != nil {
				t.Fatal(err)
			}
			if err := VerifyTrickleDagStructure(nd, VerifyParams{Getter: ds, Direct: fan, LayerRepeat: 4}); err != nil {
				t.Fatalf("%d+%d: %s", first, more, err)
			}
		}
	}
}
''',"appending to a trickle file whose last sub-tree ends exactly with a complete row of sub-trees","the row counter of appendRec always advances, also when no partly filled row was completed")
