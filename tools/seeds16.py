from seedlib import mk
T='''
package balanced

import (
	"bytes"
	"context"
	"fmt"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdtest "github.com/ipfs/go-merkledag/test"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

// check returns the height of the tree, failing if its leaves differ in depth
// or a node followed by more data is not full.
func check(ctx context.Context, ds ipld.DAGService, nd ipld.Node, max int, last bool) (int, error) {
	n := len(nd.Links())
	if n == 0 {
		return 0, nil
	}
	if n > max || n < max && !last {
		return 0, fmt.Errorf("a node with %d links of %d", n, max)
	}
	height := -1
	for i, l := range nd.Links() {
		ch, err := l.GetNode(ctx, ds)
		if err != nil {
			return 0, err
		}
		x, err := check(ctx, ds, ch, max, last && i == n-1)
		if err != nil {
			return 0, err
		}
		if height >= 0 && x != height {
			return 0, fmt.Errorf("sub-trees of height %d and %d", height, x)
		}
		height = x
	}
	return height + 1, nil
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	for max := 2; max <= 4; max++ {
		for size := 1; size <= 70; size++ {
			ds := mdtest.Mock()
			dbp := h.DagBuilderParams{Dagserv: ds, Maxlinks: max}
			data := make([]byte, size)
			for i := range data {
				data[i] = byte(i)
			}
			db, err := dbp.New(chunker.NewSizeSplitter(bytes.NewReader(data), 1))
			if err != nil {
				t.Fatal(err)
			}
			nd, err := Layout(db)
			if err != nil {
				t.Fatal(err)
			}
			if _, err := check(ctx, ds, nd, max, true); err != nil {
				t.Fatalf("%d chunks, %d links: %s", size, max, err)
			}
		}
	}
}
'''
B='importer/balanced/builder.go'
mk("C31-halfdepth","C31",[(B,"fillNodeRec(db, nil, depth-1)","fillNodeRec(db, nil, (depth+1)/2)")],"importer/balanced",T,
"a file with more chunks than the cube of the fan-out (five levels)","from the fourth level on, sub-trees are built shallower than the first one: leaves end up at different depths")
mk("C31-countone","C31",[(B,"	for node.NumChildren() < db.Maxlinks() && !db.Done() {\n","	// (the node already holds the old root)\n	for n := 1; n < db.Maxlinks() && !db.Done(); n++ {\n")],"importer/balanced",T,
"a file of at least three levels","nodes made below the root are left one child short of full while more data follows")
mk("C31-stepdepth","C31",[(B,"		root, fileSize, err = fillNodeRec(db, newRoot, depth)\n		if err != nil {\n			return nil, err\n		}\n","		root, fileSize, err = fillNodeRec(db, newRoot, depth)\n		if err != nil {\n			return nil, err\n		}\n		if newRoot.NumChildren() < db.Maxlinks() || depth > 2 {\n			// not full: no level is added\n			depth--\n		}\n")],"importer/balanced",T,
"a file with more chunks than the cube of the fan-out","the depth is not raised with the root any more from the third level on: the old root is a deeper sub-tree than its siblings")
