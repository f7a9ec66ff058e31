from seedlib import mk
M="mod/dagmodifier.go"
T="importer/trickle/trickledag.go"
mk("C03-truncchild","C03",[(M,'''	err = dm.dagserv.Add(ctx, modified)
	if err != nil {
		return nil, err
	}

	nd.SetLinks(nd.Links()[:end])
''','''	if size > cur || cur == 0 {
		// there is something left of the child
		err = dm.dagserv.Add(ctx, modified)
		if err != nil {
			return nil, err
		}
	}

	nd.SetLinks(nd.Links()[:end])
''')],"mod",'''
package mod

import (
	"bytes"
	"context"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdtest "github.com/ipfs/go-merkledag/test"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
)

func walk(t *testing.T, ds ipld.DAGService, nd ipld.Node) {
	for _, l := range nd.Links() {
		c, err := ds.Get(context.Background(), l.Cid)
		if err != nil {
			t.Fatalf("%s: %s", l.Cid, err)
		}
		walk(t, ds, c)
	}
}

func TestDemo(t *testing.T) {
	for _, raw := range []bool{false, true} {
		for size := int64(0); size <= 120; size++ {
			ds := mdtest.Mock()
			p := h.DagBuilderParams{Dagserv: ds, Maxlinks: 3, RawLeaves: raw}
			data := make([]byte, 120)
			for i := range data {
				data[i] = byte(i)
			}
			db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(data), 10))
			if err != nil {
				t.Fatal(err)
			}
			nd, err := balanced.Layout(db)
			if err != nil {
				t.Fatal(err)
			}
			dm, err := NewDagModifier(context.Background(), nd, ds, chunker.DefaultSplitter)
			if err != nil {
				t.Fatal(err)
			}
			if err := dm.Truncate(size); err != nil {
				t.Fatal(err)
			}
			out, err := dm.GetNode()
			if err != nil {
				t.Fatal(err)
			}
			if _, err := ds.Get(context.Background(), out.Cid()); err != nil {
				t.Fatal(err)
			}
			walk(t, ds, out)
		}
	}
}
''',"truncating a file with several leaves exactly at the boundary between two of them","the emptied child that stays linked at the end of the truncated file is not stored: the file refers to a missing block")
mk("C03-recache","C03",[(M,'''			// Recache serialized node
			_, err = node.EncodeProtobuf(true)
			if err != nil {
				return cid.Cid{}, err
			}

			if dm.wrBuf.Len() == 0 {
				// No more bytes to write!
				break
			}
''','''			if dm.wrBuf.Len() == 0 {
				// No more bytes to write! Recache serialized node
				_, err = node.EncodeProtobuf(true)
				if err != nil {
					return cid.Cid{}, err
				}
				break
			}
''')],"mod",'''
package mod

import (
	"bytes"
	"context"
	"io"
	"io/ioutil"
	"testing"

	chunker "github.com/ipfs/go-ipfs-chunker"
	mdtest "github.com/ipfs/go-merkledag/test"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
)

func TestDemo(t *testing.T) {
	for off := 0; off <= 120; off += 7 {
		for _, n := range []int{5, 20, 40, 90, 140} {
			ds := mdtest.Mock()
			p := h.DagBuilderParams{Dagserv: ds, Maxlinks: 3}
			data := make([]byte, 120)
			for i := range data {
				data[i] = byte(i)
			}
			db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(data), 10))
			if err != nil {
				t.Fatal(err)
			}
			nd, err := balanced.Layout(db)
			if err != nil {
				t.Fatal(err)
			}
			dm, err := NewDagModifier(context.Background(), nd, ds, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 512) })
			if err != nil {
				t.Fatal(err)
			}
			w := bytes.Repeat([]byte{200}, n)
			if _, err := dm.WriteAt(w, int64(off)); err != nil {
				t.Fatal(err)
			}
			if err := dm.Sync(); err != nil {
				t.Fatal(err)
			}
			want := append([]byte(nil), data[:off]...)
			want = append(want, w...)
			if len(want) < len(data) {
				want = append(want, data[len(want):]...)
			}
			out, err := dm.GetNode()
			if err != nil {
				t.Fatal(err)
			}
			out, err = ds.Get(context.Background(), out.Cid())
			if err != nil {
				t.Fatal(err)
			}
			r, err := uio.NewDagReader(context.Background(), out, ds)
			if err != nil {
				t.Fatal(err)
			}
			got, err := ioutil.ReadAll(r)
			if err != nil || !bytes.Equal(got, want) {
				t.Fatalf("%d bytes at %d: %v %v, want %v", n, off, err, got, want)
			}
		}
	}
}
''',"a write that runs past the end of an inner node's last child (into a sibling sub-tree, or beyond the file)","the inner node's cached encoding is only refreshed when the write ends inside it; otherwise it is stored with the old links")
