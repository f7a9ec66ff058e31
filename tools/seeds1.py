from seedlib import mk
mk("C10-relseek", "C10", [("io/dagreader.go", """			return dr.offset, nil
		}

		return dr.Seek(dr.offset+offset, io.SeekStart)
""", """			return dr.offset, nil
		}

		// Small forward seeks usually stay inside the current block.
		if dr.currentNodeData != nil && offset > 0 && offset < dr.currentNodeData.Size() {
			if _, err := dr.currentNodeData.Seek(offset, io.SeekCurrent); err != nil {
				return 0, err
			}
			dr.offset += offset
			return dr.offset, nil
		}

		return dr.Seek(dr.offset+offset, io.SeekStart)
""")], "io", '''
package io

import (
	"context"
	"io"
	"testing"

	testu "github.com/ipfs/go-unixfs/test"
)

func TestDemo(t *testing.T) {
	ds := testu.GetDAGServ()
	data, nd := testu.GetRandomNode(t, ds, 4000, testu.UseProtoBufLeaves)
	r, err := NewDagReader(context.Background(), nd, ds)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := io.ReadFull(r, make([]byte, 400)); err != nil {
		t.Fatal(err)
	}
	p, err := r.Seek(300, io.SeekCurrent)
	if err != nil || p != 700 {
		t.Fatal(p, err)
	}
	b := make([]byte, 50)
	if _, err := io.ReadFull(r, b); err != nil {
		t.Fatal(err)
	}
	if string(b) != string(data[700:750]) {
		t.Fatal("wrong bytes after a relative seek")
	}
}
''', "a relative seek that crosses the end of a partly read block", "the next bytes read are not those at the position reported")

mk("C08-errcount", "C08", [("io/dagreader.go", """		return n, io.EOF
		// Reached the end of the (DAG) file, no more data to read.
	} else if err != nil {
		return n, err
""", """		return n, io.EOF
		// Reached the end of the (DAG) file, no more data to read.
	} else if err != nil {
		return 0, err
""")], "io", '''
package io

import (
	"context"
	"errors"
	"testing"
	"time"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	testu "github.com/ipfs/go-unixfs/test"
)

type failing struct {
	ipld.NodeGetter
	bad cid.Cid
}

func (f failing) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if c.Equals(f.bad) {
		return nil, errors.New("lost block")
	}
	return f.NodeGetter.Get(ctx, c)
}

func (f failing) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs))
	go func() {
		defer close(out)
		var late []*ipld.NodeOption
		for _, c := range cs {
			n, err := f.Get(ctx, c)
			if err != nil {
				late = append(late, &ipld.NodeOption{Err: err})
				continue
			}
			out <- &ipld.NodeOption{Node: n}
		}
		time.Sleep(500 * time.Millisecond)
		for _, o := range late {
			out <- o
		}
	}()
	return out
}

func TestDemo(t *testing.T) {
	ds := testu.GetDAGServ()
	data, nd := testu.GetRandomNode(t, ds, 4000, testu.UseProtoBufLeaves)
	r, err := NewDagReader(context.Background(), nd, failing{ds, nd.Links()[3].Cid})
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, 4000)
	for i := range buf {
		buf[i] = ^data[i]
	}
	n, err := r.Read(buf)
	if err == nil {
		t.Fatal("no error")
	}
	got := 0
	for i := range buf {
		if buf[i] == data[i] {
			got++
		}
	}
	if n != got {
		t.Fatalf("%d bytes were delivered before the lost block, reported %d", got, n)
	}
}
''', "a block that cannot be fetched in the middle of one read call", "the read reports zero bytes although it delivered some and moved its position past them")

mk("C09-symleaf", "C09", [("unixfs.go", """		case pb.Data_File, pb.Data_Raw:
			return fsNode.Data(), nil
			// Only""", """		case pb.Data_File, pb.Data_Raw, pb.Data_Symlink:
			return fsNode.Data(), nil
			// Only""")], "io", '''
package io

import (
	"context"
	"io"
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	testu "github.com/ipfs/go-unixfs/test"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := testu.GetDAGServ()
	sd, err := ft.SymlinkData("/etc/passwd")
	if err != nil {
		t.Fatal(err)
	}
	leaf := mdag.NodeWithData(sd)
	ds.Add(ctx, leaf)
	f := ft.NewFSNode(ft.TFile)
	f.AddBlockSize(11)
	b, _ := f.GetBytes()
	root := mdag.NodeWithData(b)
	root.AddNodeLink("", leaf)
	ds.Add(ctx, root)
	r, err := NewDagReader(ctx, root, ds)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := io.ReadAll(r); err == nil {
		t.Fatalf("a symlink block was read as file content: %q", got)
	}
}
''', "a file DAG one of whose leaves is a symlink node", "the symlink's target is delivered as file content instead of an error")

mk("C24-fallback", "C24", [("io/resolve.go", """			out, err := s.Find(ctx, names[0])
			if err != nil {
				return nil, nil, err
			}
""", """			out, err := s.Find(ctx, names[0])
			if err == os.ErrNotExist {
				// may be addressed by its raw link name
				return nd.ResolveLink(names)
			}
			if err != nil {
				return nil, nil, err
			}
"""), ("io/resolve.go", """	"context"
""", """	"context"
	"os"
""")], "io", '''
package io

import (
	"context"
	"testing"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	testu "github.com/ipfs/go-unixfs/test"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := testu.GetDAGServ()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Set(ctx, "entry", ft.EmptyDirNode()); err != nil {
		t.Fatal(err)
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	raw := nd.Links()[0].Name // slot prefix + name
	if l, _, err := ResolveUnixfsOnce(ctx, ds, nd, []string{raw, "x"}); err == nil {
		t.Fatalf("missing entry %q resolved to %v", raw, l)
	}
}
''', "a path segment that equals the slot-prefixed link name of an entry", "a missing entry of a sharded directory resolves through the raw links")

mk("C26-metasize", "C26", [("unixfs.go", """	case pb.Data_File, pb.Data_Raw:
		return pbdata.GetFilesize(), nil
	case pb.Data_Symlink:""", """	case pb.Data_File, pb.Data_Raw, pb.Data_Metadata:
		return pbdata.GetFilesize(), nil
	case pb.Data_Symlink:""")], ".", '''
package unixfs

import "testing"

func TestDemo(t *testing.T) {
	b, err := BytesForMetadata(&Metadata{MimeType: "text/plain", Size: 7})
	if err != nil {
		t.Fatal(err)
	}
	if n, err := DataSize(b); err == nil {
		t.Fatalf("a metadata node has content size %d", n)
	}
}
''', "the content size of a metadata node", "a size is reported for a node type that has none")

mk("C23-symclean", "C23", [("unixfs.go", """	pbdata.Data = []byte(path)
""", """	pbdata.Data = []byte(strings.TrimRight(path, "/"))
"""), ("unixfs.go", """	"fmt"
""", """	"fmt"
	"strings"
""")], ".", '''
package unixfs

import "testing"

func TestDemo(t *testing.T) {
	for _, p := range []string{"a/b", "/", "dir/"} {
		b, err := SymlinkData(p)
		if err != nil {
			t.Fatal(err)
		}
		n, err := FSNodeFromBytes(b)
		if err != nil || string(n.Data()) != p {
			t.Fatalf("target %q stored as %q (%v)", p, n.Data(), err)
		}
	}
}
''', "a symlink target ending in a slash", "the stored target differs from the given one")

mk("C01-addcancel", "C01", [("hamt/hamt.go", """	err = ds.dserv.Add(context.TODO(), out)
	if err != nil {
		return nil, err
	}

	return out, nil
}
""", """	err = ds.dserv.Add(context.TODO(), out)
	if err != nil && err != context.DeadlineExceeded {
		return nil, err
	}

	return out, nil
}
""")], "hamt", '''
package hamt

import (
	"context"
	"testing"

	ipld "github.com/ipfs/go-ipld-format"
	ft "github.com/ipfs/go-unixfs"
	mdtest "github.com/ipfs/go-merkledag/test"
)

type slow struct {
	ipld.DAGService
	on bool
}

func (s *slow) Add(ctx context.Context, n ipld.Node) error {
	if s.on {
		return context.DeadlineExceeded
	}
	return s.DAGService.Add(ctx, n)
}

func TestDemo(t *testing.T) {
	ds := &slow{DAGService: mdtest.Mock()}
	s, err := NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Set(context.Background(), "a", ft.EmptyDirNode()); err != nil {
		t.Fatal(err)
	}
	ds.on = true
	if _, err := s.Node(); err == nil {
		t.Fatal("the shard could not be stored but Node succeeded")
	}
}
''', "a store operation that times out while a shard is serialised", "the failure to store the shard is reported as success")
