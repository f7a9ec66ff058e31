from seedlib import mk
H="hamt/hamt.go"
mk("C11-nohash","C11",[(H,'''	if fsn.HashType() != HashMurmur3 {
		return nil,''','''	if ht := fsn.HashType(); ht != HashMurmur3 && ht != 0 {
		return nil,''')],"hamt",'''
package hamt

import (
	"testing"

	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	for _, h := range []uint64{0, 1, 0x12} {
		data, err := ft.HAMTShardData(make([]byte, 32), 256, h)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := NewHamtFromDag(ds, dag.NodeWithData(data)); err == nil {
			t.Fatalf("shard with hash %x accepted", h)
		}
	}
	data, _ := ft.HAMTShardData(make([]byte, 32), 256, HashMurmur3)
	if _, err := NewHamtFromDag(ds, dag.NodeWithData(data)); err != nil {
		t.Fatal(err)
	}
}
''',"a stored shard whose hash field is zero","a shard not using murmur3 is accepted as one that does")
mk("C12-setlink","C12",[(H,'''	s.children[i] = nil
	s.links[i] = lnk
''','''	if s.children[i] != nil && s.children[i].isValueNode() {
		s.children[i] = nil
	}
	s.links[i] = lnk
''')],"hamt",'''
package hamt

import (
	"context"
	"fmt"
	"testing"

	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	e := ft.EmptyFileNode()
	bits := func(n string) int { i, _ := newHashBits(n).Next(8); return i }
	seen := map[int]string{}
	var a, b string
	for i := 0; b == ""; i++ {
		n := fmt.Sprintf("n%d", i)
		if o, ok := seen[bits(n)]; ok {
			a, b = o, n
		}
		seen[bits(n)] = n
	}
	s, _ := NewShard(ds, 256)
	for _, n := range []string{a, b} {
		if err := s.Set(ctx, n, e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	// reload, so that the remaining entry is not loaded when the other goes
	s, err = NewHamtFromDag(ds, nd.(*dag.ProtoNode))
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Remove(ctx, b); err != nil {
		t.Fatal(err)
	}
	for i := range s.childer.children {
		if (s.childer.children[i] == nil) == (s.childer.links[i] == nil) {
			t.Fatal("position holds both or neither")
		}
	}
	got, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewShard(ds, 256)
	f.Set(ctx, a, e)
	want, _ := f.Node()
	if !got.Cid().Equals(want.Cid()) {
		t.Fatal("stale sub-shard serialised")
	}
}
''',"a sub-shard left with one entry that was never loaded","a slot holds a stored link and a loaded sub-shard at once, and the stale sub-shard is serialised")
mk("C13-label","C13",[(H,"label := lnk.Name[ds.maxpadlen:]",'''label := lnk.Name
			if len(label) >= len(ds.linkNamePrefix(childIndex)) {
				label = label[2:]
			}''')],"hamt",'''
package hamt

import (
	"context"
	"testing"

	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	for _, size := range []int{256, 1024, 8, 16} {
		ds := mdtest.Mock()
		s, err := NewShard(ds, size)
		if err != nil {
			t.Fatal(err)
		}
		for _, n := range []string{"alpha", "bravo", "charlie"} {
			if err := s.Set(ctx, n, ft.EmptyFileNode()); err != nil {
				t.Fatal(err)
			}
		}
		nd, err := s.Node()
		if err != nil {
			t.Fatal(err)
		}
		s2, err := NewHamtFromDag(ds, nd.(*dag.ProtoNode))
		if err != nil {
			t.Fatal(err)
		}
		nd2, err := s2.Node()
		if err != nil {
			t.Fatal(err)
		}
		if !nd.Cid().Equals(nd2.Cid()) {
			t.Fatal("entries renamed by reserialisation, width", size)
		}
	}
}
''',"a shard whose slot number is not two digits wide, stored again without loading its entries","entries are stored under names shifted by one character")
mk("C14-noprune","C14",[(H,"""				return oldValue, ds.childer.rm(idx)
			case 1:""","""				if ds.childer.length() > 1 {
					return oldValue, ds.childer.rm(idx)
				}
				return oldValue, nil
			case 1:""")],"hamt",'''
package hamt

import (
	"context"
	"testing"

	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	s, _ := NewShard(ds, 256)
	if err := s.Set(ctx, "a", ft.EmptyFileNode()); err != nil {
		t.Fatal(err)
	}
	// another implementation may have left the single entry in a sub-shard
	sub, _ := NewShard(ds, 256)
	lnk := *s.childer.children[0].val
	if _, err := sub.swapValue(ctx, newConsumedHashBits("a", 8), "a", &lnk); err != nil {
		t.Fatal(err)
	}
	s.childer.set(sub, 0)
	if _, err := s.Find(ctx, "a"); err != nil {
		t.Fatal(err)
	}
	if err := s.Remove(ctx, "a"); err != nil {
		t.Fatal(err)
	}
	got, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	e, _ := NewShard(ds, 256)
	want, _ := e.Node()
	if !got.Cid().Equals(want.Cid()) {
		t.Fatal("empty sub-shard left behind")
	}
}
''',"a sub-shard with a single entry, alone in its parent, losing that entry","the empty sub-shard stays in the directory")
mk("C25-depth","C25",[("importer/trickle/trickledag.go","if rdepth >= depth && depth > 0 {","if rdepth > depth && depth > 0 {")],"importer/trickle",'''
package trickle

import (
	"context"
	"testing"

	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	leaf := func() *dag.ProtoNode { return dag.NodeWithData(ft.WrapData([]byte("x"))) }
	inner := func(kids ...*dag.ProtoNode) *dag.ProtoNode {
		fsn := ft.NewFSNode(ft.TFile)
		nd := new(dag.ProtoNode)
		for _, k := range kids {
			if err := ds.Add(context.Background(), k); err != nil {
				t.Fatal(err)
			}
			fsn.AddBlockSize(1)
			if err := nd.AddNodeLink("", k); err != nil {
				t.Fatal(err)
			}
		}
		b, err := fsn.GetBytes()
		if err != nil {
			t.Fatal(err)
		}
		nd.SetData(b)
		return nd
	}
	p := VerifyParams{Getter: ds, Direct: 2, LayerRepeat: 1}
	l := leaf()
	good := inner(l, l, inner(l, l), inner(l, l, inner(l, l)))
	if err := VerifyTrickleDagStructure(good, p); err != nil {
		t.Fatal(err)
	}
	// the first layer's sub-tree may only have direct children
	bad := inner(l, l, inner(l, l, inner(l, l)))
	if err := VerifyTrickleDagStructure(bad, p); err == nil {
		t.Fatal("too deep sub-tree accepted")
	}
}
''',"a sub-tree exactly one level deeper than its layer allows","a DAG that is not a trickle DAG is accepted")
