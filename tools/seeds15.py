from seedlib import mk
mk("C02-bitsend","C02",[('hamt/util.go',"	if hb.consumed+i > len(hb.b)*8 {","	if hb.consumed >= len(hb.b)*8 {")],"hamt",'''
package hamt

import (
	"context"
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	"github.com/ipfs/go-unixfs/internal"
)

func TestDemo(t *testing.T) {
	old := internal.HAMTHashFunction
	defer func() { internal.HAMTHashFunction = old }()
	internal.HAMTHashFunction = func(val []byte) []byte { return []byte{1, 2, 3, 4, 5, 6, 7, 8} }
	ctx := context.Background()
	ds := mdtest.Mock()
	for _, w := range []int{8, 16, 32, 64, 128, 256, 512, 1024} {
		s, err := NewShard(ds, w)
		if err != nil {
			t.Fatal(err)
		}
		nd := mdag.NewRawNode([]byte("x"))
		if err := s.Set(ctx, "a", nd); err != nil {
			t.Fatal(err)
		}
		if err := s.Set(ctx, "b", nd); err == nil {
			t.Errorf("width %d: two names of one hash are both added", w)
		}
	}
}
''',"two names with the same hash in a HAMT whose width takes a number of bits that does not divide 64 (32, 64, 128 …)","the check for hash bits left no longer covers a partial group of bits: reading past the hash panics instead of reporting 'too deep'")
mk("C02-widthlate","C02",[('hamt/hamt.go',"""	if size > maximumHamtWidth {
		return nil, fmt.Errorf("hamt witdh (%d) exceed maximum allowed (%d)", size, maximumHamtWidth)
	}
	bf, err := bitfield.NewBitfield(size)
	if err != nil {
		return nil, err
	}
""","""	bf, err := bitfield.NewBitfield(size)
	if err != nil {
		return nil, err
	}
	if size > maximumHamtWidth {
		return nil, fmt.Errorf("hamt witdh (%d) exceed maximum allowed (%d)", size, maximumHamtWidth)
	}
""")],"hamt",'''
package hamt

import (
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	for _, w := range []uint64{1 << 11, 1 << 61} {
		b, err := ft.HAMTShardData(nil, w, HashMurmur3)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := NewHamtFromDag(ds, mdag.NodeWithData(b)); err == nil {
			t.Errorf("a shard of width %d is opened", w)
		}
	}
}
''',"a stored shard node that announces an enormous fan-out (a power of two such as 2^61)","the bitmap is allocated before the width is limited: opening such a node panics (or exhausts memory) instead of failing")
mk("C02-nameload","C02",[('hamt/hamt.go',"""	if len(lnk.Name) < ds.maxpadlen {
		return invalidLink, fmt.Errorf("invalid link name '%s'", lnk.Name)
	}
""",""),('hamt/hamt.go',"""	lnk := s.link(sliceIndex)
	lnkLinkType, err := s.sd.childLinkType(lnk)
""","""	lnk := s.link(sliceIndex)
	if len(lnk.Name) < s.sd.maxpadlen {
		return nil, fmt.Errorf("invalid link name '%s'", lnk.Name)
	}
	lnkLinkType, err := s.sd.childLinkType(lnk)
""")],"hamt",'''
package hamt

import (
	"context"
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	bits := make([]byte, 32)
	bits[31] = 1
	b, err := ft.HAMTShardData(bits, 256, HashMurmur3)
	if err != nil {
		t.Fatal(err)
	}
	nd := mdag.NodeWithData(b)
	leaf := mdag.NewRawNode([]byte("x"))
	if err := ds.Add(ctx, leaf); err != nil {
		t.Fatal(err)
	}
	if err := nd.AddNodeLink("0", leaf); err != nil {
		t.Fatal(err)
	}
	s, err := NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	failed := false
	for l := range s.EnumLinksAsync(ctx) {
		if l.Err != nil {
			failed = true
		}
	}
	if !failed {
		t.Error("a shard whose link has no room for its prefix is listed")
	}
	if _, err := s.EnumLinks(ctx); err == nil {
		t.Error("a shard whose link has no room for its prefix is listed")
	}
}
''',"a shard node with a link name shorter than the prefix, listed in parallel (EnumLinks/EnumLinksAsync) rather than looked up","the link name is checked where a child is loaded but no longer where the parallel walk cuts the prefix off: the walk's goroutine panics")
