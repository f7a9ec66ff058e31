from seedlib import mk
F='io/directory.go'
HEAD='''
package io

import (
	"context"
	"fmt"
	"testing"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
	mh "github.com/multiformats/go-multihash"
)

var _ = fmt.Sprint
var _ cid.Cid
var _ = mdag.NewRawNode
var _ = ft.TSymlink
var _ ipld.Node
var _ = mh.SHA2_256

func identity(t *testing.T, n int) ipld.Node {
	nd, err := mdag.NewRawNodeWPrefix(make([]byte, n), cid.V1Builder{Codec: cid.Raw, MhType: mh.IDENTITY, MhLength: -1})
	if err != nil {
		t.Fatal(err)
	}
	return nd
}
'''
mk("C18-swapsize","C18",[(F,'''	if oldChild != nil {
		d.removeFromSizeChange(name, oldChild.Cid)
	}
	d.addToSizeChange(name, nd.Cid())''','''	if oldChild != nil {
		// replaced: the name is counted already
		d.removeFromSizeChange(name, nd.Cid())
	}
	d.addToSizeChange(name, nd.Cid())''')],"io",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	defer func(o int) { HAMTShardingSize = o }(HAMTShardingSize)
	HAMTShardingSize = 0
	dir := NewDirectory(ds)
	big := identity(t, 100)
	for i := 0; i < 10; i++ {
		if err := dir.AddChild(ctx, fmt.Sprint(i), big); err != nil {
			t.Fatal(err)
		}
	}
	HAMTShardingSize = 500
	if err := dir.AddChild(ctx, "a", big); err != nil {
		t.Fatal(err)
	}
	if _, ok := dir.(*DynamicDirectory).Directory.(*HAMTDirectory); !ok {
		t.Fatal("not sharded")
	}
	nd, err := dir.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	dir, err = NewDirectoryFromNode(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	small := identity(t, 1)
	HAMTShardingSize = 0 // replacements, the option still off
	for i := 0; i < 10; i++ {
		if err := dir.AddChild(ctx, fmt.Sprint(i), small); err != nil {
			t.Fatal(err)
		}
	}
	HAMTShardingSize = 500
	if err := dir.AddChild(ctx, "b", small); err != nil {
		t.Fatal(err)
	}
	// about 160 bytes are left, far below the threshold
	if _, ok := dir.(*DynamicDirectory).Directory.(*BasicDirectory); !ok {
		t.Fatal("still sharded")
	}
}
''',"entries of a sharded directory replaced by entries with CIDs of another length, then a later addition","the size change ignores what replacements save, so the directory stays sharded below the threshold")
mk("C18-oldentry","C18",[(F,'''		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}
	if nodeToAdd != nil {''','''		if nodeToAdd == nil {
			operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
		}
	}
	if nodeToAdd != nil {''')],"io",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	defer func(o int) { HAMTShardingSize = o }(HAMTShardingSize)
	dir := NewDirectory(ds)
	HAMTShardingSize = 120
	e := ft.EmptyFileNode() // 34 bytes
	for _, n := range []string{"a", "b", "c"} {
		if err := dir.AddChild(ctx, n, e); err != nil {
			t.Fatal(err)
		}
	}
	// 105 bytes, and as many after the replacement
	if err := dir.AddChild(ctx, "b", e); err != nil {
		t.Fatal(err)
	}
	if _, ok := dir.(*DynamicDirectory).Directory.(*BasicDirectory); !ok {
		t.Fatal("switched although the size stays below the threshold")
	}
}
''',"an entry of a plain directory replaced while the size is within one entry of the threshold","the entry replaced is counted besides the new one, so the directory switches below the threshold")
mk("C18-early","C18",[(F,'''	err = hamtDir.AddChild(ctx, name, nd)
	if err != nil {
		return err
	}
	d.Directory = hamtDir
	return nil''','''	d.Directory = hamtDir
	return hamtDir.AddChild(ctx, name, nd)''')],"io",HEAD+'''
type bad struct{ ipld.Node }

func (bad) Size() (uint64, error) { return 0, fmt.Errorf("no size") }

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	defer func(o int) { HAMTShardingSize = o }(HAMTShardingSize)
	dir := NewDirectory(ds)
	HAMTShardingSize = 60
	if err := dir.AddChild(ctx, "a", ft.EmptyFileNode()); err != nil {
		t.Fatal(err)
	}
	if err := dir.AddChild(ctx, "b", bad{ft.EmptyFileNode()}); err == nil {
		t.Fatal("added")
	}
	if _, ok := dir.(*DynamicDirectory).Directory.(*BasicDirectory); !ok {
		t.Fatal("the directory changed its layout although the addition failed")
	}
}
''',"an addition that triggers the switch and then fails on the new directory","the new directory is installed although the operation fails")
mk("C18-hashlen","C18",[(F,"return len(linkName) + linkCid.ByteLen()","return len(linkName) + len(linkCid.Hash())")],"io",HEAD+'''
func TestDemo(t *testing.T) {
	c := mdag.NewRawNode([]byte("x")).Cid() // 36 bytes
	if n := productionLinkSize("abc", c); n != 39 {
		t.Fatal(n)
	}
	ctx := context.Background()
	ds := mdtest.Mock()
	defer func(o int) { HAMTShardingSize = o }(HAMTShardingSize)
	dir := NewDirectory(ds)
	HAMTShardingSize = 74
	for _, n := range []string{"a", "b"} {
		if err := dir.AddChild(ctx, n, mdag.NewRawNode([]byte(n))); err != nil {
			t.Fatal(err)
		}
	}
	if _, ok := dir.(*DynamicDirectory).Directory.(*HAMTDirectory); !ok {
		t.Fatal("not sharded although the size is at the threshold")
	}
}
''',"entries with version 1 CIDs, whose bytes are more than the multihash","the estimate leaves out the version and codec bytes of CIDs")
