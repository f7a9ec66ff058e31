from seedlib import mk
F='io/directory.go'
HEAD='''
package io

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"testing"

	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

var _ = fmt.Sprint
var _ = mdag.NewRawNode
var _ = ft.TSymlink
var _ = bytes.Equal
var _ = os.ErrNotExist
'''
mk("C17-unavailable","C17",[(F,'''	return lnk.GetNode(ctx, d.dserv)
}''','''	nd, err := lnk.GetNode(ctx, d.dserv)
	if err == ipld.ErrNotFound {
		return nil, os.ErrNotExist
	}
	return nd, err
}''')],"io",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	dir, err := newEmptyHAMTDirectory(ds, DefaultShardWidth)
	if err != nil {
		t.Fatal(err)
	}
	e := mdag.NewRawNode([]byte("entry"))
	if err := dir.AddChild(ctx, "a", e); err != nil {
		t.Fatal(err)
	}
	if err := ds.Remove(ctx, e.Cid()); err != nil {
		t.Fatal(err)
	}
	if _, err := dir.Find(ctx, "a"); err == nil || err == os.ErrNotExist {
		t.Fatal("an entry whose block is unavailable is reported as", err)
	}
	if err := dir.RemoveChild(ctx, "a"); err != nil {
		t.Fatal(err)
	}
}
''',"an entry of a sharded directory whose block is not in the store","Find reports an existing entry as missing")
mk("C17-samesize","C17",[(F,'''	link, err := ipld.MakeLink(node)
	if err != nil {
		return err
	}

	return d.addLinkChild''','''	link, err := ipld.MakeLink(node)
	if err != nil {
		return err
	}
	if old, err := d.node.GetNodeLink(name); err == nil && old.Size == link.Size && old.Cid.Prefix() == link.Cid.Prefix() {
		// already there: keep the links sorted as they are
		return nil
	}

	return d.addLinkChild''')],"io",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	dir := NewDirectory(ds)
	for _, s := range []string{"old", "new"} {
		e := mdag.NewRawNode([]byte(s))
		if err := ds.Add(ctx, e); err != nil {
			t.Fatal(err)
		}
		if err := dir.AddChild(ctx, "a", e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := dir.Find(ctx, "a")
	if err != nil {
		t.Fatal(err)
	}
	if string(nd.RawData()) != "new" {
		t.Fatal("found", string(nd.RawData()))
	}
}
''',"an entry replaced by another node of the same size","the old entry stays")
mk("C17-slash","C17",[(F,'''	link, err := d.node.GetNodeLink(name)
	if err == mdag.ErrLinkNotFound {
		return os.ErrNotExist
	}
''','''	link, err := d.node.GetNodeLink(name)
	if err == mdag.ErrLinkNotFound && len(name) > 0 && name[len(name)-1] == '/' {
		// directories may be given with a slash
		name = name[:len(name)-1]
		link, err = d.node.GetNodeLink(name)
	}
	if err == mdag.ErrLinkNotFound {
		return os.ErrNotExist
	}
''')],"io",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	dir := NewDirectory(ds)
	e := mdag.NewRawNode([]byte("entry"))
	if err := dir.AddChild(ctx, "a", e); err != nil {
		t.Fatal(err)
	}
	if err := dir.RemoveChild(ctx, "a/"); err != os.ErrNotExist {
		t.Fatal("removing a missing name reports", err)
	}
	// adding removes the entry replaced, of the very same name
	if err := dir.AddChild(ctx, "a/", e); err != nil {
		t.Fatal(err)
	}
	ls, err := dir.Links(ctx)
	if err != nil {
		t.Fatal(err)
	}
	if len(ls) != 2 {
		t.Fatal("entries lost:", len(ls))
	}
}
''',"a missing name that differs from an existing one by a trailing slash","removing a missing name removes another entry")
mk("C17-dynmissing","C17",[(F,'''	switchToBasic, err := hamtDir.needsToSwitchToBasicDir(ctx, name, nil)
	if err != nil {
		return err
	}
''','''	switchToBasic, err := hamtDir.needsToSwitchToBasicDir(ctx, name, nil)
	if err != nil {
		// the shards that lead to the name are not there
		return os.ErrNotExist
	}
''')],"io",HEAD+'''
func TestDemo(t *testing.T) {
	defer func(o int) { HAMTShardingSize = o }(HAMTShardingSize)
	ctx := context.Background()
	ds := mdtest.Mock()
	dir := NewDirectory(ds)
	e := mdag.NewRawNode([]byte("entry"))
	HAMTShardingSize = 1
	for i := 0; i < 2000; i++ {
		if err := dir.AddChild(ctx, fmt.Sprint(i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := dir.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	for _, l := range nd.Links() {
		if len(l.Name) == 2 { // a sub-shard
			if err := ds.Remove(ctx, l.Cid); err != nil {
				t.Fatal(err)
			}
		}
	}
	dir, err = NewDirectoryFromNode(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	if err := dir.RemoveChild(ctx, "7"); err == nil || err == os.ErrNotExist {
		t.Fatal("an entry in an unavailable shard is reported as", err)
	}
}
''',"a name in a sub-shard that cannot be fetched, removed with switching enabled","the failure to fetch is reported as a missing entry")
