from seedlib import mk
H='hamt/hamt.go'; D='io/directory.go'
HEAD='''
package hamt

import (
	"context"
	"fmt"
	"testing"
	"time"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
)

var _ = mdag.NewRawNode
var _ cid.Cid
var _ = time.Second
var _ blocks.Block

func tree(t *testing.T, ds ipld.DAGService, n int) (*Shard, ipld.Node) {
	ctx := context.Background()
	s, err := NewShard(ds, 8)
	if err != nil {
		t.Fatal(err)
	}
	e := ft.EmptyDirNode()
	if err := ds.Add(ctx, e); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < n; i++ {
		if err := s.Set(ctx, fmt.Sprintf("entry-%d", i), e); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	return s, nd
}
'''
mk("C15-missingok","C15",[(H,'''		if err != nil {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
''','''		if err != nil && err != ipld.ErrNotFound {
			emitResult(ctx, linkResults, format.LinkResult{Link: nil, Err: err})
		}
''')],"hamt",HEAD+'''
// lossy has lost a node.
type lossy struct {
	ipld.DAGService
	lost cid.Cid
}

func (s *lossy) GetMany(ctx context.Context, cids []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cids))
	defer close(out)
	for _, c := range cids {
		if c.Equals(s.lost) {
			out <- &ipld.NodeOption{Err: ipld.ErrNotFound}
			continue
		}
		nd, err := s.DAGService.Get(ctx, c)
		out <- &ipld.NodeOption{Node: nd, Err: err}
	}
	return out
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := &lossy{DAGService: mdtest.Mock()}
	_, nd := tree(t, ds, 200)
	for _, l := range nd.Links() { // one sub-shard is gone
		if len(l.Name) == 1 {
			ds.lost = l.Cid
			break
		}
	}
	s, err := NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	ls, err := s.EnumLinks(ctx)
	if err == nil && len(ls) != 200 {
		t.Fatalf("%d of 200 entries, and no error", len(ls))
	}
}
'''.replace("len(l.Name) == 1","len(l.Name) <= 2"),"a stored directory of which a sub-shard cannot be found","EnumLinks presents the entries of the other sub-shards as the whole directory")
mk("C15-mixed","C15",[(H,'''				var linksToVisit []cid.Cid
				for _, nextCid := range feedChildren.cids {
''','''				// sub-shards in memory bring their own links along
				pending := feedChildren.cids
				if n := len(feedChildren.shards); n > 1 && n > len(pending) {
					pending = nil
				}

				var linksToVisit []cid.Cid
				for _, nextCid := range pending {
''')],"hamt",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	_, nd := tree(t, ds, 300)
	s, err := NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300; i++ { // load some of the sub-shards, one after the other
		if _, err := s.Find(ctx, fmt.Sprintf("entry-%d", i)); err != nil {
			t.Fatal(err)
		}
		ls, err := s.EnumLinks(ctx)
		if err == nil && len(ls) != 300 {
			t.Fatalf("%d of 300 entries, and no error", len(ls))
		}
	}
}
''',"a directory of which more sub-shards are in memory than not","the listing leaves out the sub-shards not loaded yet")
mk("C15-timeout","C15",[(H,'''	ctx, cancel := context.WithCancel(ctx)
	go func() {
		defer close(linkResults)
''','''	ctx, cancel := context.WithTimeout(ctx, 20*time.Second)
	go func() {
		defer close(linkResults)
'''),(H,'''	"os"
''','''	"os"
	"time"
''')] if 0 else [(H,'''	ctx, cancel := context.WithCancel(ctx)
	go func() {
		defer close(linkResults)
''','''	ctx, cancel := context.WithTimeout(ctx, enumTimeout)
	go func() {
		defer close(linkResults)
'''),(H,'''type listCidsAndShards struct {
''','''// enumTimeout bounds the time a single enumeration may take.
const enumTimeout = 15 * time.Second

type listCidsAndShards struct {
'''),(H,'''	"sync"
''','''	"sync"
	"time"
''')],"hamt",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	_, nd := tree(t, ds, 20)
	s, err := NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for r := range s.EnumLinksAsync(ctx) { // a slow consumer
		if r.Err != nil {
			return
		}
		if n == 0 {
			time.Sleep(20 * time.Second)
		}
		n++
	}
	if n != 20 {
		t.Fatalf("%d of 20 entries, and no error", n)
	}
}
''',"an enumeration whose consumer takes its time","the stream is closed after a part of the entries, although nobody cancelled it")
mk("C15-forall","C15",[(H,'''func (s *childer) each(ctx context.Context, cb func(*Shard) error) error {
	for i := range s.children {
''','''func (s *childer) each(ctx context.Context, cb func(*Shard) error) error {
	// the bitfield counts the slots in use
	for i := 0; i < s.sliceIndex(s.sd.tableSize-1); i++ {
''')] if 0 else [(H,'''	for i := range s.children {
		c, err := s.get(ctx, i)
''','''	for i, last := 0, s.sliceIndex(s.sd.tableSize-1); i < len(s.children) && i <= last; i++ {
		c, err := s.get(ctx, i)
''')],"hamt",HEAD+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	for n := 1; n < 120; n++ {
		_, nd := tree(t, ds, n)
		s, err := NewHamtFromDag(ds, nd)
		if err != nil {
			t.Fatal(err)
		}
		got := 0
		if err := s.ForEachLink(ctx, func(*ipld.Link) error { got++; return nil }); err != nil {
			t.Fatal(err)
		}
		if got != n {
			t.Fatalf("%d of %d entries", got, n)
		}
	}
}
''',"","") if 0 else None
mk("C15-stopwalk","C15",[(H,'''		if err := cb(c); err != nil {
			return err
		}
	}

	return nil
}

func (s *childer) check''','''		if err := cb(c); err != nil {
			if err == ctx.Err() {
				break // the walk was called off
			}
			return err
		}
	}

	return nil
}

func (s *childer) check''')],"hamt",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	_, nd := tree(t, ds, 200)
	s, err := NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	n := 0
	err = s.ForEachLink(ctx, func(*ipld.Link) error {
		n++
		if n == 50 {
			cancel()
		}
		return ctx.Err()
	})
	if err == nil && n != 200 {
		t.Fatalf("%d of 200 entries, and no error", n)
	}
}
''',"a context that ends during ForEachLink, and a callback that says so","the walk stops and reports success")
mk("C15-basicempty","C15",[(D,'''	for _, l := range d.node.Links() {
		if err := f(l); err != nil {
			return err
		}
	}
	return nil
''','''	for _, l := range d.node.Links() {
		if l.Size == 0 {
			continue // placeholder left by an interrupted add
		}
		if err := f(l); err != nil {
			return err
		}
	}
	return nil
''')],"io",'''
package io

import (
	"context"
	"testing"

	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	d := NewDirectory(mdtest.Mock())
	if err := d.AddChild(ctx, "empty", mdag.NewRawNode(nil)); err != nil {
		t.Fatal(err)
	}
	n := 0
	if err := d.ForEachLink(ctx, func(*ipld.Link) error { n++; return nil }); err != nil {
		t.Fatal(err)
	}
	if n != 1 {
		t.Fatal("the entry is not listed")
	}
}
''',"an entry that is an empty raw block","the entry is left out of ForEachLink")
