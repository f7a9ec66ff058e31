from seedlib import mk
HEAD='''
package %s

import (
	"context"
	"fmt"
	"testing"
%s
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
)

var _ = mdag.NewRawNode

func shape(nd ipld.Node) string {
	s := fmt.Sprintf("%%x", nd.RawData()[:0])
	for _, l := range nd.Links() {
		s += fmt.Sprintf("%%s %%d %%s\\n", l.Name, l.Size, l.Cid)
	}
	return s
}
'''
mk("C19-opencopy","C19",[('io/directory.go',"		return &DynamicDirectory{newBasicDirectoryFromNode(dserv, protoBufNode.Copy().(*mdag.ProtoNode))}, nil","		return &DynamicDirectory{newBasicDirectoryFromNode(dserv, protoBufNode)}, nil")],"io",HEAD%("io","")+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	d := NewDirectory(ds)
	leaf := mdag.NewRawNode([]byte("x"))
	ds.Add(ctx, leaf)
	for i := 0; i < 4; i++ {
		if err := d.AddChild(ctx, fmt.Sprint("n", i), leaf); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	mine := nd.Copy()
	before, key := shape(mine), mine.Cid()
	e, err := NewDirectoryFromNode(ds, mine)
	if err != nil {
		t.Fatal(err)
	}
	if err := e.RemoveChild(ctx, "n1"); err != nil {
		t.Fatal(err)
	}
	if err := e.AddChild(ctx, "other", leaf); err != nil {
		t.Fatal(err)
	}
	if shape(mine) != before || !mine.Cid().Equals(key) {
		t.Fatal("the node the directory was opened on has changed")
	}
}
''',"an edit through a directory opened on a node the caller keeps","NewDirectoryFromNode works on the caller's node itself")
mk("C19-setlink","C19",[('hamt/hamt.go','''	newLink := ipld.Link{
		Name: lnk.Name,
		Size: lnk.Size,
		Cid:  lnk.Cid,
	}
''','''	newLink := lnk
	if lnk.Name != "" {
		// it belongs to another node
		newLink = &ipld.Link{Size: lnk.Size, Cid: lnk.Cid}
	}
'''),('hamt/hamt.go','''	newLink.Name = ds.linkNamePrefix(0) + name

	_, err := ds.swapValue(ctx, hv, name, &newLink)''','''	newLink.Name = ds.linkNamePrefix(0) + name

	_, err := ds.swapValue(ctx, hv, name, newLink)''')],"hamt",HEAD%("hamt","")+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	s, err := NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	leaf := mdag.NewRawNode([]byte("x"))
	ds.Add(ctx, leaf)
	lnk, err := ipld.MakeLink(leaf)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.SetLink(ctx, "a", lnk); err != nil {
		t.Fatal(err)
	}
	if lnk.Name != "" {
		t.Fatalf("SetLink renamed the caller's link to %q", lnk.Name)
	}
}
''',"a link without a name, as ipld.MakeLink returns, looked at or used again after SetLink","SetLink renames and keeps the caller's link")
mk("C19-handedout","C19",[('mod/dagmodifier.go','''	return dm.curNode.Copy(), nil
''','''	return dm.curNode, nil
'''),('mod/dagmodifier.go','''dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))''','''dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))''')],"mod",HEAD%("mod",'''
	"bytes"
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
''')+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	p := h.DagBuilderParams{Maxlinks: 4, Dagserv: ds}
	db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader(bytes.Repeat([]byte("abcdefgh"), 512)), 256))
	if err != nil {
		t.Fatal(err)
	}
	nd, err := balanced.Layout(db)
	if err != nil {
		t.Fatal(err)
	}
	dm, err := NewDagModifier(ctx, nd, ds, func(r io.Reader) chunker.Splitter {
		return chunker.NewSizeSplitter(r, 256)
	})
	if err != nil {
		t.Fatal(err)
	}
	out, err := dm.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	before, key := shape(out), out.Cid()
	if err := dm.Truncate(1000); err != nil {
		t.Fatal(err)
	}
	if shape(out) != before || !out.Cid().Equals(key) {
		t.Fatal("the node handed out before the truncation has changed")
	}
}
''',"GetNode, then Truncate, then a look at the node handed out: two sites, each fine with the other's copy in place","Truncate cuts the node GetNode handed out")
mk("C36-adopt","C36",[('mod/dagmodifier.go','''		dm.wrBuf = new(bytes.Buffer)
	}
''','''		if len(b) > 0 {
			// start with what is written, a copy would be made anyway
			dm.wrBuf = bytes.NewBuffer(b)
			b = b[len(b):]
			dm.curWrOff += uint64(dm.wrBuf.Len())
			if dm.wrBuf.Len() > writebufferSize {
				n := dm.wrBuf.Len()
				return n, dm.Sync()
			}
			return dm.wrBuf.Len(), nil
		}
		dm.wrBuf = new(bytes.Buffer)
	}
''')],"mod",HEAD%("mod",'''
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ft "github.com/ipfs/go-unixfs"
''')+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	nd := ft.EmptyFileNode()
	ds.Add(ctx, nd)
	dm, err := NewDagModifier(ctx, nd, ds, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 256) })
	if err != nil {
		t.Fatal(err)
	}
	// one buffer for every write, as io.Copy has
	buf := make([]byte, 3)
	for _, s := range []string{"abc", "def"} {
		copy(buf, s)
		if n, err := dm.Write(buf); n != 3 || err != nil {
			t.Fatal(n, err)
		}
	}
	if _, err := dm.Seek(0, io.SeekStart); err != nil {
		t.Fatal(err)
	}
	out, err := io.ReadAll(dm)
	if err != nil {
		t.Fatal(err)
	}
	if string(out) != "abcdef" {
		t.Fatalf("wrote abcdef, read %q", out)
	}
}
''',"reusing the buffer of a write before the next Sync","the bytes to be written are the caller's, which may change before they are stored")
mk("C36-scrub","C36",[('mod/dagmodifier.go','''	n, err := dm.wrBuf.Write(b)
	if err != nil {
		return n, err
	}
''','''	n, err := dm.wrBuf.Write(b)
	if err != nil {
		return n, err
	}
	if n > writebufferSize/2 {
		// nothing of a large write stays around
		_, _ = zeroReader{}.Read(b[:n])
	}
''')],"mod",HEAD%("mod",'''
	"bytes"
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	ft "github.com/ipfs/go-unixfs"
''')+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	nd := ft.EmptyFileNode()
	ds.Add(ctx, nd)
	dm, err := NewDagModifier(ctx, nd, ds, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 1<<18) })
	if err != nil {
		t.Fatal(err)
	}
	data := bytes.Repeat([]byte("q"), writebufferSize)
	if _, err := dm.Write(data); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(data, bytes.Repeat([]byte("q"), writebufferSize)) {
		t.Fatal("Write changed the bytes passed to it")
	}
}
''',"a write of more than a megabyte from a slice the caller uses again","Write clears the caller's bytes")
mk("C36-readkeep","C36",[('io/dagreader.go','''		n += dr.readNodeDataBuffer(out[n:])
''','''		if k := int64(len(out) - n); k >= int64(dr.currentNodeData.Len()) {
			// the whole leaf fits: read it into place, and serve the rest of
			// the node from there
			m, rerr := io.ReadFull(dr.currentNodeData, out[n:n+dr.currentNodeData.Len()])
			dr.currentNodeData = bytes.NewReader(out[n : n+m])
			_, _ = dr.currentNodeData.Seek(int64(m), io.SeekStart)
			dr.offset += int64(m)
			n += m
			if rerr != nil {
				return rerr
			}
		} else {
			n += dr.readNodeDataBuffer(out[n:])
		}
'''),('io/dagreader.go','''	switch whence {
	case io.SeekStart:''','''	if whence == io.SeekCurrent && offset < 0 && dr.currentNodeData != nil {
		// a step back within the current node needs no walk
		if pos := dr.currentNodeData.Size() - int64(dr.currentNodeData.Len()); pos+offset >= 0 {
			if _, err := dr.currentNodeData.Seek(offset, io.SeekCurrent); err != nil {
				return dr.offset, err
			}
			dr.offset += offset
			return dr.offset, nil
		}
	}
	switch whence {
	case io.SeekStart:''')],"io",HEAD%("io",'''
	"bytes"
	"io"

	chunker "github.com/ipfs/go-ipfs-chunker"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
''')+'''
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	p := h.DagBuilderParams{Maxlinks: 4, Dagserv: ds}
	db, err := p.New(chunker.NewSizeSplitter(bytes.NewReader([]byte("abcdefghijklmnop")), 4))
	if err != nil {
		t.Fatal(err)
	}
	nd, err := balanced.Layout(db)
	if err != nil {
		t.Fatal(err)
	}
	r, err := NewDagReader(ctx, nd, ds)
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, 8)
	if _, err := io.ReadFull(r, buf); err != nil {
		t.Fatal(err)
	}
	for i := range buf {
		buf[i] = '?'
	}
	if _, err := r.Seek(-2, io.SeekCurrent); err != nil {
		t.Fatal(err)
	}
	out := make([]byte, 2)
	if _, err := io.ReadFull(r, out); err != nil {
		t.Fatal(err)
	}
	if string(out) != "gh" {
		t.Fatalf("read %q instead of gh", out)
	}
}
''',"a read that takes a whole leaf, the caller changing its buffer, and a small step back: two sites","the reader keeps the caller's buffer and serves later reads from it")

mk("C19-childbuilder","C19",[('io/directory.go',"""	link, err := ipld.MakeLink(node)
	if err != nil {
		return err
	}

	return d.addLinkChild(ctx, name, link)""","""	// new children follow the directory
	if child, ok := node.(*mdag.ProtoNode); ok && len(child.Links()) == 0 {
		if b := d.node.CidBuilder(); b != nil {
			child.SetCidBuilder(b)
		}
	}
	link, err := ipld.MakeLink(node)
	if err != nil {
		return err
	}

	return d.addLinkChild(ctx, name, link)""")],"io",HEAD%("io",'''
	ft "github.com/ipfs/go-unixfs"
''')+"""
func TestDemo(t *testing.T) {
	ctx := context.Background()
	ds := mdtest.Mock()
	d := NewDirectory(ds)
	d.SetCidBuilder(mdag.V1CidPrefix())
	nd := ft.EmptyDirNode()
	key := nd.Cid()
	if err := d.AddChild(ctx, "sub", nd); err != nil {
		t.Fatal(err)
	}
	if !nd.Cid().Equals(key) {
		t.Fatal("adding the node changed its CID")
	}
}
""","adding a child made with another CID builder than the directory's","AddChild sets the directory's CID builder on the caller's node")
