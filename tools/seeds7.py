from seedlib import mk
M="mod/dagmodifier.go"
HEAD='''
package mod

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/ioutil"
	"testing"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	uio "github.com/ipfs/go-unixfs/io"
)

var _ = errors.New
var _ = io.EOF
var _ cid.Cid
var _ = ft.TFile

func fill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}

// file builds a file of the given content, cut in chunks of the given size.
func file(t *testing.T, ds ipld.DAGService, b []byte, chunk int64, raw bool) ipld.Node {
	dbp := h.DagBuilderParams{Dagserv: ds, Maxlinks: 4, RawLeaves: raw}
	if raw {
		p, _ := mdag.PrefixForCidVersion(1)
		dbp.CidBuilder = p
	}
	db, err := dbp.New(chunker.NewSizeSplitter(bytes.NewReader(b), chunk))
	if err != nil {
		t.Fatal(err)
	}
	nd, err := balanced.Layout(db)
	if err != nil {
		t.Fatal(err)
	}
	return nd
}

func content(t *testing.T, ds ipld.DAGService, dm *DagModifier) []byte {
	nd, err := dm.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	r, err := uio.NewDagReader(context.Background(), nd, ds)
	if err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadAll(r)
	if err != nil {
		t.Fatal(err)
	}
	if uint64(len(b)) != r.Size() {
		t.Fatalf("the file declares %d bytes and has %d", r.Size(), len(b))
	}
	return b
}

func open(t *testing.T, ds ipld.DAGService, nd ipld.Node) *DagModifier {
	dm, err := NewDagModifier(context.Background(), nd, ds, chunker.SizeSplitterGen(16))
	if err != nil {
		t.Fatal(err)
	}
	return dm
}
'''
FAIL='''
// flaky fails to store nodes while bad is set.
type flaky struct {
	ipld.DAGService
	bad bool
}

func (f *flaky) Add(ctx context.Context, nd ipld.Node) error {
	if f.bad {
		return errors.New("store is full")
	}
	return f.DAGService.Add(ctx, nd)
}
'''
mk("C21-failseek","C21",[(M,'''		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			cancel()
			return err
		}

		if i != int64(dm.curWrOff) {
			cancel()
			return ErrSeekFail
		}

		dm.readCancel = cancel
		dm.read = dr
	}
''','''		// The modifier owns the reader from here on.
		dm.readCancel = cancel
		dm.read = dr

		i, err := dr.Seek(int64(dm.curWrOff), io.SeekStart)
		if err != nil {
			return err
		}

		if i != int64(dm.curWrOff) {
			return ErrSeekFail
		}
	}
''')],"mod",HEAD+'''
// flaky fails to fetch nodes while bad is set.
type flaky struct {
	ipld.DAGService
	bad bool
}

func (f *flaky) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if f.bad {
		return nil, errors.New("not reachable")
	}
	return f.DAGService.Get(ctx, c)
}

func (f *flaky) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	if !f.bad {
		return f.DAGService.GetMany(ctx, cs)
	}
	out := make(chan *ipld.NodeOption, len(cs))
	for range cs {
		out <- &ipld.NodeOption{Err: errors.New("not reachable")}
	}
	close(out)
	return out
}

func TestDemo(t *testing.T) {
	ds := &flaky{DAGService: mdtest.Mock()}
	old := fill(200)
	dm := open(t, ds, file(t, ds, old, 16, false))
	if _, err := dm.Seek(100, io.SeekStart); err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 10)
	ds.bad = true
	if _, err := dm.Read(b); err == nil {
		t.Fatal("the read should have failed")
	}
	ds.bad = false
	n, err := dm.Read(b)
	if err == nil && !bytes.Equal(b[:n], old[100:100+n]) {
		t.Fatalf("got %q, want %q", b[:n], old[100:100+n])
	}
}
''',"a read whose positioning fails once because a block cannot be fetched","a reader that is not at the modifier's position is kept and used by the next read")
mk("C20-sizeover","C20",[(M,'''		return int64(dm.wrBuf.Len()) + int64(dm.writeStart), nil
''','''		// the pending bytes go behind what is stored
		return int64(dm.wrBuf.Len()) + int64(fileSize), nil
''')],"mod",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	old := fill(100)
	dm := open(t, ds, file(t, ds, old, 16, false))
	if _, err := dm.WriteAt(fill(20), 90); err != nil {
		t.Fatal(err)
	}
	n, err := dm.Size()
	if err != nil || n != 110 {
		t.Fatal(n, err)
	}
}
''',"pending bytes that overlap the end of the stored file","Size counts the overwritten bytes twice while a write is pending")
mk("C20-truncfail","C20",[(M,'''	err = dm.dagserv.Add(dm.ctx, nnode)
	if err != nil {
		return err
	}

	dm.dropReader()
	dm.curNode = nnode
	return nil
}

// dagTruncate''','''	dm.dropReader()
	dm.curNode = nnode
	return dm.dagserv.Add(dm.ctx, nnode)
}

// dagTruncate''')],"mod",HEAD+FAIL+'''
// TestDemo: the store fails for the root of the truncated file only.
func TestDemo(t *testing.T) {
	ds := &nth{DAGService: mdtest.Mock()}
	old := fill(60)
	dm := open(t, ds, file(t, ds, old, 16, false))
	ds.left = 2
	if err := dm.Truncate(20); err == nil {
		t.Fatal("the truncation should have failed")
	}
	ds.left = 0
	if got := content(t, ds, dm); !bytes.Equal(got, old) {
		t.Fatalf("the file has %d bytes after a failed truncation", len(got))
	}
}

type nth struct {
	ipld.DAGService
	left int
}

func (f *nth) Add(ctx context.Context, nd ipld.Node) error {
	if f.left > 0 {
		f.left--
		if f.left == 0 {
			return errors.New("store is full")
		}
	}
	return f.DAGService.Add(ctx, nd)
}
''',"the store failing when the root of the truncated file is written","a failed truncation leaves the modifier on a node that is not stored")
mk("C21-failcount","C21",[(M,'''	dm.curWrOff += uint64(n)
	if dm.wrBuf.Len() > writebufferSize {
		err := dm.Sync()
		if err != nil {
			return n, err
		}
	}
	return n, nil''','''	if dm.wrBuf.Len() > writebufferSize {
		err := dm.Sync()
		if err != nil {
			return n, err
		}
	}
	dm.curWrOff += uint64(n)
	return n, nil''')],"mod",HEAD+FAIL+'''
func TestDemo(t *testing.T) {
	ds := &flaky{DAGService: mdtest.Mock()}
	dm := open(t, ds, file(t, ds, fill(10), 16, false))
	dm.splitter = chunker.SizeSplitterGen(1 << 18)
	ds.bad = true
	big := fill(writebufferSize + 1)
	if n, err := dm.Write(big); err == nil || n != len(big) {
		t.Fatal("the write should have reported a failed flush", n, err)
	}
	ds.bad = false
	// the bytes are accepted, the position is behind them
	pos, err := dm.Seek(0, io.SeekCurrent)
	if err != nil || pos != int64(len(big)) {
		t.Fatal(pos, err)
	}
	if got := content(t, ds, dm); !bytes.Equal(got, big) {
		t.Fatal("content differs")
	}
}
''',"a write that exceeds the buffer while the store fails","the position is not advanced past accepted bytes when the flush fails")
mk("C21-rawtail","C21",[(M,'''			if offsetPlusN < len(origData) {
				copy(bytes[offsetPlusN:], origData[offsetPlusN:])
			}
''','''			if dm.wrBuf.Len() > 0 || offsetPlusN+1 < len(origData) {
				copy(bytes[offsetPlusN:], origData[offsetPlusN:])
			}
''')],"mod",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	old := fill(64)
	for n := 1; n < 16; n++ {
		dm := open(t, ds, file(t, ds, old, 16, true))
		if _, err := dm.WriteAt([]byte("0123456789abcdef")[:n], 32); err != nil {
			t.Fatal(err)
		}
		want := append([]byte(nil), old...)
		copy(want[32:], "0123456789abcdef"[:n])
		if got := content(t, ds, dm); !bytes.Equal(got, want) {
			t.Fatalf("%d: got %q, want %q", n, got, want)
		}
	}
}
''',"a raw leaf overwritten up to its last byte but one","the last byte of a raw leaf is zeroed when exactly it stays")
mk("C21-gapsize","C21",[(M,'''			err := dm.expandSparse(offset - size)
			if err != nil {
				return 0, err
			}
		}
		dm.writeStart = uint64(offset)
''','''			// Only whole blocks, the rest comes with the data.
			err := dm.expandSparse((offset - size + 4095) &^ 4095)
			if err != nil {
				return 0, err
			}
		}
		dm.writeStart = uint64(offset)
''')],"mod",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	old := fill(64)
	dm := open(t, ds, file(t, ds, old, 16, false))
	if _, err := dm.WriteAt([]byte("end"), 100); err != nil {
		t.Fatal(err)
	}
	want := make([]byte, 103)
	copy(want, old)
	copy(want[100:], "end")
	if got := content(t, ds, dm); !bytes.Equal(got, want) {
		t.Fatalf("got %d bytes, want %d", len(got), len(want))
	}
}
''',"a write starting behind the end at a distance that is no multiple of 4096","the gap is rounded up, the file ends up longer than the last byte written")
mk("C28-boundary","C28",[(M,'''			ndata.AddBlockSize(size - cur)
''','''			if size > cur || size == 0 {
				ndata.AddBlockSize(size - cur)
			}
''')],"mod",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	old := fill(64)
	dm := open(t, ds, file(t, ds, old, 16, false))
	if err := dm.Truncate(32); err != nil {
		t.Fatal(err)
	}
	nd, err := dm.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	fsn, err := ft.FSNodeFromBytes(nd.(*mdag.ProtoNode).Data())
	if err != nil {
		t.Fatal(err)
	}
	if fsn.NumChildren() != len(nd.Links()) || fsn.FileSize() != 32 {
		t.Fatalf("%d child sizes for %d links, size %d", fsn.NumChildren(), len(nd.Links()), fsn.FileSize())
	}
	if got := content(t, ds, dm); !bytes.Equal(got, old[:32]) {
		t.Fatal("content differs")
	}
}
''',"a truncation at a child boundary","the emptied child keeps its link but loses its size record")
mk("C28-stalesize","C28",[(M,'''	err := dm.Sync()
	if err != nil {
		return err
	}

	realSize, err := dm.Size()
	if err != nil {
		return err
	}
	if size == int64(realSize) {
		return nil
	}
''','''	stored, err := fileSize(dm.curNode)
	if err != nil {
		return err
	}
	realSize := int64(stored)

	err = dm.Sync()
	if err != nil {
		return err
	}

	if size == realSize {
		return nil
	}
''')],"mod",HEAD+'''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	old := fill(64)
	for _, size := range []int64{64, 70, 90, 200} {
		dm := open(t, ds, file(t, ds, old, 16, false))
		if _, err := dm.WriteAt(fill(20), 60); err != nil {
			t.Fatal(err)
		}
		if err := dm.Truncate(size); err != nil {
			t.Fatal(err)
		}
		want := make([]byte, 80)
		copy(want, old)
		copy(want[60:], fill(20))
		want = append(want, make([]byte, 200)...)[:size]
		if got := content(t, ds, dm); !bytes.Equal(got, want) {
			t.Fatalf("%d: got %d bytes", size, len(got))
		}
	}
}
''',"pending bytes that make the file longer when Truncate is called","Truncate compares with the size before the pending bytes were written")
