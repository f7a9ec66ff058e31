From 5028fb7803245e487dcad790462b15a59b3655bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 01/19] fix: count the bytes written by a failed
 DagReader.WriteTo in its offset

---
 io/dagreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..f04ecf5 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,6 +265,8 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
+	// Bytes handed to the writer count even if it failed afterwards.
+	dr.offset += n
 	if err != nil {
 		return n, err
 	}
@@ -276,7 +278,6 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
 	return n, nil
 }
 
-- 
2.43.0


From 6a7dcc99f1ebb9792a01ba14c306929d02832436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:46 +0000
Subject: [PATCH 02/19] fix: reset the DagReader position when a seek fails
 midway

---
 io/dagreader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index f04ecf5..459b48a 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -463,6 +463,9 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The walker stopped somewhere along the search path, go back
+			// to the start of the DAG to match the reported position.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From 76b01fcd38b888285364dba5b8b47f92c9d295a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 03/19] fix: reject HAMT nodes with a corrupt bitfield or short
 link names instead of panicking

---
 hamt/hamt.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..0199bad 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,10 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
-	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	err = ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if err != nil {
+		return nil, err
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
@@ -209,6 +212,9 @@ func (ds *Shard) Node() (ipld.Node, error) {
 		} else {
 			// child unloaded, just copy in link with updated name
 			lnk := ds.childer.link(sliceIndex)
+			if _, err := ds.childLinkType(lnk); err != nil {
+				return nil, err
+			}
 			label := lnk.Name[ds.maxpadlen:]
 
 			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
@@ -796,15 +802,23 @@ func newChilder(ds ipld.DAGService, size int) (*childer, error) {
 	}, nil
 }
 
-func (s *childer) makeChilder(data []byte, links []*ipld.Link) *childer {
+func (s *childer) makeChilder(data []byte, links []*ipld.Link) error {
+	bf, err := bitfield.FromBytes(s.sd.tableSize, data)
+	if err != nil {
+		return err
+	}
+	if bf.Ones() != len(links) {
+		return fmt.Errorf("bitfield has %d entries but the node has %d links", bf.Ones(), len(links))
+	}
+
+	s.bitfield = bf
 	s.children = make([]*Shard, len(links))
-	s.bitfield.SetBytes(data)
 	if len(links) > 0 {
 		s.links = make([]*ipld.Link, len(links))
 		copy(s.links, links)
 	}
 
-	return s
+	return nil
 }
 
 // Return the `sliceIndex` associated with a child.
-- 
2.43.0


From 605c822a30ea7096ca9dadcc6620102f98e1ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 04/19] fix: restore the size in MetadataFromBytes

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From 2c134c526e8b3110512415aeea1adc9fcc0ef9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 05/19] fix: track HAMTDirectory size changes by entry name

The replaced link carries the slot prefix in its name, which is not part of the
estimated size.
---
 io/directory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index a0ec307..c059c02 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -373,7 +373,7 @@ func (d *HAMTDirectory) AddChild(ctx context.Context, name string, nd ipld.Node)
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 	d.addToSizeChange(name, nd.Cid())
 	return nil
@@ -413,7 +413,7 @@ func (d *HAMTDirectory) RemoveChild(ctx context.Context, name string) error {
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 
 	return nil
-- 
2.43.0


From 5c0081b7b065a0a6f3a36cb0b8d55081eba234aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 06/19] fix: do not present a cancelled HAMT enumeration as
 complete

---
 hamt/hamt.go    | 4 ++++
 io/directory.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 0199bad..b29aadc 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -404,6 +404,10 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
+	// A cancelled enumeration ends early without delivering an error.
+	if err := ctx.Err(); err != nil {
+		return links, err
+	}
 	return links, nil
 }
 
diff --git a/io/directory.go b/io/directory.go
index c059c02..6a8800f 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -532,6 +532,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// A cancelled enumeration ends early without delivering an error.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From 34ecd0d299bacb7e11293ae8cb32eb055b643803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 07/19] fix: report an empty path in ResolveUnixfsOnce instead
 of panicking

---
 io/resolve.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..9f26ab1 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"context"
+	"errors"
 
 	dag "github.com/ipfs/go-merkledag"
 	ft "github.com/ipfs/go-unixfs"
@@ -24,6 +25,10 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 		}
 
 		if fsn.Type() == ft.THAMTShard {
+			if len(names) == 0 {
+				return nil, nil, errors.New("end of path, no more links to resolve")
+			}
+
 			rods := dag.NewReadOnlyDagService(ds)
 			s, err := hamt.NewHamtFromDag(rods, nd)
 			if err != nil {
-- 
2.43.0


From d8d57197712b0d2ef9905b67efaf94631d5785ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/19] fix: report an invalid LayerRepeat in
 VerifyTrickleDagStructure instead of panicking

---
 importer/trickle/trickledag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..6f19eae 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -383,6 +383,9 @@ func verifyTDagRec(n ipld.Node, depth int, p VerifyParams) error {
 			}
 		} else {
 			// Recursive trickle dags
+			if p.LayerRepeat < 1 {
+				return errors.New("invalid layer repeat")
+			}
 			rdepth := ((i - p.Direct) / p.LayerRepeat) + 1
 			if rdepth >= depth && depth > 0 {
 				return errors.New("child dag was too deep")
-- 
2.43.0


From 58ffc4a3ae47cc98af9a6ecfbe324833fb9d1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 09/19] fix: keep the data of a single-leaf file when appending
 to it

---
 importer/trickle/trickledag.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 6f19eae..19b7f51 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -104,6 +104,25 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 		return nil, err
 	}
 
+	if len(base.Links()) == 0 && !db.Done() {
+		// The file is a single leaf: inner nodes can't hold data, move it to
+		// a leaf below a new root.
+		data, err := ft.ReadUnixFSNodeData(base)
+		if err != nil {
+			return nil, err
+		}
+		if len(data) > 0 {
+			leaf, err := db.NewLeafNode(data, ft.TRaw)
+			if err != nil {
+				return nil, err
+			}
+			fsn = db.NewFSNodeOverDag(ft.TFile)
+			if err := fsn.AddChild(leaf, uint64(len(data)), db); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	// Get depth of this 'tree'
 	depth, repeatNumber := trickleDepthInfo(fsn, db.Maxlinks())
 	if depth == 0 {
-- 
2.43.0


From 33c14d74a8dbc10a44540fe2ef6a18b638f79437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 10/19] fix: do not modify links shared with other copies of
 the node in DagModifier

---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..30e2c38 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -335,7 +335,11 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// The link may be shared with copies of this node (GetNode and
+			// NewDagModifier hand those out), replace it.
+			lnk := *node.Links()[i]
+			lnk.Cid = k
+			node.Links()[i] = &lnk
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From 92e978e872af355a580be3cbd5cb5a5ccb734960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 11/19] fix: report malformed files in DagModifier and
 FSNodeOverDag instead of panicking

---
 importer/helpers/dagbuilder.go |  8 ++++++++
 mod/dagmodifier.go             | 27 +++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index f858c74..959d641 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -323,6 +323,10 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 		return nil, err
 	}
 
+	if mb.NumChildren() != len(nd.Links()) {
+		return nil, ft.ErrMalformedFileFormat
+	}
+
 	return &FSNodeOverDag{
 		dag:  nd,
 		file: mb,
@@ -394,6 +398,10 @@ func (n *FSNodeOverDag) GetDagNode() (ipld.Node, error) {
 
 // GetChild gets the ith child of this node from the given DAGService.
 func (n *FSNodeOverDag) GetChild(ctx context.Context, i int, ds ipld.DAGService) (*FSNodeOverDag, error) {
+	if i < 0 || i >= len(n.dag.Links()) {
+		return nil, dag.ErrLinkNotFound
+	}
+
 	nd, err := n.dag.Links()[i].GetNode(ctx, ds)
 	if err != nil {
 		return nil, err
diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 30e2c38..7567310 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -27,6 +27,8 @@ var (
 	ErrUnrecognizedWhence = errors.New("unrecognized whence")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrNotUnixfs
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
+
+	errNegativeOffset = errors.New("negative offset")
 )
 
 // 2MB
@@ -259,6 +261,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -281,6 +286,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, ft.ErrMalformedFileFormat
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -321,6 +329,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 		return cid.Cid{}, err
 	}
 
+	if fsn.NumChildren() != len(node.Links()) {
+		return cid.Cid{}, ft.ErrMalformedFileFormat
+	}
+
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
 		// We found the correct child to write into
@@ -496,6 +508,10 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return errNegativeOffset
+	}
+
 	err := dm.Sync()
 	if err != nil {
 		return err
@@ -538,9 +554,15 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, ft.ErrMalformedFileFormat
+			}
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, ft.ErrMalformedFileFormat
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -588,6 +610,11 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		ndata.AddBlockSize(childsize)
 	}
 
+	if modified == nil {
+		// The children hold less data than announced by the node.
+		return nil, ft.ErrMalformedFileFormat
+	}
+
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From eadb37ca37de744922722ad86ecc732422f17099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 12/19] fix: drop the DagModifier reader and install the new
 node when the file changes

---
 mod/dagmodifier.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 7567310..c0f1455 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -140,14 +140,25 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	if err != nil {
+		return err
+	}
+	dm.dropReader()
+	dm.curNode = nnode
+	return nil
 }
 
-// Write continues writing to the dag at the current offset
-func (dm *DagModifier) Write(b []byte) (int, error) {
+// dropReader discards the active reader, if any.
+func (dm *DagModifier) dropReader() {
 	if dm.read != nil {
 		dm.read = nil
+		dm.readCancel()
 	}
+}
+
+// Write continues writing to the dag at the current offset
+func (dm *DagModifier) Write(b []byte) (int, error) {
+	dm.dropReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
 	}
@@ -201,10 +212,7 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// If we have an active reader, kill it
-	if dm.read != nil {
-		dm.read = nil
-		dm.readCancel()
-	}
+	dm.dropReader()
 
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
@@ -386,7 +394,8 @@ func (dm *DagModifier) appendData(nd ipld.Node, spl chunker.Splitter) (ipld.Node
 		if err != nil {
 			return nil, err
 		}
-		return trickle.Append(dm.ctx, nd, db)
+		// Append modifies the node passed to it.
+		return trickle.Append(dm.ctx, nd.Copy(), db)
 	default:
 		return nil, ErrNotUnixfs
 	}
@@ -530,7 +539,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return dm.expandSparse(int64(size) - realSize)
 	}
 
-	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
+	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))
 	if err != nil {
 		return err
 	}
@@ -540,6 +549,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return err
 	}
 
+	dm.dropReader()
 	dm.curNode = nnode
 	return nil
 }
-- 
2.43.0


From 267edae1825b2ca700ea70f42a4510ec083d4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 13/19] fix: keep the DagModifier write position in step with
 WriteAt and reads

---
 mod/dagmodifier.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index c0f1455..cf79eed 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -93,12 +93,19 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
+	if offset < 0 {
+		return 0, errNegativeOffset
+	}
+
+	if uint64(offset) == dm.writeStart && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
+		// We would overwrite the previous write
+		dm.wrBuf.Reset()
+		dm.curWrOff = dm.writeStart
 	} else if uint64(offset) != dm.curWrOff {
+		err := dm.Sync()
+		if err != nil {
+			return 0, err
+		}
 		size, err := dm.Size()
 		if err != nil {
 			return 0, err
@@ -109,12 +116,8 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 				return 0, err
 			}
 		}
-
-		err = dm.Sync()
-		if err != nil {
-			return 0, err
-		}
 		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
@@ -410,6 +413,7 @@ func (dm *DagModifier) Read(b []byte) (int, error) {
 
 	n, err := dm.read.Read(b)
 	dm.curWrOff += uint64(n)
+	dm.writeStart = dm.curWrOff
 	return n, err
 }
 
@@ -454,6 +458,7 @@ func (dm *DagModifier) CtxReadFull(ctx context.Context, b []byte) (int, error) {
 
 	n, err := dm.read.CtxReadFull(ctx, b)
 	dm.curWrOff += uint64(n)
+	dm.writeStart = dm.curWrOff
 	return n, err
 }
 
-- 
2.43.0


From efbd0706dd423f423b2afc85ddc9ee5298a0784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 14/19] fix: keep the node and the pending bytes of a
 DagModifier when Sync fails

---
 mod/dagmodifier.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index cf79eed..aff5b44 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -217,9 +217,23 @@ func (dm *DagModifier) Sync() error {
 	// If we have an active reader, kill it
 	dm.dropReader()
 
-	// Number of bytes we're going to write
-	buflen := dm.wrBuf.Len()
+	// The bytes we're going to write
+	pending := dm.wrBuf.Bytes()
 
+	if err := dm.flush(); err != nil {
+		// Keep the bytes to be written.
+		dm.wrBuf = bytes.NewBuffer(pending)
+		return err
+	}
+
+	dm.writeStart += uint64(len(pending))
+	dm.wrBuf = nil
+
+	return nil
+}
+
+// flush writes the buffered data to the dag, consuming the buffer.
+func (dm *DagModifier) flush() error {
 	fs, err := fileSize(dm.curNode)
 	if err != nil {
 		return err
@@ -231,32 +245,30 @@ func (dm *DagModifier) Sync() error {
 	}
 
 	// overwrite existing dag nodes
-	thisc, err := dm.modifyDag(dm.curNode, dm.writeStart)
+	thisc, err := dm.modifyDag(dm.curNode.Copy(), dm.writeStart)
 	if err != nil {
 		return err
 	}
 
-	dm.curNode, err = dm.dagserv.Get(dm.ctx, thisc)
+	nnode, err := dm.dagserv.Get(dm.ctx, thisc)
 	if err != nil {
 		return err
 	}
 
 	// need to write past end of current dag
 	if dm.wrBuf.Len() > 0 {
-		dm.curNode, err = dm.appendData(dm.curNode, dm.splitter(dm.wrBuf))
+		nnode, err = dm.appendData(nnode, dm.splitter(dm.wrBuf))
 		if err != nil {
 			return err
 		}
 
-		err = dm.dagserv.Add(dm.ctx, dm.curNode)
+		err = dm.dagserv.Add(dm.ctx, nnode)
 		if err != nil {
 			return err
 		}
 	}
 
-	dm.writeStart += uint64(buflen)
-	dm.wrBuf = nil
-
+	dm.curNode = nnode
 	return nil
 }
 
-- 
2.43.0


From 113f62f4ca6d462ddc0e85ac7ce5700715eee3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 15/19] fix: compute the offset of DagModifier.Seek relative to
 the end and reject negative ones

---
 mod/dagmodifier.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index aff5b44..0008442 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -501,34 +501,40 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 		return 0, err
 	}
 
-	var newoffset uint64
+	var newoffset int64
 	switch whence {
 	case io.SeekCurrent:
-		newoffset = dm.curWrOff + uint64(offset)
+		newoffset = int64(dm.curWrOff) + offset
 	case io.SeekStart:
-		newoffset = uint64(offset)
+		newoffset = offset
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = fisize + offset
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
+	if newoffset < 0 {
+		return 0, errNegativeOffset
+	}
 
-	if int64(newoffset) > fisize {
-		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
+	if newoffset > fisize {
+		if err := dm.expandSparse(newoffset - fisize); err != nil {
 			return 0, err
 		}
 	}
-	dm.curWrOff = newoffset
-	dm.writeStart = newoffset
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(newoffset, io.SeekStart)
 		if err != nil {
+			// Its position is unknown.
+			dm.dropReader()
 			return 0, err
 		}
 	}
 
-	return int64(dm.curWrOff), nil
+	dm.curWrOff = uint64(newoffset)
+	dm.writeStart = uint64(newoffset)
+
+	return newoffset, nil
 }
 
 // Truncate truncates the current Node to 'size' and replaces it with the
-- 
2.43.0


From fc4468e038092609ac52cffa948de7d52914869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 16/19] fix: trickle Append starts the next depth where the
 last one ended

---
 importer/trickle/trickledag.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index 19b7f51..8d0d433 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -146,8 +146,9 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// if appendFillLastChild completed a partly filled depth, our depth is
+	// now increased by one
+	if repeatNumber != 0 {
 		depth++
 	}
 
@@ -247,8 +248,9 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// if appendFillLastChild completed a partly filled depth, our depth is
+	// now increased by one
+	if repeatNumber != 0 {
 		depth++
 	}
 
-- 
2.43.0


From c15a81367e9fd260c6edd910275f4c23f642865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 17/19] fix: wait for the size enumeration of a HAMT directory
 to end

sizeBelowThreshold returned while the workers of EnumLinksAsync could still
be reading the shards that the caller goes on to modify (a data race).
---
 io/directory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 6a8800f..3e5bd14 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -517,9 +517,16 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 
 	// We stop the enumeration once we have enough information and exit this function.
 	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	linkResults := d.EnumLinksAsync(ctx)
+	defer func() {
+		cancel()
+		// Wait for the enumeration to end: it reads the shards that the
+		// caller is about to modify.
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From 8fe060424d219723cf139437ccd58f8add57e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 18/19] fix: give each iterator of a unixfs directory a
 directory of its own

Walking a HAMT loads its shards into the directory object, which all the
iterators of one files.Directory shared (a data race).
---
 file/unixfile.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/file/unixfile.go b/file/unixfile.go
index 00f8e25..580ba7c 100644
--- a/file/unixfile.go
+++ b/file/unixfile.go
@@ -19,7 +19,7 @@ const prefetchFiles = 4
 type ufsDirectory struct {
 	ctx   context.Context
 	dserv ipld.DAGService
-	dir   uio.Directory
+	nd    *dag.ProtoNode
 	size  int64
 }
 
@@ -94,7 +94,7 @@ func (d *ufsDirectory) Entries() files.DirIterator {
 	fileCh := make(chan *ipld.Link, prefetchFiles)
 	errCh := make(chan error, 1)
 	go func() {
-		errCh <- d.dir.ForEachLink(d.ctx, func(link *ipld.Link) error {
+		errCh <- d.forEachLink(func(link *ipld.Link) error {
 			if d.ctx.Err() != nil {
 				return d.ctx.Err()
 			}
@@ -118,6 +118,16 @@ func (d *ufsDirectory) Entries() files.DirIterator {
 	}
 }
 
+// forEachLink walks a directory of its own: walking a HAMT loads its shards into
+// it and several iterators may be active at a time.
+func (d *ufsDirectory) forEachLink(f func(*ipld.Link) error) error {
+	dir, err := uio.NewDirectoryFromNode(d.dserv, d.nd)
+	if err != nil {
+		return err
+	}
+	return dir.ForEachLink(d.ctx, f)
+}
+
 func (d *ufsDirectory) Size() (int64, error) {
 	return d.size, nil
 }
@@ -131,8 +141,8 @@ func (f *ufsFile) Size() (int64, error) {
 }
 
 func newUnixfsDir(ctx context.Context, dserv ipld.DAGService, nd *dag.ProtoNode) (files.Directory, error) {
-	dir, err := uio.NewDirectoryFromNode(dserv, nd)
-	if err != nil {
+	// Report a node that is not a valid directory right away.
+	if _, err := uio.NewDirectoryFromNode(dserv, nd); err != nil {
 		return nil, err
 	}
 
@@ -145,7 +155,7 @@ func newUnixfsDir(ctx context.Context, dserv ipld.DAGService, nd *dag.ProtoNode)
 		ctx:   ctx,
 		dserv: dserv,
 
-		dir:  dir,
+		nd:   nd.Copy().(*dag.ProtoNode),
 		size: int64(size),
 	}, nil
 }
-- 
2.43.0


From 4594a097758c04ac22f99e049f30625d77990bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:08 +0000
Subject: [PATCH 19/19] fix: count the new entry when an empty HAMT directory
 is measured

---
 io/directory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 3e5bd14..c2deed7 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -544,8 +544,9 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		return false, err
 	}
 
-	// We enumerated *all* links in all shards and didn't reach the threshold.
-	return true, nil
+	// We enumerated *all* links in all shards and didn't reach the threshold,
+	// unless there were none and the new entry alone does.
+	return partialSize+sizeChange < HAMTShardingSize, nil
 }
 
 // DynamicDirectory wraps a Directory interface and provides extra logic
-- 
2.43.0

