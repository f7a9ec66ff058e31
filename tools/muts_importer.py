H="importer/helpers/dagbuilder.go"
B="importer/balanced/builder.go"
T="importer/trickle/trickledag.go"
F="unixfs.go"
M="mod/dagmodifier.go"
NEW='''	for node.NumChildren() < db.maxlinks && !db.Done() {
		child, childFileSize, err := db.NewLeafDataNode(ft.TRaw)
		if err != nil {
			return err
		}

		if err := node.AddChild(child, childFileSize, db); err != nil {
			return err
		}
	}'''
CASES=[
# --- C04
("c04-removeblock",["C04"],[(F,"n.UpdateFilesize(-int64(n.format.Blocksizes[i]))","n.UpdateFilesize(-int64(n.format.Blocksizes[len(n.format.Blocksizes)-1]))")],"bad"),
("c04-setdata",["C04"],[(F,"n.UpdateFilesize(int64(len(newData) - len(n.Data())))","n.UpdateFilesize(int64(len(newData)))")],"bad"),
("c04-removeall",["C04"],[(F,"n.format.Filesize = proto.Uint64(uint64(len(n.Data())))","n.format.Filesize = proto.Uint64(0)")],"bad"),
("c04-swapfill",["C04"],[(B,"	nodeFileSize = node.FileSize()\n","	if depth > 1 {\n		nodeFileSize = childFileSize * uint64(node.NumChildren())\n	} else {\n		nodeFileSize = node.FileSize()\n	}\n")],"bad"),
("c04-apprec",["C04"],[(T,"	if depth == maxDepth {\n		return fsn, fsn.FileSize(), nil\n	}","	size := fsn.FileSize()\n	if depth == maxDepth {\n		return fsn, size, nil\n	}"),(T,"			if err := fsn.AddChild(childNode, childFileSize, db); err != nil {\n				return nil, 0, err\n			}\n		}\n	}\n\n	return fsn, fsn.FileSize(), nil","			if err := fsn.AddChild(childNode, childFileSize, db); err != nil {\n				return nil, 0, err\n			}\n		}\n	}\n\n	return fsn, size, nil")],"bad"),
("c04-lastchildsize",["C04"],[(T,"err = fsn.AddChild(filledNode, nchildSize, db)","_ = nchildSize\n	err = fsn.AddChild(filledNode, lastChild.FileSize(), db)")],"bad"),
("c04-rmorder",["C04"],[(H,"	n.file.RemoveBlockSize(index)\n","	n.file.RemoveBlockSize(n.file.NumChildren() - 1)\n")],"bad"),
("c04-leafsize",["C04"],[(H,"dataSize = uint64(len(fileData))","dataSize = uint64(cap(fileData))")],"bad"),
("c04-addraw",["C04"],[(H,"	n.file.AddBlockSize(fileSize)\n","	if fileSize > 0 {\n		n.file.AddBlockSize(fileSize)\n	}\n")],"bad"),
("c04-trunc",["C04"],[(M,"			ndata.AddBlockSize(size - cur)\n","			ndata.AddBlockSize(childsize)\n			ndata.UpdateFilesize(int64(size - cur) - int64(childsize))\n")],"bad"),
("c04-truncleaf",["C04"],[(M,"			nd.SetData(ft.WrapData(fsn.Data()[:size]))","			nd.SetData(ft.FilePBData(fsn.Data()[:size], fsn.FileSize()))")],"bad"),
("c04-modleaf",["C04"],[(M,"	ndata.RemoveAllBlockSizes()\n","")],"bad"),
("c04-ref-remove",["C04"],[(F,"	n.UpdateFilesize(-int64(n.format.Blocksizes[i]))\n	n.format.Blocksizes = append(n.format.Blocksizes[:i], n.format.Blocksizes[i+1:]...)","	old := n.format.GetBlocksizes()\n	gone := old[i]\n	n.format.Blocksizes = append(old[:i], old[i+1:]...)\n	n.UpdateFilesize(-int64(gone))")],"ok"),
("c04-ref-remall",["all"],[(F,"	n.format.Blocksizes = []uint64{}\n	n.format.Filesize = proto.Uint64(uint64(len(n.Data())))","	n.format.Blocksizes = nil\n	size := len(n.format.Data)\n	n.format.Filesize = proto.Uint64(uint64(size))")],"ok"),
("c04-ref-addchild",["all"],[(H,"	err := n.dag.AddNodeLink(\"\", child)\n	if err != nil {\n		return err\n	}\n\n	n.file.AddBlockSize(fileSize)\n\n	return db.Add(child)","	if err := n.link(child, fileSize); err != nil {\n		return err\n	}\n	return db.Add(child)\n}\n\nfunc (n *FSNodeOverDag) link(child ipld.Node, fileSize uint64) error {\n	if err := n.dag.AddNodeLink(\"\", child); err != nil {\n		return err\n	}\n	n.file.AddBlockSize(fileSize)\n	return nil")],"ok"),
("c04-ref-fill",["all"],[(H,NEW,'''	for {
		if node.NumChildren() >= db.maxlinks || db.Done() {
			break
		}
		if err := db.addLeaf(node); err != nil {
			return err
		}
	}'''),(H,"// NewLeafDataNode builds","func (db *DagBuilderHelper) addLeaf(node *FSNodeOverDag) error {\n	child, size, err := db.NewLeafDataNode(ft.TRaw)\n	if err != nil {\n		return err\n	}\n	return node.AddChild(child, size, db)\n}\n\n// NewLeafDataNode builds")],"ok"),
("c04-ref-commitfirst",["all"],[(B,"	nodeFileSize = node.FileSize()\n","")
  ,(B,"	return filledNode, nodeFileSize, nil","	return filledNode, node.FileSize(), nil")],"ok"),
("c04-ref-nextchild",["all"],[(T,'''			nextChild := db.NewFSNodeOverDag(ft.TFile)
			childNode, childFileSize, err := fillTrickleRec(db, nextChild, depth)
			if err != nil {
				return err
			}

			if err := fsn.AddChild(childNode, childFileSize, db); err != nil {
				return err
			}
''','''			if err := addSubtree(fsn, depth, db); err != nil {
				return err
			}
'''),(T,"// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/importer/trickle.VerifyParams","func addSubtree(parent *h.FSNodeOverDag, depth int, db *h.DagBuilderHelper) error {\n	child, size, err := fillTrickleRec(db, db.NewFSNodeOverDag(ft.TFile), depth)\n	if err != nil {\n		return err\n	}\n	return parent.AddChild(child, size, db)\n}\n\n// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/importer/trickle.VerifyParams")],"ok"),

# --- C05
("c05-prep-noerr",["C05"],[(H,"if db.nextData != nil || db.recvdErr != nil {","if db.nextData != nil {")],"bad"),
("c05-done-err",["C05"],[(H,"	if db.recvdErr != nil {\n		return false\n	}\n	return db.nextData == nil","	return db.nextData == nil")],"bad"),
("c05-done-len",["C05"],[(H,"	return db.nextData == nil\n","	return len(db.nextData) == 0\n")],"bad"),
("c05-next-keep",["C05"],[(H,"	db.nextData = nil // signal we've consumed it\n	if db.recvdErr != nil {\n		return nil, db.recvdErr\n	}\n","	if db.recvdErr != nil {\n		return nil, db.recvdErr\n	}\n	if len(d) > 0 {\n		db.nextData = nil\n	}\n")],"bad"),
("c05-uneof",["C05"],[(H,"if db.recvdErr == io.EOF {","if db.recvdErr == io.EOF || db.recvdErr == io.ErrUnexpectedEOF {")],"bad"),
("c05-layout-if",["C05"],[(B,"	for depth := 1; !db.Done(); depth++ {","	for depth := 1; depth < 6 && !db.Done(); depth++ {")],"bad"),
("c05-layout-root",["C05"],[(B,"		root, fileSize, err = fillNodeRec(db, newRoot, depth)","		root, fileSize, err = fillNodeRec(db, nil, depth)")],"bad"),
("c05-order",["C05"],[(B,'''		err = newRoot.AddChild(root, fileSize, db)
		if err != nil {
			return nil, err
		}
''','''		old, oldSize := root, fileSize
'''),(B,'''		root, fileSize, err = fillNodeRec(db, newRoot, depth)
		if err != nil {
			return nil, err
		}''','''		root, fileSize, err = fillNodeRec(db, newRoot, depth)
		if err != nil {
			return nil, err
		}
		err = newRoot.AddChild(old, oldSize, db)
		if err != nil {
			return nil, err
		}''')],"bad"),
("c05-fill-twice",["C05"],[(T,'''			if err := node.AddChild(childNode, childFileSize, db); err != nil {
				return nil, 0, err
			}
''','''			if err := node.AddChild(childNode, childFileSize, db); err != nil {
				return nil, 0, err
			}
			if depth > 8 {
				if err := node.AddChild(childNode, childFileSize, db); err != nil {
					return nil, 0, err
				}
			}
''')],"bad"),
("c05-fill-drop",["C05"],[(T,'''			if err := node.AddChild(childNode, childFileSize, db); err != nil {
				return nil, 0, err
			}
''','''			if childFileSize == 0 {
				continue
			}
			if err := node.AddChild(childNode, childFileSize, db); err != nil {
				return nil, 0, err
			}
''')],"bad"),
("c05-depthcap",["C05"],[(T,"maxDepth == -1 || depth < maxDepth;","(maxDepth == -1 && depth < 32) || depth < maxDepth;")],"bad"),
("c05-append-early",["C05"],[(T,"		if db.Done() {\n			// TODO: If `FillNodeLayer` stop `Commit`ing this should be\n			// the place (besides the function end) to call it.\n			return fsn.GetDagNode()\n		}","		if db.Done() || fsn.NumChildren() < db.Maxlinks() {\n			return fsn.GetDagNode()\n		}")],"bad"),
("c05-rm-first",["C05"],[(T,"	fsn.RemoveChild(last, db)","	fsn.RemoveChild(0, db)")],"bad"),
("c05-rm-not",["C05"],[(T,"	fsn.RemoveChild(last, db)\n","")],"bad"),
("c05-rm-late",["C05"],[(T,'''	err = fsn.AddChild(filledNode, nchildSize, db)
	if err != nil {
		return err
	}
''',''''''),(T,"	return nil\n}\n\n// recursive call for Append","	return fsn.AddChild(filledNode, nchildSize, db)\n}\n\n// recursive call for Append")],"bad"),
("c05-newleaf-trunc",["C05"],[(H,"	fsNodeOverDag.SetFileData(data)","	if len(data) == 1 {\n		data = nil\n	}\n	fsNodeOverDag.SetFileData(data)")],"bad"),
("c05-guard",["C05"],[(H,"	for node.NumChildren() < db.maxlinks && !db.Done() {","	for node.NumChildren() < db.maxlinks {\n		if node.NumChildren() > 0 && db.Done() {\n			break\n		}")],"bad"),
("c05-append-drop",["C05"],[(T,"			if err := fsn.AddChild(leaf, uint64(len(data)), db); err != nil {\n				return nil, err\n			}\n","			if fsn.NumChildren() > 0 {\n				if err := fsn.AddChild(leaf, uint64(len(data)), db); err != nil {\n					return nil, err\n				}\n			}\n")],"bad"),
("c05-ref-done",["all"],[(H,'''	db.prepareNext() // idempotent
	if db.recvdErr != nil {
		return false
	}
	return db.nextData == nil''','''	db.prepareNext()
	return db.recvdErr == nil && db.nextData == nil''')],"ok"),
("c05-ref-next",["all"],[(H,'''	d := db.nextData
	db.nextData = nil // signal we've consumed it
	if db.recvdErr != nil {
		return nil, db.recvdErr
	}
	return d, nil''','''	if err := db.recvdErr; err != nil {
		db.nextData = nil
		return nil, err
	}
	d := db.nextData
	db.nextData = nil
	return d, nil''')],"ok"),
("c05-ref-prep",["all"],[(H,'''	db.nextData, db.recvdErr = db.spl.NextBytes()
	if db.recvdErr == io.EOF {
		db.recvdErr = nil
	}''','''	chunk, err := db.spl.NextBytes()
	db.nextData = chunk
	if err != io.EOF {
		db.recvdErr = err
	}''')],"ok"),
("c05-ref-layout",["all"],[(B,"	for depth := 1; !db.Done(); depth++ {","	depth := 0\n	for {\n		if db.Done() {\n			break\n		}\n		depth++")],"ok"),
("c05-ref-fillrec",["all"],[(T,'''	for depth := 1; maxDepth == -1 || depth < maxDepth; depth++ {
''','''	depth := 0
	for {
		depth++
		if maxDepth != -1 && depth >= maxDepth {
			break
		}
''')],"ok"),
("c05-ref-lastchild",["all"],[(T,'''	// Fill out last child (may not be full tree)
	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
	if err != nil {
		return err
	}

	// Update changed child in parent node
	fsn.RemoveChild(last, db)
	filledNode, err := newChild.Commit()
	if err != nil {
		return err
	}
	err = fsn.AddChild(filledNode, nchildSize, db)
	if err != nil {
		return err
	}
''','''	newChild, _, err := appendRec(ctx, lastChild, db, depth-1)
	if err != nil {
		return err
	}
	filledNode, err := newChild.Commit()
	if err != nil {
		return err
	}
	fsn.RemoveChild(last, db)
	if err := fsn.AddChild(filledNode, newChild.FileSize(), db); err != nil {
		return err
	}
''')],"ok"),
]
